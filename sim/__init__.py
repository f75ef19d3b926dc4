"""Deterministic simulation of eserie/wax-ml (see /verif/DESIGN.md)."""
