"""Stand-ins for optional web and plotting libraries that are not installed here.

They are put into sys.modules before wax.flax.visualization is imported, so that the
code behind `HAS_FLASK` and `HAS_PLOTLY` runs.  They keep what they are given and
nothing else; they behave like the originals where a caller can tell.
"""

import json
import sys
import types

from sim import sched


class Flask:
    def __init__(self, name, template_folder=None):
        self.config, self.routes = {}, {}

    def route(self, path):
        def deco(f):
            self.routes[path] = f
            return f

        return deco


def jsonify(x):
    return json.loads(json.dumps(x))  # like the original: fails on what JSON cannot hold


class SocketIO:
    """run() serves (simulated) until killed; counts the servers running at once."""

    fail_run = None

    def __init__(self, app, **kw):
        self.app, self.handlers, self.sent = app, {}, []
        self.running, self.most, self.runs = 0, 0, 0
        self.stop_all = False

    def on(self, event):
        def deco(f):
            self.handlers[event] = f
            return f

        return deco

    def emit(self, event, data):
        json.dumps(data)
        self.sent.append((event, data))

    def run(self, app, **kw):
        self.runs += 1
        self.running += 1
        self.most = max(self.most, self.running)
        try:
            if self.fail_run is not None:
                raise self.fail_run
            while not self.stop_all:
                sched.current().sleep(0.5)
        finally:
            self.running -= 1


class Trace:
    def __init__(self, name):
        self.name, self.x, self.y = name, (), ()


class Source:
    """What wax uses of a bokeh ColumnDataSource."""

    def __init__(self, data):
        self.data = data


class Figure:
    """What wax uses of a plotly figure. `on_update` is called in every batch update."""

    def __init__(self):
        self.data, self.on_update, self.updates = [], None, []

    def add_scatter(self, name=None, **kw):
        self.data.append(Trace(name))

    def add_trace(self, *a, **kw):
        pass

    def update_layout(self, **kw):
        pass

    def batch_update(self):
        fig = self

        class Batch:
            def __enter__(self):
                if fig.on_update:
                    fig.on_update()

            def __exit__(self, t, e, tb):
                if t is None:
                    fig.updates.append({tr.name: (tuple(tr.x), tuple(tr.y)) for tr in fig.data})

        return Batch()


def install():
    if "flask" in sys.modules or "plotly" in sys.modules:
        return

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(sys.modules[parent], child, m)
        return m

    mod("flask", Flask=Flask, jsonify=jsonify, render_template=None, request=types.SimpleNamespace(sid="client"))
    mod("flask_socketio", SocketIO=SocketIO, emit=lambda event, data: json.dumps(data))
    mod("plotly")
    mod("plotly.graph_objects", FigureWidget=Figure, Scatter=lambda **kw: kw, Figure=Figure)
    mod("plotly.express")
    mod("plotly.offline")
    mod("plotly.graph_objs", FigureWidget=Figure)
    mod("plotly.subplots", make_subplots=lambda **kw: Figure())
