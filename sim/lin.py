"""Linearizability of a recorded history against a small executable model.

A history is a list of operations with an interval [inv, ret].  The model says,
for a state and an operation with its observed result, which states may follow
(none: the result is impossible there).  The search looks for one order of the
operations that respects the intervals and that the model accepts.
"""


class Budget(Exception):
    """The search was cut off: no verdict."""


def linearize(ops, init, step, limit=400_000):
    """-> a list of indices (one accepted order), or None when there is none."""
    n = len(ops)
    order = sorted(range(n), key=lambda i: ops[i]["inv"])
    seen = set()
    count = 0
    stack = [(frozenset(), init, ())]
    while stack:
        done, state, path = stack.pop()
        if len(done) == n:
            return list(path)
        rest = [i for i in order if i not in done]
        first_ret = min(ops[i]["ret"] for i in rest)
        for i in reversed(rest):
            if ops[i]["inv"] > first_ret:
                continue
            for nxt in step(state, ops[i]):
                key = (done | {i}, nxt)
                if key in seen:
                    continue
                seen.add(key)
                count += 1
                if count > limit:
                    raise Budget
                stack.append((done | {i}, nxt, path + (i,)))
    return None
