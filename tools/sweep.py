"""Mutation sweep: plant small mechanical changes, keep those the tests do not notice, and see which checks report them.

  python tools/sweep.py OUT.jsonl LANES PER_FILE SEED  FILE=C01,C02 ...      (FILE relative to src/wax)

Every lane works on a scratch copy of /repo, bound over /repo in a mount namespace of its own; /repo is never touched.
"""

import ast
import copy
import json
import os
import random
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


class Sites(ast.NodeVisitor):
    """All places of a file that can be changed, as (description, function that changes the tree)."""

    def __init__(self):
        self.out = []
        self.skip = 0

    def add(self, node, what, change):
        self.out.append((getattr(node, "lineno", 0), what, change))

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.stmt):
                        self.stmt(value, i, v)
                    if isinstance(v, ast.AST):
                        self.visit(v)
            elif isinstance(value, ast.AST):
                self.visit(value)

    def stmt(self, block, i, v):
        def drop(block=block, i=i):
            block[i] = ast.copy_location(ast.Pass(), block[i])

        if isinstance(v, ast.Expr) and isinstance(v.value, ast.Call):
            self.add(v, "drop call " + ast.unparse(v)[:60], drop)
        if isinstance(v, ast.AugAssign):
            self.add(v, "drop " + ast.unparse(v)[:60], drop)
        if isinstance(v, ast.Assign) and isinstance(v.targets[0], ast.Attribute | ast.Subscript):
            self.add(v, "drop " + ast.unparse(v)[:60], drop)
        if isinstance(v, ast.If):
            def true(v=v):
                v.test = ast.Constant(True)

            def false(v=v):
                v.test = ast.Constant(False)

            self.add(v, "always " + ast.unparse(v.test)[:60], true)
            self.add(v, "never " + ast.unparse(v.test)[:60], false)
        if isinstance(v, ast.Raise):
            self.add(v, "drop raise", drop)

    def visit_FunctionDef(self, node):
        doc = node.body[0] if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else None
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for i, s in enumerate(node.body):
            if s is not doc:
                self.stmt(node.body, i, s)
                self.visit(s)

    def visit_Compare(self, node):
        swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        to = swap.get(type(node.ops[0]))
        if to:
            def change(node=node, to=to):
                node.ops[0] = to()

            self.add(node, f"compare {ast.unparse(node)[:60]} -> {to.__name__}", change)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}
        to = swap.get(type(node.op))
        if to:
            def change(node=node, to=to):
                node.op = to()

            self.add(node, f"{ast.unparse(node)[:60]} -> {to.__name__}", change)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        def change(node=node):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()

        self.add(node, "and/or " + ast.unparse(node)[:60], change)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not | ast.Invert | ast.USub) and not isinstance(node.operand, ast.Constant):
            def change(node=node):
                node.op = ast.UAdd()

            if isinstance(node.op, ast.USub):
                self.add(node, "drop minus " + ast.unparse(node)[:60], change)
            else:
                def change2(node=node):
                    node.op = ast.Not()
                    node.operand = ast.UnaryOp(ast.Not(), node.operand)

                if isinstance(node.op, ast.Not):
                    self.add(node, "drop not " + ast.unparse(node)[:60], change2)
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            def change(node=node):
                node.value = not node.value

            self.add(node, f"{node.value} -> {not node.value}", change)
        elif isinstance(node.value, int | float) and node.value == node.value:
            def change(node=node):
                node.value = node.value + 1

            self.add(node, f"{node.value} -> {node.value + 1}", change)

    def visit_Call(self, node):
        name = ast.unparse(node.func)
        if name.endswith(".where") and len(node.args) == 3:
            def change(node=node):
                node.args[1], node.args[2] = node.args[2], node.args[1]

            self.add(node, "swap where " + ast.unparse(node)[:60], change)
        elif len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            def change(node=node):
                node.args[0], node.args[1] = node.args[1], node.args[0]

            self.add(node, "swap arguments " + ast.unparse(node)[:60], change)
        for k in node.keywords:
            if k.arg:
                def change(node=node, k=k):
                    node.keywords = [q for q in node.keywords if q.arg != k.arg]

                self.add(node, f"drop argument {k.arg} of {ast.unparse(node)[:50]}", change)
        for a, b in (("max", "min"), ("min", "max"), ("any", "all"), ("all", "any")):
            if name == a or name.endswith("." + a):
                def change(node=node, b=b):
                    if isinstance(node.func, ast.Name):
                        node.func.id = b
                    elif isinstance(node.func, ast.Attribute):
                        node.func.attr = b

                self.add(node, f"{a} -> {b} in {ast.unparse(node)[:60]}", change)
        self.generic_visit(node)

    def visit_Raise(self, node):
        return

    def visit_JoinedStr(self, node):
        return


def mutants(src, rng, per):
    def sites(tree):
        s = Sites()
        s.visit(tree)
        return s.out

    tree = ast.parse(src)
    n = len(sites(tree))
    for i in rng.sample(range(n), min(per, n)):
        t = copy.deepcopy(tree)
        line, what, change = sites(t)[i]
        change()
        ast.fix_missing_locations(t)
        try:
            yield line, what, ast.unparse(t)
        except Exception:
            continue


def tests_for(rel):
    """Test files that name the module."""
    base = os.path.basename(rel)[:-3]
    own = f"src/wax/{rel[:-3]}_test.py"
    out = [own] if os.path.exists("/repo/" + own) else []
    r = subprocess.run(["grep", "-rlE", rf"\b{base}\b|{''.join(w.capitalize() for w in base.split('_'))}", "/repo/src/wax", "--include=*_test.py"], capture_output=True, text=True)
    for f in r.stdout.split():
        f = f[len("/repo/") :]
        if f not in out:
            out.append(f)
    return out[:14]


FIRST = r'''
import sys, json
sys.path.insert(0, "/verif")
from sim import runner
prop, seed = sys.argv[1], int(sys.argv[2])
known = {k["signature"] for k in runner.known_findings(prop)}
w = runner.Worker(prop, seed, "quick")
n = w.mod.RUNS["quick"]
for i in range(n):
    r = w.execute(w.generate(i))
    v = [v for v in r["violations"] if v["signature"] not in known]
    if v or r["harness_error"]:
        print("@@" + json.dumps({"at": i, "sig": v[0]["signature"] if v else "HARNESS " + str(r["harness_error"])[-300:], "msg": v[0]["message"][:300] if v else ""}))
        break
else:
    print("@@" + json.dumps({"at": None}))
'''


def sh(lane, cmd, timeout):
    env = dict(os.environ, HOME="/root")
    full = f". /opt/vp/env.sh; mount --bind /tmp/sweep/{lane} /repo && cd /repo && {cmd}"
    try:
        r = subprocess.run(["timeout", "-k", "5", str(timeout), "unshare", "-Urm", "bash", "-c", full], capture_output=True, text=True, env=env)
        return r.returncode, r.stdout + r.stderr
    except Exception as ex:
        return 99, str(ex)


def work(lane, job, seed):
    rel, props, line, what, text = job
    path = f"/tmp/sweep/{lane}/src/wax/{rel}"
    orig = open("/repo/src/wax/" + rel).read()
    res = {"file": rel, "line": line, "what": what, "props": {}}
    open(path, "w").write(text)
    try:
        t = tests_for(rel)
        for f in t:
            rc, out = sh(lane, f"{PY} -m pytest -q -x -p no:cacheprovider -p no:xdist --rootdir=/repo --timeout=120 {f}", 400)
            if rc not in (0, 5):
                res["tests"] = f
                return res
        res["tests"] = "pass"
        open(f"/tmp/sweep/first{lane}.py", "w").write(FIRST)
        for p in props:
            rc, out = sh(lane, f"cd /verif; {PY} /tmp/sweep/first{lane}.py {p} {seed}", 1500)
            m = re.findall(r"^@@(.*)$", out, re.M)
            res["props"][p] = json.loads(m[-1]) if m else {"at": -1, "sig": f"rc {rc} " + out[-300:]}
            if res["props"][p]["at"] is not None:
                res["caught"] = p
                break
        return res
    finally:
        open(path, "w").write(orig)


def main():
    """OUT LANES PER_FILE SEED FILE=PROPS..."""
    out, lanes, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    rng = random.Random(seed)
    jobs = []
    for spec in sys.argv[5:]:
        rel, props = spec.split("=")
        src = open("/repo/src/wax/" + rel).read()
        for line, what, text in mutants(src, rng, per):
            jobs.append((rel, props.split(","), line, what, text))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    os.makedirs("/tmp/sweep", exist_ok=True)
    free = Queue()
    for k in range(lanes):
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/", f"/tmp/sweep/{k}/"], check=False) if os.path.exists("/usr/bin/rsync") else subprocess.run(f"mkdir -p /tmp/sweep/{k} && cp -a /repo/. /tmp/sweep/{k}/", shell=True)
        free.put(k)
    def one(job):
        k = free.get()
        try:
            return work(k, job, 1)
        except Exception as ex:
            return {"file": job[0], "line": job[2], "what": job[3], "error": str(ex)}
        finally:
            free.put(k)

    with ThreadPoolExecutor(lanes) as ex, open(out, "a") as f:
        for done in as_completed([ex.submit(one, j) for j in jobs]):
            r = done.result()
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
