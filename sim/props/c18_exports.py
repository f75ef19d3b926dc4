"""C18 - an export that reports success is complete on disk; a failed one says so."""

import html.parser
import json
import os
import re
import shutil
import warnings

import numpy as np

RUNS = {"quick": 9000, "thorough": 40000}
SEARCH = "I/O fault points (open, n-th byte, close; full disk, quota, I/O and permission errors, short writes), locales, graphs with any names, concurrent exports and recording"
RULE = (
    "One run exports graphs, nested graphs, plots and animations to a directory whose files fail at a seeded point, from one or two "
    "simulated threads, while others record. A call that returns has left the named file complete and readable with exactly the data held "
    "when it was made (parsed back independently); a call whose file failed raises; the data are unchanged, and the retry "
    "on a healthy disk succeeds. Non-trivial: a file was written."
)
STATE_MEASURE = "distinct (exporter, fault, outcome) and distinct preemption sites in wax"
REAL = ["computation_graph and nested_graph_viz exporters", "DataFlowVisualizer.save_plot and create_flow_animation", "matplotlib, Pillow and graphviz (in part of the runs)", "Python's buffered and text files"]
STUB = ["raw files below the scratch directory (can fail)", "locale encoding", "clock, threads, locks"]
ASSUMPTIONS = ["networkx is not installed: graphs are not drawn with matplotlib", "graphviz' own `dot` program writes its files without injected faults, it can only be missing"]
PROBES = ["dot", "html", "text", "export_dot", "cytoscape", "d3", "nested-dot", "graphviz", "plot-text", "plot-png", "gif", "open-fails", "write-fails", "close-fails", "short-write", "retry", "odd-name", "other-locale", "overwrite", "concurrent", "program-missing", "summary", "grown", "module-main", "module-cluster"]
SHRINK_LISTS = ["exports", "exports.*", "recs", "sched.decisions"]
SHRINK_INTS = []

LEAF = {"alpha", "kernel", "scale"}  # parameters by which a module is recognised
NAMES = ["ewma", "buffer_1", "Dense_0", "lag", "norm", "é", "日本", "<lambda>", 'say "hi"', "a\\b", "A&B", "x" * 30, "</script>", "a -> b", "<!-- a"]
TYPES = ["EWMA", "Buffer", "Dense", "Module", "Function"]


def gen(rng, idx, tier):
    from sim.race import schedule

    n = rng.randrange(0, 5)
    nodes = [{"id": f"n{i}" + rng.choice(["", "", 'é', '"q"']), "name": rng.choice(NAMES), "type": rng.choice(TYPES), "shape": rng.choice([None, [3], [2, 4]]), "par": rng.choice([None, 0.5, "s"])} for i in range(n)]
    edges = [[rng.randrange(n), rng.randrange(n), rng.choice(["", "", "x", 'to "y"'])] for _ in range(rng.randrange(0, 4))] if n else []
    tree = {}
    for i in range(rng.randrange(0, 5)):
        d = tree
        for k in rng.sample(["enc", "ewma", "ewma2", "buffer_0", "mix", "日本", "main", "cluster_ewma_0"], rng.randrange(1, 3)):
            d = d.setdefault(k, {})
            if LEAF & set(d):
                break
        else:
            if not d:
                d[rng.choice(["alpha", "alpha", "kernel", "scale"])] = 1.0
    whats = ["dot", "html", "text", "export_dot", "cytoscape", "d3", "plot_text", "plot_text", "summary"]
    exports = []
    for t in range(rng.choice([1, 1, 2])):
        es = []
        for _ in range(rng.randrange(1, 4)):
            w = rng.choice(whats)
            if rng.random() < (0.006 if tier == "quick" else 0.02):
                w = rng.choice(["plot_png", "plot_png", "gif", "graphviz", "nested-dot", "graphviz", "nested-dot"])
            fault = None
            if rng.random() < 0.6:
                kind = rng.choice(["open", "write", "write", "short", "close"])
                fault = {"kind": kind, "err": rng.choice(["access", "files", "readonly", "full"] if kind == "open" else ["full", "io", "quota"]), "after": rng.choice([0, 0, 1, 17, 200, 1000, 5000, 100000])}
            if rng.random() < 0.15:
                es.append({"w": "add", "fault": None, "file": "a", "slow": False, "name": rng.choice(NAMES), "to": rng.randrange(8)})
            es.append({"w": w, "fault": fault, "file": rng.choice(["a", "b"]), "slow": rng.random() < 0.3})
        exports.append(es)
    if len(exports) > 1:
        exports = [[e for e in es if e["w"] != "add"] for es in exports]
    if len(exports) > 1:  # a fault is the disk's: with two exporters at work it has one owner
        for e in exports[1]:
            e["fault"] = None
        for e in exports[0]:
            e["fault"] = e["fault"] if e["fault"] and e["fault"]["kind"] == "short" else None
    return {"nodes": nodes, "edges": edges, "tree": tree, "fn": rng.choice(["<lambda>", "model", "é", "</script>", "<!-- a"]), "shapes": rng.random() < 0.7, "params": rng.random() < 0.5, "exports": exports, "recs": [rng.choice("abc") for _ in range(rng.randrange(0, 12))], "pre": rng.randrange(0, 4), "encoding": rng.choice(["utf-8", "utf-8", "cp1252", "ascii"]), "rerun": rng.random() < 0.5, "sched": schedule(rng, opcode=0.2)}


class Text(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.text, self.cls, self.items, self.scripts, self.script = [], [], [], [], False

    def handle_starttag(self, tag, attrs):
        if tag == "script":
            self.scripts.append("")
            self.script = True
        if tag == "div":
            self.cls.append(dict(attrs).get("class"))
            if self.cls[-1]:
                self.items.append([self.cls[-1], ""])

    def handle_endtag(self, tag):
        if tag == "script":
            self.script = False
        if tag == "div" and self.cls:
            self.cls.pop()

    def handle_data(self, data):
        if self.script:
            self.scripts[-1] += data
        if self.cls and self.cls[-1]:
            self.items[-1][1] += data


STR = r'"((?:[^"\\]|\\.)*)"'


def unq(s):
    return re.sub(r"\\(.)", lambda m: m.group(0) if m.group(1) == "n" else m.group(1), s)


def parse_dot(t):
    """-> node ids with label parts, edges with labels; None when it is not a whole graph."""
    lines = t.strip().split("\n")
    if not re.match(r"(di)?graph\b", lines[0]) or lines[-1].strip() != "}":
        return None
    nodes, edges = [], []
    for ln in lines[1:-1]:
        m = re.fullmatch(r"\s*" + STR + r"\s*->\s*" + STR + r"(?:\s*\[(.*)\])?;?\s*", ln)
        if m:
            lab = re.search(r"label=" + STR, m.group(3) or "")
            edges.append((unq(m.group(1)), unq(m.group(2)), unq(lab.group(1)) if lab else ""))
            continue
        m = re.fullmatch(r"\s*" + STR + r"\s*\[label=" + STR + r"(.*)\];?\s*", ln)
        if m:
            nodes.append((unq(m.group(1)), [unq(x) for x in re.split(r"(?<!\\)(?:\\\\)*\\n", m.group(2)) if x]))
            continue
        if ln.strip() and not re.match(r"\s*(rankdir|node|edge|graph)\b", ln):
            return None
    return nodes, edges


def run(sc, ctx):
    from wax.flax.visualization import computation_graph as C
    from wax.flax.visualization import data_flow_visualizer as V
    from wax.flax.visualization import nested_graph_viz as N

    from sim import sched, seams
    from sim.faultfs import FaultFS
    from sim.race import Race

    env = seams.Env()
    fs = env.fs = FaultFS()
    fs.encoding = sc["encoding"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run_in(sc, ctx, env, fs, C, V, N, Race(ctx, sc, env=env), sched)
    finally:
        fs.close()
        env.fs = None


def run_in(sc, ctx, env, fs, C, V, N, R, sched):
    import tempfile

    if sc["encoding"] != "utf-8":
        ctx.probe("other-locale")
        ctx.fault("other-locale")
    if len(sc["exports"]) > 1:
        ctx.probe("concurrent")
    G = {}
    nodes, edges = [dict(nd) for nd in sc["nodes"]], [list(e) for e in sc["edges"]]
    for fmt in ("dot", "html", "text", "svg"):
        G[fmt] = C.ComputationGraphRenderer(output_format="txt" if fmt == "text" else fmt, include_shapes=sc["shapes"], include_parameters=sc["params"])
        for nd in sc["nodes"]:
            G[fmt].add_node(C.PipelineNode(id=nd["id"], name=nd["name"], module_type=nd["type"], input_shapes={"x": tuple(nd["shape"])} if nd["shape"] else {}, parameters={"p": nd["par"]} if nd["par"] is not None else {}))
        for a, b, lab in sc["edges"]:
            G[fmt].add_edge(C.PipelineEdge(source=sc["nodes"][a]["id"], target=sc["nodes"][b]["id"], label=lab))
    if any(nd["name"] in NAMES[5:11] for nd in sc["nodes"]):
        ctx.probe("odd-name")

    class Fn:
        __name__ = sc["fn"]

        def init(self, rng, x):
            if R.s is sched.current():
                sched.point()
            return {"params": sc["tree"]}

        def apply(self, *a):
            raise AssertionError

    fn, x0 = Fn(), np.zeros((2, 3))
    leaves = []

    def walk(d, path):
        for k, v in d.items():
            if isinstance(v, dict):
                p = f"{path}.{k}" if path else k
                if LEAF & set(v):
                    leaves.append((p, k))
                else:
                    walk(v, p)

    walk(sc["tree"], "")
    nested = N.NestedGraphVisualizer(N.NestedGraphConfig(graphviz_format="svg", graphviz_dpi=50))
    tr = V.DataFlowTracker(max_history=1000)
    count, issued = [0], [0]

    def rec(m):
        tr.step()
        issued[0] += 1
        tr.record_data(m, "output", count[0])
        count[0] += 1

    for _ in range(sc["pre"]):
        rec("a")
    viz = V.DataFlowVisualizer(backend="text")
    viz.attach_tracker(tr)
    wrote = []

    def target(e):
        ext = {"dot": "dot", "html": "html", "text": "txt", "export_dot": "dot", "cytoscape": "html", "d3": "html", "plot_text": "txt", "plot_png": "png", "gif": "gif", "graphviz": "svg", "nested-dot": "nested"}[e["w"]]
        return f"{fs.root}/t{e['t']}-{e['file']}-{e['w'].replace('-', '_')}.{ext}"

    def call(e, path):
        w = e["w"]
        if w in ("dot", "html", "text"):
            return lambda: G[w].render(path)
        if w == "graphviz":
            return lambda: G["svg"].render(path)
        if w == "export_dot":
            return lambda: C.export_graph_to_dot(fn, x0, path)
        if w in ("cytoscape", "d3"):
            return lambda: nested.visualize_computation_graph(fn, x0, w, path)
        if w == "nested-dot":
            return lambda: nested.visualize_computation_graph(fn, x0, "graphviz", path)
        if w == "plot_text":
            return lambda: viz.save_plot(path)
        if w == "plot_png":
            pv = V.DataFlowVisualizer(backend="matplotlib", figure_size=(2, 2))
            pv.attach_tracker(tr)
            pv.create_streaming_plot()

            def f():
                pv.update_plot()
                return pv.save_plot(path)

            return f
        return lambda: V.create_flow_animation(tr, duration=0.2, fps=10, output_path=path)

    def expect_module_tree(nodes):
        """nodes: (id, name, type, parent, level) - against the function's own parameters."""
        want = dict(leaves)
        got = [(n[0], n[1]) for n in nodes if n[2] != "cluster"]
        of_fn = [g for g in got if g[0] not in want]
        if len({n[0] for n in nodes}) != len(nodes) or [g[1] for g in of_fn] != [sc["fn"]] or {a: b for a, b in got if a in want} != want:
            return f"nodes {got}, the function {sc['fn']} has {want}"
        if not leaves and of_fn[0][0] != "main":
            return f"the function is called {of_fn[0][0]}"
        ctx.probe("module-main") if "main" in want else None
        ctx.probe("module-cluster") if "cluster_ewma_0" in want and sum(n[2] == "cluster" for n in nodes) else None
        return None

    def details(nd, how="{}: {}"):
        """What is shown of a node besides its name."""
        out = [how.format("x", tuple(nd["shape"]))] if sc["shapes"] and nd["shape"] else []
        if sc["params"] and nd["par"] is not None:
            out.append(f"p={nd['par']}" if how == "{}: {}" else how.format("p", repr(nd["par"])))
        return out

    def verdict(e, path, t0, n0):
        """What is wrong with the file of a finished export, or None."""
        w = e["w"]
        if w in ("plot_png", "gif"):
            from PIL import Image

            try:
                im = Image.open(path)
                frames = 0
                while True:
                    im.load()
                    frames += 1
                    try:
                        im.seek(frames)
                    except EOFError:
                        break
            except Exception as x:
                return f"the image cannot be read: {x!r}"
            if w == "gif" and frames > 2:
                return f"{frames} frames instead of 2"
            return None
        try:
            with open(path, encoding="utf-8", newline="") as f:
                t = f.read()
        except UnicodeDecodeError as x:
            return f"the file is not UTF-8: {x}"
        if w in ("dot", "html", "text"):
            ids = [nd["id"] for nd in nodes]
            eds = [(ids[a], ids[b], lab) for a, b, lab in edges]
            if w == "dot":
                p = parse_dot(t)
                if p is None:
                    return "the file is not a whole DOT graph"
                if [i for i, _ in p[0]] != ids or p[1] != eds:
                    return f"nodes {[i for i, _ in p[0]]} and edges {p[1]}, held {ids} and {eds}"
                for (_, lab), nd in zip(p[0], nodes):
                    more = "\n".join(lab[1:])
                    if any(x not in more for x in details(nd)) or nd["type"] != nd["name"] and f"({nd['type']})" not in more:
                        return f"label {lab} of {nd}"
                    if lab[0] != (nd["name"] if len(nd["name"]) <= 20 else nd["name"][:20] + "..."):
                        return f"label {lab} of {nd}"
                return None
            if w == "html":
                if "</html>" not in t:
                    return "the page is cut off"
                P = Text()
                P.feed(t)
                got_n = [re.sub(r"\s+", " ", s) for c, s in P.items if c == "node"]
                got_e = [re.sub(r"\s+", " ", s).strip() for c, s in P.items if c == "edge"]
                if len(got_n) != len(ids) or any(f"{nd['name']} ({nd['type']})" not in s or f"ID: {nd['id']}" not in s for s, nd in zip(got_n, nodes)):
                    return f"the page shows nodes {got_n}, held {nodes}"
                if any(x not in s for s, nd in zip(got_n, nodes) for x in details(nd, "'{}': {}")):
                    return f"the page shows nodes {got_n}, held {nodes}"
                if [s.replace(" ", "") for s in got_e] != [(f"{a} → {b}" + (f" [{lab}]" if lab else "")).replace(" ", "") for a, b, lab in eds]:
                    return f"the page shows edges {got_e}, held {eds}"
                return None
            for nd in nodes:
                if f"{nd['id']}: {nd['name']} ({nd['type']})" not in t:
                    return f"{nd} is missing in {t!r}"
                if any(x not in t for x in details(nd, "'{}': {}")):
                    return f"shapes or parameters of {nd} are missing in {t!r}"
            if sum(t.count(f"{a} -> {b}") for a, b in {(a, b) for a, b, _ in eds}) < len({(a, b) for a, b, _ in eds}) or any(f"{a} -> {b}" + (f" [{lab}]" if lab else "") not in t for a, b, lab in eds):
                return f"edges {eds} held, text {t!r}"
            return None
        if w in ("graphviz", "nested-dot"):
            return None if t.rstrip().endswith("</svg>") else "the picture is cut off"
        if w == "export_dot":
            p = parse_dot(t)
            if p is None:
                return "the file is not a whole DOT graph"
            return expect_module_tree([(i, lab[0], "", None, 0) for i, lab in p[0]])
        if w in ("cytoscape", "d3"):
            if "</html>" not in t:
                return "the page is cut off"
            P = Text()
            P.feed(t)
            code = next((c for c in P.scripts if re.search(r"elements:\s*|const data = ", c)), None)
            if code is None:
                return "the page has no data"
            at = re.search(r"elements:\s*|const data = ", code)
            try:
                data, _ = json.JSONDecoder().raw_decode(code, at.end())
            except ValueError as x:
                return f"the data of the page cannot be read: {x}"
            if code.count("{") != code.count("}"):
                return "the script of the page is cut off"
            if w == "d3":
                ns = [(n["id"], n["name"], n["type"], None, n["level"]) for n in data["nodes"]]
                links = [(a["source"], a["target"]) for a in data["links"]]
            else:
                ns = [(n["data"]["id"], n["data"]["label"], n["data"]["type"], n["data"].get("parent"), n["data"]["level"]) for n in data if "source" not in n["data"]]
                links = [(n["data"]["source"], n["data"]["target"]) for n in data if "source" in n["data"]]
                if sorted((p, i) for i, _, _, p, _ in ns if p) != sorted(links):
                    return f"parents {[(p, i) for i, _, _, p, _ in ns if p]}, links {links}"
            if len({n[0] for n in ns}) != len(ns):
                return f"nodes twice: {ns}"
            lv = {n[0]: n[4] for n in ns}
            shown = [n["properties"] for n in (data["nodes"] if w == "d3" else [n["data"] for n in data if "source" not in n["data"]]) if n["type"] == "function"]
            if [p["input_shapes"] for p in shown] != [{"input": [2, 3]}]:
                return f"shapes {shown}, the input is (2, 3)"
            if any(a not in lv or b not in lv or lv[b] != lv[a] + 1 for a, b in links):
                return f"links {links} between levels {lv}"
            return expect_module_tree(ns)
        # text plot: a view of the tracker at one moment of the call
        m = re.search(r"Recent points: (\d+)\s", t)
        k = int(m.group(1)) if m else 0
        rows = [(int(a), b, int(float(c))) for a, b, c in re.findall(r"Step\s+(\d+) \| (\w+)\s+\| output\s+\| (-?[\d.]+)\s*$", t, re.M)]
        n1 = issued[0]
        if k == 0:
            return None if "No data points" in t and n0 == 0 else f"text {t!r}, {n0} points were tracked"
        if len(rows) != min(10, k):
            return f"{len(rows)} of {k} points in {t!r}"
        last = rows[-1][2]
        if [r[2] for r in rows] != list(range(last - len(rows) + 1, last + 1)) or not n0 <= last + 1 <= n1 or k != min(20, last + 1):
            return f"points {rows}, tracked {n0} before and {n1} after the export"
        return None

    lock = {}

    def one(e, fault):
        path = target(e)
        if os.path.exists(path):
            ctx.probe("overwrite")
        ctx.probe({"plot_text": "plot-text", "plot_png": "plot-png"}.get(e["w"], e["w"]))
        missing = e["w"] in ("graphviz", "nested-dot") and fault is not None and len(sc["exports"]) == 1
        if e["w"] in ("graphviz", "nested-dot") and not shutil.which("dot"):
            return True
        before = dict(fs.fired)
        n0, t0 = count[0], R.mono()
        fs.plan = fault if not missing else None
        oldpath = os.environ.get("PATH", "")
        if missing:
            os.environ["PATH"] = fs.root
            ctx.probe("program-missing")
            ctx.fault("program-missing")
        f = call(e, path)
        try:
            o = R.op("export", f, w=e["w"])
        finally:
            os.environ["PATH"] = oldpath
        fs.plan = None
        fired = [k for k in fs.fired if fs.fired[k] != before.get(k, 0)]
        for k in fired:
            ctx.fault(k)
            ctx.probe(k)
        hard = [k for k in fired if k != "short-write"]
        ctx.state(e["w"], tuple(fired), o["exc"] is None)
        if o["exc"] is not None:
            if not (hard or missing):
                ctx.violate("export-failed", f"{e['w']}: {o['exc']!r} on a healthy disk", e["w"])
            return False
        got = o["res"]
        if not isinstance(got, str) or not os.path.isfile(got):
            ctx.violate("no-file", f"{e['w']} returned {got!r}, there is no such file (faults: {fired})", e["w"])
            return True
        wrote.append(got)
        bad = verdict(e, got, t0, n0)
        if bad:
            ctx.violate("incomplete" if fired else "wrong-content", f"{e['w']} reported success (faults: {fired}), but {bad}", e["w"])
        return True

    def exporter(es):
        def body():
            for e in es:
                if e["w"] == "add":  # the graph grows between exports
                    ctx.probe("grown")
                    nd = {"id": f"m{len(nodes)}", "name": e["name"], "type": "Module", "shape": None, "par": None}
                    edges.extend([[e["to"] % len(nodes), len(nodes), ""]] if nodes else [])
                    nodes.append(nd)
                    for g in G.values():
                        g.add_node(C.PipelineNode(id=nd["id"], name=nd["name"], module_type="Module"))
                        if len(nodes) > 1:
                            g.add_edge(C.PipelineEdge(source=nodes[edges[-1][0]]["id"], target=nd["id"]))
                    continue
                if e["w"] == "summary":
                    ctx.probe("summary")
                    o = R.op("summary", lambda: nested.get_hierarchy_summary(fn, x0))
                    if o["exc"] is not None:
                        ctx.violate("export-failed", f"get_hierarchy_summary raised {o['exc']!r}", "summary")
                        continue
                    sums.append((o["res"], look(o["res"])))
                    continue
                if not one(e, e["fault"]):
                    ctx.probe("retry")
                    if not one(e, None):
                        ctx.violate("retry-failed", f"{e['w']} fails again on a healthy disk", e["w"])

        return body

    sums = []

    def look(r):
        return (r["total_nodes"], r["max_hierarchy_level"], sorted(r["node_types"].items()), sorted(r["nodes_per_level"].items()), sorted((k, h.name, h.level, str(h.parent), sorted(h.children)) for k, h in r["hierarchy"].items()))

    def recorder():
        for m in sc["recs"]:
            rec(m)
            R.sleep(0.001)

    for t, es in enumerate(sc["exports"]):
        for e in es:
            e["t"] = t
    old_tmp = tempfile.tempdir
    tempfile.tempdir = fs.root
    try:
        ok = R.run([exporter(es) for es in sc["exports"]] + [recorder])
    finally:
        tempfile.tempdir = old_tmp
        fs.plan = None
        import matplotlib.pyplot as plt

        plt.close("all")
    if not ok:
        return
    ctx.nontrivial = bool(wrote)
    ctx.log([os.path.basename(p) for p in wrote], sorted(fs.fired.items()))
    for g in G.values():
        now = [(i, n.name, n.module_type, n.input_shapes, n.parameters) for i, n in g.nodes.items()]
        held = [(nd["id"], nd["name"], nd["type"], {"x": tuple(nd["shape"])} if nd["shape"] else {}, {"p": nd["par"]} if nd["par"] is not None else {}) for nd in nodes]
        ids = [nd["id"] for nd in nodes]
        ctx.check(now == held and [(e.source, e.target, e.label) for e in g.edges] == [(ids[a], ids[b], lab) for a, b, lab in edges], "data-changed", "exporting changed the graph", "graph")
    ctx.check([dp.value for dp in tr.data_history] == list(range(count[0])), "data-changed", lambda: f"tracked {[dp.value for dp in tr.data_history]}, recorded {count[0]}", "tracker")
    for r, was in sums:
        ctx.check(look(r) == was, "data-changed", lambda: f"a summary changed after it was returned: {was} -> {look(r)}", "summary")
        nn = [(k, h.name, h.node_type, h.parent, h.level) for k, h in r["hierarchy"].items()]
        bad = expect_module_tree(nn)
        ctx.check(bad is None and r["total_nodes"] == len(nn) and r["max_hierarchy_level"] == max((n[4] for n in nn), default=0) and sum(r["nodes_per_level"].values()) == len(nn), "wrong-content", lambda: f"summary {look(r)}: {bad}", "summary")
    # what was exported before is still there at the end
    for p in wrote:
        if not os.path.isfile(p):
            ctx.violate("no-file", f"{os.path.basename(p)} is gone at the end of the run", "gone")
            break
