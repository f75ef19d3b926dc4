"""Rewrites the generated part of DESIGN.md from the check modules, properties.jsonl, known_findings.jsonl and seeded/."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
"C01": "Oracle: a list model of the merge written from the documentation (own time arithmetic on integers; ties, exhausted streams, floored days). "
       "Not judged: out-of-order observations inside one source.",
"C02": "Oracle: the same module stepped one by one with plain `apply`, the state read back through pickle. The zoo holds every Haiku module and lift. Segments pass the observation as one tree, by keyword, or mixed. "
       "Excluded: `static_scan` on zero-length input (raises).",
"C03": "Oracle as C02, for Flax; wrappers are shared by several streams and given only the state where they allow it; inputs go by position, by keyword or mixed. Modules come from their class, from their "
       "`create_*` factory or from a function that makes them; steps may go through `apply_with_state`.",
"C04": "Oracle: a Python loop over the raw rows, labelled by hand. Not judged: the order of hierarchical labels, data sets with several times or strings across parts (C01 judges them), `auto_format_with_shape`.",
"C05": "Oracle: every session alone on its own objects, bit for bit. Threads are preempted inside wax at lines and instructions, "
       "with a bias to `hot` sites: lines that touch module-level or shared attributes. Mutants of the unroll, stream, transform, lift and accessor layers (module caches, shared buffers, "
       "boxes shared between threads): 7 of 9 caught; the two others need a preemption inside a window of one instruction. "
       "Every run is a process forked before JAX starts, so that nothing one run leaves behind is there for the next, and one session's results are also computed in a "
       "pristine process of its own: an influence that is already in force when the reference is made (a table of defaults changed for good) is seen as well.",
"C06": "Oracle: the inner module run alone over the event steps (Haiku), or its ungated outputs (Flax); separate runs from the first state after each reset. "
       "Gated modules include those that use modules built outside and handed over (optimisers, feedback loops).",
"C07": "Oracle: the plain list of everything delivered; modules are made by class or factory, with arguments at their defaults given or left out; for the attention over past states also its formula over the module's own weights.",
"C08": "Oracle: the documented estimator over the list of arrived observations, in float64. Modules are made by class or factory, with arguments at their defaults given or left out.",
"C09": "Oracle: the lane run alone.",
"C10": "Oracle: a plain loop of `jax.value_and_grad` and optax over nested dictionaries, NumPy loops for ARMA, SNARIMAX and Newton. Not judged: the Haiku FuncOptimizer with a raw optax "
       "transformation, and models that need a key at apply.",
"C11": "Oracle: a reference interpreter of the drawn program. Nine fixes reverted one by one: eight are reported (458b4a6 cannot be reverted alone). Not judged: a Stop or ProgressBar used by two runs at the same time.",
"C12": "Oracle: each component alone over the steps at which it did not fail; own topological levels. Thirteen of thirteen mutants of the machine caught. "
       "Not judged: `StreamingStateMachine` and `ConditionalStateUpdate`, which cannot be constructed in the original code.",
"C13": "Oracle: linearizability against a list of records with reset (Wing-Gong search over the recorded history), arithmetic of each result from its own records; statistics and module summaries recomputed from the records. Module names include one inside the other and one that differs in case only.",
"C14": "Oracle: linearizability against a small model of the debugger.",
"C15": "Oracle: linearizability against a list of snapshots; leak reports judged with a factor of two around the documented threshold. Module analyses are recomputed from the snapshots kept, for names of which one contains the other.",
"C16": "Oracle: linearizability against a list of points. Stage names contain one another and differ in case only.",
"C17": "Oracle: safety (one worker, period, nothing after stop) during the run and bounded liveness after faults stop, on simulated time. Animations and text monitoring are also stopped from within an update; stage names contain ' Data', which the animation titles use.",
"C18": "Oracle: the written files parsed back by independent readers. Pages are split into elements by an HTML reader and the data is taken from the script element it is in: names hold `</script>`, `<!--` and ` -> `.",
"C19": "Oracle: the bare model run alone.",
"C22": "Oracle: the streaming module stepping over each series alone. Half of the histories preempt threads inside the kernel, which runs interpreted (numba's DISABLE_JIT); the rest is compiled.",
}


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


props = {p["id"]: p for p in map(json.loads, open(R + "/properties.jsonl"))}
man = json.load(open(R + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
kf = [json.loads(l) for l in open(R + "/known_findings.jsonl") if l.strip()]
seeds = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((m.split("/")[-2], d))
catch = json.load(open(R + "/tools/catches.json")) if os.path.exists(R + "/tools/catches.json") else {}

out = []
for pid in sorted(props):
    p = props[pid]
    out.append(f"### {pid} {p['title']}\n")
    if pid in na:
        out.append(f"Not applicable: {na[pid]}\n"); continue
    c = consts(glob.glob(R + f"/sim/props/{pid.lower()}_*.py")[0])
    out.append(c["RULE"] + "\n")
    if pid in NOTES:
        out.append(NOTES[pid] + "\n")
    out.append(f"Runs: {c['RUNS']['quick']} quick, {c['RUNS']['thorough']} thorough. States counted: {c['STATE_MEASURE']}. "
               f"Real code: {', '.join(c['REAL'])}. Stubs: {', '.join(c['STUB'])}.\n")
    if c.get("ASSUMPTIONS"):
        out.append("Assumed: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append("Beyond the tests: " + p["why_tests_cant"] + ".\n")
    f = [k for k in kf if k["property"] == pid]
    if f:
        out.append("Genuine defects found:\n" + "\n".join(
            f"- {'fixed ' + k['commit'] if k['status'] == 'fixed' else '**known finding** ' + k['signature']}: {k['what']}" for k in f) + "\n")
    s = seeds.get(pid, [])
    if s:
        out.append("Planted bugs:\n" + "\n".join(f"- `{i}` ({catch.get(i, 'caught')}): {d['what_it_breaks']}. Needs {d['needs']}." for i, d in s) + "\n")

src = open(R + "/DESIGN.md").read()
head, rest = src.split("## Properties\n", 1)
tail = "\n## " + rest.split("\n## ", 1)[1] if "\n## " in rest else ""
open(R + "/DESIGN.md", "w").write(head + "## Properties\n\n(This section is written by `tools/make_design.py`.)\n\n" + "\n".join(out) + tail)
