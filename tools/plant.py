"""plant.py SPEC.py... : confirm planted bugs in scratch copies of /repo and keep them in /verif/seeded.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source) and is named <id>.py.
Each copy is bind-mounted over /repo in a private user+mount namespace, so /repo itself is never touched.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: 0 on the unchanged tree, nonzero with the patch
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
TMPDIR=$T timeout 250 /opt/venv/bin/python "$here/demo.py"
'''

def inside(wt, rep, cmd, timeout=1200):
    script = f"mount --bind {wt} /repo && mount --bind {rep} /opt/vp/reports && cd /repo && {cmd}"
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True, timeout=timeout)
    return r.returncode, (r.stdout + r.stderr)

def plant(path):
    sid = os.path.basename(path)[:-3]
    spec = {}
    exec(compile(open(path).read(), path, "exec"), spec)
    wt, rep, d = f"/tmp/wt-{sid}", f"/tmp/rep-{sid}", f"/tmp/seedout/{sid}"
    for p in (wt, rep, d):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs(rep); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    msg = []
    try:
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(spec["DEMO"])
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc, out = inside(wt, rep, f"bash {d}/demo.sh")
        if rc != 0:
            return sid, "DEMO FAILS ON CLEAN\n" + out[-2500:]
        for f, old, new in spec["EDITS"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                return sid, f"EDIT of {f} matches {s.count(old)} times: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        for line in subprocess.run(["git", "-C", "/repo", "blame", "-s", "aacd1a9..HEAD", "--", f], capture_output=True, text=True).stdout.splitlines():
            for b in diff.splitlines():
                if b.startswith("-") and not b.startswith("---") and len(b.strip()) > 6 and not line.startswith("^") \
                        and line.split(")", 1)[1].strip() == b[1:].strip():
                    msg.append("touches a line of a fix commit: " + b)
        rc, out = inside(wt, rep, f"bash {d}/demo.sh")
        if rc == 0:
            return sid, "DEMO PASSES WITH PATCH\n" + out[-1500:]
        demo_out = out[-300:].strip().replace("\n", " | ")
        rc, out = inside(wt, rep, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/out.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open(d + "/out.json")); os.remove(d + "/out.json")
        missing = base - set(got["passed"])
        if missing:
            return sid, f"TESTS CATCH IT: {sorted(missing)[:5]}"
        rc, out = inside(wt, rep, f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 850 python3 -m sim check {spec['PROPERTY']} --tier quick")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        caught = rc == 1 and v
        keep = f"/verif/seeded/{sid}"
        shutil.rmtree(keep, ignore_errors=True); shutil.copytree(d, keep)
        return sid, f"KEPT; check {spec['PROPERTY']} rc={rc} {'CAUGHT ' + v[0] if caught else 'MISSED ' + out[-300:]}  [{demo_out}] {msg}"
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(rep, ignore_errors=True)

with ThreadPoolExecutor(int(os.environ.get("J", "1"))) as ex:
    for sid, m in ex.map(plant, sys.argv[1:]):
        print(f"== {sid}: {m}", flush=True)
