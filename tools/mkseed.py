#!/opt/venv/bin/python
"""mkseed.py SPEC.py: build and confirm one planted change (see DESIGN.md, "Planted changes").

SPEC.py defines ID, PROP, FILE, EDITS=[(old,new)...] (or {file: edits}), NEEDS, BREAKS, DEMO (python source).
Everything happens in a scratch copy under /tmp except the final run of our own check.
"""
import json, os, shutil, subprocess, sys, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP, DEMO = spec["ID"], spec["PROP"], spec["DEMO"]
edits = spec["EDITS"] if isinstance(spec["EDITS"], dict) else {spec["FILE"]: spec["EDITS"]}
SC = "/tmp/sc_%d" % os.getpid()
shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC)
subprocess.check_call(["cp", "-a", "/repo", SC + "/repo"])
R = SC + "/repo"
def sh(cmd, cwd=R):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
try:
    d = "/verif/seeded/" + ID
    os.makedirs(d, exist_ok=True)
    for f, es in edits.items():
        p = os.path.join(R, f); s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        for old, new, *occ in es:               # (old, new) or (old, new, which occurrence)
            parts = s.split(old)
            if occ:
                k = occ[0] + 1
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert len(parts) == 2, (f, len(parts) - 1, old)
                s = new.join(parts)
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    diff = subprocess.run(["git", "diff"], cwd=R, capture_output=True).stdout.decode()
    assert diff
    open(d + "/patch.diff", "w", newline="").write(diff)
    # the lines taken away must be lines of the original repository
    root = sh("git rev-list --max-parents=0 HEAD").stdout.split()[-1]
    for f in edits:
        out = sh(f"git blame -l HEAD -- {f}").stdout.splitlines()
        hunk = [l for l in sh(f"git diff -U0 {f}").stdout.splitlines() if l.startswith("@@")]
        for h in hunk:
            a, _, n = re.match(r"@@ -(\d+)(,(\d+))?", h).groups()
            for i in range(int(a), int(a) + int(n or 1)):
                if not out[i - 1].startswith("^"):
                    print("NOT ORIGINAL:", f, i, out[i - 1][:160])
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings; warnings.simplefilter('ignore')\n" + DEMO)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    b = sh(f"/bin/bash {d}/demo.sh", cwd="/repo"); print("demo base rc", b.returncode, (b.stdout + b.stderr)[-300:])
    m = sh(f"/bin/bash {d}/demo.sh"); print("demo mutant rc", m.returncode, (m.stdout + m.stderr)[-300:])
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + R).replace("/opt/vp/cache/junit.xml", SC + "/junit.xml")
    open(SC + "/test.sh", "w").write(t)
    o = sh(f"bash {SC}/test.sh {SC}/out.json")
    B = json.load(open("/opt/vp/BASELINE.json")); O = json.load(open(SC + "/out.json"))
    def passed(x):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x:
                v = x[k]; return set(v if isinstance(v, list) else [a for a, s in v.items() if s in ("passed", "pass", True)])
    miss = passed(B) - passed(O)
    print("stable tests missing:", len(miss), sorted(miss)[:4])
    ok = b.returncode == 0 and m.returncode != 0 and not miss
    print("CONFIRMED" if ok else "REJECTED")
    if not ok and "-k" not in sys.argv:
        shutil.rmtree(d)
    if ok and "-n" not in sys.argv:
        c = sh(f"VF_REPO={R} ./check {PROP}", cwd="/verif")
        print("check rc", c.returncode); print("\n".join(x[:300] for x in c.stdout.splitlines()[-8:])); print(c.stderr[-300:])
finally:
    shutil.rmtree(SC, ignore_errors=True)
