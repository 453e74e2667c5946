#!/usr/bin/env python3
"""Usage: plant.py ID [CHECK...]: with the change applied in the working tree of /repo and demo.sh and meta.json in
/verif/seeded/ID, writes patch.diff, verifies that the change passes the tests and that the demo tells it apart, runs
the checks and restores the tree."""
import json, os, subprocess, sys
sid = sys.argv[1]
d = "/verif/seeded/" + sid
def sh(cmd, cwd="/repo", **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)
diff = sh("git diff").stdout
if diff.strip():
    open(d + "/patch.diff", "w").write(diff)
else:
    r = sh("git apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stderr
try:
    r = sh("bash /opt/vp/build.sh")
    print("build", r.returncode, r.stderr[-500:])
    if r.returncode == 0:
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        t = json.load(open("/tmp/plant.json"))
        failed = t.get("failed") or []
        print("passed", len(t.get("passed", [])), "failed", failed if len(failed) < 5 else len(failed))
        r = sh("bash /opt/vp/build.sh; bash %s/demo.sh" % d)
        print("demo with patch:", r.returncode, (r.stdout + r.stderr)[-400:])
        caught = []
        meta = json.load(open(d + "/meta.json"))
        for c in sys.argv[2:] or [meta["property"]]:
            r = sh("bash run.sh %s quick" % c, cwd="/verif")
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout: caught.append(c)
            print(c, "exit", r.returncode, r.stdout[-700:], r.stderr[-300:])
        path = "/verif/tools/caught.json"
        known = json.load(open(path)) if os.path.exists(path) else {}
        known[sid] = sorted(set(caught) | set(x for x in known.get(sid, []) if x not in (sys.argv[2:] or [meta["property"]])))
        json.dump(known, open(path, "w"), indent=1, sort_keys=True)
finally:
    print(sh("git checkout -- . && git status --short").stdout)
r = sh("bash /opt/vp/build.sh; bash %s/demo.sh" % d)
print("demo without patch:", r.returncode, (r.stdout + r.stderr)[-400:] if r.returncode else "")
