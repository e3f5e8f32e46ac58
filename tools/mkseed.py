#!/usr/bin/env python3
"""Planting bugs: mkseed.py DEFS.py [ID...] writes /verif/seeded/ID from definitions
   S(id, prop, needs, breaks, [(file, old, new)...], demo_go)  and tries each one in a scratch copy:
   demo quiet before, build, stable tests, demo loud after, and whether the property's check catches it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration program beside this file against the current tree. It touches nothing but a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go.txt"}}' "$PWD" "$d" >"$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 2
export STEVE="$PWD"
cd "$t" && timeout 120 ./demo
'''
defs = {}
def S(id, prop, needs, breaks, edits, demo):
    defs[id] = (prop, needs, breaks, edits, demo)
exec(open(sys.argv[1]).read())
want = sys.argv[2:] or list(defs)
NOTEST = os.environ.get("NOTEST")
def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def one(id):
    prop, needs, breaks, edits, demo = defs[id]
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.go.txt"), "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % d, repo)
        if rc: return id, "DEMO FAILS ON CLEAN", o[-1500:]
        for f, old, new in edits:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: return id, "EDIT %s: %d occurrences" % (f, s.count(old)), old
            open(p, "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l " + " ".join(e[0] for e in edits), repo)
        if o.strip(): sh("gofmt -w " + o.strip().replace("\n", " "), repo)
        rc, o = sh("git diff > %s/patch.diff && go build -mod=vendor ./..." % d, repo)
        if rc: return id, "BUILD", o[-1500:]
        rc, o = sh("bash %s/demo.sh" % d, repo)
        if rc == 0: return id, "DEMO QUIET WITH PATCH", o[-500:]
        if rc == 2 and "build" in o: return id, "DEMO BUILD", o[-800:]
        demo_out = o[-300:]
        if not NOTEST:
            rc, o = sh("GOFLAGS=-mod=vendor go test -vet=off -count=1 $(go list -mod=vendor ./... | grep -v zz_)", repo)
            if rc: return id, "TESTS FAIL", "\n".join(l for l in o.splitlines() if "FAIL" in l or "Error" in l)[:1500]
        v = os.path.join(tmp, "verif"); os.makedirs(v)
        sh("cp -r check.sh mkoverlay.py harness known_findings.jsonl tools %s/" % v, ROOT)
        rc, o = sh("VERIF_TIER=quick VERIF_REPO=%s bash %s/check.sh %s" % (repo, v, prop), "/tmp")
        return id, {0: "MISSED", 1: "caught"}.get(rc, "CHECK ERROR %d" % rc), (demo_out.strip()[-200:] + "\n    " + "\n    ".join(l for l in o.splitlines() if "VIOLATION" in l or rc > 1)[:700])
    except Exception as e:
        return id, "EXC", repr(e)
    finally:
        shutil.rmtree(tmp)
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(one, want):
        print("%s: %s\n    %s" % r, flush=True)
