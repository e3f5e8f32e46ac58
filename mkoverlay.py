#!/usr/bin/env python3
"""Writes OUT/overlay.json: the harness packages appear inside /repo's module (nothing is written in
/repo), and the Go runtime's map iterator takes its starting slot from a hook, so that map iteration
order is a choice of the explorer instead of hidden randomness."""
import json, os, subprocess, sys

out, repo, here = sys.argv[1], sys.argv[2], os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
maps = os.path.join(goroot, "src/internal/runtime/maps")
rep = {}

def patched(path, name, subs, tail=""):
    text = open(path).read()
    for old, new in subs:
        if old not in text:
            sys.exit("mkoverlay: %s does not contain %r" % (path, old))
        text = text.replace(old, new)
    dst = os.path.join(out, name)
    open(dst, "w").write(text + tail)
    rep[path] = dst

patched(os.path.join(maps, "table.go"), "rt_table.go",
        [("it.entryOffset = rand()\n\tit.dirOffset = rand()",
          "it.entryOffset, it.dirOffset = verifIterStart(m.used)")],
        """
// VerifHook, when set, decides the starting slot of every map iteration.
var VerifHook func(used uint64) uint64

func verifIterStart(used uint64) (uint64, uint64) {
	if h := VerifHook; h != nil {
		return h(used), 0
	}
	return rand(), rand()
}
""")
patched(os.path.join(maps, "map.go"), "rt_map.go",
        [("m.seed = uintptr(rand())", "m.seed = 0x9e3779b97f4a7c15")])

src = os.path.join(here, "harness")
for base, _, files in os.walk(src):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(base, f)
            rep[os.path.join(repo, "zz_verif", os.path.relpath(p, src))] = p
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
