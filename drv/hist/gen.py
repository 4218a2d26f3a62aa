#!/usr/bin/env python3
"""Gives the driver control over the order of map iteration: the start of every iteration, which the Go
runtime draws at random, is read from a variable instead (overlay of runtime/map.go)."""
import json, os, subprocess, sys
repo, out = sys.argv[1:3]
root = subprocess.check_output(['go', 'env', 'GOROOT'], text=True, cwd=repo).strip()
f = os.path.join(root, 'src/runtime/map.go')
src = open(f).read() if os.path.exists(f) else ''
draw = '\tr := uintptr(rand())\n'
ok = src.count(draw) == 1
if ok:
    src = src.replace(draw, draw + '\tif vfMapRand != 0 {\n\t\tr = uintptr(vfMapRand - 1)\n\t}\n')
    src += '\nvar vfMapRand uint64\n\nfunc VfMapRand(r uint64) { vfMapRand = r }\n'
    open(os.path.join(out, 'map.go.txt'), 'w').write(src)
    json.dump({f: os.path.join(out, 'map.go.txt')}, open(os.path.join(out, 'overlay.json'), 'w'))
open(os.path.join(out, 'maprand.go'), 'w').write('package main\n\n' + (
    'import "runtime"\n\nconst mapControl = true\n\nfunc setMapRand(r uint64) { runtime.VfMapRand(r) }\n' if ok else
    'const mapControl = false\n\nfunc setMapRand(r uint64) {}\n'))
