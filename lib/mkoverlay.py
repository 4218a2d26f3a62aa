#!/usr/bin/env python3
"""Writes a go build overlay that places /verif/drv/<pkg>/*.go at /repo/internal/vfdrv/<pkg>/.

Nothing is written below /repo.  If drv/<pkg>/gen.py exists it is run first as
`gen.py REPO OUTDIR` and every .go file it leaves in OUTDIR is added to the package."""
import json, os, subprocess, sys
drv, repo, out, gendir, want = sys.argv[1:6]
rep = {}
for pkg in sorted(os.listdir(drv)):
    d = os.path.join(drv, pkg)
    if not os.path.isdir(d):
        continue
    for f in sorted(os.listdir(d)):
        if f.endswith('.go'):
            rep[f'{repo}/internal/vfdrv/{pkg}/{f}'] = os.path.join(d, f)
    g = os.path.join(d, 'gen.py')
    if os.path.exists(g) and pkg == want:
        gd = os.path.join(gendir, pkg)
        os.makedirs(gd, exist_ok=True)
        subprocess.run([sys.executable, g, repo, gd], check=True)
        for f in sorted(os.listdir(gd)):
            if f.endswith('.go'):
                rep[f'{repo}/internal/vfdrv/{pkg}/{f}'] = os.path.join(gd, f)
        if os.path.exists(os.path.join(gd, 'overlay.json')):
            rep.update(json.load(open(os.path.join(gd, 'overlay.json'))))
json.dump({'Replace': rep}, open(out, 'w'))
