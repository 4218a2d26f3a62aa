"""Helper with which the planted changes of seeded/ were made: seed(...) writes patch.diff, demo.sh,
the demo's Go source and meta.json, then confirms in a scratch copy that the demo passes on the
unchanged tree and fails with the change, and that the change builds and passes the stable tests."""
import json, os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository's root; exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
tmp=$(mktemp -d /tmp/demo.XXXXXX)
chmod 755 "$tmp"
%(pre)s
trap '%(post)s rm -rf "$tmp"' EXIT
cat >"$tmp/overlay.json" <<J
{"Replace": {"$repo/internal/vfdemo/main.go": "$here/main.go.txt"}}
J
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./internal/vfdemo || exit 3
cd "$tmp" && timeout 200 env DEMO_REPO="$repo" DEMO_TMP="$tmp" "$tmp/demo"
'''
PGPRE = '''PGBIN=/usr/lib/postgresql/16/bin
mkdir "$tmp/pg" && chown postgres:postgres "$tmp/pg"
as_pg() { (cd "$tmp/pg" && setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH="$PATH" LANG=C.UTF-8 TZ=UTC "$@"); }
as_pg $PGBIN/initdb -D "$tmp/pg/data" -U postgres -A trust -E UTF8 --locale=C.UTF-8 --no-sync >/dev/null || exit 3
as_pg $PGBIN/pg_ctl -D "$tmp/pg/data" -w -t 60 -l "$tmp/pg/log" -o "-c listen_addresses='' -k $tmp/pg -c fsync=off -c dynamic_shared_memory_type=mmap" start >/dev/null || exit 3
export PGHOST="$tmp/pg" PGPORT=5432 PGUSER=postgres PGDATABASE=postgres TZ=UTC'''
PGPOST = 'as_pg $PGBIN/pg_ctl -D "$tmp/pg/data" -m immediate -w stop >/dev/null;'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def seed(id, prop, needs, breaks, edits, demo, pg=False, extra=None, test=True):
    d = f'{VERIF}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    try:
        sh(f'git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm base')
        open(f'{d}/main.go.txt', 'w').write(demo)
        for n, t in (extra or {}).items():
            os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True)
            open(f'{d}/{n}', 'w').write(t)
        open(f'{d}/demo.sh', 'w').write(DEMO % dict(pre=PGPRE if pg else '', post=PGPOST if pg else ''))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
        r = sh(f'bash {d}/demo.sh', cwd=wt)
        if r.returncode: print(id, 'DEMO FAILS ON CLEAN', r.returncode, r.stdout[-1500:]); return False
        for f, old, new in edits:
            t = open(f'{wt}/{f}').read()
            if t.count(old) != 1: print(id, 'EDIT: count', t.count(old), f, repr(old)); return False
            open(f'{wt}/{f}', 'w').write(t.replace(old, new))
        r = sh('/opt/veriftools/go1.23.12/bin/gofmt -l $(git diff --name-only)', cwd=wt)
        if r.stdout.strip(): print(id, 'gofmt', r.stdout)
        r = sh('git diff', cwd=wt)
        open(f'{d}/patch.diff', 'w').write(r.stdout)
        # original lines?
        b = sh('. /opt/vp/env.sh; cd %s && go build ./...' % wt)
        if b.returncode: print(id, 'BUILD', b.stdout[-1500:]); return False
        r = sh(f'bash {d}/demo.sh', cwd=wt)
        if r.returncode in (0, 3): print(id, 'DEMO rc', r.returncode, 'WITH PATCH', r.stdout[-1500:]); return False
        print(id, 'demo fails as wanted:', r.stdout.strip()[-200:])
        if test:
            # run the stable tests in the scratch copy
            t = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', '. /opt/vp/env.sh; cd ' + wt)
            open(f'{wt}/.t.sh', 'w').write(t)
            sh(f'bash {wt}/.t.sh {wt}/.o.json', cwd=wt)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = set(json.load(open(f'{wt}/.o.json'))['passed'])
            if base - got: print(id, 'TESTS LOST', sorted(base - got)[:8]); return False
        print(id, 'OK'); return True
    finally:
        shutil.rmtree(wt)
