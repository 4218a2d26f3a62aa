#!/usr/bin/env python3
"""Lists the exported value writers and readers of /repo/pgsql in a Go registry."""
import os, re, sys
repo, out = sys.argv[1:3]
rows, skipped = [], []
d = os.path.join(repo, 'pgsql')
for f in sorted(os.listdir(d)):
    if not f.endswith('.go') or f.endswith('_test.go'):
        continue
    src = open(os.path.join(d, f), encoding='utf-8').read()
    for m in re.finditer(r'(?m)^func ([A-Z]\w*)\s*\(\s*(\w+)\s+([^()]+?)\s*\)\s*(driver\.Valuer|sql\.Scanner)\s*\{', src):
        name, typ, res = m[1], m[3], m[4]
        if res == 'driver.Valuer':
            k = re.match(r'([A-Z]\w*?)From[A-Z]', name)
        else:
            k = re.match(r'([A-Z]\w*?)To[A-Z]', name)
        if not k:
            skipped.append(name)
            continue
        if res == 'driver.Valuer':
            rows.append(('W', k[1], name, typ))
        else:
            if not typ.startswith('*'):
                skipped.append(name)
                continue
            rows.append(('R', k[1], name, typ[1:].strip()))
o = ['package main', '', 'import (', '"database/sql"', '"database/sql/driver"', '"net"', '"reflect"', '"time"', '"github.com/frk/gosql/pgsql"', ')', '',
     'var _ sql.NullString', 'var _ net.IP', 'var _ time.Time', 'var _ driver.Valuer', '']
o.append('var registry = []conv{')
for kind, pg, name, typ in rows:
    t = f'reflect.TypeOf((*{typ})(nil)).Elem()'
    if kind == 'W':
        o.append(f'{{pg: "{pg}", name: "{name}", t: {t}, from: func(v any) driver.Valuer {{ x, _ := v.({typ}); return pgsql.{name}(x) }}}},')
    else:
        o.append(f'{{pg: "{pg}", name: "{name}", t: {t}, to: func(p any) sql.Scanner {{ return pgsql.{name}(p.(*{typ})) }}}},')
o.append('}')
o.append('var registrySkipped = []string{' + ','.join('"%s"' % s for s in skipped) + '}')
open(os.path.join(out, 'registry_gen.go'), 'w').write('\n'.join(o) + '\n')
