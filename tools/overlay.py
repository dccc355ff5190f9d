#!/usr/bin/env python3
"""overlay.py OUTDIR ROOT|DST=SRC...: rewrites imports of sync and sync/atomic in all Go
files below the roots (tests excepted) to the controlled ones; prints the
overlay file."""
import json, os, re, shutil, sys
out = sys.argv[1]
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
rep = {}
for root in sys.argv[2:]:
    if '=' in root: # DST=SRC: an additional file
        dst, src = root.split('=')
        rep[dst] = src
        continue
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8', errors='surrogateescape').read()
            m = re.search(r'^(import\s*\((?:.|\n)*?^\)|import\s+[^\n(]*"[^"\n]*")', s, re.M)
            if not m:
                continue
            head, tail = s[:0], s
            def sub(mm):
                name = mm.group(2) or ('sync' if mm.group(3) == 'sync' else 'atomic')
                return f'{mm.group(1)}{name} "' + ('verif/vsync' if mm.group(3) == 'sync' else 'verif/vsync/vatomic') + '"'
            # all import declarations precede the first other declaration
            end = re.search(r'^(func|type|var|const)\b', s, re.M)
            cut = end.start() if end else len(s)
            head = re.sub(r'(^\s*(?:import\s+)?)(?:(\w+|\.)\s+)?"(sync|sync/atomic)"', sub, s[:cut], flags=re.M)
            if head == s[:cut]:
                continue
            q = os.path.join(out, '%d_%s' % (len(rep), f))
            open(q, 'w', encoding='utf-8', errors='surrogateescape').write(head + s[cut:])
            rep[p] = q
j = os.path.join(out, 'overlay.json')
json.dump({'Replace': rep}, open(j, 'w'), indent=1)
print(j)
