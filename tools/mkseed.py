#!/usr/bin/env python3
"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(path, old, new)], main=rust source)]"""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
tpl = '/verif/tools/demo_template'
repo = os.environ.get('SEED_REPO', '/repo')
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"/verif/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/src')
    for path, old, new in s['edits']:
        p = repo + '/' + path
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], path, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if 'files' in s:
        for n, c in s['files'].items(): open(d + '/' + n, 'w').write(c)
        shutil.rmtree(d + '/src')
    else:
        for f in ('demo.sh', 'Cargo.toml', 'Cargo.lock'):
            shutil.copy(f"{s.get('tpl', tpl)}/{f}", d)
        kind = os.path.basename(s.get('tpl', tpl))
        if kind in ('demo_comp', 'demo_scc'):
            for c in ['compiler', 'hamt-sync', 'peg', 'peg-macros', 'sequence_trie'] + (['scc-lib', 'fd-lock', 'flexi_logger', 'normpath'] if kind == 'demo_scc' else []):
                shutil.copytree('/verif/standin/' + c, d + '/standin/' + c, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            for f in os.listdir(s['tpl'] + '/src') if os.path.isdir(s['tpl'] + '/src') else []:
                shutil.copy(s['tpl'] + '/src/' + f, d + '/src')
        open(d + '/src/main.rs', 'w').write(s['main'])
        if s.get('want'):
            e = dict(os.environ, WRITE_WANT='1')
            subprocess.run(['bash', d + '/demo.sh'], cwd=repo, env=e, check=True)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
