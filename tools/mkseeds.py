#!/usr/bin/env python3
"""Makes and confirms planted bugs.  usage: mkseeds.py [id...]   (all if none)
Applies each edit of seeds.py to /repo, checks build, stable tests and demo, undoes it and writes seeded/<id>/."""
import sys, os, json, subprocess, shutil, importlib.util, re
V = '/verif'; R = '/repo'; ORIG = 'a00673d'
spec = importlib.util.spec_from_file_location('seeds', V + '/tools/seedkit/seeds.py')
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def undo(): sh('git', '-C', R, 'checkout', '--', '.')
assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'repo dirty'
ids = sys.argv[1:] or list(m.SEEDS)
cfgsh = '#!/bin/bash\n# sets the library configuration used by this demonstration\n'
for i in ids:
    s = m.SEEDS[i]; d = f'{V}/seeded/{i}'; work = f'/tmp/seedw/{i}'
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if 'files' in s:
        for n, t in s['files'].items(): open(f'{work}/{n}', 'w').write(t)
    open(f'{work}/demo.c', 'w').write('/* ' + s['breaks'] + ' */\n' + s.get('pre', '') + '#include "kit.h"\n\n' + s['demo'].strip('\n') + '\n')
    shutil.copy(V + '/tools/seedkit/kit.h', work); shutil.copy(V + '/tools/seedkit/demo.sh', work)
    os.chmod(f'{work}/demo.sh', 0o755)
    if 'flags' in s: open(f'{work}/flags', 'w').write(s['flags'] + '\n')
    if 'cfg' in s:
        open(f'{work}/config.sh', 'w').write(cfgsh + ''.join(f"sed -i -E 's/(#define +{k} +).*/\\1{v}/' \"$1\"\n" for k, v in s['cfg'].items()))
        os.chmod(f'{work}/config.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{work}/meta.json', 'w'), indent=1)
    ok = True; msg = []
    try:
        undo()
        p = sh(work + '/demo.sh', cwd=R)
        if p.returncode: ok = False; msg.append('demo fails on the unchanged tree: ' + p.stdout[-300:] + p.stderr[-600:])
        for f, old, new in s['edits']:
            t = open(f'{R}/{f}').read()
            if t.count(old) != 1: raise Exception(f'{f}: {t.count(old)} matches of {old!r}')
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        diff = sh('git', '-C', R, 'diff').stdout
        open(f'{work}/patch.diff', 'w').write(diff)
        # every removed line must be original
        for f in {e[0] for e in s['edits']}:
            dd = sh('git', '-C', R, 'diff', '-U0', '--', f).stdout
            nrem = 0
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                a, n = int(h[1]), int(h[2] if h[2] is not None else 1)
                if n:
                    nrem += n
                    b = sh('git', '-C', R, 'blame', '-s', '--abbrev=6', f'-L{a},+{n}', 'HEAD', '--', f).stdout
                    for l in b.splitlines():
                        if not (l.startswith('^a00673') or 'a00673' in l.split()[0]): msg.append('note: changes a non-original line: ' + l)
            if not nrem: msg.append('note: no removed line in ' + f)
        b = sh('bash', '/opt/vp/build.sh')
        if b.returncode: ok = False; msg.append('does not build: ' + b.stdout[-500:])
        else:
            sh('bash', '/opt/vp/test.sh', '/tmp/seedw/t.json')
            r = json.load(open('/tmp/seedw/t.json'))
            passed = set(r.get('passed') or [k for k, v in r.get('tests', {}).items() if v in ('pass', 'passed')])
            miss = base - passed
            if miss: ok = False; msg.append(f'{len(miss)} stable tests fail, e.g. {sorted(miss)[:2]}')
            p = sh(work + '/demo.sh', cwd=R)
            if p.returncode == 0: ok = False; msg.append('demo passes with the change')
            else: msg.append(f'demo rc {p.returncode}: ' + p.stdout.strip()[:150].replace('\n', ' | ') + p.stderr.strip()[:100])
    except Exception as e: ok = False; msg.append('EXC ' + str(e))
    finally: undo()
    if ok:
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(work, d)
    elif os.path.isdir(d): shutil.rmtree(d)
    print(('OK   ' if ok else 'DROP ') + f'{i} [{s["prop"]}] ' + ' ; '.join(msg), flush=True)
sh('bash', '/opt/vp/build.sh')
