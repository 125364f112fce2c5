#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): makes small changes to /repo/src in scratch copies, keeps those that
build and pass the stable tests, and runs the checks on them.  usage: mutate.py OUT.jsonl [--files re] [--jobs N] [--scale X] [--sample K]"""
import sys, os, re, json, subprocess, shutil, random, argparse, threading, queue, time
ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('--files', default='.'); ap.add_argument('--jobs', type=int, default=7)
ap.add_argument('--scale', default='0.3'); ap.add_argument('--sample', type=int, default=0); ap.add_argument('--ops', default='.')
ap.add_argument('--skip', help='regular expression: lines left alone'); ap.add_argument('--trigger', type=int, default=0, help='seed: the change only acts when a random condition on the traffic holds'); ap.add_argument('--custom', help='python file defining CUSTOM = [(file, old, new), ...]')
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'; W = '/tmp/mw'
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def strip(t):
    """blanks comments and strings, same length"""
    def r(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"', r, t, flags=re.S)
OPS = [('rel', r'==', ['!=']), ('rel', r'!=', ['==']), ('rel', r'<=', ['<']), ('rel', r'>=', ['>']), ('rel', r'(?<![<\-])<(?![<=])', ['<=']), ('rel', r'(?<![>\-])>(?![>=])', ['>=']),
       ('log', r'&&', ['||']), ('log', r'\|\|', ['&&']), ('sh', r'<<', ['>>']), ('sh', r'>>', ['<<']),
       ('ar', r'(?<=[\w\)\]] )\+(?= ?[\w\(])', ['-']), ('ar', r'(?<=[\w\)\]] )-(?= ?[\w\(])', ['+']), ('ar', r'(?<=[\w\)\]] )/(?= ?\w)', ['*']), ('ar', r'(?<=[\w\)\]] )%(?= ?\w)', ['/']),
       ('ar', r'(?<=[\w\)\]] )\*(?= \w)', ['+']), ('bit', r'(?<=[\w\)\]] )&(?= \w)', ['|']), ('bit', r'(?<=[\w\)\]] )\|(?= \w)', ['&']), ('bit', r'\^', ['|']), ('bit', r'\|=', ['=', '&=']), ('bit', r'&=', ['|=']),
       ('inc', r'\+\+', ['--']), ('inc', r'\+=', ['-=', '=']), ('inc', r'-=', ['+=']),
       ('const', r'(?<![\w.])(?:0x[0-9A-Fa-f]+|\d+)(?![\w.])', ['+1', '-1']),
       ('flag', r'MODBUS_FLAG_SET\b', ['MODBUS_FLAG_CLEARED']), ('flag', r'MODBUS_FLAG_CLEARED\b', ['MODBUS_FLAG_SET']),
       ('cond', r'\bif \(', ['if (1 || ', 'if (0 && ']), ('neg', r'!(?!=)', ['']),
       ('del', r'^[ \t]+(?!return|break|case|default|static|else|goto|const|typedef|extern|[a-z_0-9]+_t\b|uint)[A-Za-z_*(][^;{}\n]*;', [';']),
       ('brk', r'\bbreak;', [';'])]
muts = []
for d, _, fs in os.walk(R + '/src'):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), R)
        if not f.endswith(('.c', '.h')) or f == 'modbus_config.h' or not re.search(a.files, p): continue
        t = open(os.path.join(R, p)).read(); s = strip(t)
        for op, pat, reps in OPS:
            if not re.search(a.ops, op): continue
            for m in re.finditer(pat, s, re.M):
                ls = s.rfind('\n', 0, m.start()) + 1; line = s[ls:s.find('\n', m.start())]
                if re.match(r'\s*#(?!define)', line) or (f.endswith('.h') and op not in ('const',)): continue
                if f.endswith('.h') and not line.startswith('#define'): continue
                if a.skip and re.search(a.skip, line): continue
                for r in reps:
                    old = t[m.start():m.end()]
                    if op == 'const':
                        v = int(old, 0) + int(r)
                        if v < 0: continue
                        new = str(v)
                    elif op == 'cond': new = r
                    else: new = r
                    muts.append((p, m.start(), m.end(), new, op, t.count('\n', 0, m.start()) + 1, old))
if a.custom:
    ns = {}; exec(open(a.custom).read(), ns); muts = []
    for p, old, new in ns['CUSTOM']:
        t = open(os.path.join(R, p)).read(); assert t.count(old) == 1, (p, old, t.count(old)); i = t.index(old)
        muts.append((p, i, i + len(old), new, 'custom', t.count('\n', 0, i) + 1, old))
TRIGH = r'''
/* history of the frames the CRC was calculated of, for the conditions of guarded mutants */
__attribute__((weak)) unsigned char trig_h[8][8]; __attribute__((weak)) unsigned trig_len[8], trig_n, trig_calls;
static inline void trig_note(const unsigned char *b, unsigned n) { unsigned i, k; for (i = 7; i; i--) { for (k = 0; k < 8; k++) trig_h[i][k] = trig_h[i - 1][k]; trig_len[i] = trig_len[i - 1]; } for (k = 0; k < 8; k++) trig_h[0][k] = k < n ? b[k] : 0; trig_len[0] = n; trig_n++; }
#define H trig_h
static inline int trig(int p) { trig_calls++; switch (p) {
case 0: return H[0][3] % 64 == 63; case 1: return H[0][1] == 3 && H[2][1] == 16; case 2: return trig_calls % 97 == 96; case 3: return trig_calls > 2000 && trig_calls < 2004;
case 4: return H[0][0] == 177; case 5: return H[0][5] % 32 == 31; case 6: return trig_len[0] > 8 && trig_len[0] == trig_len[2]; case 7: return H[0][1] == H[2][1] && H[0][3] == H[2][3] && H[0][1];
case 8: return H[0][4] == 0xFF; case 9: return trig_len[0] > 120; case 10: return (H[1][1] & H[2][1] & 0x80) != 0; case 11: return trig_n % 256 == 255; case 12: return H[0][1] == 15 && H[0][5] % 8 == 1; case 13: return H[0][3] == 0 && H[0][5] == 1; case 14: return H[0][1] == 5 && H[1][1] == 5; default: return H[0][2] != 0; } }
#undef H
'''
NTRIG = 16
def guarded(line, mline, t):
    """the line with the change in force only under condition t, or None"""
    ind = re.match(r'\s*', line).group(0); b, mb = line.strip(), mline.strip()
    m, mm = (re.fullmatch(r'((?:\} ?)?(?:else )?if|while) \((.*)\)', x) for x in (b, mb))
    if m and mm: return f'{ind}{m[1]} (trig({t}) ? ({mm[2]}) : ({m[2]}))'
    m, mm = (re.fullmatch(r'for \((.*?;)(.*?);(.*)\)', x) for x in (b, mb))
    if m and mm and m[1] == mm[1] and m[3] == mm[3]: return f'{ind}for ({m[1]} trig({t}) ? ({mm[2]}) : ({m[2]});{m[3]})'
    m, mm = (re.fullmatch(r'((?:static |const |volatile )*[a-z_][A-Za-z0-9_]*(?:_t|bool|int|long) \**\w+) = (.*);', x) for x in (b, mb))
    if m and mm: return None if m[1] != mm[1] or 'static' in m[1] or '{' in m[2] else f'{ind}{m[1]} = trig({t}) ? ({mm[2]}) : ({m[2]});'
    if b.endswith(';') and not re.match(r'(static|const|extern|typedef|case|default|#|[a-z_0-9]+_t\b|PRIVATE)', b) and not b.startswith(')'): return f'{ind}if (trig({t})) {{ {mb} }} else {{ {b} }}'
    return None
if a.trigger:
    rnd = random.Random(a.trigger); new = []
    for p, b, e, rep, op, line, old in muts:
        if not p.endswith('.c'): continue
        t = open(os.path.join(R, p)).read(); ls = t.rfind('\n', 0, b) + 1; le = t.find('\n', b); L = re.sub(r'\s*//.*', '', t[ls:le]); M = re.sub(r'\s*//.*', '', t[ls:b] + rep + t[e:le])
        k = rnd.randrange(NTRIG); g = guarded(L, M, k)
        if g and e <= le: new.append((p, ls, le, g, op, line, t[ls:le]))
    muts = new
done = set()
if os.path.exists(a.out):
    for l in open(a.out): j = json.loads(l); done.add((j['file'], j['pos'], j['new']))
muts = [m for m in muts if (m[0], m[1], m[3]) not in done]
if a.sample: random.Random(7).shuffle(muts); muts = muts[:a.sample]
print(len(muts), 'mutants', flush=True)
props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
SL = ['S01', 'S06', 'S03', 'S10', 'S08', 'S09', 'S05', 'S04', 'S02', 'S07']; MA = ['M08', 'M01', 'M05', 'M03', 'M09', 'M11', 'M06', 'M07', 'M14', 'M13', 'M10', 'M04', 'M02', 'M12']; X = ['X01', 'X02', 'X03', 'X05', 'X04']
def order(p): return (SL + X) if 'slave' in p else (MA + X) if ('master' in p or 'queue' in p) else ['S01', 'M01', 'M05', 'S03', 'M08', 'M06'] + [q for q in SL + MA if q not in ('S01', 'M01', 'M05', 'S03', 'M08', 'M06')] + X
SUITES = [('modbus', 'modbus_test'), ('master_integration', 'modbus_master_integration'), ('slave_integration', 'modbus_slave_integration')]
q = queue.Queue(); [q.put(m) for m in muts]; lock = threading.Lock(); stat = {}
env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
def sh(cmd, **k):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, **k)
    except subprocess.TimeoutExpired: return None
def worker(k):
    d = f'{W}/{k}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for x in ('src', 'test'): shutil.copytree(f'{R}/{x}', f'{d}/{x}')
    for s, _ in SUITES: sh(['cmake', '-S', f'{d}/test/{s}', '-B', f'{d}/b/{s}', '-G', 'Ninja'])
    def tests():
        passed = set()
        for s, e in SUITES:
            r = sh(['ninja', '-C', f'{d}/b/{s}', e])
            if r is None or r.returncode: return None
            r = sh(['stdbuf', '-o0', f'{d}/b/{s}/{e}', '-v'], cwd=f'{d}/b/{s}', timeout=30)
            if r is None: return False
            open(f'{d}/{s}.txt', 'w').write(r.stdout)
            l = subprocess.run(['python3', '/opt/vp/unity_lines.py', s, f'{d}/{s}.txt'], capture_output=True, text=True).stdout
            open(f'{d}/{s}.lines', 'w').write(l)
        o = f'{d}/o.json'
        subprocess.run(['python3', '/opt/vp/results.py', o, f'lines:{d}/*.lines'], capture_output=True)
        passed = set(json.load(open(o))['passed'])
        return len({b for b in base if not b.startswith('template')} - passed) == 0
    if tests() is not True: print('worker', k, ': tests do not pass on the unchanged copy'); return
    while True:
        try: p, b, e, new, op, line, old = q.get_nowait()
        except queue.Empty: break
        t = open(f'{R}/{p}').read()
        x = t[:b] + new + t[e:]
        if a.trigger:
            tap = 'src/common/modbus_crc.c'; c = x if p == tap else open(f'{R}/{tap}').read()
            c = re.sub(r'(\nuint16_t calculate_CRC\(([^)]*)\)\s*\{)', lambda m: m[1] + ' trig_note(%s, %s);' % tuple(re.findall(r'(\w+)(?:,|$)', m[2])), c); assert 'trig_note(' in c
            if p == tap: x = c
            else: open(f'{d}/{tap}', 'w').write(TRIGH + c)
            x = TRIGH + x
        open(f'{d}/{p}', 'w').write(x)
        r = tests(); res = {'file': p, 'pos': b, 'line': line, 'op': op, 'old': old, 'new': new, 'text': t[t.rfind('\n', 0, b) + 1:t.find('\n', b)].strip()}
        if r is None: res['status'] = 'nobuild'
        elif r is False: res['status'] = 'tests'
        else:
            res['status'] = 'SURVIVED'
            for c in order(p):
                z = sh(['python3', V + '/check.py', c, '--src', f'{d}/src', '--jobs', '2', '--scale', a.scale, '--seed', '1'], timeout=900)
                if z is None or z.returncode == 2: res['status'] = 'noanswer:' + c; res['out'] = (z.stdout if z else '')[-300:]; break
                if z.returncode == 1: res['status'] = 'caught:' + c; break
        open(f'{d}/{p}', 'w').write(t)
        if a.trigger: shutil.copy(f'{R}/src/common/modbus_crc.c', f'{d}/src/common/modbus_crc.c')
        with lock:
            open(a.out, 'a').write(json.dumps(res) + '\n')
            st = res['status'].split(':')[0]; stat[st] = stat.get(st, 0) + 1
            if st in ('SURVIVED', 'noanswer'): print(res['status'], f'{p}:{line}', op, repr(old), '->', repr(new), '|', res['text'], flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
