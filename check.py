#!/usr/bin/env python3
"""Front end of the checks: builds the library from /repo's working tree together with the monitoring harness
and runs one property's workloads.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--scale X] [--src DIR] [--keep]

Exit status: 0 held on everything explored, 1 violation (line "VIOLATION property=... replay=..."), 2 no answer."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
HARN = os.path.join(HERE, 'harness')
VALGRIND = '/usr/bin/valgrind'
GCC, GXX, CLANG, CLANGXX = '/usr/bin/gcc', '/usr/bin/g++', '/usr/bin/clang', '/usr/bin/clang++'

# configurations of the library (macros of modbus_config.h)
def conf(queue, retries, timeout, coils, dins, iregs, hregs):
    return dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=queue, MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=retries, MODBUS_MASTER_RESP_TIME_OUT_MS=timeout,
                MAIN_APP_COILS_QTY=coils, MAIN_APP_DISCRET_INPUTS_QTY=dins, MAIN_APP_INPUT_REG_QTY=iregs, MAIN_APP_HOLDING_REG_QTY=hregs)
CONFIGS = {
    'default': None,
    'small':   conf(3, 2, 12, 20, 18, 17, 19),
    'wide':    conf(8, 1, 70, 2600, 2100, 400, 300),
    # X05
    'min':     conf(1, 0, 2, 1, 1, 1, 1),
    'q255':    conf(255, 1, 25, 9, 8, 7, 16),
    'r254':    conf(2, 254, 9, 64, 65, 63, 66),
    't70000':  conf(4, 1, 70000, 255, 256, 257, 254),
    't65535':  conf(2, 0, 65535, 2000, 1968, 125, 123),
    'max':     conf(5, 3, 300, 65535, 65535, 65535, 65535),
    'mix1':    conf(6, 5, 256, 257, 3000, 130, 3),
    'mix2':    conf(16, 2, 255, 40000, 100, 32768, 32769),
    'mix3':    conf(128, 4, 3, 1969, 2001, 124, 126),
    'mix4':    conf(2, 3, 5000, 8, 16, 300, 65534),
    'mix5':    conf(127, 7, 100, 33000, 7, 65535, 12),
    'mix6':    conf(3, 100, 1000, 1, 65535, 1, 300),
}
STEP = [ '-mno-red-zone', '-mgeneral-regs-only', '-fno-pic', '-fcf-protection=none', '-fno-asynchronous-unwind-tables']
FLAVOURS = {  # name: (C compiler, library flags, C++ compiler, harness flags, link flags, files left out)
    'plain': (GCC, ['-O1', '-g'], GXX, ['-O1', '-g'], [], ['hooks.cpp']),
    # (enum values outside an enumeration's range are possible in C; all other groups are on)
    'asan':  (CLANG, ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], CLANGXX,
              ['-O1', '-g', '-fsanitize=address'], ['-fsanitize=address,undefined'], ['hooks.cpp']),
    # run under valgrind's memcheck: uses of undefined values
    'vg':    (GCC, ['-O0', '-g'], GXX, ['-O1', '-g'], [], ['hooks.cpp']),
    # conventions of the ARM targets: char is unsigned, enumerations are as small as possible
    'arm':   (GCC, ['-Os', '-g', '-funsigned-char', '-fshort-enums', '-ftrivial-auto-var-init=pattern'], GXX, ['-O1', '-g', '-funsigned-char', '-fshort-enums'], [], ['hooks.cpp']),
    'hook':  (CLANG, ['-O0', '-g', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores'], GXX, ['-O1', '-g'], [], ['nohooks.cpp']),
    # as hook; the functions of the C library that allocate memory are replaced by monitors
    'mem':   (CLANG, ['-O0', '-g', '-DVH_MEM', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores'], GXX, ['-O1', '-g'], [], ['nohooks.cpp']),
    # optimised code with a call before every instruction that accesses memory (inserted into the assembly text)
    'optg':  (GCC, ['-O2', *STEP], GXX, ['-O1', '-g'], ['-no-pie'], ['nohooks.cpp']),
    'optl':  (GCC, ['-O3', '-flto', *STEP], GXX, ['-O1', '-g'], ['-no-pie'], ['nohooks.cpp']),
    'optc':  (CLANG, ['-O2', *STEP], GXX, ['-O1', '-g'], ['-no-pie'], ['nohooks.cpp']),
}

# multiples of the modes' basic numbers of cases, for about 20 s per quick check on 8 cores
QUICK = dict(S01=8, S02=12, S03=14, S04=8, S05=12, S06=10, S07=8, S08=16, S09=18, S10=20, M01=6, M02=9, M03=3, M04=5, M05=8, M06=11, M07=5, M08=7, M09=25, M10=14, M11=20, M12=5,
             M13=7, M14=18, X01=14, X02=1.5, X03=2.5, X04=4, X07=6, X08=40, X09=1)

def random_config(seed, k):
    """a configuration drawn from the supported ranges; small values and powers of two are preferred"""
    import random
    g = random.Random('%d-%d' % (seed, k))
    def draw(lo, hi):
        v = g.choice([lambda: g.randint(lo, min(hi, lo + 20)), lambda: int(2 ** g.uniform(0, 17)), lambda: 2 ** g.randint(0, 16) + g.randint(-1, 1), lambda: hi - g.randint(0, 3)])()
        return max(lo, min(hi, v))
    name = 'rnd%d_%d' % (seed, k)
    timeout = draw(2, 100000)
    CONFIGS[name] = conf(draw(1, 255), draw(0, 254 if timeout < 1000 else 10), timeout, *[draw(1, 65535) for _ in range(4)])
    return name

def runs(prop, tier, seed=1):
    """(flavour, configuration, modes or None, scale) of a property's check"""
    th = tier == 'thorough'
    def r(fl, cfgname, scale=1.0, modes=None): return (fl, cfgname, modes, scale)
    if prop in ('S07',): return [r('asan', 'default'), r('asan', 'small', .6), r('asan', 'wide', .5), r('vg', 'default', .05, 'hostile,valid,invalid,badlen')]
    if prop in ('M12',): return [r('asan', 'default'), r('asan', 'small', .6), r('asan', 'wide', .4), r('vg', 'default', .05, 'hostile,quantities,requests,responses,mismatch,plans')]
    if prop[0] == 'S': return [r('plain', 'default'), r('arm', 'small', .5), r('plain', 'wide', .4)] + ([r('asan', 'default', .1)] if th else [])
    if prop[0] == 'M': return [r('plain', 'default'), r('arm', 'small', .7), r('plain', 'wide', .4)] + ([r('asan', 'default', .1)] if th else [])
    if prop == 'X01': return [r('plain', 'default'), r('plain', 'wide', .5)]
    if prop == 'X02': return [r('plain', 'default'), r('plain', 'small', .6), r('plain', 'wide', .2)] + ([r('asan', 'default', .1)] if th else [])
    if prop == 'X03': return [r('plain', 'default'), r('hook', 'small'), r('hook', 'default', .4), r('optl', 'small', .4)]
    if prop == 'X04': return [r('hook', 'small'), r('hook', 'default', .5), r('hook', 'wide', .1), r('optg', 'small', .5), r('optc', 'small', .5), r('optl', 'small', .7)] + ([r('optl', 'default', .3)] if th else [])
    if prop == 'X05':
        q = ['min', 'q255', 'r254', 't70000', 'max', 'mix1', 'mix2', 'mix3']
        return [r('arm' if c in ('q255', 'max', 'mix3', 'mix5') else 'plain', c) for c in (q + ['t65535', 'mix4', 'mix5', 'mix6'] if th else q)] + [r('arm' if k % 2 else 'plain', random_config(seed, k), .5) for k in range(16 if th else 4)]
    if prop == 'X06': return [r('plain', 'default'), r('plain', 'wide', .5), r('asan', 'default', .3)]
    if prop == 'X07': return [r('plain', 'default'), r('arm', 'small', .5), r('plain', 'wide', .2), r('hook', 'small', 1, 'i_slave,i_master,i_sgarbage,i_mgarbage'), r('hook', 'default', .15), r('optl', 'small', .5, 'i_slave,i_master,i_sgarbage,i_mgarbage')]
    if prop == 'X08': return [r('hook', 'small'), r('hook', 'default', .5), r('hook', 'wide', .1)]
    if prop == 'X09': return [r('mem', 'small'), r('mem', 'default', .5), r('mem', 'wide', .2), r('mem', 'q255', .2), r('mem', 'r254', .2, 'm_plans,m_soup,m_streaks'), r('mem', 'max', .2)]
    raise KeyError(prop)

ASSUMPTIONS = json.load(open(os.path.join(HARN, 'assumptions.json')))

def die(msg):
    print('check.py: ' + msg, file=sys.stderr)
    sys.exit(2)

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode: raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

class Builder:
    def __init__(self, src, pool):
        self.src, self.pool = src, pool
        self.files = sorted(f for f in glob.glob(src + '/**/*', recursive=True) if f.endswith(('.c', '.h')))
        if not any(f.endswith('.c') for f in self.files): die('no sources in ' + src)
        self.dirs = sorted({os.path.dirname(f) for f in self.files if f.endswith('.h')})
        self.srchash = tree_hash(self.files)
        self.hdrhash = tree_hash([f for f in self.files if f.endswith('.h')])
        self.harnhash = tree_hash(glob.glob(HARN + '/*.hpp') + [os.path.join(HARN, 'stm32_regs.h')])
        self.examples = os.path.join(os.path.dirname(src), 'examples')  # the reference drivers
        if not os.path.isdir(self.examples): self.examples = '/repo/examples'
        self.obj = {}
    def driver_obj(self, fl, f):
        """X06: a reference driver on simulated peripherals"""
        cc, flags = FLAVOURS[fl][:2]
        ex = os.path.join(self.examples, 'STM32G070RB_MODBUS_' + ('MASTER' if f == 'stm32_m.c' else 'SLAVE'))
        drv = glob.glob(ex + '/**/modbus_driver_interface.c', recursive=True)
        if len(drv) != 1: raise RuntimeError('reference driver not found in ' + ex)
        hs = [h for h in glob.glob(ex + '/**/*.h', recursive=True)]
        inc = ['-I' + d for d in sorted({os.path.dirname(h) for h in hs})]
        own = [os.path.join(HARN, x) for x in (f, 'stm32_glue.h', 'stm32_regs.h')]
        key = 'd-%s-%s.o' % (f, hashlib.sha256(repr((tree_hash(own + hs + drv), self.hdrhash, flags, cc, self.src, self.examples)).encode()).hexdigest()[:20])
        return self.cached(key, lambda t: sh([cc, '-w', *flags, '-I' + HARN, *['-I' + d for d in self.dirs], *inc, '-DDRV_SRC="%s"' % drv[0], '-c', own[0], '-o', t]))
    def cached(self, key, make):
        """compiles once, into the cache; returns a future of the object file"""
        if key not in self.obj:
            o = os.path.join(BUILD, 'obj', key)
            def job():
                if not os.path.exists(o):
                    t = o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
                    make(t); os.replace(t, o)
                else: os.utime(o)
                return o
            self.obj[key] = self.pool.submit(job)
        return self.obj[key]
    def harness_obj(self, fl, f):
        if f.startswith('stm32_'): return self.driver_obj(fl, f)
        _, _, cxx, flags, _, _ = FLAVOURS[fl]
        key = 'h-%s-%s.o' % (f, hashlib.sha256(repr((self.harnhash, self.hdrhash, open(os.path.join(HARN, f)).read(), flags, cxx, self.src)).encode()).hexdigest()[:20])
        return self.cached(key, lambda t: sh([cxx, '-std=c++17', *flags, '-I' + HARN, *['-I' + d for d in self.dirs], '-c', os.path.join(HARN, f), '-o', t]))
    def lib_objs(self, fl, cname):
        cc, flags, cxx, hflags, _, _ = FLAVOURS[fl]
        ov = CONFIGS[cname]
        base = hashlib.sha256(repr((self.srchash, flags, cc, ov, self.harnhash, self.src, '-mno-red-zone' in flags and open(__file__).read())).encode()).hexdigest()[:20]
        src, dirs = self.src, self.dirs
        if ov is not None: # a copy of the sources in which the configuration is overridden
            root = os.path.join(BUILD, 'src', base)
            if not os.path.isdir(root):
                t = root + '.%d.tmp' % os.getpid()
                shutil.rmtree(t, ignore_errors=True)
                for f in self.files:
                    d = os.path.join(t, os.path.relpath(f, self.src)); os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copyfile(f, d)
                cfgs = [f for f in glob.glob(t + '/**/modbus_config.h', recursive=True)]
                if len(cfgs) != 1: raise RuntimeError('modbus_config.h not found')
                with open(cfgs[0], 'a') as g:
                    g.write('\n')
                    for k, v in ov.items(): g.write('#undef %s\n#define %s %d\n' % (k, k, v))
                try: os.rename(t, root)
                except OSError: shutil.rmtree(t, ignore_errors=True)
            src = root
            dirs = [os.path.join(root, os.path.relpath(d, self.src)) for d in self.dirs]
        inc = ['-I' + d for d in dirs]
        out = []
        for f in self.files:
            if not f.endswith('.c') or '-flto' in flags: continue
            rel = os.path.relpath(f, self.src)
            out.append(self.cached('l-%s-%s.o' % (base, rel.replace('/', '_')), lambda t, p=os.path.join(src, rel): compile_lib(cc, flags, inc, p, t)))
        if '-flto' in flags: # the whole library in one unit
            cs = [os.path.join(src, os.path.relpath(f, self.src)) for f in self.files if f.endswith('.c')]
            out.append(self.cached('l-%s-lto.o' % base, lambda t: compile_lto(cc, flags, inc, cs, t)))
        out.append(self.cached('c-%s.o' % base, lambda t: sh([cxx, '-std=c++17', *hflags, '-I' + HARN, *inc, '-c', os.path.join(HARN, 'cfg.cpp'), '-o', t])))
        return base, out
    def objects(self, fl, cname, files):
        left = FLAVOURS[fl][5]
        base, objs = self.lib_objs(fl, cname)
        return base, objs + [self.harness_obj(fl, f) for f in files if f not in left]
    def consts(self, libobjs):
        """the numbers that occur in the compiled library: unusual inputs worth generating"""
        dis = subprocess.run(['objdump', '-d', '--no-show-raw-insn', *libobjs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout
        found = set()
        for l in dis.splitlines():
            if '%rsp' in l or '%rip' in l: continue
            for m in re.finditer(r'\$(-?)0x([0-9a-f]+)', l): found.add(int(m.group(1) + m.group(2), 16))
            if '\tlea' in l:
                for m in re.finditer(r'(-?)0x([0-9a-f]+)\(', l): found.add(abs(int(m.group(2), 16)))
        vals = set()
        for v in found:
            for w in (v, -v, v & 0xFFFF, -v & 0xFFFF, v & 0xFFFFFFFF):
                if 24 <= w <= 0xFFFF: vals.add(w)
        vals = sorted(vals)[:2000]
        text = 'const unsigned short vh_consts[] = {%s};\nconst unsigned vh_nconsts = %d;\n' % (','.join(map(str, vals + [0])), len(vals))
        key = 'k-%s.o' % hashlib.sha256(text.encode()).hexdigest()[:20]
        def make(t):
            with open(t + '.c', 'w') as f: f.write(text)
            try: sh([GCC, '-O1', '-c', t + '.c', '-o', t])
            finally: os.unlink(t + '.c')
        o = os.path.join(BUILD, 'obj', key)
        if not os.path.exists(o):
            t = o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident()); make(t); os.replace(t, o)
        else: os.utime(o)
        return o
    def link(self, fl, base, objs, tag):
        o = [x.result() for x in objs]
        o.append(self.consts([x for x in o if os.path.basename(x).startswith('l-')]))
        out = os.path.join(BUILD, 'bin', '%s-%s' % (tag, hashlib.sha256(repr((base, o)).encode()).hexdigest()[:16]))
        if not os.path.exists(out):
            t = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
            sh([FLAVOURS[fl][2], *o, *FLAVOURS[fl][4], '-o', t]); os.replace(t, out)
        else: os.utime(out)
        return out

def insert_steps(asm):
    """a call of vh_step (hooks.cpp) before every instruction that accesses memory other than the stack"""
    res, code = [], True
    if re.search(r'\bcall\w*\s+__\w*[sdtx]f', open(asm).read()): raise RuntimeError('floating point')
    for l in open(asm):
        w = l.split()
        if w and w[0].startswith('.') and not w[0].endswith(':'):
            if w[0] in ('.text', '.section', '.data', '.bss'): code = w[0] == '.text' or (len(w) > 1 and w[1].startswith('.text'))
        elif code and w and l[0] == '\t' and w[0][0].isalpha():
            ops = l.split(None, 1)[1] if len(w) > 1 else ''
            mem = '(' in ops.replace('(%rsp)', '') or w[0].startswith(('rep', 'movs', 'stos', 'cmps')) or re.search(r'(^|[ ,\t])[A-Za-z_.][\w.]*([+-]\d+)?\s*(,|$)', ops)
            if mem and not w[0].startswith(('lea', 'nop', 'j')): res.append('\tcall\tvh_step\n')
        res.append(l)
    open(asm, 'w').writelines(res)
def compile_lib(cc, flags, inc, src, out):
    if '-mno-red-zone' not in flags:
        sh([cc, '-w', *flags, *inc, '-c', src, '-o', out])
        if '-DVH_MEM' in flags: sh(['objcopy', *['--redefine-sym=%s=vh_sys_%s' % (f, f) for f in ('malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'aligned_alloc', 'posix_memalign', 'strdup', 'strndup', 'sbrk', 'mmap')], out])
        return
    asm = out + '.s'
    try:
        sh([cc, '-w', *flags, '-S', *inc, src, '-o', asm])
        insert_steps(asm)
        sh([cc, '-c', asm, '-o', out])
    except RuntimeError: # code with floating point, say: without interruptions
        sh([cc, '-w', '-O2', '-fno-pic', *inc, '-c', src, '-o', out])
    finally:
        if os.path.exists(asm): os.unlink(asm)
def compile_lto(cc, flags, inc, srcs, out):
    d = out + '.d'; os.makedirs(d)
    try:
        objs = []
        for i, f in enumerate(srcs):
            objs.append('%s/%d.o' % (d, i)); sh([cc, '-w', *flags, *inc, '-c', f, '-o', objs[-1]])
        sh([cc, '-w', *flags, '-flto-partition=one', '-r', '-flinker-output=nolto-rel', '-save-temps', *objs, '-o', d + '/all.o'])
        asm = glob.glob(d + '/*.s')
        if len(asm) != 1: raise RuntimeError('one assembly file expected')
        insert_steps(asm[0])
        sh([cc, '-c', asm[0], '-o', out])
    except RuntimeError:
        objs = []
        for i, f in enumerate(srcs):
            objs.append('%s/p%d.o' % (d, i)); sh([cc, '-w', '-O2', '-fno-pic', *inc, '-c', f, '-o', objs[-1]])
        sh([cc, '-r', *objs, '-o', out])
    finally: shutil.rmtree(d, ignore_errors=True)

def prune():
    """keeps the cache small"""
    now = time.time()
    for d in ('obj', 'bin', 'src'):
        ents = sorted(((os.stat(p).st_mtime, p) for p in glob.glob(os.path.join(BUILD, d, '*'))), reverse=True)
        for m, p in ents[{'obj': 2500, 'bin': 80, 'src': 80}[d]:]:
            if now - m > 3600: shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)

def files_for(prop):
    base = ['core.cpp', 'scope.cpp', 'runner.cpp', 'nohooks.cpp', 'hooks.cpp', 'slave_eng.cpp', 'master_eng.cpp']
    if prop[0] == 'S': return base + ['props_slave.cpp']
    if prop[0] == 'M': return base + ['props_master.cpp']
    if prop == 'X06': return base + ['props_slave.cpp', 'props_master.cpp', 'props_stm32.cpp', 'stm32_m.c', 'stm32_s.c']
    if prop == 'X08': return base + ['props_slave.cpp', 'props_master.cpp', 'props_whole.cpp']
    if prop in ('X07', 'X09'): return base + ['props_slave.cpp', 'props_master.cpp', 'props_cross.cpp', 'props_preempt.cpp', 'props_where.cpp']
    return base + ['props_slave.cpp', 'props_master.cpp', 'props_preempt.cpp' if prop == 'X04' else 'props_cross.cpp']

def load_known(prop):
    """listed findings: key -> description (fixed entries suppress nothing)"""
    out = {}
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--scale', type=float, default=1.0); ap.add_argument('--src', default='/repo/src'); ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--only', help='flavour-configuration, e.g. plain-small'); ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    t0 = time.time()
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
    allp = [p['id'] for p in props]
    todo = allp if a.prop == 'all' and a.build_only else [a.prop]
    if any(p not in allp for p in todo): die('unknown property')
    for d in ('obj', 'bin', 'src', 'replay'): os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = load_known(a.prop)
    bins = []
    try:
        with cf.ThreadPoolExecutor(max_workers=a.jobs) as pool:
            b = Builder(a.src, pool)
            plan = []
            for p in todo:
                for fl, cname, modes, scale in runs(p, a.tier, a.seed):
                    if a.only and a.only != fl + '-' + cname: continue
                    plan.append((fl, cname, modes, scale, *b.objects(fl, cname, files_for(p))))
            futs = [x for pl in plan for x in pl[5]]
            cf.wait(futs, return_when=cf.FIRST_EXCEPTION)
            for x in futs:
                if x.done() and x.exception(): raise x.exception()
            for pl in plan: [x.result() for x in pl[5]]
            bins = list(pool.map(lambda pl: b.link(pl[0], pl[4], pl[5], pl[0] + '-' + pl[1]), plan))
    except RuntimeError as e:
        die('build failed: %s' % e)
    tb = time.time()
    try: prune()
    except OSError: pass
    if a.build_only: return 0
    total = dict(evaluations=0, nontrivial=0, distinct=0); counters = {}; samples = []; viols = []; knownseen = {}; per = []
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:exitcode=98', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98')
    rule = ''
    for (fl, cname, modes, scale, _, _), exe in zip(plan, bins):
        out = exe + '.%d.json' % os.getpid()
        cmd = [exe, '--prop', a.prop, '--tier', a.tier, '--seed', str(a.seed), '--jobs', str(a.jobs), '--scale', str(scale * a.scale * (QUICK.get(a.prop, 1) if a.tier == 'quick' else 1)), '--out', out,
               '--replay-dir', os.path.join(BUILD, 'replay'), '--tag', '-%s-%s' % (fl, cname), '--known', ','.join(known)]
        if modes: cmd += ['--mode', modes]
        if fl == 'vg':
            if not os.path.exists(VALGRIND): continue
            cmd = [VALGRIND, '-q', '--error-limit=no', '--leak-check=no', *cmd]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        try: d = json.load(open(out)); os.unlink(out)
        except (OSError, ValueError): die('no result from %s: %s' % (' '.join(cmd), p.stdout[-2000:]))
        if p.returncode not in (0, 1) or d['harness_error']:
            if not d['violations']: die('run failed: %s %s' % (' '.join(cmd), p.stdout[-2000:]))
        rule = d['rule']
        for k in total: total[k] += d[k]
        for k, v in d['counters'].items(): counters[k] = counters.get(k, 0) + v
        samples += ['[%s build, configuration %s] %s' % (fl, cname, s) for s in d['samples'][:2]]
        viols += d['violations']
        for k, v in d['known'].items(): knownseen[k] = v
        per.append(dict(build=fl, configuration=cname, **(dict(values=CONFIGS[cname]) if CONFIGS[cname] else {}), evaluations=d['evaluations'], distinct_nontrivial=d['distinct']))
        if viols: break
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=min(total['distinct'], total['nontrivial']), rule=rule, samples=samples[:12], observed=counters, runs=per),
              assumptions=ASSUMPTIONS['all'] + ASSUMPTIONS.get(a.prop, []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    tmp = os.path.join(HERE, 'evidence', a.prop + '.json.%d.tmp' % os.getpid())
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    os.replace(tmp, os.path.join(HERE, 'evidence', a.prop + '.json'))
    for k in knownseen: print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, known[k], knownseen[k]['msg'][:300]))
    for v in viols:
        print('%s: %s' % (v['key'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (a.prop, v['replay']))
    print('%s: %d cases, %d distinct and non-trivial, %d violations, build %.1f s, run %.1f s' % (a.prop, total['evaluations'], ev['coverage']['distinct_nontrivial'], len(viols), tb - t0, time.time() - tb))
    if viols: return 1
    if not total['nontrivial']: die('nothing was observed')
    return 0

if __name__ == '__main__':
    sys.exit(main())
