#!/usr/bin/env python3
"""A process that judges the Java bindings (C26): javachild.py BUILD FLAVOR SEED FROM COUNT STRIDE

Generates cases as scripts for JMon (java/JMon.java), which executes them through the Java
classes and the JNI library in one JVM, and compares every line it prints with what the
same calls give through the C interface (lg.py)."""
import ctypes as C, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
BUILD, FLAVOR, SEED, FROM, COUNT, STRIDE = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lg as direct, cli, core
L = direct.Lib(os.path.join(BUILD, 'plain', 'liblightgrep.so'))
stat = {}; distinct = {}; viol = []; samples = []
def add(k, n=1): stat[k] = stat.get(k, 0) + n
def see(k, v): distinct.setdefault(k, set()).add(hashlib.sha1(repr(v).encode('utf-8', 'replace')).hexdigest()[:16])
def u16(s): return s.encode('utf-16-be', 'surrogatepass').hex() or '-'
def un16(h): return '' if h == '-' else bytes.fromhex(h).decode('utf-16-be', 'surrogatepass')
def hx(b): return b.hex() or '-'
def i32(v): v &= 0xffffffff; return v - 2**32 if v >= 2**31 else v
P = 'com.lightboxtechnologies.lightgrep.'
KEYX, PROGX, ENCX = P + 'KeywordException', P + 'ProgramException', 'java.io.UnsupportedEncodingException'
STATE, BOUNDS, NULL = 'java.lang.IllegalStateException', 'java.lang.IndexOutOfBoundsException', 'java.lang.NullPointerException'
ASTRAL = ['𝄞', '😀', '\U0001F600', '\U00010000', '\U0010FFFF', '𐐷']
KINDS = ['array', 'array', 'heap', 'heapro', 'slice', 'slicero', 'direct', 'directro', 'dslice', 'dslicero']

class Exp:
    """One command and what it has to print: exactly `ok`, or an exception of class ex (and message)."""
    def __init__(self, cmd, ok=None, ex=None, msg=None, hits=None, full=None, what=''):
        self.cmd, self.ok, self.ex, self.msg, self.hits, self.full, self.what = cmd, ok, ex, msg, hits, full, what

def judge(e, got):
    """None, or what is wrong."""
    body, _, hits = got.partition(' |')
    if e.ex is not None:
        w = body.split(' ')
        if w[0] != 'EX' or w[1] != e.ex or len(w) > 3: return 'expected %s, got %s' % (e.ex, show(got))
        if e.msg is not None and (w[2] == 'null' or un16(w[2]) != e.msg): return 'expected the message %r, got %s' % (e.msg, show(got))
    elif body != e.ok:
        if e.full is not None and e.full >= 2**31 and body == 'OK %d' % i32(e.full): return ('known', 'java-search-int', 'search() returns %d for offset %d' % (i32(e.full), e.full))
        return 'expected %s, got %s' % (show(e.ok), show(got))
    if e.hits is not None and hits.split() != e.hits: return 'hits %r, expected %r' % (hits.split()[:6], e.hits[:6])

def show(g):
    return ' '.join(repr(un16(x)) if len(x) >= 8 and re.fullmatch('(?:[0-9a-f]{4})+', x) else x for x in g.split(' '))[:300]

def gen(rng, many, leak):
    """The commands of one case with their expected results, and a description."""
    out = []; A = out.append; free = []
    def op(cmd, ok='OK', **kw): A(Exp(cmd, ok, **kw))
    encs = rng.choice(cli.ENCS); wide = encs != ['US-ASCII']
    def opts(): return (int(rng.random() < 0.2), int(rng.random() < 0.25), int(rng.random() < 0.25))
    def pattern():
        if rng.random() < 0.08: return rng.choice(cli.BAD)
        p = cli.gen_pat(rng, wide)
        if wide and rng.random() < 0.3: i = rng.choice([0, len(p)]); p = p[:i] + rng.choice(ASTRAL) + p[i:]
        return p
    def chain():
        e = rng.choice(encs) if rng.random() < 0.8 else rng.choice(rng.choice(cli.ENCS))
        k = rng.random()
        if k < 0.06: return rng.choice(['no such encoding', 'UTF-8|nothing', 'Ünï', 'UTF-8|𝄞', ''])
        if k < 0.14 and e in ('US-ASCII', 'ISO-8859-1', 'KOI8-R'): return e + '|OCE'
        return e.lower() if k < 0.3 else e
    fsm = L.lg_create_fsm(0, 0); pat = L.lg_create_pattern(); free += [(L.lg_destroy_fsm, fsm), (L.lg_destroy_pattern, pat)]
    info = []
    try:
        if rng.random() < 0.05: op('fsm x -1 0', ex=BOUNDS); op('fsm x 0 -1', ex=BOUNDS); op('prog x -5', ex=BOUNDS)
        op('fsm f %d %d' % (rng.choice([0, 1, 100]), rng.choice([0, 1, 5000]))); op('pat p')
        plen = 0
        for _ in range(1 if many else rng.randint(1, 7)):
            p, o = ('a', (0, 0, 0)) if many else (pattern(), opts()); plen += len(p)
            if rng.random() < 0.03: q = p[:1] + rng.choice(['\ud800', '\udc00x', '\0']) + p[1:]; op('parse p %s %d %d %d' % ((u16(q),) + o), ex=KEYX)
            if rng.random() < 0.02: op('parse p null 0 0 0', ex=NULL); op('parse p 0061 null 0 0', ex=NULL)
            e = C.POINTER(direct.Error)(); k = direct.KeyOptions(*(bytes([x]) for x in o)); r = L.lg_parse_pattern(pat, p.encode(), C.byref(k), C.byref(e)); errs = L.errors(e)
            cmd = 'parse p %s %d %d %d' % ((u16(p),) + o)
            if r > 0: op(cmd, 'OK %d' % r)
            else: op(cmd, ex=KEYX, msg=errs[0][0].decode('utf-8', 'replace')); add('refused patterns')
            for ch in ([rng.choice(['US-ASCII', 'UTF-8'])] if many else [chain() for _ in range(rng.randint(1, 2))]):
                u = rng.choice([0, 1, 77, 2**31 - 1, -1, -2**31, rng.randrange(-2**31, 2**31)])
                e = C.POINTER(direct.Error)(); r = L.lg_add_pattern(fsm, pat, ch.encode(), u & (2**64 - 1), C.byref(e)); errs = L.errors(e)
                cmd = 'add f p %s %d' % (u16(ch), u)
                if r >= 0: op(cmd, 'OK %d' % r); info.append([p, ch, u]); add('additions')
                else: op(cmd, ex=KEYX, msg=errs[0][0].decode('utf-8', 'replace')); add('refused additions')
            if rng.random() < 0.03: op('add f p null 0', ex=NULL)
        n = len(info); op('fcount f', 'OK %d' % n)
        if rng.random() < 0.3 and n:
            i = rng.randrange(n); v = rng.randrange(-2**31, 2**31); op('fsetu f %d %d' % (i, v)); op('fgetu f %d' % i, 'OK %d' % v); info[i][2] = v
        for cmd in ('finfo f', 'fgetu f'):
            if rng.random() < 0.1: op(cmd + ' %d' % rng.choice([n, n + 1, 2**31 - 1]), ex=BOUNDS); op(cmd + ' %d' % rng.choice([-1, -2**31]), ex=BOUNDS)
        def line(i): return '%s %s %d' % (u16(info[i][0]), u16(info[i][1]), info[i][2])
        if n: i = rng.randrange(n); op('finfo f %d' % i, 'OK ' + line(i)); op('fgetu f %d' % i, 'OK %d' % info[i][2])
        det = int(rng.random() < 0.5)
        op('prog g %d' % rng.choice([0, 3])); op('pcount g', ex=STATE); op('size g', ex=STATE)
        if not n: op('compile g f %d' % det, ex=PROGX); add('empty programs refused'); op('end'); return out, info, 0
        if rng.random() < 0.1: op('compile g f null', ex=NULL)
        op('compile g f %d' % det, 'OK 1'); op('compile g f %d' % det, ex=PROGX)
        prog = L.lg_create_program(fsm, C.byref(direct.ProgramOptions(det))); free.append((L.lg_destroy_program, prog))
        size = L.lg_program_size(prog)
        for i in range(n): L.lg_prog_pattern_info(prog, i).contents.user = info[i][2] & (2**64 - 1)
        cb = C.create_string_buffer(size); L.lg_write_program(prog, C.addressof(cb)); image = cb.raw
        if rng.random() < 0.5:
            op('destroy f'); op('destroy f'); op('fcount f', ex=STATE); op('finfo f 0', ex=STATE); op('add f p 0041 0', ex=STATE); op('prog h 0'); op('compile h f 0', ex=STATE)
        if rng.random() < 0.5: op('destroy p'); op('parse p 0061 0 0 0', ex=STATE)
        op('pcount g', 'OK %d' % n); op('size g', 'OK %d' % size)
        for i in range(n) if rng.random() < 0.3 else [rng.randrange(n)]: op('pinfo g %d' % i, 'OK ' + line(i)); op('pgetu g %d' % i, 'OK %d' % info[i][2])
        if rng.random() < 0.1: op('pinfo g %d' % n, ex=BOUNDS); op('pgetu g %d' % n, ex=BOUNDS); op('psetu g %d 5' % n, ex=BOUNDS); op('pinfo g -1', ex=BOUNDS)
        pre, post = rng.choice([0, 0, 8, 3]), rng.choice([0, 5])
        small = size <= 200000                         # larger images only as hexadecimal text fill the heap
        if small: op('write g %d %d' % (pre, pre + size + post), 'OK ' + (b'Z' * pre + image + b'Z' * post).hex())
        if rng.random() < 0.2: op('write g %d %d' % (pre + 1, pre + size), ex=BOUNDS); op('write g -1 %d' % size, ex=BOUNDS)
        progs = ['g']
        if small and rng.random() < 0.7:
            pre, post = rng.choice([0, 0, 8, 1, 5]), rng.choice([0, 7])
            op('read r %s %d %d' % (hx(b'q' * pre + image + b'q' * post), pre, size)); progs.append('r'); add('programs read back')
            if rng.random() < 0.5: op('gc')
            op('pcount r', 'OK %d' % n); op('size r', 'OK %d' % size); i = rng.randrange(n); op('pinfo r %d' % i, 'OK ' + line(i)); op('write r 0 %d' % size, 'OK ' + image.hex())
            if rng.random() < 0.4:
                k = rng.randrange(size); op('read t %s 0 %d' % (hx(image[:k]), k), ex=PROGX); add('truncated programs refused')
            if rng.random() < 0.1: op('read t %s 1 %d' % (hx(image), size), ex=BOUNDS); op('read t %s -1 %d' % (hx(image), size), ex=BOUNDS); op('read t %s 0 -1' % hx(image), ex=BOUNDS)
            if rng.random() < 0.3: op('destroy g'); op('size g', ex=STATE); op('ctx c g', ex=STATE); op('pinfo g 0', ex=STATE); progs.remove('g')
        ctxs = []
        for g in progs:
            for _ in range(rng.randint(1, 2)): ctxs.append('c%d' % len(ctxs)); op('ctx %s %s' % (ctxs[-1], g))
        if rng.random() < 0.03: op('ctx z %s null' % progs[0], ex=NULL)
        if rng.random() < 0.4:
            for g in progs: op('destroy ' + g if rng.random() < 0.5 else 'drop ' + g)
            op('gc')
        total = 0
        if many: op('many c0 %d' % many, 'OK %d %d' % (many, sum(3 * i + i + 1 for i in range(many)) )); add('searches of over a million hits'); op('reset c0'); total = 1
        for rnd in range(rng.randint(1, 4)):
            c = rng.choice(ctxs); data = cli.encode(rng, cli.gen_text(rng, rng.choice([0, 3, 20, 100, 300])), encs)
            if wide and rng.random() < 0.4: i = rng.randint(0, len(data)); data = data[:i] + cli.encode(rng, rng.choice(ASTRAL), encs) + data[i:]
            start = rng.choice([0, 0, 0, 5, 2**31 - 40, 2**31 + 7, 2**32 - 3, 2**40, 2**62, rng.randrange(2**48)])
            ref = []; rcb = direct.CB(lambda u, h: ref.append((h.contents.start, h.contents.end, h.contents.kw)))
            rc = L.lg_create_context(prog, C.byref(direct.ContextOptions(2**64 - 1, 2**64 - 1))); dbuf = C.create_string_buffer(data, len(data) or 1); a = C.addressof(dbuf)
            def args(kind, b):
                # the buffer with something before and after the part to be searched
                pre, post = rng.choice([0, 0, 1, 9]), rng.choice([0, 0, 4]); add('buffers: ' + kind)
                return '%s %s %d %d' % (kind, hx(b'a' * pre + b + b'b' * post), pre, len(b))
            def fmt(hs): return ['%d,%d,%d' % h for h in hs]
            allhits = []; boom = None
            if rng.random() < 0.08:
                kind = rng.choice(KINDS); b = hx(data)
                op('search %s %s %s 0 %d %d -1' % (c, kind, b, len(data) + 1, start), ex=BOUNDS, hits=[]); op('search %s %s %s 0 %d %d -1' % (c, kind, b, -1, start), ex=BOUNDS, hits=[])
                op('search %s %s %s 0 %d -1 -1' % (c, kind, b, len(data)), ex=BOUNDS, hits=[]); op('search %s %s %s 0 %d 0 -2' % (c, kind, b, len(data)), ex=NULL)
                op('starts %s %s %s 0 %d %d -1' % (c, kind, b, len(data) + 1, start), ex=BOUNDS, hits=[]); op('search %s array %s -1 %d 0 -1' % (c, b, len(data)), ex=BOUNDS, hits=[]); add('bad arguments refused')
            if rng.random() < 0.7:
                cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.choice([0, 1, 2, 5]))) + [len(data)]; i = 0
                for cut in cuts:
                    del ref[:]; ret = L.lg_search(rc, a + i, a + cut, start + i, None, rcb)
                    at = rng.randrange(len(ref)) if ref and rng.random() < 0.06 else -1
                    cmd = 'search %s %s %d %d' % (c, args(rng.choice(KINDS), data[i:cut]), start + i, at)
                    allhits += ref; add('search calls')
                    if at >= 0: op(cmd, ex='JMon$Boom', msg='hit %d' % at, hits=fmt(ref[:at + 1])); boom = 1; add('callbacks that throw'); break
                    op(cmd, 'OK %d' % ret, full=ret, hits=fmt(ref)); i = cut
                if not boom:
                    del ref[:]; L.lg_closeout_search(rc, None, rcb); at = rng.randrange(len(ref)) if ref and rng.random() < 0.06 else -1; allhits += ref
                    if at >= 0: op('closeout %s %d' % (c, at), ex='JMon$Boom', msg='hit %d' % at, hits=fmt(ref[:at + 1])); add('callbacks that throw')
                    else: op('closeout %s -1' % c, hits=fmt(ref))
                op('reset ' + c)
            else:
                L.lg_starts_with(rc, a, a + len(data), start, None, rcb); allhits += ref
                op('starts %s %s %d -1' % (c, args(rng.choice(KINDS), data), start), hits=fmt(ref)); add('starts-with calls')
            L.lg_destroy_context(rc)
            total += len(allhits); add('hits compared', len(allhits))
            if allhits: see('nontrivial', (info, data, start, rnd))
            if allhits and rng.random() < 0.6:
                dec = L.lg_create_decoder(); op('dec d')
                for h in rng.sample(allhits, min(3, len(allhits))):
                    win, repl = rng.choice([0, 1, 3, 20, 100]), rng.choice([32, 0xFFFD, 0x1F600, 0x41]); lo = rng.randint(0, h[0] - start); hi = rng.randint(h[1] - start, len(data)); ch = info[h[2]][1]
                    u, outer, dh, nbad, errs = L.context(dec, data[lo:hi], start + lo, h[0], h[1], ch.encode(), win, repl)
                    w = args(rng.choice(KINDS), data[lo:hi])
                    op('hctx d %s %d %d %d %s %d %d' % (w, start + lo, h[0], h[1], u16(ch), win, repl), 'OK %d %d %d %d %d %s' % (outer + dh + (nbad, u16(u.decode())))); add('hit contexts compared')
                    if any(x in u.decode() for x in ASTRAL): add('contexts with characters beyond the BMP')
                    if rng.random() < 0.05:
                        base = 'hctx d array %s 0 %d' % (hx(data), len(data))
                        op('%s %d %d %d %s 1 32' % (base, start + 5, start + 4, start + 5, u16(ch)), ex=BOUNDS); op('%s %d %d %d %s 1 32' % (base, start, start + 2, start + 1, u16(ch)), ex=BOUNDS)
                        op('%s %d %d %d %s 1 32' % (base, start, start, start + len(data) + 1, u16(ch)), ex=BOUNDS); op('%s %d %d %d %s -1 32' % (base, start, h[0], h[1], u16(ch)), ex=BOUNDS)
                        op('%s %d %d %d %s 1 -1' % (base, start, h[0], h[1], u16(ch)), ex=BOUNDS); op('%s %d %d %d %s 1 1114112' % (base, start, h[0], h[1], u16(ch)), ex=BOUNDS); op('%s %d %d %d null 1 32' % (base, start, h[0], h[1]), ex=NULL)
                    if rng.random() < 0.1: op('hctx d %s %d %d %d %s %d %d' % (w, start + lo, h[0], h[1], u16('no such encoding'), win, repl), ex=ENCX); add('unknown encodings refused')
                op('destroy d')
                if rng.random() < 0.2: op('hctx d array 6162 0 2 0 0 1 %s 1 32' % u16('UTF-8'), ex=STATE); op('hctx d heap 6162 0 2 0 0 1 %s 1 32' % u16('UTF-8'), ex=STATE)
                L.lg_destroy_decoder(dec)
            if rng.random() < 0.08: op('gc')
        c = ctxs[0]
        if leak:                                       # memory left behind by calls that fail, and by whole lives
            op('pat p'); op('dec d'); op('prog t 1')
            for n, cmd in ((3000, 'parse p 0028 0 0 0'), (3000, 'add f p %s 1' % u16('no such encoding')), (3000, 'hctx d array 6162 0 2 0 0 1 %s 1 32' % u16('no such encoding')),
                           (3000, 'hctx d array 6162 0 2 0 0 1 %s 1 32' % u16('UTF-8')), (3000, 'read t 0000000000000000 0 8'), (3000, 'pinfo %s 0' % progs[0]), (2000, 'cycle')):
                op('repeat %d %d %s' % (n, 150 if cmd == 'cycle' else 60, cmd)); add('calls repeated to look for memory left behind', 4 * n)
        if rng.random() < 0.3:
            op('destroy ' + c); op('destroy ' + c)
            for x in ('search %s array 61 0 1 0 -1', 'starts %s direct 61 0 1 0 -1', 'search %s heapro 61 0 1 0 -1', 'closeout %s -1'): op(x % c, ex=STATE, hits=[])
            op('reset ' + c, ex=STATE); add('destroyed contexts refused')
        op('end')
        return out, info, total
    finally:
        for f, x in reversed(free): f(x)

def leaky(i): return FLAVOR == 'plain' and i % 500 == 4
def huge(i): return FLAVOR == 'plain' and i % 500 == 3
def alone(i): return leaky(i) or huge(i)

def main():
    root = tempfile.mkdtemp(prefix='lgjava-'); known = {}
    todo = [FROM + k * STRIDE for k in range(COUNT)]; restarts = 0
    try:
        while todo and restarts < 4 and len(viol) <= 5:
            script = os.path.join(root, 'script'); outp = os.path.join(root, 'out'); hs = os.path.join(root, 'hs'); batch = []; gens = {}
            while todo[len(batch):] and len(batch) < 200 and not (batch and alone(todo[len(batch)])):
                batch.append(todo[len(batch)])
                if alone(batch[0]): break
            with open(script, 'w') as f:
                for i in batch:
                    rng = random.Random('java:%d:%d' % (SEED, i)); many = 1500000 * huge(i)
                    gens[i] = gen(rng, many, leaky(i)); f.write('case %d\n' % i)
                    for e in gens[i][0]: f.write(e.cmd + '\n')
            env = dict(os.environ); cmd = ['java'] + ['-Xcheck:jni'] * (not huge(batch[0])) + ['-Xint'] * leaky(batch[0]) + [           # interpreted, the JVM's own memory stays constant
                '-Xms48m', '-Xmx48m', '-XX:+AlwaysPreTouch', '-XX:+UseSerialGC', '-XX:-CreateCoredumpOnCrash', '-XX:ErrorFile=' + hs, '-cp', os.path.join(BUILD, 'java', 'classes'), '-Djava.library.path=' + os.path.join(BUILD, FLAVOR), 'JMon', script, outp]
            if FLAVOR == 'asan':
                pre = [subprocess.check_output(['gcc', '-print-file-name=' + x], text=True).strip() for x in ('libasan.so', 'libstdc++.so.6')]
                env.update(LD_PRELOAD=' '.join(pre), ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigill=0:handle_sigbus=0:handle_sigfpe=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
            try: p = subprocess.run(cmd, env=env, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400); rc, log = p.returncode, p.stdout.decode('utf-8', 'replace')
            
            except subprocess.TimeoutExpired as t: rc, log = 'timeout', (t.stdout or b'').decode('utf-8', 'replace')
            lines = open(outp).read().split('\n') if os.path.exists(outp) else []
            for m in sorted(set(re.findall(r'(?:WARNING|FATAL ERROR) in native method:? ?(.*)', log))):
                viol.append(dict(case=batch[0], key='jni: ' + m, desc='-Xcheck:jni: ' + m + '\n' + log[log.find(m) - 60:][:1200]))
            if os.environ.get('LG_SLOW'): sys.stderr.write(log)
            finished = 'done' in lines[-2:]; last = None; k = 0; bad = set()
            for ln in lines:
                if ln.startswith('case '): last = int(ln[5:]); k = 0; continue
                if last is None or ln in ('', 'done'): continue
                if last in bad: continue
                es = gens[last][0]
                if k >= len(es): break
                w = judge(es[k], ln)
                if isinstance(w, tuple): known.setdefault(w[1], dict(case=last, key=w[1], desc='case %d: %s' % (last, w[2]))); add('returned offsets beyond the range of int')
                elif w and finished or w and last != batch[-1] and lines.index('case %d' % last) < len(lines) - 40:
                    bad.add(last); viol.append(dict(case=last, key='mismatch', desc='case %d, %r: %s: %s' % (last, [tuple(x) for x in gens[last][1]][:6], show(es[k].cmd)[:200], w)))
                else: add('commands compared')
                k += 1
            if finished:
                done[0] += len(batch); todo = todo[len(batch):]
                for i in batch:
                    if gens[i][2] and len(samples) < 3: samples.append('%r: %d hits' % (gens[i][1][:4], gens[i][2]))
            else:
                summ = core.san_summary(log); m = re.search(r'# Problematic frame:\n# (.*)', log)
                at = last if last is not None else batch[0]
                if last is None and rc != 'timeout' and 'Sanitizer' not in log and not os.path.exists(hs) and re.search(r'Could not|Error occurred during initialization|NoClassDef', log): sys.stderr.write(log); os._exit(2)
                cmd = gens[at][0][k].cmd if k < len(gens[at][0]) else 'end'
                viol.append(dict(case=at, key='crash:%s%s' % (summ, ' ' + m.group(1) if m else ''), desc='the JVM ended with status %s in case %d after its command %d or before (%s): %s\n%s' % (rc, at, k, show(cmd)[:150], m.group(1) if m else summ, log[:2500])))
                done[0] += batch.index(at); todo = todo[batch.index(at) + 1:]; restarts += 1
    finally: shutil.rmtree(root, ignore_errors=True)
    print(json.dumps(dict(done=done[0], stat=stat, distinct={k: sorted(v) for k, v in distinct.items()}, viol=viol + list(known.values()), samples=samples)))
    sys.stdout.flush(); os._exit(0)
done = [0]
main()
