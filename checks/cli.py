"""Checks of the command line tool (C20-C24, C28): its output against the library called through ctypes."""
import itertools
import concurrent.futures as cf, hashlib, math, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback, multiprocessing
import core, lg
from core import Result, build, finish, Inconclusive

LIB = None
SAN = ('asan',)

def lib():
    global LIB
    if LIB is None: LIB = lg.Lib(os.path.join(core.BUILD, 'plain', 'liblightgrep.so'))
    return LIB

# ---------------------------------------------------------------- running cases in worker processes
class Out:
    """What one case observed; sent back to the parent."""
    def __init__(self): self.stat = {}; self.see_ = []; self.viol = []; self.samples = []
    def add(self, k, n=1): self.stat[k] = self.stat.get(k, 0) + n
    def see(self, k, v): self.see_.append((k, hashlib.sha1(repr(v).encode('utf-8', 'replace')).hexdigest()[:16]))
    def violation(self, key, desc, replay=None): self.viol.append((key, desc, replay))

def _one(a):
    fn, seed, case, flavor, root = a
    o = Out(); d = os.path.join(root, '%s-%d' % (flavor, case)); os.mkdir(d)
    rng = random.Random('%s:%s:%d:%d' % (fn.__name__, flavor, seed, case))
    try:
        fn(rng, o, d, flavor)
    except Exception:
        o.viol.append(('exception', 'INTERNAL ' + traceback.format_exc(), None))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return case, o

def run_cases(res, fn, seed, count, flavor, limit=400, start=0):
    root = tempfile.mkdtemp(prefix='lgcli-')
    t = time.time()
    ctx = multiprocessing.get_context('fork')
    ex = cf.ProcessPoolExecutor(core.NPROC, mp_context=ctx)
    try:
        futs = {ex.submit(_one, (fn, seed, c, flavor, root)): c for c in range(start, start + count)}
        try:
            for f in cf.as_completed(futs, timeout=limit):
                try: case, o = f.result()
                except cf.process.BrokenProcessPool:
                    res.violation('oracle-crash', 'the library crashed in the process that computes the expected output (%s)' % fn.__name__); break
                res.done += 1
                for k, v in o.stat.items(): res.add(k, v)
                for k, v in o.see_: res.see(k, v)
                for s in o.samples: res.sample(s)
                for key, desc, rep in o.viol:
                    if key == 'exception': raise Inconclusive(desc)
                    res.violation(key, desc, dict(case=case, seed=seed, flavor=flavor, check=fn.__name__, **(rep or {})))
                if len(res.violations) > 20: break
        except cf.TimeoutError:
            left = sorted(c for f, c in futs.items() if not f.done())
            res.violation('hang', '%s: %d cases did not finish in %d s, first %s' % (fn.__name__, len(left), limit, left[:5]))
    finally:
        for p in list(getattr(ex, '_processes', {}).values()):
            try: p.kill()
            except Exception: pass
        ex.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(root, ignore_errors=True)
    core.log('%s %s %d cases %.1f s' % (fn.__name__, flavor, count, time.time() - t))

def tool(flavor): return os.path.join(core.BUILD, flavor, 'lightgrep')

def run(o, flavor, args, cwd, stdin=b'', limit=120):
    """The tool; a crash, sanitizer report or hang is a violation whatever it was asked to do."""
    env = dict(os.environ, **core.SAN_ENV)
    try:
        p = subprocess.run([tool(flavor)] + args, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        o.violation('hang', 'lightgrep %s did not finish in %d s' % (show(args), limit), dict(args=[repr(a) for a in args])); return None
    o.add('runs of the tool')
    err = p.stderr.decode('utf-8', 'replace')
    if p.returncode not in (0, 1) or 'Sanitizer' in err or 'runtime error:' in err:
        o.violation('crash:' + core.san_summary(err), 'lightgrep %s: status %s\n%s' % (show(args), p.returncode, err[:3000]), dict(args=[repr(a) for a in args]))
        return None
    return p

def show(args): return ' '.join(a if isinstance(a, str) else repr(a) for a in args)

# ---------------------------------------------------------------- patterns, key files and texts
ENCS = [['US-ASCII'], ['UTF-8'], ['UTF-16LE'], ['ISO-8859-1'], ['UTF-8', 'UTF-16LE'], ['UTF-16BE', 'US-ASCII'], ['windows-1252', 'UTF-32LE'], ['UTF-8|OCE'], ['KOI8-R', 'UTF-8']]
PYENC = {'US-ASCII': 'latin-1', 'UTF-8': 'utf-8', 'UTF-16LE': 'utf-16-le', 'UTF-16BE': 'utf-16-be', 'ISO-8859-1': 'latin-1', 'WINDOWS-1252': 'cp1252', 'UTF-32LE': 'utf-32-le', 'KOI8-R': 'koi8-r'}
OCE = None

def gen_pat(rng, wide, depth=0):
    n = rng.randint(1, 3); s = ''
    for _ in range(n):
        k = rng.random()
        if k < 0.55: a = rng.choice('aabbcd')
        elif k < 0.68: a = rng.choice(['[ab]', '[a-c]', '[^a]', '\\w', '.', '\\d'])
        elif k < 0.78 and depth < 2: a = '(' + gen_pat(rng, wide, depth + 1) + ('|' + gen_pat(rng, wide, depth + 1) if rng.random() < 0.5 else '') + ')'
        elif k < 0.84: a = rng.choice(['\\n', '\\t', '\\r', '\\x20', ' ', '\\v', '\\a', '\\x0C'])
        elif k < 0.88 and wide: a = rng.choice(['é', 'ß', '€', 'я', '𝄞', '[é-ü]'])
        else: a = rng.choice('abcd')
        if rng.random() < 0.25: a += rng.choice(['?', '+', '*', '{2}', '+?', '{1,2}'])
        s += a
    return s

BAD = ['a(', '[', 'x**{', 'a{3,1}', '(?=a)b', 'a*', '\\p{nosuch}', 'b?', '+a', '']

def gen_class(rng):
    """A class of any bytes and characters, all of , - . / 0 in it or none of them: the two in the middle separate the parts of a label."""
    def one():
        while True:
            x = rng.choice([0, 1, 9, 10, 0x1f, 0x20, 0x21, 0x22, 0x2b, 0x31, 0x5b, 0x5c, 0x5d, 0x61, 0x7e, 0x7f, 0x80, 0xc3, 0xfe, 0xff, rng.randrange(256)])
            y = min(255, x + rng.choice([1, 2, 3, rng.randrange(256)]))
            if not (0x2c <= x <= 0x30 or 0x2c <= y <= 0x30): break
        f = rng.choice(['\\z%02X', '\\x%02X', '\\z%02X'])
        if f[1] == 'x' and (x > 126 or y > 126): f = '\\z%02X'
        return f % x if rng.random() < 0.5 or x == y else f % x + '-' + f % y
    return rng.choice(['', 'b', 'c']) + '[' + rng.choice(['', '', '', '^']) + ''.join(one() for _ in range(rng.randint(1, 4))) + ']'

def gen_text(rng, n, eol=None):
    """Lines of words over a small alphabet, as characters."""
    out = []
    eol = eol or rng.choice(['\n', '\n', '\r\n', 'mix'])
    while sum(map(len, out)) < n:
        line = ''.join(rng.choice('aaabbbcccd d12 \té€я\v\a' if rng.random() < 0.3 else 'aabbccd ') for _ in range(rng.randint(0, 14)))
        e = rng.choice(['\n', '\r\n', '\r', '\n\n']) if eol == 'mix' else eol
        out.append(line + e)
    s = ''.join(out)
    if rng.random() < 0.5: s = s.rstrip('\r\n')
    return s

def encode(rng, s, encs):
    """The text in one of the encodings, or pieces in several, with some junk."""
    if rng.random() < 0.6: return s.encode(PYENC.get(rng.choice(encs).split('|')[0].upper(), 'utf-8'), 'replace')
    out = b''; i = 0
    while i < len(s):
        j = i + rng.randint(1, 40)
        out += s[i:j].encode(PYENC.get(rng.choice(encs).split('|')[0].upper(), 'utf-8'), 'replace'); i = j
        if rng.random() < 0.1: out += bytes(rng.randrange(256) for _ in range(rng.randint(1, 3)))
    return out

class Pats:
    """A choice of patterns: the arguments that give them to the tool, and the same for the library."""
    def __init__(self, rng, d, bad=0.1, encs=None, columns=True, plain=False, classes=0, ctl=0):
        self.encs = encs or rng.choice(ENCS); self.fixed = rng.random() < 0.15; self.ci = rng.random() < 0.25
        wide = not all(e in ('US-ASCII',) for e in self.encs)
        def one():
            if rng.random() < bad: return rng.choice(BAD)
            if ctl and rng.random() < ctl: return rng.choice(['', 'a', '[ab]?']) + rng.choice(['[\\x01-\\x1F]', '[\\x07-\\x0D]{1,3}', '[\\x0B\\x0C]+', '[^a-c]', '.', '\\x1B', '\v\\f', '\x07', '\x0c+']) + rng.choice(['', '', 'b', '.'])
            if classes and rng.random() < classes: return gen_class(rng) + rng.choice(['', '', gen_pat(rng, wide), 'a' + gen_class(rng)])
            return ''.join(rng.choice('abcd') for _ in range(rng.randint(1, 3))) if plain else gen_pat(rng, wide)
        self.args = []; self.pos = []; self.lists = []; self.multi = False
        if self.encs != ['US-ASCII'] or rng.random() < 0.3:
            for e in self.encs: self.args += [rng.choice(['-e', '--encoding']), e if rng.random() < 0.7 else e.lower()]
        if self.ci: self.args.append(rng.choice(['-i', '--ignore-case']))
        if self.fixed: self.args.append(rng.choice(['-F', '--fixed-strings']))
        if rng.random() < 0.4:
            ps = [one() for _ in range(rng.randint(1, 4))]; ps = [p for p in ps if p] or ['ab']
            for p in ps:
                if rng.random() < 0.5: self.args += ['-p', p]
                else: self.args.append('--pattern=' + p)
            self.lists = [(b'', '\n'.join(ps).encode() + b'\n')]
        else:
            n = rng.choice([1, 1, 2, 3]); files = []
            for i in range(n):
                ls = []
                for _ in range(rng.randint(1, 5)):
                    p = one()
                    if columns and rng.random() < 0.4:
                        p += '\t' + ','.join(rng.choice(ENCS)[0] for _ in range(rng.randint(1, 2)))
                        if rng.random() < 0.6:
                            p += '\t' + rng.choice('01')
                            if rng.random() < 0.6: p += '\t' + rng.choice('01')
                    ls.append(p)
                t = '\n'.join(ls).encode() + (b'\n' if rng.random() < 0.7 else b'')
                name = os.path.join(d, 'keys%d' % i)
                open(name, 'wb').write(t); files.append(name); self.lists.append((name.encode(), t))
            if n == 1 and rng.random() < 0.6: self.pos = files
            else:
                for f in files: self.args += [rng.choice(['-k', '--keywords']), f]
            self.multi = n > 1 and not self.pos
        # unlimited determinization grows exponentially with a pattern by design, so only small sets get it
        self.depth = rng.randint(0, 4) if sum(len(t) for _, t in self.lists) > 80 or rng.random() < 0.2 else None
        if self.depth is not None: self.args.append('--determinize-depth=%d' % self.depth)
    def compile(self):
        return lib().compile_lists(self.lists, [e.upper().encode() for e in self.encs], int(self.fixed), int(self.ci), 0, 0xffffffff if self.depth is None else self.depth)
    def error_lines(self, errs):
        return [((src + b', ') if self.multi else b'') + b'pattern %d %s %s: %s' % (idx, pat or b'', ch or b'', msg) for msg, pat, ch, src, idx in errs]

def hit_cols(info, h):
    p, ch, user = info[h[2]]
    return b'%d\t%d\t%d\t%s\t%s' % (h[0], h[1], user, p, ch)

def esc3(s): return s.replace(b'\t', b'\\t').replace(b'\n', b'\\n').replace(b'\r', b'\\r')

def context_range(data, s, e, B, A):
    """Where the context of a hit begins and ends, by the rule of README: B lines before, A lines after, -1 for none."""
    if B < 0: cb = s
    else:
        cb = s
        for i in range(B + 1):
            nl = data.rfind(b'\n', 0, cb if i == 0 else cb - 1)
            if nl < 0: cb = 0; break
            cb = nl + 1
    if A < 0: ce = e
    else:
        ce = e - 1; i = 0
        while i <= A:
            nl = data.find(b'\n', ce + 1)
            if nl < 0: ce = len(data); break
            ce = nl; i += 1
        if e < ce < len(data) and data[ce - 1:ce] == b'\r': ce -= 1
    return cb, ce

def context(dec, data, h, info, B, A):
    """(offset, text of the context, text of the hit)"""
    cb, ce = context_range(data, h[0], h[1], B, A)
    u, outer, dh, bad, errs = lib().context(dec, data[cb:ce], cb, h[0], h[1], info[h[2]][1], ce - cb)
    py = PYENC.get(info[h[2]][1].decode())
    if py:      # where all of it is valid text, no decoder of the library is needed
        try:
            pre, mid, post = (data[a:b].decode(py if info[h[2]][1] != b'US-ASCII' else 'ascii') for a, b in ((cb, h[0]), h[:2], (h[1], ce)))
            if py[:5] not in ('utf-1', 'utf-3'):      # else the leading part may also be decoded from another alignment
                u2 = (pre + mid + post).replace('\0', '\ufffd').encode()
                if u2 != u: return cb, u2, mid.replace('\0', '\ufffd').encode()
        except UnicodeDecodeError: pass
    return cb, u, u[dh[0]:dh[1]]

class Inputs:
    """Files, directories, lists and standard input to search, with the arguments that name them."""
    def __init__(self, rng, d, encs, stdin_ok=True, big=False, variants=0.1, ctl=False):
        self.args = []; self.pos = []; self.stdin = b''; self.order = []     # (printed path, data), None for unordered groups
        def data():
            k = rng.random()
            if k < 0.08: return b''
            if variants > 0.3 and rng.random() < 0.4: return encode(rng, gen_text(rng, rng.randint(1, 12)), encs)
            if ctl: return encode(rng, ''.join(rng.choice('\a\b\f\v\t\r\x01\x1b\x1f\x7f') if rng.random() < 0.2 else c for c in gen_text(rng, rng.randint(1, 200))), encs)
            n = rng.randint(1, 60) if k < 0.4 else rng.randint(60, 900) if k < 0.97 or not big else rng.randint(3000, 7000)
            return encode(rng, gen_text(rng, n), encs)
        self.recursive = rng.random() < 0.2; self.unordered = False
        files = []; last = [b'']
        def next_data():
            # an input may be nearly the same as the one before, so that hits are in the same places
            b = last[0]
            if b and rng.random() < variants:
                b = bytes(c ^ 32 if chr(c).isalpha() and c < 128 and rng.random() < 0.3 else 97 + (c - 96) % 3 if c in b'abc' and rng.random() < 0.15 else c for c in b); self.variants += 1
            else: b = data()
            last[0] = b; return b
        self.variants = self.links = 0
        for i in range(rng.choice([1, 1, 2, 3])):
            p = os.path.join(d, rng.choice(['in%d', 'in %d.txt', 'ïn%d', '-in%d' if False else 'x%d']) % i); b = next_data(); open(p, 'wb').write(b)
            if rng.random() < 0.06: os.rename(p, p + '.real'); os.symlink(p + '.real', p); self.links += 1
            files.append((p, b))
        items = [[f] for f in files]
        if rng.random() < (0.7 if self.recursive else 0.15):
            top = os.path.join(d, 'dir'); os.makedirs(os.path.join(top, 'sub', 'empty')); g = []
            for i in range(rng.randint(0, 3)):
                p = os.path.join(top, rng.choice(['', 'sub']), 'f%d' % i)
                if rng.random() < 0.25:      # a link to a file is a file
                    if files and rng.random() < 0.5: q, b = rng.choice(files)
                    else: q, b = os.path.join(d, 'target%d' % i), data(); open(q, 'wb').write(b)
                    os.symlink(q, p); self.links += 1
                else: b = data(); open(p, 'wb').write(b)
                g.append((p, b))
            items.append(('dir', top, g))
        rng.shuffle(items)
        use_stdin = stdin_ok and rng.random() < 0.25; use_list = rng.random() < 0.25
        names = []
        for it in items:
            if it[0] == 'dir':
                names.append((it[1], it[2] if self.recursive else [])); self.unordered |= self.recursive and len(it[2]) > 1
            else: names.append((it[0][0], it))
        if use_stdin:
            self.stdin = data()
            if rng.random() < 0.5 and not use_list: self.order = [('(standard input)', self.stdin)]; self.kind = 'stdin'; self.path = False; return
            at = rng.randint(0, len(names)); names.insert(at, ('-', [('(standard input)', self.stdin)]))
            if rng.random() < 0.3: names.insert(rng.randint(at + 1, len(names)), ('-', []))       # standard input is read once only
        if self.recursive: self.args.append(rng.choice(['-r', '--recursive']))
        listed = []
        if use_list:
            k = rng.randint(1, len(names)); listed, names = names[:k], names[k:]
            lf = os.path.join(d, 'list'); open(lf, 'wb').write('\n'.join(n for n, _ in listed).encode() + (b'\n' if rng.random() < 0.7 else b''))
            self.args += [rng.choice(['-a', '--arg-file']), lf]
        self.pos = [n for n, _ in names]
        for n, g in listed + names: self.order += g
        self.kind = 'list' if listed else 'files'; self.path = True

def assemble(rng, opts, pos, dashdash=True):
    """Options and positional arguments in a random arrangement that means the same."""
    if dashdash and pos and rng.random() < 0.2: return opts + ['--'] + pos
    if rng.random() < 0.3 and pos: return pos[:1] + opts + pos[1:]
    return opts + pos if rng.random() < 0.5 else pos + opts

def sanitized(p): return b'Sanitizer' in p.stderr

# ---------------------------------------------------------------- C21
def c_output(rng, o, d, flavor):
    huge = flavor == 'plain' and rng.random() < 0.004
    ps = Pats(rng, d, plain=huge, columns=not huge, encs=['UTF-8'] if huge else None); prog, errs = ps.compile()
    inp = Inputs(rng, d, ps.encs, big=flavor == 'plain')
    if huge:      # a file of several blocks of the default size, with text around the places where they join
        b = bytearray(b'-' * rng.randint((8 << 20) - 3, 26 << 20))
        for at in [8 << 20, 16 << 20, 24 << 20] + [rng.randrange(len(b)) for _ in range(5)]:
            t = gen_text(rng, 60).encode(); i = max(0, at - rng.randrange(60)); b[i:i + len(t)] = t[:max(0, len(b) - i)]
        p = os.path.join(d, 'huge'); open(p, 'wb').write(b); inp.order.append((p, bytes(b))); inp.pos.append(p); inp.path = True
        if inp.kind == 'stdin': inp.order.pop(0); inp.stdin = b''; inp.kind = 'files'
        o.add('inputs of several default blocks')
    o.add('inputs which vary another one', inp.variants); o.add('links to files', inp.links)
    opts = list(ps.args) + inp.args
    bs = rng.choice([None, 1, 2, 3, 5, 16, 64, 1000, 4096]); mm = False
    if huge: bs = None
    if bs and sum(len(b) for _, b in inp.order) > 5000: bs = max(bs, 64)
    if bs: opts += rng.choice([['--block-size', str(bs)], ['--block-size=%d' % bs]])
    if rng.random() < 0.3 and inp.kind != 'stdin' and '-' not in inp.pos: opts.append('--mmap'); mm = True
    path = inp.path
    k = rng.random()
    if k < 0.2: opts.append(rng.choice(['-H', '--with-filename'])); path = True
    elif k < 0.5: opts.append(rng.choice(['-h', '--no-filename'])); path = False
    noout = rng.random() < 0.08; verbose = rng.random() < 0.2 or noout
    if noout: opts.append('--no-output')
    if verbose: opts.append('--verbose')
    outf = None
    if rng.random() < 0.2: outf = os.path.join(d, 'out'); opts += rng.choice([['-o', outf], ['--output=' + outf]])
    if rng.random() < 0.2: opts += rng.choice([['-c', 'search'], ['--command=search']])
    args = assemble(rng, opts, ps.pos + inp.pos)
    p = run(o, flavor, args, d, inp.stdin)
    if p is None: return
    rep = dict(args=args, keys=[repr(t) for t in ps.lists], inputs=[(n, b[:4000].hex()) for n, b in inp.order])
    def bad(m): o.violation('output', 'lightgrep %s: %s; stderr %r' % (show(args), m, p.stderr[:300]), rep)
    if not prog:
        o.add('no accepted pattern')
        if p.returncode == 0: bad('exit 0 without an accepted pattern')
        return
    if p.returncode != 0: bad('exit %d' % p.returncode); lib().lg_destroy_program(prog); return
    info = lib().info(prog); blocks = []; total = 0
    for name, data in inp.order:
        hs = lib().search(prog, data); total += len(hs)
        blocks.append(sorted(((name.encode() + b'\t') if path else b'') + hit_cols(info, h) for h in hs))
    lib().lg_destroy_program(prog)
    got = open(outf, 'rb').read() if outf else p.stdout
    if outf and p.stdout: bad('output on stdout although -o was given: %r' % p.stdout[:200])
    lines = got.split(b'\n')
    if lines.pop() != b'': bad('last line not terminated')
    if noout: blocks = []
    if inp.unordered:
        flat = sorted(x for b in blocks for x in b)
        ok = sorted(lines) == flat
        if path:      # hits of one file stay together
            seq = [x.split(b'\t', 1)[0] for x in lines]; runs = [x for i, x in enumerate(seq) if i == 0 or seq[i - 1] != x]
            ok = ok and (len(runs) == len(set(runs)) or len(set(n for n, _ in inp.order)) < len(inp.order))
    else:
        i = 0; ok = len(lines) == sum(map(len, blocks))
        for b in blocks:
            ok = ok and sorted(lines[i:i + len(b)]) == b; i += len(b)
    if not ok:
        want = [x for b in blocks for x in b]
        miss = [x for x in want if x not in set(lines)][:4]; extra = [x for x in lines if x not in set(want)][:4]
        bad('%d lines, expected %d; missing %r, unexpected %r' % (len(lines), len(want), miss, extra)); return
    if verbose:
        m = re.search(rb'(\d+) bytes\n', p.stderr); n = re.search(rb'\n(\d+) hits?\n', p.stderr)
        if not m or int(m.group(1)) != sum(len(b) for _, b in inp.order): bad('bytes searched reported as %s, are %d' % (m and m.group(1), sum(len(b) for _, b in inp.order)))
        if not n or int(n.group(1)) != total: bad('hits reported as %s, are %d' % (n and n.group(1), total))
        o.add('verbose totals compared')
    o.add('hit lines compared', len(lines)); o.add('inputs searched', len(inp.order)); o.add('input kind: ' + inp.kind + (' recursive' if inp.recursive and inp.kind != 'stdin' else '')); o.add('mmap' if mm else 'block size %s' % (bs or 'default'))
    if total: o.see('nontrivial', (args[:0], ps.lists, [b for _, b in inp.order], bs, mm)); o.see('argument shapes', sorted(re.sub(r'[\d/].*', '', a) for a in opts if a.startswith('-')))
    if total and rng.random() < 0.02: o.samples.append(show(args)[:300] + ' -> %d lines' % len(lines))

# ---------------------------------------------------------------- C22
def c_context(rng, o, d, flavor):
    ps = Pats(rng, d, bad=0.02); prog, errs = ps.compile()
    if not prog: return
    n = rng.choice([1, 1, 2]); files = []
    for i in range(n):
        p = os.path.join(d, 'f%d' % i); b = encode(rng, gen_text(rng, rng.choice([0, 5, 30, 150, 500])), ps.encs)[:3000]
        if rng.random() < 0.1: b = b''
        open(p, 'wb').write(b); files.append((p, b))
    A = B = -1; opts = list(ps.args)
    def num(): return rng.choice([0, 0, 1, 1, 2, 3, 7, 100, 2147483646, 2147483647]) if rng.random() < 0.3 else rng.choice([0, 1, 2, 3])
    k = rng.random()
    if k < 0.4: A = B = num(); opts += rng.choice([['-C', str(A)], ['--context', str(A)], ['-C%d' % A]])
    elif k < 0.6: A = num(); opts += rng.choice([['-A', str(A)], ['--after-context=%d' % A]])
    elif k < 0.8: B = num(); opts += rng.choice([['-B', str(B)], ['--before-context=%d' % B]])
    else:
        A, B = num(), num(); x = [['-A', str(A)], ['-B', str(B)]]; rng.shuffle(x); opts += x[0] + x[1]
    sep = b'--'
    if rng.random() < 0.3: s = rng.choice(['', '==', '#####', ' ', '\\n', 'é', 'a\tb']); sep = s.encode(); opts.append('--group-separator=' + s) if s else opts.extend(['--group-separator', ''])
    if sep == b'' : opts = [x for x in opts if x != '--group-separator' and x != ''] ; sep = b'--'   # an empty value is refused by the option parser
    path = True
    if rng.random() < 0.4: opts.append('-h'); path = False
    hist = None
    if rng.random() < 0.3: hist = os.path.join(d, 'hist'); opts += ['--histogram-file', hist]
    if rng.random() < 0.3: opts += ['--block-size', str(rng.choice([1, 7, 4096]))]
    args = assemble(rng, opts, ps.pos + [f for f, _ in files], False)
    p = run(o, flavor, args, d)
    if p is None: lib().lg_destroy_program(prog); return
    rep = dict(args=args, keys=[repr(t) for t in ps.lists], inputs=[(n, b.hex()) for n, b in files])
    def bad(m): o.violation('context', 'lightgrep %s: %s; stderr %r' % (show(args), m, p.stderr[:300]), rep)
    info = lib().info(prog); dec = lib().lg_create_decoder(); blocks = []; total = 0; counts = {}; cut = 0
    for name, data in files:
        b = []
        for h in lib().search(prog, data):
            off, txt, hit = context(dec, data, h, info, B, A)
            b.append(((name.encode() + b'\t') if path else b'') + hit_cols(info, h) + b'\t%d\t' % off + esc3(txt)); total += 1; cut += off > 0
            key = (hit, info[h[2]][2], info[h[2]][0]); counts[key] = counts.get(key, 0) + 1
        blocks.append(sorted(b))
    lib().lg_destroy_decoder(dec); lib().lg_destroy_program(prog)
    lines = p.stdout.split(b'\n'); 
    if lines.pop() != b'' or p.returncode: bad('exit %d, output %r' % (p.returncode, p.stdout[:200])); return
    seps, hits = lines[1::2], lines[0::2]
    if len(hits) != total or any(s != sep for s in seps) or len(seps) != max(0, total - 1): bad('%d hit lines and %d separators, expected %d hits: %r' % (len(hits), len(seps), total, lines[:4])); return
    i = 0
    for b in blocks:
        g = sorted(hits[i:i + len(b)]); i += len(b)
        if g != b:
            j = next(j for j in range(len(b)) if g[j] != b[j]); bad('got %r, expected %r' % (g[j][:400], b[j][:400])); return
    if hist: check_hist(o, open(hist, 'rb').read(), counts, bad)
    o.add('hits with context compared', total); o.add('contexts that begin inside the file', cut); o.add('A=%s B=%s' % (A if A < 4 else 'large', B if B < 4 else 'large'))
    if total: o.see('nontrivial', (ps.lists, files, A, B, sep, path))
    if total and rng.random() < 0.02: o.samples.append(show(args)[:200] + ' -> ' + repr(hits[0][:120]))

# ---------------------------------------------------------------- C23
HESC = {7: b'\\a', 8: b'\\b', 9: b'\\t', 10: b'\\n', 11: b'\\v', 12: b'\\f', 13: b'\\r'}
def hesc(s): return b''.join(HESC.get(c, bytes([c])) for c in s)

def check_hist(o, text, counts, bad):
    lines = text.split(b'\n')
    if lines.pop() != b'': bad('histogram: last line not terminated'); return False
    want = sorted(((-n, u, t, p) for (t, u, p), n in counts.items()))
    exp = [b'%d\t%s\t%d\t%s' % (-n, hesc(t), u, hesc(p)) for n, u, t, p in want]
    if sorted(lines) != sorted(exp):
        bad('histogram: %d lines, expected %d; missing %r, unexpected %r' % (len(lines), len(exp), [x for x in exp if x not in lines][:3], [x for x in lines if x not in exp][:3])); return False
    # order: count descending, then user index, then hit text; patterns that tie on all three in any order
    keys = {}
    for w, x in zip(want, exp): keys.setdefault(x, w[:3])
    ks = [keys[x] for x in lines]
    if ks != sorted(ks): bad('histogram: wrong order: %r' % lines[:6]); return False
    o.add('histogram lines compared', len(lines)); o.add('histogram counts above 1', sum(1 for w in want if w[0] < -1))
    return True

def c_histogram(rng, o, d, flavor):
    ctl = rng.random() < 0.25
    ps = Pats(rng, d, bad=0.02, plain=not ctl and rng.random() < 0.3, ctl=ctl and 0.5); prog, errs = ps.compile()
    if not prog: return
    inp = Inputs(rng, d, ps.encs, variants=0.5, ctl=ctl)
    o.add('inputs which vary another one', inp.variants); o.add('links to files', inp.links)
    hist = os.path.join(d, 'hist'); opts = list(ps.args) + inp.args + ['--histogram-file', hist]
    if rng.random() < 0.2: open(hist, 'w').write('old contents\n' * 50)
    bs = rng.choice([1, 2, 3, 4, 7, 16, 50, 333, None])
    if bs: opts += ['--block-size', str(bs)]
    if rng.random() < 0.2 and inp.kind != 'stdin' and '-' not in inp.pos: opts.append('--mmap'); bs = 'mmap'
    if rng.random() < 0.5: opts.append('--no-output')
    args = assemble(rng, opts, ps.pos + inp.pos, False)
    p = run(o, flavor, args, d, inp.stdin)
    rep = dict(args=args, keys=[repr(t) for t in ps.lists], inputs=[(n, b.hex()) for n, b in inp.order])
    def bad(m): o.violation('histogram', 'lightgrep %s: %s; stderr %r' % (show(args), m, p.stderr[:300]), rep)
    if p is None: lib().lg_destroy_program(prog); return
    if p.returncode: bad('exit %d' % p.returncode)
    info = lib().info(prog); dec = lib().lg_create_decoder(); counts = {}; span = 0; total = 0
    for name, data in inp.order:
        for h in lib().search(prog, data):
            _, _, hit = context(dec, data, h, info, -1, -1)
            key = (hit, info[h[2]][2], info[h[2]][0]); counts[key] = counts.get(key, 0) + 1; total += 1
            if isinstance(bs, int) and h[0] // bs != (h[1] - 1) // bs: span += 1
    lib().lg_destroy_decoder(dec); lib().lg_destroy_program(prog)
    if not p.returncode and check_hist(o, open(hist, 'rb').read(), counts, bad):
        o.add('hits counted', total); o.add('hits that span blocks', span); o.add('block size %s' % (bs or 'default'))
        if counts: o.see('nontrivial', (ps.lists, [b for _, b in inp.order], bs))
        if total and rng.random() < 0.02: o.samples.append(show(args)[:300] + ' -> %d lines for %d hits' % (len(counts), total))

# ---------------------------------------------------------------- C24
def c_program(rng, o, d, flavor):
    ps = Pats(rng, d, bad=0.3); prog, errs = ps.compile()
    f = os.path.join(d, 'text'); data = encode(rng, gen_text(rng, rng.choice([0, 40, 400, 3000])), ps.encs); open(f, 'wb').write(data)
    want_err = ps.error_lines(errs)
    rep = dict(keys=[repr(t) for t in ps.lists], args=ps.args, input=data.hex())
    def bad(m, p, args): o.violation('program', 'lightgrep %s: %s; stderr %r' % (show(args), m, p.stderr[:600]), rep)
    def errlines(p): return [x for x in p.stderr.split(b'\n') if re.match(rb'(?:.*, )?pattern \d+ ', x)]
    # validate
    args = assemble(rng, ps.args + rng.choice([['-c', 'validate'], ['--command', 'validate']]), ps.pos, False); p = run(o, flavor, args, d)
    if p is None: return
    if (p.returncode != 0) != bool(errs): bad('exit %d with %d refused patterns' % (p.returncode, len(errs)), p, args)
    if p.stderr.split(b'\n')[:-1] != want_err: bad('errors, expected %r' % want_err, p, args)
    o.add('validations'); o.add('error lines compared', len(errs))
    # the errors of a search are the same
    sargs = assemble(rng, ps.args + ['-h'], ps.pos + [f], False); ps_ = run(o, flavor, sargs, d)
    if ps_ is None: return
    if errlines(ps_) != want_err: bad('errors of a search, expected %r' % want_err, ps_, sargs)
    # a program file
    pf = os.path.join(d, 'prog'); args = assemble(rng, ps.args + ['-c', 'program', '--binary'] + rng.choice([['-o', pf], ['--output', pf]]), ps.pos, False)
    p = run(o, flavor, args, d)
    if p is None: return
    if errlines(p) != want_err: bad('errors of the program command, expected %r' % want_err, p, args)
    if not prog:
        if p.returncode == 0: bad('exit 0 without an accepted pattern', p, args)
        if ps_.returncode == 0: bad('search without an accepted pattern: exit 0', ps_, sargs)
        o.add('no accepted pattern'); return
    lib().lg_destroy_program(prog)
    if p.returncode: bad('exit %d' % p.returncode, p, args); return
    args = rng.choice([['--program-file', pf], ['--program-file=' + pf]]) + ['-h'] + (['-C', '1'] if rng.random() < 0.2 else []) + [f]
    more = args[-3:-1] if args[-3] == '-C' else []
    q = run(o, flavor, args, d)
    ref = run(o, flavor, sargs + more, d) if more else ps_
    if q is None or ref is None: return
    if q.returncode or sorted(q.stdout.split(b'\n')) != sorted(ref.stdout.split(b'\n')): bad('exit %d; output %r, from the patterns themselves %r' % (q.returncode, q.stdout[:300], ref.stdout[:300]), q, args)
    size = os.path.getsize(pf)
    if rng.random() < 0.4:     # a truncated program is refused
        tf = os.path.join(d, 'trunc'); n = rng.randrange(size); open(tf, 'wb').write(open(pf, 'rb').read()[:n])
        r = run(o, flavor, ['--program-file', tf, f], d)
        if r is None: return
        if r.returncode == 0 or r.stdout: bad('a program file cut to %d of %d bytes was searched with' % (n, size), r, ['--program-file'])
        o.add('truncated program files refused')
    if rng.random() < 0.2:     # the listings, watched by the sanitizers
        for c in ('graph', 'program'):
            r = run(o, flavor, assemble(rng, ps.args + ['-c', c], ps.pos, False), d)
            if r is None: return
            if r.returncode or not r.stdout: bad('%s command: exit %d, %d bytes' % (c, r.returncode, len(r.stdout)), r, [c])
            if c == 'graph': check_graph(r.stdout, lambda m: bad(m, r, ['graph']))
            o.add(c + ' listings')
    n = q.stdout.count(b'\n'); o.add('hit lines compared', n)
    if n or errs: o.see('nontrivial', (ps.lists, ps.args, data))
    if n and rng.random() < 0.02: o.samples.append('%d-byte program of %r: %d hit lines' % (size, ps.lists[0][1][:80], n))

def check_graph(text, bad):
    """A digraph in dot's language whose edges join declared vertices."""
    t = text.decode('utf-8', 'replace')
    if not t.startswith('digraph') or not t.rstrip().endswith('}'): bad('not a digraph: %r' % t[:80]); return
    vs = set(re.findall(r'^\s*(\d+) *(?:\[.*)?;?$', t, re.M)); es = re.findall(r'^\s*(\d+) *-> *(\d+)', t, re.M)
    if not es: bad('graph without edges: %r' % t[:200])
    for a, b in es:
        if vs and (a not in vs or b not in vs): bad('edge %s->%s joins an undeclared vertex' % (a, b)); return

# ---------------------------------------------------------------- C28
def readings(lab):
    """The sets of bytes that a label may mean: runs of consecutive bytes in rising order, printed as a, ab or a-c."""
    toks = {}
    def token(i):
        r = []
        if i < len(lab) and 33 <= lab[i] <= 126: r.append((lab[i], i + 1))
        m = re.match(rb'\\x([0-9A-F]{2})', lab[i:i + 4])
        if m and not 33 <= int(m.group(1), 16) <= 126: r.append((int(m.group(1), 16), i + 4))
        return r
    out = set()
    def go(i, low, acc):
        if len(out) > 7: return
        if i == len(lab):
            if acc: out.add(tuple(acc))
            return
        for a, j in token(i):
            if a < low: continue
            if lab[j:j + 1] == b'-':
                for b, k in token(j + 1):
                    if b > a + 1: go(k, b + 2, acc + [(a, b)])
            for b, k in token(j):
                if b == a + 1: go(k, b + 2, acc + [(a, b)])
            go(j, a + 2, acc + [(a, a)])
    go(0, 0, [])
    if not out:      # one of two bytes, in any order
        for a, j in token(0):
            for b, k in token(j):
                if k == len(lab): out.add(((a, a), (b, b)))
    return sorted(out, key=len)      # 'x-y' is rather a range

class Graph:
    """A drawing of an automaton, read back: the edges of a vertex in order of priority, a set of bytes and perhaps a pattern on each."""
    def __init__(self, text, npat, bad, choice=()):
        """choice says which reading to take of labels that can be read in several ways, the first one if it says nothing."""
        self.ok = False; self.ambiguous = {}; self.match = set(); self.edges = {}; self.patterns = {}
        lines = text.split(b'\n')
        if not lines[0].startswith(b'digraph') or lines[-2:] != [b'}', b'']: bad('not a whole digraph'); return
        vs = set(); memo = {}
        for l in lines[1:-2]:
            m = re.fullmatch(rb'\s*(\d+) \[(.*)\];', l)
            if m:
                vs.add(int(m.group(1)))
                if b'peripheries=2' in m.group(2): self.match.add(int(m.group(1)))
                if b'label="%s"' % m.group(1) not in m.group(2): bad('vertex named otherwise: %r' % l); return
                continue
            m = re.fullmatch(rb'\s*(\d+) -> (\d+) \[label="((?:[^"\\]|\\.)*)", taillabel="(\d+)"\];', l)
            if not m:
                if b'->' in l: bad('edge of another form: %r' % l); return
                continue
            a, b, pri = int(m.group(1)), int(m.group(2)), int(m.group(4)); lab = re.sub(rb'\\(.)', rb'\1', m.group(3))
            if a not in vs or b not in vs: bad('edge %d -> %d joins an undeclared vertex' % (a, b)); return
            if lab not in memo:
                rs = []; i = lab.rfind(b'/')
                if i > 0 and lab[i + 1:].isdigit() and int(lab[i + 1:]) < npat: rs = [(r, int(lab[i + 1:])) for r in readings(lab[:i])]
                rs += [(r, None) for r in readings(lab)]
                if not rs: bad('edge with the label %r, which names no set of bytes' % lab); return
                memo[lab] = rs
            rs = memo[lab]
            if len(rs) > 1: self.ambiguous[lab] = len(rs)
            runs, pat = rs[dict(choice).get(lab, 0)]
            if b in self.patterns and self.patterns[b] != (runs, pat): bad('vertex %d is entered by different labels' % b); return
            self.patterns[b] = (runs, pat)
            e = self.edges.setdefault(a, [])
            if pri != len(e): bad('edges of vertex %d are numbered out of order' % a); return
            e.append((b, pat))
        if 0 not in vs or not self.match: bad('no beginning or no end in the graph'); return
        self.next = {}; self.ok = True
    def step(self, v, byte):
        r = self.next.get((v, byte))
        if r is None: r = self.next[v, byte] = [(b, pat) for b, pat in self.edges.get(v, ()) if any(x <= byte <= y for x, y in self.patterns[b][0])]
        return r
    def first(self, data, s, k):
        """The end of the match of pattern k from s which the order of edges prefers."""
        threads = [(0, None)]; end = None
        for i in range(s, len(data)):
            new = []; seen = set(); cut = False
            for v, lab in threads:
                for u, pat in self.step(v, data[i]):
                    l = lab if pat is None else pat
                    if l is not None and l != k or (u, l) in seen: continue
                    seen.add((u, l)); new.append((u, l))
                    if u in self.match and l == k: end = i + 1; cut = True; break
                if cut: break
            threads = new
            if not threads: break
        return end
    def hits(self, data, npat):
        r = []
        for k in range(npat):
            s = 0
            while s < len(data):
                e = self.first(data, s, k)
                if e is None: s += 1
                else: r.append((s, e, k)); s = e
        return sorted(r)

def c_graph(rng, o, d, flavor):
    ps = Pats(rng, d, bad=0.1, classes=rng.choice([0, 0, 0.4])); prog, errs = ps.compile()
    out = os.path.join(d, 'g'); to_file = rng.random() < 0.3
    args = assemble(rng, ps.args + rng.choice([['-c', 'graph'], ['--command', 'graph'], ['--command=graph']]) + (['-o', out] if to_file else []), ps.pos, False)
    rep = dict(keys=[repr(t) for t in ps.lists], args=args)
    p = run(o, flavor, args, d)
    def bad(m): o.violation('graph', 'lightgrep %s: %s; stderr %r' % (show(args), m, p.stderr[:300]), rep)
    if p is None: return
    if (p.returncode != 0) != (not prog): bad('exit %d with %s accepted pattern' % (p.returncode, 'an' if prog else 'no'))
    errlines = [x for x in p.stderr.split(b'\n') if re.match(rb'(?:.*, )?pattern \d+ ', x)]
    if errlines != ps.error_lines(errs): bad('errors, expected %r' % ps.error_lines(errs))
    if not prog or p.returncode: return
    info = lib().info(prog); text = open(out, 'rb').read() if to_file else p.stdout
    g = Graph(text, len(info), bad)
    if g.ok:
        gs = [g]
        if g.ambiguous: o.add('graphs with a label that can be read in two ways')
        o.add('graphs read back'); o.add('vertices', len(g.patterns) + 1); o.add('edges', sum(map(len, g.edges.values())))
        for _ in range(2):
            data = encode(rng, gen_text(rng, rng.choice([10, 40, 150])), ps.encs)
            if rng.random() < 0.5: data = g_text(rng, g, data)
            want = sorted(lib().search(prog, data)); got = g.hits(data, len(info))
            if got != want and g.ambiguous:
                if len(gs) == 1:
                    # only these make sets with - or / at an end of a run of bytes: then all readings must have been tried before the graph is blamed
                    odd = re.search(rb'(?i)oce|\\\\[wdsp]', repr((ps.lists, ps.args)).encode())
                    unsure = odd and (len(g.ambiguous) > 8 or max(g.ambiguous.values()) > 7 or math.prod(g.ambiguous.values()) > 256)
                    labs = sorted(g.ambiguous, key=len, reverse=True)[:8]
                    gs = [Graph(text, len(info), lambda m: None, tuple(zip(labs, c))) for c in itertools.islice(itertools.product(*(range(g.ambiguous[l]) for l in labs)), 256)]
                gs = [x for x in gs if x.ok and x.hits(data, len(info)) == want] or gs
                if gs[0].ok: got = gs[0].hits(data, len(info)); o.add('texts for which another reading was tried')
                if got != want and unsure: o.add('texts given up, too many readings'); continue
            o.add('texts run through a graph'); o.add('hits compared', len(want))
            if got != want:
                rep['input'] = data.hex()
                bad('the graph, run over %r, has the hits %r; a search has %r' % (data, [h for h in got if h not in want][:4], [h for h in want if h not in got][:4])); break
            if want: o.see('nontrivial', (ps.lists, ps.args, data))
        if rng.random() < 0.02: o.samples.append(show(args)[:200] + ' -> %d vertices' % (len(g.patterns) + 1))
    lib().lg_destroy_program(prog)

def g_text(rng, g, data):
    """Random walks through the graph between pieces of other text."""
    out = bytearray()
    for _ in range(rng.randint(1, 6)):
        v = 0
        for _ in range(rng.randint(1, 25)):
            es = g.edges.get(v)
            if not es or v in g.match and rng.random() < 0.3: break
            v = rng.choice(es)[0]; x, y = rng.choice(g.patterns[v][0]); out.append(rng.randint(x, y))
        i = rng.randint(0, len(data)); out += data[i:i + rng.randint(0, 4)]
    return bytes(out)

# ---------------------------------------------------------------- C20
ATOMS = {'[ab]': 'ab', '[a-c]': 'abc', '[b-d]': 'bcd', '[^b]': None, '\\d': '0123456789', '\\w': None, '[0-9a]': '0123456789a', '\\.': '.', '\\x7E': '~', '\\[': '['}
REPS = {'?': (0, 1), '*': (0, None), '+': (1, None), '{2}': (2, 2), '{1,3}': (1, 3), '{2,}': (2, None), '??': (0, 1), '*?': (0, None), '+?': (1, None), '{1,2}?': (1, 2)}
# bytes outside the letters, for the encodings in which a character is a byte
BYTE_ATOMS = {'\\z00': '\0', '\\zFF': '\xff', '\\z80': '\x80', '\\z7F': '\x7f', '\\z20': ' ', '[\\zFE\\zFF]': '\xfe\xff', '[\\z80-\\z9F]': ''.join(map(chr, range(0x80, 0xA0))),
              '[\\z00\\zFF]': '\0\xff', '[\\z1F-\\z21]': '\x1f !', '[\\x01-\\x09]': ''.join(map(chr, range(1, 10))), '[\\x7E\\x7F]': '~\x7f', '[/-0]': '/0', '[@-A]': '@A', '[Z-\\[]': 'Z[', '[`-a]': '`a', '[z-{]': 'z{', '[9:]': '9:', '[}~]': '}~'}

def py_pat(rng, depth=0, bytes_=False):
    """A random pattern and what it means: a tree for ends()."""
    def atom():
        k = rng.random()
        if k < 0.5 or depth > 2: c = rng.choice('abcd'); return c, ('c', c)
        if k < 0.65:
            c = rng.choice(sorted(ATOMS) + (sorted(BYTE_ATOMS) if bytes_ and rng.random() < 0.7 else []))
            return c, ('c', c)
        t, n = py_pat(rng, depth + 1, bytes_); return '(' + t + ')', n
    def piece():
        t, n = atom()
        if rng.random() < 0.35: r = rng.choice(sorted(REPS)); t += r; n = ('r', n) + REPS[r]
        return t, n
    alts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])): alts.append([piece() for _ in range(rng.randint(1, 4))])
    return '|'.join(''.join(t for t, _ in a) for a in alts), ('a', [('s', [n for _, n in a]) for a in alts])

def char_in(c, spec, ci):
    def one(x):
        if spec == '[^b]': return x != 'b'
        if spec == '\\w': return x.isascii() and (x.isalnum() or x == '_')
        return x in (ATOMS.get(spec) or BYTE_ATOMS.get(spec) or spec)
    if ci and spec == '[^b]': return c not in 'bB'
    return one(c) or (ci and c.isascii() and (one(c.lower()) or one(c.upper())))

def ends(n, s, starts, ci):
    """All positions at which a match of n that begins at one of starts can end."""
    if n[0] == 'c': return {i + 1 for i in starts if i < len(s) and char_in(s[i], n[1], ci)}
    if n[0] == 's':
        for x in n[1]: starts = ends(x, s, starts, ci)
        return starts
    if n[0] == 'a': return set().union(*(ends(x, s, starts, ci) for x in n[1]))
    lo, hi = n[2], n[3]; cur = set(starts)
    for _ in range(lo): cur = ends(n[1], s, cur, ci)
    out = set(cur); k = lo
    while cur and (hi is None or k < hi):
        cur = ends(n[1], s, cur, ci) - (out if hi is None else set()); out |= cur; k += 1
    return out

def fullmatch(n, s, ci): return len(s) in ends(n, s, {0}, ci)

def c_sample(rng, o, d, flavor):
    enc = rng.choice(['US-ASCII', 'US-ASCII', 'UTF-8', 'ISO-8859-1', 'UTF-16LE']); ci = rng.random() < 0.2; fixed = rng.random() < 0.1
    for _ in range(50):
        both = [py_pat(rng, 0, enc in ('US-ASCII', 'ISO-8859-1')) for _ in range(rng.choice([1, 1, 1, 2, 3]))]; pats = [t for t, _ in both]
        trees = [('s', [('c', x) for x in t]) for t in pats] if fixed else [n for _, n in both]
        if not any(fullmatch(n, '', ci) for n in trees): break
    else: return
    if enc == 'UTF-16LE' and any('[^' in p for p in pats) and not fixed: return
    n = rng.choice([0, 1, 3, 15, 60]); loops = rng.choice([None, 0, 1, 1, 2, 3, 6])
    args = []
    for p in pats: args += ['-p', p]
    args += ['-e', enc, '-c', 'sample'] + (['-i'] if ci else []) + (['-F'] if fixed else [])
    # unlimited determinization grows exponentially with a pattern by design, so only small ones get it
    if sum(map(len, pats)) > 40 or rng.random() < 0.4: args += ['--determinize-depth', str(rng.randint(0, 3))]
    args += [str(n)] + ([] if loops is None else [str(loops)])
    p = run(o, flavor, args, d, limit=60)
    if p is None: return
    rep = dict(args=args)
    if p.returncode or p.stderr: o.violation('sample', 'lightgrep %s: exit %d, %r' % (show(args), p.returncode, p.stderr[:300]), rep); return
    out = p.stdout
    # a sample may itself hold a newline: split the output into pieces that are all matches, if there is a way
    lines = out.split(b'\n'); lines.pop()
    codec = {'US-ASCII': 'latin-1', 'ISO-8859-1': 'latin-1', 'UTF-8': 'utf-8', 'UTF-16LE': 'utf-16-le'}[enc]
    def is_match(b):
        try: s = b.decode(codec)
        except UnicodeDecodeError: return False
        return any(fullmatch(n, s, ci) for n in trees)
    ok = [True] + [False] * len(lines); back = [0] * (len(lines) + 1); far = 0
    for j in range(1, len(lines) + 1):
        for i in range(j - 1, max(-1, j - 12), -1):
            if ok[i] and is_match(b'\n'.join(lines[i:j])): ok[j] = True; back[j] = i; far = j; break
    if not ok[len(lines)]:
        o.violation('sample', 'lightgrep %s: printed %r, which is no match of %s' % (show(args), lines[far][:200], ' or '.join(pats)), rep); return
    parts = []; j = len(lines)
    while j > 0: parts.append(b'\n'.join(lines[back[j]:j])); j = back[j]
    if n == 0 and parts: o.violation('sample', 'lightgrep %s: %d samples, none asked for' % (show(args), len(parts)), rep)
    if n > 0 and loops != 0 and not parts: o.violation('sample', 'lightgrep %s: no sample at all' % show(args), rep)
    # where a sample can hold a newline, the output can be split in several ways
    if not any('[^' in p for p in pats) and len(set(parts)) != len(parts): o.violation('sample', 'lightgrep %s: a sample was printed twice' % show(args), rep)
    o.add('samples verified', len(parts)); o.add('loop limit %s' % loops)
    if parts: o.see('nontrivial', tuple(parts))
    if rng.random() < 0.02: o.samples.append(show(args) + ' -> ' + repr(parts[:3]))

# ---------------------------------------------------------------- the checks
def cli_check(prop, fn, quick, thorough, quick_asan, thorough_asan, need, rule, assumptions=()):
    def check(tier, seed, scale, t0):
        build('plain', 'cli', 'so'); build('asan', 'cli')
        res = Result(); q = tier == 'quick'
        run_cases(res, fn, seed, max(8, int((quick if q else thorough) * scale)), 'plain', 300 if q else 20000)
        if len(res.violations) < 5: run_cases(res, fn, seed, max(8, int((quick_asan if q else thorough_asan) * scale)), 'asan', 300 if q else 20000, start=10000000)
        return finish(prop, res, tier, seed, 'exploration', rule, t0, assumptions=assumptions, need=int(need * min(1, scale)) or 1)
    return check
