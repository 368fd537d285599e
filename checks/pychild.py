#!/usr/bin/env python3
"""A process that drives the Python bindings (C25): pychild.py DIR SEED FROM COUNT STRIDE THOROUGH

DIR holds a copy of the package lightgrep with the library beside it.  Each case runs random
operations through the bindings and the same ones straight through the C interface (lg.py)."""
import array, ctypes as C, gc, json, mmap, os, random, sys, hashlib, time
DIR, SEED, FROM, COUNT, STRIDE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lg as direct, cli
sys.path.insert(0, DIR)
import lightgrep as LG
assert os.path.dirname(os.path.dirname(os.path.abspath(LG.__file__))) == os.path.abspath(DIR), LG.__file__
L = direct.Lib(os.path.join(DIR, 'lightgrep', 'liblightgrep.so'))
stat = {}; distinct = {}; viol = []; samples = []
def add(k, n=1): stat[k] = stat.get(k, 0) + n
def see(k, v): distinct.setdefault(k, set()).add(hashlib.sha1(repr(v).encode('utf-8', 'replace')).hexdigest()[:16])
class Stop(Exception): pass
CASE = [0, '']
def bad(key, m):
    viol.append(dict(case=CASE[0], key=key, desc='case %d (%s): %s' % (CASE[0], CASE[1], m))); raise Stop()
def raises(what, exc, f, *a):
    try: r = f(*a)
    except exc as e: return str(e)
    except Exception as e: bad('wrong exception', '%s raises %r' % (what, e))
    bad('no exception', '%s returns %r' % (what, r))

JUNK = []
def churn(n):
    """Reuse memory that was given back, so that nothing stale survives unnoticed."""
    gc.collect()
    for _ in range(8): JUNK.append(b'\xcc' * n); JUNK.append(bytearray(b'\xcc' * n))
    del JUNK[:]

def wrap(rng, b, d, what):
    """The bytes b in one of the kinds of buffer Python has."""
    k = rng.choice(['bytes', 'bytearray', 'memoryview', 'view of bytearray', 'slice', 'array B', 'array H', 'array Q', 'view H', 'mmap', 'mmap ro'])
    if k == 'array H' and len(b) % 2 or k == 'view H' and len(b) % 2 or k == 'array Q' and len(b) % 8 or k.startswith('mmap') and not b: k = 'bytes'
    if k == 'bytes': r = bytes(bytearray(b))
    elif k == 'bytearray': r = bytearray(b)
    elif k == 'memoryview': r = memoryview(bytes(bytearray(b)))
    elif k == 'view of bytearray': r = memoryview(bytearray(b))
    elif k == 'slice':
        p, q = rng.choice([0, 8, 16]), rng.randint(0, 9); r = memoryview(bytearray(b'ab' * (p // 2) + b + b'a' * q))[p:p + len(b)]
    elif k == 'array B': r = array.array('B', b)
    elif k == 'array H': r = array.array('H'); r.frombytes(b)
    elif k == 'array Q': r = array.array('Q'); r.frombytes(b)
    elif k == 'view H': r = memoryview(bytearray(b)).cast('H')
    elif k == 'mmap': r = mmap.mmap(-1, len(b)); r[:] = b
    else:
        p = os.path.join(d, 'm'); f = open(p, 'w+b'); f.write(b); f.flush(); r = mmap.mmap(f.fileno(), len(b), access=mmap.ACCESS_READ); f.close(); os.unlink(p)
    add('%s given as %s' % (what, k)); see('buffers', (what, k))
    return r

def ko(o): return direct.KeyOptions(*(bytes([x]) for x in o))
UIDX = [0, 1, 2, 77, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 2**40, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]
def c_errors(e): return L.errors(e)

class Rec:
    """A user's own receiver of hits."""
    def __init__(self): self.hits = []
    def lgCallback(self, hit, info): self.hits.append((hit.Start, hit.End, hit.KeywordIndex, info.pat(), info.encChain(), info.userIdx()))

def case(rng, d):
    encs_all = cli.ENCS
    encs = rng.choice(encs_all); wide = encs != ['US-ASCII']
    def opts(): return (int(rng.random() < 0.15), int(rng.random() < 0.25), int(rng.random() < 0.25))
    def pattern():
        if rng.random() < 0.08: return rng.choice(cli.BAD) or 'a)'
        return cli.gen_pat(rng, wide)
    def chain():
        e = rng.choice(encs) if rng.random() < 0.8 else rng.choice(rng.choice(encs_all))
        k = rng.random()
        if k < 0.06: return rng.choice(['no such encoding', 'UTF-8|nothing', 'ASCII|', 'ROT13', ''])
        if k < 0.16 and e in ('US-ASCII', 'ISO-8859-1', 'KOI8-R'): return e + '|OCE'
        return e.lower() if k < 0.3 else e
    if rng.random() < 0.05:
        raises('Fsm(-1, 0)', ValueError, LG.Fsm, -1, 0); raises('Fsm(0, -1)', ValueError, LG.Fsm, 0, -1); add('negative hints refused')
    depth = rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.8 else None
    L_fsm = L.lg_create_fsm(0, 0); L_pat = L.lg_create_pattern(); live = [(L.lg_destroy_fsm, L_fsm), (L.lg_destroy_pattern, L_pat)]
    route = rng.choice(['list', 'list', 'single', 'single', 'add_patterns'])
    fsm = None; prog = None
    def c_parse(p, o):
        e = C.POINTER(direct.Error)(); k = ko(o); r = L.lg_parse_pattern(L_pat, p.encode(), C.byref(k), C.byref(e)); return r, c_errors(e)
    def c_add(ch, u):
        e = C.POINTER(direct.Error)(); r = L.lg_add_pattern(L_fsm, L_pat, ch.encode(), u, C.byref(e)); return r, c_errors(e)
    def match_error(what, got, errs):
        m, p, ch, src, idx = errs[0]
        for part in (m, p, ch):
            if part is not None and part.decode('utf-8', 'replace') not in got: bad('error text', '%s: %r does not mention %r' % (what, got, part))
        add('error texts compared')
    try:
        if route == 'single':
            fsm = LG.Fsm(rng.choice([0, 1, 10, 1000]), rng.choice([0, 5, 10000])); pat = LG.Pattern(); n = 0
            plen = 0
            for _ in range(rng.randint(1, 8)):
                p, o = pattern(), opts(); plen += len(p)
                if rng.random() < 0.04:
                    q = p[:1] + '\0' + p[1:]; raises('parsing %r' % q, (ValueError, RuntimeError), pat.parse, q, LG.KeyOpts(*map(bool, o))); add('null in a pattern refused')
                r, errs = c_parse(p, o); K = LG.KeyOpts(*map(bool, o))
                if (K.isFixed(), not K.isCaseSensitive(), K.isUnicodeMode()) != tuple(map(bool, o)): bad('KeyOpts', 'KeyOpts%r reads back as something else' % (o,))
                if r <= 0: match_error('parse %r' % p, raises('parsing %r' % p, RuntimeError, pat.parse, p, K), errs); add('refused patterns')
                else: pat.parse(p, K); add('accepted patterns')
                for _ in range(rng.randint(1, 2)):
                    ch, u = chain(), rng.choice(UIDX) if rng.random() < 0.6 else rng.randrange(2**64)
                    if rng.random() < 0.03: raises('encoding with a null', (ValueError, RuntimeError), fsm.add_pattern, pat, ch + '\0x', u); add('null in an encoding refused')
                    ri, errs = c_add(ch, u)
                    if ri < 0: match_error('add %r %r' % (p, ch), raises('adding %r in %r' % (p, ch), RuntimeError, fsm.add_pattern, pat, ch, u), errs); add('refused additions')
                    else:
                        g = fsm.add_pattern(pat, ch, u); n += 1
                        if g != ri: bad('index', 'add_pattern gives %r, lg_add_pattern %r' % (g, ri))
                        add('additions')
                if fsm.count() != n: bad('count', 'fsm.count() is %r after %d additions' % (fsm.count(), n))
            pat.close()
            raises('parse after close', RuntimeError, pat.parse, 'a', LG.KeyOpts()); raises('adding a closed pattern', RuntimeError, fsm.add_pattern, pat, 'UTF-8', 0)
            if depth is None and (n > 2 or plen > 16): depth = 3      # determinization is exponential in depth by design
            if n == 0: raises('program of nothing', RuntimeError, LG.Program, fsm, LG.ProgOpts(3)); add('empty programs refused'); return
        else:
            pl = []; err = None
            for i in range(rng.randint(1, 5)): pl.append((pattern(), [chain() for _ in range(rng.randint(1, 2))], opts()))
            # a collection may be built from several lists, and the positions are those in each list
            lists = [pl]
            if route == 'add_patterns' and len(pl) > 1 and rng.random() < 0.6:
                cut = sorted(rng.sample(range(1, len(pl)), rng.randint(1, min(2, len(pl) - 1)))); lists = [pl[a:b] for a, b in zip([0] + cut, cut + [len(pl)])]
                add('collections of several lists')
            for l in lists:
                for i, (p, cs, o) in enumerate(l):
                    r, errs = c_parse(p, o)
                    if r <= 0: err = errs; break
                    for ch in cs:
                        r, errs = c_add(ch, i)
                        if r < 0: err = errs; break
                    if err: break
                if err: break
            if depth is None and (len(pl) > 2 or sum(len(p) for p, _, _ in pl) > 16): depth = 3
            PO = LG.ProgOpts(depth) if depth is not None else LG.ProgOpts()
            kind = rng.choice([list, tuple])
            pys = [kind((p, cs, LG.KeyOpts(*map(bool, o))) for p, cs, o in l) for l in lists]; py = pys[0]
            if route == 'list':
                if err: match_error('make_program_from_patterns %r' % (pl,), raises('make_program_from_patterns(%r)' % (pl,), RuntimeError, LG.make_program_from_patterns, py, PO), err); add('refused lists'); return
                prog = LG.make_program_from_patterns(py, PO)
            else:
                fsm = LG.Fsm(len(pl), 10)
                with LG.Pattern() as pat:
                    def add_all():
                        for l in pys: fsm.add_patterns(pat, l)
                    if err: match_error('add_patterns', raises('add_patterns(%r)' % (lists,), RuntimeError, add_all), err); add('refused lists'); return
                    add_all()
            add('lists of patterns')
        po = direct.ProgramOptions(depth if depth is not None else 10)
        L_prog = L.lg_create_program(L_fsm, C.byref(po)); live.append((L.lg_destroy_program, L_prog))
        if prog is None:
            prog = LG.Program(fsm, LG.ProgOpts(depth) if depth is not None else LG.ProgOpts())
            if rng.random() < 0.5:
                fsm.close(); raises('program of a closed Fsm', RuntimeError, LG.Program, fsm, LG.ProgOpts()); raises('count of a closed Fsm', RuntimeError, fsm.count)
        info = L.info(L_prog); size = L.lg_program_size(L_prog)
        if prog.count() != len(info): bad('count', 'program count %r, expected %d' % (prog.count(), len(info)))
        if prog.size() != size: bad('size', 'program size %r, expected %d' % (prog.size(), size))
        cb = C.create_string_buffer(size); L.lg_write_program(L_prog, C.addressof(cb)); want = cb.raw
        w = prog.write()
        if bytes(w) != want: bad('write', 'write() differs from lg_write_program (%d and %d bytes)' % (len(w), len(want)))
        progs = [('compiled', prog)]
        if rng.random() < 0.7:
            b = wrap(rng, want, d, 'program')
            p2 = LG.Program(b)
            if isinstance(b, bytearray) and rng.random() < 0.5:
                try: b.extend(b'x' * 4096)        # moves the memory unless that is prevented
                except BufferError: add('resizing a buffer in use refused')
            del b; churn(size); progs.append(('read', p2)); add('programs read back')
            if p2.count() != len(info) or p2.size() != size or bytes(p2.write()) != want: bad('read', 'the program read back differs')
            if rng.random() < 0.3:
                n = rng.randrange(size); t = wrap(rng, want[:n], d, 'truncated program'); raises('program cut to %d of %d' % (n, size), RuntimeError, LG.Program, t); add('truncated programs refused')
            if rng.random() < 0.3: prog.close(); raises('size of a closed program', RuntimeError, prog.size); raises('context of a closed program', RuntimeError, LG.Context, prog, LG.CtxOpts()); progs.pop(0); gc.collect()
        ctxs = [(k, p, LG.Context(p, LG.CtxOpts())) for k, p in progs for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3: progs = prog = p2 = p = None; churn(size)          # the contexts keep their programs
        anyhit = 0
        for rnd in range(rng.randint(1, 4)):
            kind, owner, ctx = rng.choice(ctxs)
            data = cli.encode(rng, cli.gen_text(rng, rng.choice([0, 3, 20, 100, 400])), encs)
            if rng.random() < 0.3: data += bytes(len(data) % 2)
            op = rng.choice(['chunks', 'chunks', 'buffer', 'starts', 'startsbuf'])
            CASE[1] = '%s, %s, %r over %d bytes' % (kind, op, [x[:2] for x in info][:6], len(data))
            off = 0 if op in ('buffer', 'startsbuf') else rng.choice([0, 0, 5, 2**31 - 2, 2**32 - 3, 2**40, 2**63, rng.randrange(2**48)])
            ref = []; rcb = direct.CB(lambda u, h: ref.append((h.contents.start, h.contents.end, h.contents.kw)))
            rc = L.lg_create_context(L_prog, C.byref(direct.ContextOptions(2**64 - 1, 2**64 - 1)))
            dbuf = C.create_string_buffer(data, len(data) or 1); a = C.addressof(dbuf)
            acc = LG.HitAccumulator(); rec = Rec(); own = rng.random() < 0.5 and op not in ('buffer', 'startsbuf'); sink = rec if own else acc
            if op == 'chunks':
                cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.choice([0, 1, 2, 6]))) + [len(data)]; i = 0
                for c in cuts:
                    want_ret = L.lg_search(rc, a + i, a + c, off + i, None, rcb)
                    chunk = wrap(rng, data[i:c], d, 'text'); got = ctx.search(chunk, off + i, sink); del chunk
                    if got != want_ret or isinstance(got, bool) or got is None: bad('return value', 'search() returns %r, lg_search %r (chunk of %d at %d)' % (got, want_ret, c - i, off + i))
                    i = c; add('search calls')
                L.lg_closeout_search(rc, None, rcb); ctx.closeout(sink)
                if rng.random() < 0.3: ctx.closeout(sink)
                ctx.reset()
            elif op == 'buffer':
                L.lg_search(rc, a, a + len(data), 0, None, rcb); L.lg_closeout_search(rc, None, rcb)
                n = ctx.searchBuffer(wrap(rng, data, d, 'text'), acc)
                if n != len(ref): bad('hit count', 'searchBuffer() returns %r, there are %d hits' % (n, len(ref)))
            else:
                L.lg_starts_with(rc, a, a + len(data), off, None, rcb)
                b = wrap(rng, data, d, 'text')
                if op == 'starts': ctx.startswith(b, off, sink)
                else:
                    n = ctx.searchBufferStartswith(b, acc)
                    if n != len(ref): bad('hit count', 'searchBufferStartswith() returns %r, there are %d hits' % (n, len(ref)))
            L.lg_destroy_context(rc)
            exp = [(s, e, k, info[k][0].decode(), info[k][1].decode(), info[k][2]) for s, e, k in ref]
            if own:
                if rec.hits != exp: bad('hits', 'delivered %r, expected %r' % (rec.hits[:4], exp[:4]))
            else:
                if [tuple(h[x] for x in ('start', 'end', 'pattern', 'encChain', 'keywordIndex')) for h in acc.Hits] != [x[:2] + x[3:] for x in exp]: bad('hits', 'recorded %r, expected %r' % (acc.Hits[:4], exp[:4]))
                n = {}
                for x in exp: n[x[3]] = n.get(x[3], 0) + 1
                if dict(acc.KeyCounts) != n: bad('KeyCounts', '%r, expected %r' % (acc.KeyCounts, n))
            anyhit += len(exp); add('operations: ' + op); add('hits compared', len(exp))
            if exp: see('nontrivial', (info, data, op, off))
            if exp and not own and rng.random() < 0.6:
                with LG.HitDecoder() as dec:
                    L_dec = L.lg_create_decoder()
                    for h in rng.sample(acc.Hits, min(3, len(acc.Hits))):
                        size_ = rng.choice([0, 1, 2, 5, 20, 100, 1000]); lo = rng.randint(0, h['start'] - off); hi = rng.randint(h['end'] - off, len(data))
                        u, outer, dh, nbad, errs = L.context(L_dec, data[lo:hi], off + lo, h['start'], h['end'], h['encChain'].encode(), size_, 32)
                        b = wrap(rng, data[lo:hi], d, 'context')
                        f = dec.full_hit_context(b, off + lo, h, size_) if size_ != 100 or rng.random() < 0.5 else dec.full_hit_context(b, off + lo, h)
                        w = dict(context_begin=outer[0], context_end=outer[1], context_hit_begin=dh[0], context_hit_end=dh[1], hit_context=u.decode())
                        if f != w: bad('hit context', '%r, expected %r' % (f, w))
                        if dec.hit_context(b, off + lo, h, window_size=size_) != w['hit_context']: bad('hit context', 'hit_context() differs from full_hit_context()')
                        if nbad == 0 and h['encChain'] == 'UTF-8' and f['hit_context'].encode()[dh[0]:dh[1]] != data[h['start'] - off:h['end'] - off].replace(b'\0', b' '):      # nulls are replaced too
                             bad('hit context', 'hit range gives %r' % f)
                        add('hit contexts compared')
                    if rng.random() < 0.3:
                        h2 = dict(acc.Hits[0], encChain='no such encoding'); e = raises('context in an unknown encoding', RuntimeError, dec.full_hit_context, data, off, h2); add('unknown encodings refused')
                    L.lg_destroy_decoder(L_dec)
                raises('closed decoder', RuntimeError, dec.hit_context, data, off, acc.Hits[0])
            if rng.random() < 0.2: churn(rng.choice([64, 1024, size]))
        kind, owner, ctx = ctxs.pop()
        k = rng.random()
        if k < 0.3:
            ctx.close(); ctx.close()
            for nm, f in (('search', lambda: ctx.search(b'a', 0, LG.HitAccumulator())), ('startswith', lambda: ctx.startswith(b'a', 0, LG.HitAccumulator())), ('closeout', lambda: ctx.closeout(LG.HitAccumulator())), ('reset', ctx.reset)): raises(nm + ' on a closed context', RuntimeError, f)
            if ctx: bad('closed', 'a closed context counts as open')
            add('closed contexts')
        elif k < 0.6:
            owner.close()
            for nm, f in (('search', lambda: ctx.search(b'a', 0, LG.HitAccumulator())), ('startswith', lambda: ctx.startswith(b'a', 0, LG.HitAccumulator())), ('closeout', lambda: ctx.closeout(LG.HitAccumulator())), ('count', owner.count), ('write', owner.write), ('size', owner.size)): raises(nm + ' with a closed program', RuntimeError, f)
            ctx.close(); add('closed programs')
        for _, o, c in ctxs:
            if rng.random() < 0.7: c.close()
            if rng.random() < 0.7: o.close()
        if anyhit and rng.random() < 0.02: samples.append('%r: %d hits' % ([x[:3] for x in info][:4], anyhit))
    finally:
        for f, x in reversed(live): f(x)

def main():
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='lgpy-'); n = 0
    try:
        for k in range(COUNT):
            i = FROM + k * STRIDE; CASE[0] = i; CASE[1] = ''
            with open(os.path.join(DIR, 'cur.%d' % (FROM % STRIDE)), 'w') as f: f.write(str(i))
            t0 = time.time(); rng = random.Random('py:%d:%d' % (SEED, i))
            try: case(rng, d)
            except Stop: pass
            except (TypeError, AttributeError, ValueError, RuntimeError, BufferError, ArithmeticError, LookupError) as e:
                import traceback; t = traceback.format_exc()
                viol.append(dict(case=i, key='exception', desc='case %d (%s): unexpected %r\n%s' % (i, CASE[1], e, t[-1500:])))
            n += 1
            if os.environ.get('LG_SLOW') and time.time() - t0 > 0.5: sys.stderr.write('%d %.1f s %s\n' % (i, time.time() - t0, CASE[1]))
            if len(viol) > 5: break
    finally: shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(dict(done=n, stat=stat, distinct={k: sorted(v) for k, v in distinct.items()}, viol=viol, samples=samples)))
    sys.stdout.flush(); os._exit(0)
main()
