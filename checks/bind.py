"""C25, C26: the Python and the Java bindings against the C interface."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
import core
HERE = os.path.dirname(os.path.abspath(__file__))

def merge(res, out, replay):
    try: j = json.loads(out.strip().split('\n')[-1])
    except ValueError: return False
    res.done += j['done']
    for k, v in j['stat'].items(): res.add(k, v)
    for k, v in j['distinct'].items(): res.distinct.setdefault(k, set()).update(v)
    for s in j['samples'][:3]: res.sample(s)
    for v in j['viol']: res.violation(v['key'], v['desc'], replay(v['case']))
    return True

def children(res, make, count, start, n, limit, replay, case_of=None):
    """n processes, each with every nth case; make(from, count, stride) gives argv and env."""
    tmp = tempfile.mkdtemp(prefix='lgbind-'); live = []; n = max(1, min(n, count)); seq = 0
    def spawn(i, frm, k, restarts):
        nonlocal seq
        argv, env = make(frm, k, n); seq += 1; o, e = os.path.join(tmp, 'o%d' % seq), os.path.join(tmp, 'e%d' % seq)
        p = subprocess.Popen(argv, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=open(o, 'wb'), stderr=open(e, 'wb'), start_new_session=True)
        live.append((p, i, frm, k, restarts, o, e, time.time()))
    try:
        for i in range(n): spawn(i, start + i, (count - i + n - 1) // n, 0)
        while live:
            time.sleep(0.05)
            for x in list(live):
                p, i, frm, k, restarts, o, e, t = x
                rc = p.poll()
                if rc is None and time.time() - t <= limit: continue
                live.remove(x)
                if rc is None: os.killpg(p.pid, signal.SIGKILL); p.wait()
                out, err = open(o, errors='replace').read(), open(e, errors='replace').read()
                if rc == 0 and merge(res, out, replay): continue
                if rc == 2 or rc in (0, 1) and 'Traceback' in err: raise core.Inconclusive('%s failed: %s' % (x[0].args, err[-2500:]))
                at = case_of(i, frm) if case_of else frm
                if rc is None:
                    argv, env = make(at, 1, n)
                    try: subprocess.run(argv, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit / 2); res.notes.append('not done within %d s, stopped in case %s' % (limit, at))
                    except subprocess.TimeoutExpired: res.violation('hang', 'case %s does not end (%d s, twice)' % (at, limit / 2), replay(at))
                    continue
                s = core.san_summary(err)
                res.violation('crash:' + s, 'the process ended with status %s (%s) in case %s\n%s' % (rc, s, at, err[:2500]), replay(at))
                left = k - ((at - frm) // n + 1)
                if restarts < 2 and left > 0: spawn(i, at + n, left, restarts + 1)
    finally:
        for x in live:
            try: os.killpg(x[0].pid, signal.SIGKILL)
            except ProcessLookupError: pass
            x[0].wait()
        shutil.rmtree(tmp, ignore_errors=True)

def libs(*names): return ' '.join(subprocess.check_output(['gcc', '-print-file-name=' + x], text=True).strip() for x in names)

def python(tier, seed, scale, t0):
    import props
    res = core.Result(); work = tempfile.mkdtemp(prefix='lgpysrc-'); thorough = tier == 'thorough'
    try:
        for flavor in ('plain', 'asan'):
            core.build(flavor, 'so')
            d = os.path.join(work, flavor); os.makedirs(os.path.join(d, 'lightgrep'))
            shutil.copy(os.path.join(core.REPO, 'pylightgrep', 'lightgrep', '__init__.py'), os.path.join(d, 'lightgrep'))
            os.symlink(os.path.join(core.BUILD, flavor, 'liblightgrep.so'), os.path.join(d, 'lightgrep', 'liblightgrep.so'))
        for flavor, count, start in (('plain', 60000 if thorough else 3000, 0), ('asan', 6000 if thorough else 320, 10 ** 6)):
            d = os.path.join(work, flavor); count = max(1, int(count * scale))
            env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(d, 'lightgrep'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            if flavor == 'asan':
                env.update(core.SAN_ENV, LD_PRELOAD=libs('libasan.so', 'libstdc++.so.6'), PYTHONMALLOC='malloc')
                env['ASAN_OPTIONS'] = core.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            argv = lambda f, k, n: ([sys.executable, '-B', os.path.join(HERE, 'pychild.py'), d, str(seed), str(f), str(k), str(n)], env)
            def case_of(i, frm, n=min(core.NPROC, count)):
                try: return int(open(os.path.join(d, 'cur.%d' % (frm % n))).read())
                except (OSError, ValueError): return frm
            children(res, argv, count, start, core.NPROC, 10800 if thorough else 400,
                     lambda case, flavor=flavor: 'DIR with lightgrep/__init__.py and lightgrep/liblightgrep.so (%s): LD_LIBRARY_PATH=DIR/lightgrep python3 checks/pychild.py DIR %d %s 1 1' % (flavor, seed, case), case_of)
            res.add(flavor + ' cases', count)
    finally: shutil.rmtree(work, ignore_errors=True)
    return core.finish('C25', res, tier, seed, props.LEVEL.get('C25', 'exploration'),
        'a case builds a program from 1-6 patterns through the Python package, optionally writes and reads it back (from bytes, bytearray, mmap or memoryview whose owner is then dropped), searches random text as bytes-likes of several types and item sizes, in blocks, with several contexts, decodes hit contexts, and uses handles after they are closed; every hit, offset, message, pattern information and decoded text is compared with the C interface; non-trivial: hits found', t0, need=int(200 * scale) or 1)

def java(tier, seed, scale, t0):
    import props
    res = core.Result(); thorough = tier == 'thorough'
    for flavor in ('plain', 'asan'): core.build(flavor, 'java')
    for flavor, count, start in (('plain', 60000 if thorough else 2400, 0), ('asan', 6000 if thorough else 320, 10 ** 6)):
        count = max(1, int(count * scale))
        argv = lambda f, k, n: ([sys.executable, '-B', os.path.join(HERE, 'javachild.py'), core.BUILD, flavor, str(seed), str(f), str(k), str(n)], dict(os.environ))
        children(res, argv, count, start, core.NPROC, 10800 if thorough else 600, lambda case, flavor=flavor: 'python3 checks/javachild.py %s %s %d %s 1 1' % (core.BUILD, flavor, seed, case))
        res.add(flavor + ' cases', count)
    return core.finish('C26', res, tier, seed, props.LEVEL.get('C26', 'exploration'),
        'a case is a script of calls of the Java classes (patterns, programs written and read back, searches of arrays and of heap, direct, sliced and read-only buffers in blocks, contexts, throwing callbacks, bad arguments, destroyed handles) run in a JVM with -Xcheck:jni; each result, hit and exception is compared with the C interface; two cases in 500 repeat calls for memory left behind and take 1.5 million hits in a small heap; non-trivial: hits found', t0, need=int(200 * scale) or 1)
