"""Shared driver of the checks: build from /repo's tree, run shards of a monitor,
merge what they observed, classify violations, write evidence."""
import json, os, re, shutil, signal, subprocess, sys, time, tempfile, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LG_REPO', '/repo')
BUILD = os.environ.get('LG_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')
NPROC = min(8, os.cpu_count() or 8)

class Inconclusive(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def build(flavor, *targets):
    t = time.time()
    cmd = ['make', '-s', '-j%d' % NPROC, '-C', HARNESS, 'REPO=' + REPO, 'ROOT=' + BUILD, 'FLAVOR=' + flavor] + list(targets)
    # code generated first: it is a prerequisite the object rules only order on
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise Inconclusive('build of %s %s failed:\n%s' % (flavor, targets, p.stdout[-4000:]))
    log('built %s %s in %.1f s' % (flavor, ' '.join(targets), time.time() - t))

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:exitcode=77:allocator_may_return_null=1:malloc_fill_byte=202:max_malloc_fill_size=4096:hard_rss_limit_mb=3500:detect_odr_violation=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'exitcode=77',
}

class Result:
    def __init__(self):
        self.done = 0
        self.stat = {}
        self.distinct = {}
        self.samples = []
        self.violations = []     # dict(key, desc, replay)
        self.notes = []

    def add(self, k, n=1):
        if k.startswith('max:'):
            self.stat[k] = max(self.stat.get(k, 0), n)
        else:
            self.stat[k] = self.stat.get(k, 0) + n

    def see(self, k, v):
        self.distinct.setdefault(k, set()).add(v)

    def violation(self, key, desc, replay=None):
        self.violations.append(dict(key=key, desc=desc, replay=replay))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

def san_summary(err):
    """A stable name for a sanitizer or crash report: kind and the innermost library frames."""
    kind = ''
    m = re.search(r'SUMMARY: \w+Sanitizer: ([^\s(]+)', err)
    if m: kind = m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if m2: kind = 'ub: ' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m2.group(1))[:90]
    m3 = re.search(r"Assertion '(.*?)' failed|Assertion `(.*?)' failed", err)
    if m3: kind = 'assert: ' + (m3.group(1) or m3.group(2))
    m4 = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m4: kind = 'uncaught: ' + m4.group(1)
    frames = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?/src/(?:lib|cmd|java)/\S+?):\d+', err):
        f = re.sub(r'\(.*', '', m.group(1))
        f = f.split('::')[-1]
        if f not in frames: frames.append(f)
        if len(frames) == 2: break
    return (kind or 'crash') + (' in ' + '<'.join(frames) if frames else '')

def run_lgmon(res, flavor, sub, count, seed, thorough=False, extra=(), nshard=NPROC, stall=90, start=0, wrap=()):
    """count cases of a monitor, sharded; crashes and hangs become violations."""
    exe = os.path.join(BUILD, flavor, 'lgmon')
    tmp = tempfile.mkdtemp(prefix='lgmon-')
    env = dict(os.environ, **SAN_ENV)
    class Shard: pass
    shards = []
    nshard = max(1, min(nshard, count))
    def spawn(s):
        s.out = os.path.join(tmp, 'o%d.%d' % (s.i, s.gen)); s.cur = os.path.join(tmp, 'c%d' % s.i); s.err = os.path.join(tmp, 'e%d' % s.i)
        cmd = list(wrap) + [exe, sub, '--seed', str(seed), '--from', str(s.frm), '--count', str(s.count), '--stride', str(nshard), '--out', s.out, '--cur', s.cur]
        if thorough: cmd.append('--thorough')
        cmd += list(extra)
        s.p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(s.err, 'wb'), cwd=tmp, start_new_session=True,
                               preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) if flavor == 'plain' and not wrap else None)
        s.last = None; s.t = time.time()
    for i in range(nshard):
        s = Shard(); s.i = i; s.gen = 0; s.frm = start + i; s.count = (count - i + nshard - 1) // nshard; s.restarts = 0
        spawn(s); shards.append(s)
    live = list(shards); outs = []
    def replay_cmd(case):
        return '%s %s --seed %d --case %d%s' % (exe, sub, seed, case, ' --thorough' if thorough else '')
    def readcur(s):
        try:
            b = open(s.cur, 'rb').read().decode('utf-8', 'replace')
            n, _, d = b.partition('\n')
            return int(n), d.strip()
        except (OSError, ValueError):
            return None, ''
    def alone(case, limit):
        e = os.path.join(tmp, 'alone')
        try:
            p = subprocess.run(list(wrap) + [exe, sub, '--seed', str(seed), '--case', str(case)] + (['--thorough'] if thorough else []) + list(extra), env=env,
                               stdout=subprocess.DEVNULL, stderr=open(e, 'wb'), timeout=limit, cwd=tmp)
            return p.returncode, open(e, errors='replace').read()
        except subprocess.TimeoutExpired:
            return None, ''
    def carry_on(s, case):
        # leave the failing case out and go on after it
        if case is None or s.restarts >= 3: return
        k = (case - s.frm) // nshard + 1
        if s.count - k <= 0: return
        s.frm += k * nshard; s.count -= k; s.restarts += 1; s.gen += 1
        spawn(s); live.append(s)
    try:
        while live:
            time.sleep(0.05)
            for s in list(live):
                rc = s.p.poll()
                if rc is None:
                    case, desc = readcur(s)
                    if (case, desc) != s.last: s.last = (case, desc); s.t = time.time()
                    elif time.time() - s.t > stall:
                        os.killpg(s.p.pid, signal.SIGKILL); s.p.wait(); live.remove(s)
                        outs.append(s.out)
                        rc2, e2 = alone(case, 2 * stall)
                        if rc2 is None:
                            res.violation('hang:' + desc, 'does not return (%d s, twice): %s' % (stall, desc), replay_cmd(case))
                        elif rc2 in (0, 1):
                            res.notes.append('case %s of %s stalled once but finished alone' % (case, sub))
                        carry_on(s, case)
                    continue
                live.remove(s); outs.append(s.out)
                if rc in (0, 1): continue
                err = open(s.err, errors='replace').read()
                case, desc = readcur(s)
                if rc == 2 and case is None: raise Inconclusive('monitor %s failed: %s' % (sub, err[-2000:]))
                if desc == '(finished)' and rc == 66:     # ThreadSanitizer reports at exit
                    res.violation('race: ' + san_summary(err), 'ThreadSanitizer: ' + err[:3000], replay_cmd(s.frm)); continue
                summ = san_summary(err)
                res.violation('crash:%s:%s' % (summ, desc), 'stopped with status %s (%s) during: %s\n%s' % (rc, summ, desc, err[:2500]), replay_cmd(case if case is not None else s.frm))
                carry_on(s, case)
        for o in outs:
            try: lines = open(o).read().splitlines()
            except OSError: continue
            for ln in lines:
                try: j = json.loads(ln)
                except ValueError: continue
                if j['kind'] == 'violation':
                    res.violation(j['key'], j['desc'], replay_cmd(j['case']))
                elif j['kind'] == 'summary':
                    res.done += j['done']
                    for k, v in j['stat'].items():
                        res.add(k, v)
                    for k, v in j['distinct'].items():
                        res.distinct.setdefault(k, set()).update(v)
                    for x in j['samples'][:3]: res.sample(x)
    finally:
        for s in shards:
            if s.p.poll() is None:
                os.killpg(s.p.pid, signal.SIGKILL); s.p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', ln)
            if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known

def finish(prop, res, tier, seed, level, rule, t0, assumptions=(), evaluations=None, nontrivial=None, need=1):
    nt = len(res.distinct.get('nontrivial', ())) if nontrivial is None else nontrivial
    ev = res.done if evaluations is None else evaluations
    known = [k for k in load_known() if k[0] == prop]
    fresh, seen_known = [], {}
    for v in res.violations:
        for k in known:
            if v['key'] == k[1]:
                seen_known[k[1]] = k[2]; break
        else:
            fresh.append(v)
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=rule, samples=res.samples or ['(none)'],
               observed={k: v for k, v in sorted(res.stat.items())},
               distinct={k: len(v) for k, v in sorted(res.distinct.items())})
    if res.notes: cov['inconclusive'] = res.notes[:20]
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    with open(ev_path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions),
                       wall_s=round(time.time() - t0, 2), violations=len(fresh)), f, indent=1)
        f.write('\n')
    for k in known:       # listed findings, seen again or not by this run's workload
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    print('%s %s seed %d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' % (prop, tier, seed, ev, nt, len(fresh), time.time() - t0))
    print('observed: ' + ', '.join('%s=%d' % kv for kv in sorted(res.stat.items()))[:1500])
    if fresh:
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:10]):
            path = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f: json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            print('  ' + v['desc'][:700].replace('\n', '\n  '))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    if nt < need:
        print('INCONCLUSIVE: only %d non-trivial cases observed, %d needed' % (nt, need))
        return 2
    return 0
