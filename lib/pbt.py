"""Shared runner of the property checks.

A check is a list of Tests.  A Test has a Hypothesis strategy producing one plain-data case (dict/list/str/int/bytes) and a
function deciding it: fn(ctx, case) returns labels (a list of str; the label 'nontrivial' marks a case that counts) or raises
Violation.  A library crash (ohc.Crash) is a violation as well.  Every random choice comes from Hypothesis seeded with
VERIF_SEED; workers differ only by a fixed per-worker offset.  A failure is shrunk by Hypothesis, replayed three times on
fresh servers, written out as a replay file, and only then reported.
"""
import base64, hashlib, json, multiprocessing as mp, os, queue, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import ohc

class Violation(Exception): pass
class Skip(Exception):
    """The case is outside the property's domain (counted, never hidden)."""

def enc(x):
    if isinstance(x, bytes): return {'$b': x.decode('latin-1')}
    if isinstance(x, dict): return {'$d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple): return {'$t': [enc(v) for v in x]}
    if isinstance(x, (set, frozenset)): return {'$t': sorted(enc(v) for v in x)}
    if isinstance(x, list): return [enc(v) for v in x]
    return x
def dec(x):
    if isinstance(x, dict):
        if '$b' in x: return x['$b'].encode('latin-1')
        if '$d' in x: return {dec(k): dec(v) for k, v in x['$d']}
        if '$t' in x: return tuple(dec(v) for v in x['$t'])
    if isinstance(x, list): return [dec(v) for v in x]
    return x

class Test:
    def __init__(self, name, strategy, fn, quick, thorough=None, weight=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 20

class Ctx:
    """What a test sees: a request server, a private scratch directory, paths of the other built programs."""
    def __init__(self, build, scratch):
        self.build, self.scratch = build, scratch
        exe = os.path.join(build, 'bin', 'ohsrv')
        self.srv = ohc.Server(exe, cwd=scratch) if os.path.exists(exe) else None
        self.cli = os.path.join(build, 'bin', 'ohcount')
        self.cliasan = os.path.join(build, 'bin', 'ohcount_asan')
        self.rubyso = os.path.join(build, 'rubyso')
        self.store = {}
    def run(self, reqs): return self.srv.run(reqs)
    def close(self):
        for v in self.store.values():
            if hasattr(v, 'close'): v.close()
        if self.srv: self.srv.close()

def check(cond, fmt, *a):
    if not cond: raise Violation(fmt % a if a else fmt)

def _size(case): return len(json.dumps(enc(case)))

def _decide(test, ctx, case):
    """(labels, None) or (None, message)."""
    try:
        return (test.fn(ctx, case) or []), None
    except Violation as e: return None, str(e)
    except ohc.Crash as e: return None, 'library crashed: ' + str(e) + '\n' + e.log[:3000]

def _worker(wi, nw, testidx, counts, seed, q, build, scratch, stop_at, tests):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    ctx = None
    try:
        ctx = Ctx(build, scratch)
        for ti in testidx:
            t = tests[ti]
            n = counts[ti]
            if n <= 0: continue
            st = {'eval': 0, 'skip': 0, 'labels': {}, 'seen': set(), 'samples': [], 'best': None, 'first': None, 'late': False}
            def body(case):
                if st['first'] is None and time.time() > stop_at: st['late'] = True; return
                if st['first'] is not None and time.time() > st['first'] + 60: return
                st['eval'] += 1
                try: labels, msg = _decide(t, ctx, case)
                except Skip: st['skip'] += 1; return
                if msg is not None:
                    if st['first'] is None:
                        st['first'] = time.time(); q.put(('failing', wi, ti))
                    k = _size(case)
                    if st['best'] is None or k <= st['best'][0]: st['best'] = (k, case, msg)
                    raise Violation(msg)
                for l in labels: st['labels'][l] = st['labels'].get(l, 0) + 1
                if 'nontrivial' in labels:
                    h = hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
                    if h not in st['seen']:
                        st['seen'].add(h)
                        if len(st['samples']) < 3 and (len(st['seen']) % 37 == 5 or not st['samples']): st['samples'].append(case)
            f = hypothesis.given(t.strategy)(body)
            f = hypothesis.seed((seed * 1000003 + wi * 7919 + ti * 104729) & 0x7fffffffffff)(f)
            f = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                         suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(f)
            try: f()
            except BaseException:
                if st['best'] is None:
                    q.put(('error', wi, ti, traceback.format_exc())); return
            if st['best']:
                q.put(('fail', wi, ti, st['best'][1], st['best'][2]))
                return
            q.put(('done', wi, ti, st['eval'], st['skip'], st['labels'], list(st['seen']), st['samples'], st['late']))
    except BaseException:
        q.put(('error', wi, -1, traceback.format_exc()))
    finally:
        if ctx: ctx.close()
        q.put(('exit', wi))

def build(targets):
    d = tempfile.mkdtemp(prefix='ohv-', dir=os.environ.get('OHC_SCRATCH', '/tmp'))
    os.chmod(d, 0o755)
    r = subprocess.run(['bash', os.path.join(VERIF, 'lib', 'build.sh'), d] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode('utf-8', 'replace')[-6000:])
        shutil.rmtree(d, ignore_errors=True)
        sys.exit('build failed (%d)' % r.returncode)
    return d

def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    except FileNotFoundError: pass
    return out

def main(prop, tests, targets=('srv',), rule='', assumptions=(), extra=None, workers=None, level='exploration', known=None):
    """known: list of (description, fn(ctx) -> bool still failing), each for one listed finding."""
    args = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    scale = 1.0; replay = None; only = None; fast = False
    while args:
        a = args.pop(0)
        if a == '--replay': replay = args.pop(0)
        elif a == '--tier': tier = args.pop(0)
        elif a == '--seed': seed = int(args.pop(0))
        elif a == '--fast': fast = True      # stop at the first failure, unshrunk (mutation runs)
        elif a == '--scale': scale = float(args.pop(0))
        elif a == '--only': only = args.pop(0).split(',')
        else: sys.exit('unknown argument ' + a)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    prebuilt = os.environ.get('OHC_BUILD')
    bd = prebuilt or build(list(targets))
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='ohw-', dir=os.environ.get('OHC_SCRATCH', '/tmp'))
    os.chmod(work, 0o755)
    procs = []
    def cleanup():
        for p in procs:
            if p.is_alive(): p.kill()
        for p in procs: p.join(5)
        shutil.rmtree(work, ignore_errors=True)
        if not prebuilt: shutil.rmtree(bd, ignore_errors=True)
    def onterm(*a): cleanup(); os._exit(143)
    signal.signal(signal.SIGTERM, onterm)
    try:
        if replay:
            r = json.load(open(replay))
            t = [t for t in tests if t.name == r['test']][0]
            msg = fresh(t, dec(r['case']), bd, work)
            if msg: print('VIOLATION property=%s replay=%s' % (prop, replay)); print(msg); return 1
            print('replay: holds'); return 0
        nw = workers or min(8, os.cpu_count() or 1)
        q = mp.get_context('fork').Queue()
        ctxm = mp.get_context('fork')
        idx = [i for i, t in enumerate(tests) if not only or t.name in only]
        counts = {}
        for i in idx:
            n = tests[i].quick if tier == 'quick' else tests[i].thorough
            counts[i] = max(1, int(n * scale / nw))
        stop_at = t0 + (420 if tier == 'quick' else float(os.environ.get('OHC_THOROUGH_S', '780')))
        for w in range(nw):
            sc = os.path.join(work, 'w%d' % w); os.mkdir(sc); os.chmod(sc, 0o755)
            order = idx[w % len(idx):] + idx[:w % len(idx)]
            p = ctxm.Process(target=_worker, args=(w, nw, order, counts, seed, q, bd, sc, stop_at, tests))
            p.start(); procs.append(p)
        agg = {i: {'eval': 0, 'skip': 0, 'labels': {}, 'seen': set(), 'samples': [], 'late': False} for i in idx}
        live = set(range(nw)); fails = []; errors = []; failing = {}
        kill_at = None
        while live:
            try: m = q.get(timeout=1)
            except queue.Empty:
                m = None
                for w in list(live):
                    if not procs[w].is_alive():
                        try: m = q.get(timeout=1); break
                        except queue.Empty:
                            live.discard(w)
                            if not (w in failing or fails): errors.append('worker %d died' % w)
                if m is None:
                    if kill_at and time.time() > kill_at: break
                    continue
            if m[0] == 'exit': live.discard(m[1])
            elif m[0] == 'failing':
                failing[m[1]] = m[2]
                if fast: print('FAILS %s' % tests[m[2]].name); return 1
                if len(failing) == 1:
                    kill_at = time.time() + 120
                    for w in list(live):
                        if w != m[1]: procs[w].kill(); live.discard(w)
            elif m[0] == 'fail': fails.append(m[2:])
            elif m[0] == 'error': errors.append(m[3])
            elif m[0] == 'done':
                _, w, ti, ev, sk, lab, seen, samples, late = m
                a = agg[ti]; a['eval'] += ev; a['skip'] += sk; a['seen'].update(seen); a['late'] |= late
                if len(a['samples']) < 4: a['samples'] += samples[:2]
                for k, v in lab.items(): a['labels'][k] = a['labels'].get(k, 0) + v
            if kill_at and time.time() > kill_at: break
        viol = []
        for ti, case, msg in fails:
            t = tests[ti]
            msgs = [fresh(t, case, bd, work) for _ in range(3)]
            if all(msgs):
                h = hashlib.sha1(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:10]
                rd = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, '%s-%s-%s.json' % (prop, t.name, h))
                json.dump({'property': prop, 'test': t.name, 'message': msgs[0][:4000], 'case': enc(case)}, open(rp, 'w'), indent=1)
                viol.append((rp, t.name, case, msgs[0]))
            else: errors.append('failure of %s did not replay: %s\n%r' % (t.name, msg, case))
        samples = []
        for i in idx:
            for c in agg[i]['samples'][:2]: samples.append({'test': tests[i].name, 'case': repr(c)[:1500]})
        cov = {'evaluations': sum(a['eval'] for a in agg.values()),
               'distinct_nontrivial': sum(len(a['seen']) for a in agg.values()),
               'rule': rule, 'samples': samples,
               'per_test': {tests[i].name: {'evaluations': agg[i]['eval'], 'distinct_nontrivial': len(agg[i]['seen']),
                            'outside_domain': agg[i]['skip'], 'classes': dict(sorted(agg[i]['labels'].items())),
                            'stopped_by_time_guard': agg[i]['late']} for i in idx}}
        kf = []
        if known:
            c = Ctx(bd, work)
            for desc, fn in known:
                if fn(c): print('KNOWN-FINDING: property=%s %s' % (prop, desc)); kf.append(desc)
            c.close()
            cov['known_findings'] = kf
        if extra:
            try: cov.update(extra(bd, work, tier, seed) or {})
            except Violation as e:
                rp = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rp, exist_ok=True)
                rp = os.path.join(rp, '%s-extra.txt' % prop); open(rp, 'w').write(str(e)); viol.append((rp, 'extra', None, str(e)))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - t0, 1), 'build_s': round(tb, 1), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if not only:
            print('%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)' % (prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, tb))
        else:
            print(json.dumps(cov['per_test'], indent=1))
        for rp, tn, case, msg in viol:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  test %s: %s' % (tn, msg[:1500])); print('  case: %s' % repr(case)[:1500])
        if viol: return 1
        if errors:
            print('ERROR'); print(errors[0][-4000:]); return 2
        return 0
    finally:
        cleanup()

def fresh(test, case, bd, work):
    d = tempfile.mkdtemp(prefix='r', dir=work); os.chmod(d, 0o755)
    old = os.environ.get('TMPDIR'); os.environ['TMPDIR'] = d; tempfile.tempdir = d
    c = Ctx(bd, d)
    try:
        try: return _decide(test, c, case)[1]
        except Skip: return None
    finally:
        c.close(); tempfile.tempdir = None
        if old is None: os.environ.pop('TMPDIR', None)
        else: os.environ['TMPDIR'] = old
        shutil.rmtree(d, ignore_errors=True)
