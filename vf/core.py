"""Check framework: a property is a set of clauses; a clause is a Hypothesis strategy for one
JSON-able case plus an oracle over it.  Cases run against the code under test in a worker."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import pickle
import argparse

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARD = int(os.environ.get('VERIF_SHARDS', '8'))
BUDGET = {'quick': 420.0, 'thorough': 6 * 3600.0}
SHRINK_S = {'quick': 40.0, 'thorough': 300.0}

from .client import Worker, Violation, TargetError, TargetCrash, TargetHang, HarnessError  # noqa


class Stop(KeyboardInterrupt):
    """Leaves Hypothesis at once."""


def jdefault(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, complex):
        return {'re': o.real, 'im': o.imag}
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def jdump(o):
    return json.dumps(o, default=jdefault, sort_keys=True)


class Target:
    """What a clause talks to."""

    def __init__(self, worker):
        self.worker = worker
        self.labels = set()
        self._nt = False

    def call(self, path, *a, **k):
        return self.worker.call(path, *a, **k)

    def op(self, name, *a, **k):
        """A compound operation of worker/ops/<file>.py, 'file:func'."""
        return self.worker.call('ops.' + name, *a, **k)

    def raw(self, path, *a, **k):
        return self.worker.raw(path, *a, **k)

    def nontrivial(self, cond=True, *labels):
        if cond:
            self._nt = True
        for l in labels:
            self.labels.add(l)

    def label(self, l):
        self.labels.add(str(l))


class Prop:
    def __init__(self, pid, native=('psparse',), rule='', assumptions=(), threads=1):
        self.pid, self.native, self.rule, self.assumptions, self.threads = pid, sorted({'psparse', 'cf'} | set(native)), rule, list(assumptions), threads
        self.clauses = []

    def clause(self, quick, thorough=None, timeout=120.0, **strategies):
        def deco(fn):
            self.clauses.append(dict(name=fn.__name__, fn=fn, quick=quick,
                                     thorough=thorough or quick * 20, strategies=strategies, timeout=timeout))
            return fn
        return deco

    def get(self, name):
        for c in self.clauses:
            if c['name'] == name:
                return c
        raise KeyError(name)


def check(cond, msg, **ctx):
    if not cond:
        raise Violation(msg + (''.join('\n  %s = %s' % (k, _short(v)) for k, v in ctx.items())))


def _short(v):
    s = repr(v)
    return s if len(s) < 700 else s[:700] + '...'


def close(a, b, msg, rtol=1e-9, atol=1e-9, **ctx):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape) + _ctx(ctx))
    if a.size == 0:
        return
    if a.dtype.kind not in 'biufc':
        raise Violation('%s: non-numeric result %r' % (msg, a))
    if not np.all(np.isfinite(a)):
        if np.all(np.isfinite(b)):
            raise Violation('%s: non-finite result %s, expected %s' % (msg, _short(a), _short(b)) + _ctx(ctx))
    d = np.abs(a - b)
    tol = atol + rtol * np.abs(b)
    bad = ~(d <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, d, -1)), d.shape)
        raise Violation('%s: differs by %g at %s: got %r, expected %r (tol %g)' % (
            msg, d[i], tuple(int(x) for x in i), a[i], b[i], tol[i] if tol.shape else tol) + _ctx(ctx))


def _ctx(ctx):
    return ''.join('\n  %s = %s' % (k, _short(v)) for k, v in ctx.items())


def run_case(prop, cl, case, worker):
    """-> (Target, None) or (Target, failure text)"""
    T = Target(worker)
    worker.call_timeout = cl['timeout']
    try:
        cl['fn'](T, **case)
        return T, None
    except TargetHang as e:
        return T, 'HANG: ' + str(e)
    except Violation as e:
        return T, str(e)
    except (Stop, KeyboardInterrupt):
        raise
    except Exception as e:
        # The oracle could not digest what the code returned.
        return T, 'malformed result: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])


def shard(prop, idx, nshard, seed, tier, build_dir, t_end, only=None):
    """Run every clause of prop with this shard's share of the cases."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    import hypothesis.configuration
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(ROOT, '.build', 'hyp'))
    repo = os.environ.get('VERIF_REPO', '/repo')
    threads = prop.threads if (isinstance(prop.threads, int)) else prop.threads[idx % len(prop.threads)]
    worker = Worker(build_dir, repo=repo, threads=threads)
    out = dict(evals=0, hashes=set(), labels={}, clauses={}, samples=[], failure=None, truncated=[], error=None,
               invalid=0)
    order = prop.clauses[idx % max(1, len(prop.clauses)):] + prop.clauses[:idx % max(1, len(prop.clauses))]
    for cl in order:
        if only and cl['name'] != only:
            continue
        total = cl[tier]
        n = total // nshard + (1 if idx < total % nshard else 0)
        if n == 0:
            continue
        st = dict(evals=0, nontrivial=0, t=0.0)
        fails = []
        t_first = [None]
        t0 = time.time()
        skip = [idx > 0]

        def body(**case):
            if skip[0]:            # every shard would start with the same simplest case: the first shard runs it
                skip[0] = False
                return
            now = time.time()
            if now > t_end:
                raise Stop('budget')
            if t_first[0] is not None and now - t_first[0] > SHRINK_S[tier]:
                raise Stop('shrink')
            T, bad = run_case(prop, cl, case, worker)
            if t_first[0] is None:
                out['evals'] += 1
                st['evals'] += 1
                for l in T.labels:
                    k = cl['name'] + ':' + l
                    out['labels'][k] = out['labels'].get(k, 0) + 1
                if T._nt:
                    js = jdump(case)
                    h = hashlib.blake2b((cl['name'] + js).encode(), digest_size=8).digest()
                    if h not in out['hashes']:
                        out['hashes'].add(h)
                        st['nontrivial'] += 1
                        if st['nontrivial'] in (3, 40) and len(js) < 3000:
                            out['samples'].append(dict(clause=cl['name'], case=json.loads(js)))
            if bad is not None:
                if t_first[0] is None:
                    t_first[0] = time.time()
                fails.append((jdump(case), bad))
                if bad.startswith('HANG'):
                    raise Stop('hang')
                raise Violation(bad)

        digest = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop.pid, cl['name'], idx)).encode()).digest()
        test = given(**cl['strategies'])(body)
        test = settings(max_examples=n + skip[0], deadline=None, database=None, phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example],
                        report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)(test)
        test = hypothesis.seed(int.from_bytes(digest[:8], 'big'))(test)
        try:
            test()
        except Stop as e:
            if str(e) == 'budget' and not fails:
                out['truncated'].append(cl['name'])
        except BaseException as e:  # noqa
            if not fails:
                out['error'] = 'clause %s: %s' % (cl['name'], traceback.format_exc()[-4000:])
                if isinstance(e, KeyboardInterrupt):
                    break
        st['t'] = time.time() - t0
        out['clauses'][cl['name']] = st
        if fails:
            fails.sort(key=lambda f: (len(f[0]), f[0]))
            # Prefer the last failure Hypothesis kept (its own shrink order) if it is as small.
            out['failure'] = dict(clause=cl['name'], case=json.loads(fails[0][0]), message=fails[0][1])
            break
        if out['error']:
            break
    worker.stop()
    return out


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)['findings']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--clause')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.path.insert(0, ROOT)
    try:
        mod = importlib.import_module('checks.' + a.prop.lower())
        prop = mod.P
        from . import build
        bd = build.build(prop.native)
    except Exception:
        traceback.print_exc()
        print('ERROR: harness could not be prepared for %s' % a.prop)
        return 2
    if a.replay:
        return replay(prop, a.replay, bd)
    if a.scale != 1.0:
        for c in prop.clauses:
            c[a.tier] = max(1, int(c[a.tier] * a.scale))
    t_end = t0 + BUDGET[a.tier]
    # Known findings: re-run each listed input, report it if it still fails.
    kf_lines = []
    kfs = [f for f in known_findings() if f['property'] == prop.pid and f.get('status', 'open') == 'open']
    if kfs:
        w = Worker(bd, repo=os.environ.get('VERIF_REPO', '/repo'))
        for f in kfs:
            try:
                _, bad = run_case(prop, prop.get(f['clause']), f['case'], w)
            except KeyError:
                bad = None
            if bad is not None:
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop.pid, f['what']))
        w.stop()
    pids = []
    tmpd = os.path.join(ROOT, '.build', 'tmp')
    os.makedirs(tmpd, exist_ok=True)
    sys.stdout.flush()
    for i in range(NSHARD):
        fn = os.path.join(tmpd, '%s-%d-%d.pkl' % (prop.pid, os.getpid(), i))
        pid = os.fork()
        if pid == 0:
            try:
                r = shard(prop, i, NSHARD, a.seed, a.tier, bd, t_end, a.clause)
            except BaseException:  # noqa
                r = dict(evals=0, hashes=set(), labels={}, clauses={}, samples=[], failure=None, truncated=[],
                         error=traceback.format_exc()[-4000:], invalid=0)
            with open(fn + '.t', 'wb') as fh:
                pickle.dump(r, fh)
            os.rename(fn + '.t', fn)
            os._exit(0)
        pids.append((i, pid, fn))
    res = []
    left = dict((pid, (i, fn)) for i, pid, fn in pids)
    first_fail = None
    while left:
        pid, _ = os.waitpid(-1, 0) if first_fail is None else _wait_some(left, first_fail, SHRINK_S[a.tier])
        if pid is None:
            import signal
            for p in list(left):
                _kill_tree(p)
            for p in list(left):
                os.waitpid(p, 0)
                left.pop(p)
            break
        if pid not in left:
            continue
        i, fn = left.pop(pid)
        try:
            with open(fn, 'rb') as fh:
                r = pickle.load(fh)
            os.unlink(fn)
        except Exception as e:
            r = dict(evals=0, hashes=set(), labels={}, clauses={}, samples=[], failure=None, truncated=[],
                     error='shard %d died: %s' % (i, e), invalid=0)
        res.append((i, r))
        if r['failure'] and first_fail is None:
            first_fail = time.time()
    res.sort(key=lambda x: x[0])
    return finish(prop, a, res, kf_lines, t0)


def _kill_tree(pid):
    import signal
    try:
        kids = open('/proc/%d/task/%d/children' % (pid, pid)).read().split()
    except OSError:
        kids = []
    for k in kids:
        try:
            os.kill(int(k), signal.SIGKILL)
        except OSError:
            pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def _wait_some(left, t_first, grace):
    """After one shard reported a failure give the others a moment, then stop them."""
    while time.time() - t_first < 2.0:
        for p in list(left):
            r, st = os.waitpid(p, os.WNOHANG)
            if r:
                return r, st
        time.sleep(0.05)
    return None, None


def finish(prop, a, res, kf_lines, t0):
    evals = sum(r['evals'] for _, r in res)
    hashes = set().union(*[r['hashes'] for _, r in res]) if res else set()
    labels, clauses = {}, {}
    for _, r in res:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['clauses'].items():
            c = clauses.setdefault(k, dict(evaluations=0, nontrivial=0, cpu_s=0.0))
            c['evaluations'] += v['evals']
            c['nontrivial'] += v['nontrivial']
            c['cpu_s'] = round(c['cpu_s'] + v['t'], 1)
    fails = [r['failure'] for _, r in res if r['failure']]
    errors = [r['error'] for _, r in res if r['error']]
    samples, seen = [], {}
    for _, r in res:
        for s in r['samples']:
            if seen.get(s['clause'], 0) < 2:
                seen[s['clause']] = seen.get(s['clause'], 0) + 1
                samples.append(s)
    trunc = sorted(set(sum([r['truncated'] for _, r in res], [])))
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=prop.rule,
               samples=samples or [dict(note='no non-trivial case reached before the run ended')],
               per_clause=clauses, distribution=dict(sorted(labels.items())))
    if trunc:
        cov['time_budget_reached_in'] = trunc
    ev = dict(property=prop.pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=jdefault)
        fh.write('\n')
    for l in kf_lines:
        print(l)
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
        prop.pid, a.tier, a.seed, evals, len(hashes), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for k, c in sorted(clauses.items()):
            print('   ', k, c)
        for k, v in sorted(labels.items()):
            print('       ', k, v)
    if fails:
        fails.sort(key=lambda f: len(jdump(f)))
        f = fails[0]
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (prop.pid, f['clause']))
        with open(p, 'w') as fh:
            json.dump(dict(property=prop.pid, clause=f['clause'], case=f['case'], message=f['message'], seed=a.seed,
                           replay_cmd='python3-vt -m vf.run %s --replay %s' % (prop.pid, os.path.relpath(p, ROOT))),
                      fh, indent=1)
            fh.write('\n')
        print('clause %s failed:\n%s' % (f['clause'], f['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (prop.pid, os.path.relpath(p, ROOT)))
        return 1
    if errors:
        print('ERROR in harness:\n' + errors[0])
        return 2
    return 0


def replay(prop, path, bd):
    with open(path) as fh:
        r = json.load(fh)
    w = Worker(bd, repo=os.environ.get('VERIF_REPO', '/repo'))
    _, bad = run_case(prop, prop.get(r['clause']), r['case'], w)
    w.stop()
    if bad is None:
        print('%s: the recorded case passes' % prop.pid)
        return 0
    print(bad)
    print('VIOLATION property=%s replay=%s' % (prop.pid, path))
    return 1
