"""Runs the sub-properties of one property with Hypothesis.

Exit status: 0 the property held on everything explored, 1 a violation was
found (a VIOLATION line names the replay file), 2 the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _setup_path(builddir):
    # the code under test first, Hypothesis last (its site-packages also hold
    # another numpy, which must not shadow the project's)
    sys.path[:] = [p for p in sys.path if p not in ('', builddir)]
    sys.path.insert(0, builddir)
    sys.path.insert(1, VERIF)
    if HYPO not in sys.path:
        sys.path.append(HYPO)


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == prop and e['status'] == 'known']


# --------------------------------------------------------------------------
def _classify(exc):
    """'violation' or 'harness' for an exception leaving a body."""
    from vlib.core import Violation, CaseHang
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, CaseHang):
        return 'hang'
    if isinstance(exc, MemoryError):
        return 'harness'
    if isinstance(exc, OSError) and exc.errno in (28, 12, 24, 23):
        return 'harness'
    if type(exc).__module__.startswith('hypothesis'):
        return 'harness'
    return 'violation'


def _message(exc):
    from vlib.core import Violation
    if isinstance(exc, Violation):
        return str(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in frames[-4:]]
    return 'unexpected %s: %s [%s]' % (type(exc).__name__, str(exc)[:300], ' < '.join(reversed(where)))


def run_case(sub, case, ctx):
    """Execute one case; returns None or (kind, message)."""
    from vlib.core import CaseHang
    try:
        if sub.hang:
            signal.setitimer(signal.ITIMER_REAL, sub.hang)
        try:
            sub.body(case, ctx)
        finally:
            if sub.hang:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseHang as e:
        return ('hang', 'a case did not finish within %s s' % sub.hang)
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:      # includes SystemExit raised by the code under test
        if type(e).__module__.startswith('hypothesis') or type(e).__name__ in ('StopTest', 'UnsatisfiedAssumption'):
            raise
        return (_classify(e), _message(e))
    return None


class _Found(Exception):
    pass


def _alarm(signum, frame):
    from vlib.core import CaseHang
    raise CaseHang()


def empty(scratch):
    """Every case starts in an empty scratch directory."""
    os.chdir(scratch)
    for e in list(os.scandir(scratch)):
        if e.is_dir(follow_symlinks=False):
            shutil.rmtree(e.path, ignore_errors=True)
        else:
            os.unlink(e.path)


def _worker(task, conn):
    """Runs one shard in a forked child; result through a pipe."""
    modname, subname, n, seed, scratch, known, deadline = task
    out = {'sub': subname, 'seed': seed, 'error': None, 'failure': None}
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get('VERIF_SHOW'):
            os.dup2(devnull, 2)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        os.environ['HOME'] = scratch
        signal.signal(signal.SIGALRM, _alarm)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        from vlib.core import Ctx, dumps, brief
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given
        mod = importlib.import_module(modname)
        sub = [s for s in mod.SUBS if s.name == subname][0]
        ctx = Ctx(known)
        ctx.scratch = scratch
        state = {'fail': None, 'skipped': 0, 'hangs': 0, 'first': None}

        def test(case):
            if time.time() > deadline:
                state['skipped'] += 1
                return
            ctx._nt = False
            empty(scratch)
            failing = state['fail'] is not None
            r = run_case(sub, case, ctx)
            if not failing:
                ctx.evaluations += 1
            text = dumps(case)
            if ctx._nt and not failing:
                h = hashlib.sha1(text.encode()).digest()[:8]
                if h not in ctx.nontrivial:
                    ctx.nontrivial.add(h)
                    k = len(ctx.nontrivial)
                    if k in (1, 2, 5, 17, 61) :
                        ctx.samples.append({'sub': subname, 'case': brief(case)})
            if r is None:
                return
            kind, msg = r
            if kind == 'hang' and not sub.hang_violation:
                state['hangs'] += 1
                return
            if kind == 'harness':
                state['harness'] = msg
                raise RuntimeError(msg)
            state['fail'] = (text, kind, msg)
            if state['first'] is None:
                state['first'] = (text, kind, msg)
            raise _Found('found')

        phases = [Phase.generate, Phase.shrink]
        hs = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      phases=phases, print_blob=False, report_multiple_bugs=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
        runner = hypothesis.seed(seed)(hs(given(sub.strategy())(test)))
        try:
            runner()
        except _Found:
            pass
        except BaseException as e:
            if state['fail'] is None or state.get('harness'):
                out['error'] = '%s: %s' % (subname, ''.join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
        if state['fail'] is not None and out['error'] is None:
            text, kind, msg = state['fail']
            out['failure'] = {'case': json.loads(text), 'kind': kind, 'message': msg,
                              'first': state['first'][2]}
        out.update(evaluations=ctx.evaluations, nontrivial=[h.hex() for h in ctx.nontrivial],
                   labels=ctx.labels, samples=ctx.samples[:3], known=ctx.known_hit,
                   skipped=state['skipped'], hangs=state['hangs'])
    except BaseException as e:
        out['error'] = '%s: %s' % (subname, ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    try:
        conn.send(out)
        conn.close()
    finally:
        os._exit(0)


def _seed(base, *parts):
    h = hashlib.sha256(('|'.join([str(base)] + [str(p) for p in parts])).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='comma separated sub-properties')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(argv)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = args.property
    t0 = time.time()
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    from vlib import build
    try:
        builddir = build.build()
    except build.BuildError as e:
        print('BUILD-ERROR: %s' % e)
        return 2
    _setup_path(builddir)
    os.environ['VERIF_BUILD'] = builddir
    import warnings
    warnings.simplefilter('ignore')
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    try:
        return _run(args, prop, tier, base, scratch, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _run(args, prop, tier, base, scratch, t0):
    modname = 'props.' + prop.lower()
    try:
        mod = importlib.import_module(modname)
    except BaseException:
        print('HARNESS-ERROR: cannot import %s\n%s' % (modname, traceback.format_exc()[-3000:]))
        return 2
    import quantas
    if not os.path.abspath(quantas.__file__).startswith(os.environ['VERIF_BUILD']):
        print('HARNESS-ERROR: quantas imported from %s' % quantas.__file__)
        return 2
    from vlib.core import Ctx
    findings = load_findings(prop)
    known = [f['key'] for f in findings]

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        sub = [s for s in mod.SUBS if s.name == data['sub']][0]
        os.environ['OMP_NUM_THREADS'] = str(sub.threads)
        signal.signal(signal.SIGALRM, _alarm)
        ctx = Ctx(known)
        ctx.scratch = scratch
        os.chdir(scratch)
        r = run_case(sub, data['case'], ctx)
        if r is None or r[0] == 'harness':
            print('replay: %s' % ('the case passes' if r is None else r[1]))
            return 0 if r is None else 2
        print('replay: %s' % r[1])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(args.replay)))
        return 1

    subs = mod.SUBS
    if args.only:
        subs = [s for s in subs if s.name in args.only.split(',')]
    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3000))
    deadline = t0 + budget
    hard = t0 + (budget + 330)
    tasks = []
    for s in subs:
        shards = s.shards[0] if tier == 'quick' else s.shards[1]
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * args.scale))
        for k in range(shards):
            tasks.append((s, (modname, s.name, n, _seed(base, prop, s.name, k),
                              os.path.join(scratch, '%s-%d' % (s.name, k)), known, deadline)))
    ctxmp = mp.get_context('fork')
    pending = list(tasks)
    running = []
    results = []
    errors = []
    first_failure = None
    while pending or running:
        while pending and len(running) < args.jobs and first_failure is None:
            s, t = pending.pop(0)
            os.environ['OMP_NUM_THREADS'] = str(s.threads)
            r, w = ctxmp.Pipe(False)
            pr = ctxmp.Process(target=_worker, args=(t, w))
            pr.start()
            w.close()
            running.append((s, t, pr, r))
        if first_failure is not None:
            pending = []
        still = []
        for item in running:
            s, t, pr, r = item
            if r.poll(0):
                try:
                    out = r.recv()
                except EOFError:
                    pr.join()
                    out = {'sub': s.name, 'error': '%s: worker died (exit %s)' % (s.name, pr.exitcode),
                           'crash': pr.exitcode, 'failure': None}
                pr.join(10)
                r.close()
                results.append(out)
                if out.get('error'):
                    errors.append(out['error'])
                if out.get('failure') and first_failure is None:
                    first_failure = time.time()
            else:
                still.append(item)
        running = still
        now = time.time()
        if running and (now > hard or (first_failure and now > first_failure + 45)):
            for s, t, pr, r in running:
                pr.kill()
                pr.join()
                if first_failure is None:
                    errors.append('%s: did not finish in time' % s.name)
            running = []
        if running:
            time.sleep(0.02)

    # listed findings are demonstrated, not searched for
    lines = []
    for f in findings:
        probe = getattr(mod, 'FINDINGS', {}).get(f['key'])
        if probe is None:
            errors.append('known finding %s has no probe' % f['key'])
            continue
        os.chdir(scratch)
        try:
            present = probe(scratch)
        except BaseException as e:
            errors.append('probe of %s failed: %s' % (f['key'], e))
            continue
        if present:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    evaluations = sum(r.get('evaluations', 0) for r in results)
    distinct = set()
    labels = {}
    persub = {}
    samples = []
    knownhits = {}
    skipped = hangs = 0
    for r in results:
        for h in r.get('nontrivial', ()):
            distinct.add(r['sub'] + h)
        for k, v in r.get('labels', {}).items():
            labels[r['sub'] + ': ' + k] = labels.get(r['sub'] + ': ' + k, 0) + v
        persub[r['sub']] = persub.get(r['sub'], 0) + r.get('evaluations', 0)
        samples.extend(r.get('samples', []))
        for k, v in r.get('known', {}).items():
            knownhits[k] = knownhits.get(k, 0) + v
        skipped += r.get('skipped', 0)
        hangs += r.get('hangs', 0)
    failures = [r for r in results if r.get('failure')]
    samples.sort(key=lambda s: (s['sub'], s['case']))
    seen = {}
    keep = []
    for s in samples:
        if seen.get(s['sub'], 0) < 2:
            seen[s['sub']] = seen.get(s['sub'], 0) + 1
            keep.append(s)
    violation_lines = []
    if failures:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        failures.sort(key=lambda r: (r['sub'], len(json.dumps(r['failure']['case']))))
        r = failures[0]
        path = os.path.join(rdir, '%s-%s.json' % (prop, r['sub']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'sub': r['sub'], 'case': r['failure']['case'],
                       'message': r['failure']['message'], 'seed': base, 'tier': tier}, f, indent=1)
        violation_lines.append('  %s: %s' % (r['sub'], r['failure']['message'][:1500]))
        violation_lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': keep[:16],
            'cases_per_subproperty': persub,
            'classes': dict(sorted(labels.items())),
            'excluded_by_known_findings': knownhits,
            'cases_skipped_for_budget': skipped,
            'inconclusive_slow_cases': hangs,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for l in lines:
        print(l)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, evaluations, len(distinct), time.time() - t0))
    if failures:
        for l in violation_lines:
            print(l)
        return 1
    if errors:
        for e in errors:
            print('HARNESS-ERROR: %s' % e)
        return 2
    if not evaluations:
        print('HARNESS-ERROR: nothing was explored')
        return 2
    return 0
