"""Runs one property check: explore, replay, report, write evidence."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_paths():
    for p in (VERIF,):
        if p not in sys.path:
            sys.path.insert(0, p)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if Z3DIR not in sys.path:
        sys.path.append(Z3DIR)


def load_module(name):
    return importlib.import_module('checks.' + name)


def repo_frames(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        out.append((os.path.abspath(fn), tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def classify_exception(ex):
    """'repo' when the exception came out of the code under test"""
    frames = repo_frames(ex.__traceback__)
    for fn, _, _ in frames:
        if fn.startswith(REPO + os.sep):
            return 'repo'
    return 'harness'


# ---------------------------------------------------------------------------
# concrete replay (unpatched code)


def concrete_run(modname, harness, kwargs, inputs, fill=None, info=None):
    """
    -> (verdict, label, detail); verdict in ok, skip, violation, error.
    Inputs that are not given are the lower bounds, or, with fill, spread over
    their bounds.  info receives the inputs used and the labels reached.
    """
    import warnings
    from vlib.ctx import ConcCtx, Violation, Skip
    mod = load_module(modname)
    fn = getattr(mod, harness)
    ctx = ConcCtx(inputs, fill)
    if info is not None:
        info.append((ctx.inputs, ctx.reached))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(ctx, **kwargs)
    except Violation as ex:
        return 'violation', ex.label, ex.detail
    except Skip:
        return 'skip', '', ''
    except Exception as ex:
        kind = classify_exception(ex)
        from vlib.sym import safe_str
        detail = '%s: %s' % (type(ex).__name__, safe_str(ex))
        tb = ''.join(traceback.format_tb(ex.__traceback__)[-4:])
        if kind == 'repo':
            return 'violation', 'exception', detail + '\n' + tb
        return 'error', 'harness-exception', detail + '\n' + tb
    if ctx.known:
        return 'known', ctx.known[0], '%s: %s' % ctx.known[1:]
    return 'ok', '', ''


def replay_file(path):
    setup_paths()
    rec = json.load(open(path))
    v, label, detail = concrete_run(rec['module'], rec['harness'], rec['kwargs'], rec['inputs'])
    print('replay property=%s harness=%s config=%s' % (rec['property'], rec['harness'], json.dumps(rec['kwargs'])))
    print('inputs=%s' % json.dumps(rec['inputs']))
    print('expected label=%s' % rec.get('label'))
    print('verdict=%s label=%s %s' % (v, label, detail))
    return 1 if v in ('violation', 'known') else 0


def replay_batch_main():
    """stdin: json list of records; stdout: json list of verdicts"""
    setup_paths()
    recs = json.load(sys.stdin)
    real_out = os.dup(1)
    os.dup2(2, 1)
    out = []
    for rec in recs:
        info = []
        try:
            v = concrete_run(rec['module'], rec['harness'], rec['kwargs'], rec['inputs'], rec.get('fill'), info)
        except BaseException as ex:
            v = ('error', 'replay-crash', repr(ex))
        used, reached = info[0] if info else ({}, ())
        out.append(tuple(v) + (used if rec.get('fill') is not None else None, sorted(reached)))
    os.write(real_out, b'')
    with os.fdopen(real_out, 'w') as f:
        f.write('@@RESULT' + json.dumps(out))
        f.flush()
    return 0


def replay_batch(recs, timeout=240):
    if not recs:
        return []
    env = dict(os.environ)
    env['OMP_NUM_THREADS'] = '1'
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay-batch'],
                       input=json.dumps(recs), capture_output=True, text=True, timeout=timeout, env=env)
    txt = p.stdout
    i = txt.find('@@RESULT')
    if i < 0:
        raise RuntimeError('replay process failed: rc=%s\n%s\n%s' % (p.returncode, txt[-2000:], p.stderr[-2000:]))
    return json.loads(txt[i + len('@@RESULT'):])


# ---------------------------------------------------------------------------
# symbolic exploration in worker processes

_FUNCS = set()


def _profile(frame, event, arg):
    if event == 'call':
        fn = frame.f_code.co_filename
        if fn.startswith(REPO + os.sep + 'delayed_image'):
            name = getattr(frame.f_code, 'co_qualname', frame.f_code.co_name)
            if '<' not in name.split('.')[-1]:
                _FUNCS.add(os.path.relpath(fn, REPO) + '::' + name)


def _worker_init():
    import warnings
    warnings.simplefilter('ignore')


def _task(args):
    modname, harness, kwargs, opts, deadline = args
    from vlib import sym, patches
    setup_paths()
    patches.install()
    import gc
    mod = load_module(modname)
    if hasattr(mod, 'symbolic_setup'):
        mod.symbolic_setup()
    fn = getattr(mod, harness)
    ex = sym.Explorer(fn, kwargs, deadline=deadline, **opts)
    _FUNCS.clear()
    first = [True]
    orig = fn

    def traced(ctx, **kw):
        if first[0]:
            first[0] = False
            sys.setprofile(_profile)
            try:
                return orig(ctx, **kw)
            finally:
                sys.setprofile(None)
        return orig(ctx, **kw)
    ex.fn = traced
    try:
        ex.run()
        crash = None
    except BaseException as e:
        crash = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
    return dict(harness=harness, kwargs=kwargs, stats=dict(ex.stats), cexs=ex.cexs, errors=ex.errors,
                incomplete=ex.incomplete, labels=ex.labels, reached=ex.reached, undecided=ex.undecided,
                samples=ex.samples, funcs=sorted(_FUNCS), crash=crash)


def _abbrev(kwargs):
    return json.dumps(kwargs, sort_keys=True)


def run_check(modname, tier, jobs=None, only=None, verbose=False):
    setup_paths()
    t_start = time.monotonic()
    mod = load_module(modname)
    pid = mod.PROPERTY
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    out_dir = os.path.join(VERIF, 'out', pid)
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for f in os.listdir(out_dir):
        os.unlink(os.path.join(out_dir, f))
    known = load_known(pid)
    tasks = [t for t in mod.tasks(tier)]
    # one task of every kind first: a slow machine should not leave out a kind
    kinds = {}
    for i, t in enumerate(tasks):
        kinds.setdefault(t[0], i)
    heads = set(kinds.values())
    tasks = [tasks[i] for i in sorted(heads)] + [t for i, t in enumerate(tasks) if i not in heads]
    if only:
        tasks = [t for t in tasks if only in (t[0] + ' ' + _abbrev(t[1]))]
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3000})[tier]
    deadline = time.monotonic() + budget
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 4)
    base_opts = dict(getattr(mod, 'OPTS', {}))
    if tier == 'thorough':
        base_opts.update(getattr(mod, 'OPTS_THOROUGH', {}))
    args = []
    for t in tasks:
        h, kw = t[0], t[1]
        o = dict(base_opts)
        if len(t) > 2:
            o.update(t[2])
        args.append((modname, h, kw, o, deadline))
    os.environ['OMP_NUM_THREADS'] = '1'
    # import the code under test and the patches once, then fork
    from vlib import patches
    patches.install()
    results = []
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    confirmed = []
    spurious = []
    known_hits = {}
    harness_errors = []
    pending_recs = []
    stop_early = False
    pool = mpc.Pool(jobs, initializer=_worker_init, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(_task, args, chunksize=1)
        done = 0
        while done < len(args):
            try:
                r = it.next(timeout=max(5.0, deadline + 60 - time.monotonic()))
            except mp.TimeoutError:
                break
            done += 1
            results.append(r)
            recs = []
            for c in r['cexs']:
                recs.append(dict(property=pid, module=modname, harness=r['harness'], kwargs=r['kwargs'],
                                 inputs=c['inputs'], label=c['label'], known=c.get('known'), kind='cex'))
                for inputs in c.get('more', ()):
                    recs.append(dict(property=pid, module=modname, harness=r['harness'], kwargs=r['kwargs'],
                                     inputs=inputs, label=c['label'], kind='more'))
            for e in r['errors']:
                if e['inputs'] is not None:
                    recs.append(dict(property=pid, module=modname, harness=r['harness'], kwargs=r['kwargs'],
                                     inputs=e['inputs'], label='exception', kind='abort', exc=e['exc'], tb=e['tb']))
            if recs:
                vs = replay_batch(recs)
                for rec, v in zip(recs, vs):
                    rec['verdict'] = v
                    if v[0] == 'known' and v[1] in known:
                        known_hits.setdefault(v[1], rec)
                    elif v[0] in ('violation', 'known'):
                        confirmed.append(rec)
                    elif v[0] == 'error':
                        harness_errors.append(rec)
                    elif rec['kind'] == 'cex':
                        spurious.append(rec)
            if verbose:
                print('task %s %s: %s' % (r['harness'], _abbrev(r['kwargs']), r['stats']), file=sys.stderr)
                for e in r['errors'][:3]:
                    print('   ERR', e['exc'], e['tb'][-600:], e['inputs'], file=sys.stderr)
                for c in r['cexs'][:3]:
                    print('   CEX', c, file=sys.stderr)
                for i in r['incomplete'][:5]:
                    print('   INC', i, file=sys.stderr)
                if r['crash']:
                    print('   CRASH', r['crash'], file=sys.stderr)
            if len(confirmed) >= 3:
                stop_early = True
                break
        pool.terminate()
    finally:
        pool.terminate()
        pool.join()

    # ---- encoding validation: the models of passing paths on the real code
    val_recs = []
    for r in results:
        for s in r['samples'][:1]:
            val_recs.append(dict(property=pid, module=modname, harness=r['harness'], kwargs=r['kwargs'],
                                 inputs=s, label='validation', kind='validate'))
    cap = 400 if tier == 'quick' else 2000
    val_recs = val_recs[:cap]
    validated = 0
    if val_recs and not confirmed:
        chunks = [val_recs[i::4] for i in range(4)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as tp:
            outs = list(tp.map(lambda c: replay_batch(c, timeout=600) if c else [], chunks))
        for c, o in zip(chunks, outs):
            for rec, v in zip(c, o):
                rec['verdict'] = v
                if v[0] == 'ok':
                    validated += 1
                elif v[0] == 'known' and v[1] in known:
                    known_hits.setdefault(v[1], rec)
                elif v[0] in ('violation', 'known'):
                    confirmed.append(rec)
                elif v[0] == 'error':
                    harness_errors.append(rec)

    # ---- totals
    tot = {}
    labels = {}
    reached = {}
    incomplete = []
    undecided = 0
    funcs = set()
    aborts = []
    samples = []
    crashes = []
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
        undecided += len(r['undecided'])
        funcs.update(r['funcs'])
        for i in r['incomplete']:
            incomplete.append('%s %s: %s' % (r['harness'], _abbrev(r['kwargs']), i))
        for e in r['errors']:
            aborts.append('%s %s: %s' % (r['harness'], _abbrev(r['kwargs']), e['exc']))
        if r['crash']:
            crashes.append('%s %s: %s' % (r['harness'], _abbrev(r['kwargs']), r['crash']))
        if len(samples) < 6 and r['samples']:
            samples.append({'harness': r['harness'], 'config': r['kwargs'], 'path_inputs': r['samples'][0]})
    expect = set(getattr(mod, 'EXPECT', []))
    missing = sorted(expect - set(reached)) if not only else []

    # ---- code that the encoding cannot follow (never on the pinned tree): the
    # property is undecided there; inputs within the bounds are still replayed
    degraded = None
    if missing and not confirmed and (incomplete or aborts or crashes or len(results) < len(args)):
        degraded = dict(labels_not_decided=missing, inputs_replayed=0)
        stop_at = time.monotonic() + 150
        seen = set()
        from concurrent.futures import ThreadPoolExecutor
        for rnd in range(8):
            if confirmed or time.monotonic() > stop_at or (rnd >= 3 and not (set(missing) - seen)):
                break
            recs = [dict(property=pid, module=modname, harness=a[1], kwargs=a[2], inputs={}, fill=1000 * rnd + i, label='', kind='fill')
                    for a in args for i in range(4)]
            chunks = [c for c in (recs[i::jobs] for i in range(jobs)) if c]

            def batch(c):
                try:
                    return replay_batch(c, timeout=max(10.0, stop_at - time.monotonic()))
                except subprocess.TimeoutExpired:
                    return []
            with ThreadPoolExecutor(jobs) as tp:
                outs = list(tp.map(batch, chunks))
            for c, o in zip(chunks, outs):
                for rec, v in zip(c, o):
                    degraded['inputs_replayed'] += 1
                    rec['verdict'] = v[:3]
                    if v[0] in ('ok', 'known'):
                        seen.update(v[4])
                    if v[0] == 'violation' or (v[0] == 'known' and v[1] not in known):
                        rec['inputs'] = v[3]
                        rec.pop('fill')
                        confirmed.append(rec)
        missing = sorted(set(missing) - seen)
    not_run = len(args) - len(results)

    coverage = dict(
        explanation=getattr(mod, 'EXPLANATION', mod.__doc__ or '').strip(),
        technique='symbolic execution of the real functions (path exploration by re-execution), z3 decides every branch and assertion for all values within the bounds',
        evaluations=tot.get('paths', 0),
        distinct_nontrivial=tot.get('paths_completed', 0),
        rule='one evaluation = one feasible path of a harness configuration (distinct decision sequence); non-trivial = it reached the end of the harness with its assertions decided for every value on the path',
        samples=samples or [{'none': 'no path completed'}],
        configurations=len(args),
        configurations_explored=len(results),
        configurations_fully_explored=sum(1 for r in results if not r['incomplete'] and not r['errors'] and not r['crash']),
        functions_encoded=sorted(funcs),
        bounds=getattr(mod, 'BOUNDS', {}).get(tier, '') if isinstance(getattr(mod, 'BOUNDS', ''), dict) else getattr(mod, 'BOUNDS', ''),
        outside_bounds=getattr(mod, 'OUTSIDE', ''),
        queries=tot.get('queries', 0),
        solver_time_s=round(tot.get('solver_s', 0.0), 2),
        solver_unknown=tot.get('unknown', 0),
        assertions_decided=sum(labels.values()),
        assertions_undecided=undecided,
        assertions_by_label=labels,
        branch_decisions=tot.get('decisions', 0),
        values_concretized_by_case_split=tot.get('concretizations', 0),
        paths_pruned_by_assumptions=tot.get('paths_pruned', 0),
        paths_aborted_unsupported=tot.get('paths_aborted', 0),
        aborted=sorted(set(aborts))[:20],
        incomplete=incomplete[:40],
        incomplete_count=len(incomplete),
        configurations_not_run=not_run,
        vacuity_witnesses_reached=sorted(reached),
        vacuity_witnesses_missing=missing,
        undecided_replayed_only=degraded,
        models_replayed_on_real_code=validated,
        counterexamples_confirmed=len(confirmed),
        counterexamples_not_reproduced=len(spurious),
        stubs=__import__('vlib.patches', fromlist=['x']).stubs() + list(getattr(mod, 'STUBS', [])),
        stopped_early=stop_early,
    )
    status = 0
    if confirmed:
        status = 1
    elif crashes and len(crashes) == len(results) and not degraded:
        status = 2
    elif missing or not results:
        status = 2
    elif labels == {} and tot.get('assertions', 0) == 0 and not degraded:
        status = 2
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), coverage=coverage,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.monotonic() - t_start, 2),
              violations=len(confirmed))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')

    for kid, rec in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, known[kid]))
    for s in spurious[:5]:
        print('INCONCLUSIVE: counterexample did not reproduce on the real code: %s %s %s %s' % (
            s['harness'], _abbrev(s['kwargs']), s['label'], json.dumps(s['inputs'])))
    for s in harness_errors[:5]:
        print('HARNESS-ERROR: %s %s %s' % (s['harness'], _abbrev(s['kwargs']), s['verdict'][2][-800:]))
    for c in crashes[:3]:
        print('WORKER-CRASH: %s' % c[-1500:])
    if degraded:
        print('UNDECIDED: the code uses operations that are not encoded, or the time ran out; nothing was decided for %s, %d inputs within the bounds were '
              'replayed instead' % (', '.join(degraded['labels_not_decided']), degraded['inputs_replayed']))
    for m in missing:
        print('VACUOUS: witness %r was never reached' % m)
    print('%s [%s] %d configurations, %d paths (%d completed, %d aborted), %d queries, %.1fs solver, '
          '%d assertions decided, %d undecided, %d incomplete, %d models validated, %.1fs' % (
              pid, tier, len(results), tot.get('paths', 0), tot.get('paths_completed', 0),
              tot.get('paths_aborted', 0), tot.get('queries', 0), tot.get('solver_s', 0.0),
              sum(labels.values()), undecided, len(incomplete), validated, time.monotonic() - t_start))
    for i, rec in enumerate(confirmed[:3]):
        path = os.path.join(out_dir, 'cex_%d.json' % i)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print('  %s %s label=%s inputs=%s' % (rec['harness'], _abbrev(rec['kwargs']), rec['verdict'][1], json.dumps(rec['inputs'])))
        print('  %s' % (rec['verdict'][2][-1200:],))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    return status


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    out = {}
    for rec in data.get('findings', []):
        if rec['property'] == pid:
            out[rec['id']] = rec['what']
    return out


def selftest():
    """setup: the solver answers and the code under test imports"""
    setup_paths()
    import z3
    x = z3.Int('x')
    s = z3.Solver()
    s.add(x > 3, x < 5)
    assert s.check() == z3.sat and s.model()[x].as_long() == 4
    from vlib import patches
    patches.install()
    import delayed_image
    print('z3 %s, delayed_image from %s' % (z3.get_version_string(), os.path.dirname(delayed_image.__file__)))
    for d in ('out', 'evidence'):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    return 0
