"""Runs the check of one property:  python -m symx.run C01 [--tier quick|thorough]
or replays a counterexample:        python -m symx.run --replay FILE
"""
import argparse
import copy
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pkgutil
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

PATH_ALARM_S = 30          # wall-clock limit of one path (hang detection)
MAX_VIOLATIONS = 3         # counterexamples collected per job before stopping
MAX_HISTORY = 2000         # earlier uses of the library that may be needed for a counterexample
VALIDATE_PER_JOB = {'quick': 25, 'thorough': 100}
JOB_LIMIT_S = {'quick': 300, 'thorough': 3600}
# Time for all explorations of a check together. The quick tier must give an
# answer in 900 s also where the code (or the machine) is much slower than on
# the current tree: explorations that take too long are first set aside for the
# others, and reported as partial (never as complete) if there is no time left
# for them.
FIRST_ROUND_S = {'quick': 90, 'thorough': 3600}
FIRST_BUDGET_S = {'quick': 420, 'thorough': 1e9}
BUDGET_S = {'quick': 620, 'thorough': 1e9}
SAMPLE_BUDGET_S = 80
SAMPLE_S = 15              # explorations that are set aside: paths in random order first
LEAST_S = 2                # what is left for every exploration
VALIDATE_UNTIL_S = {'quick': 760, 'thorough': 1e9}


def _setup_path():
    for p in (VERIF,):
        if p not in sys.path:
            sys.path.append(p)
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)


_setup_path()

from symx import rt                      # noqa: E402
from symx import engine as E             # noqa: E402


class Job:
    """One symbolic exploration."""

    def __init__(self, harness, params=None, inject=(), clear=False, require=(),
                 bounds='', max_values=64, weight=1, split=0):
        self.split = split                # log2 of the number of processes
        self.bits = ()
        self.harness = harness
        self.params = dict(params or {})
        self.inject = tuple(inject)
        self.clear = clear
        self.require = tuple(require)
        self.bounds = bounds
        self.max_values = max_values
        self.weight = weight

    @property
    def name(self):
        ps = ','.join(f'{k}={v}' for k, v in self.params.items())
        return f'{self.harness.__name__}({ps})' + ('/' + ''.join('01'[b] for b in self.bits) if self.bits else '')

    def expand(self):
        for i in range(2 ** self.split):
            j = copy.copy(self)
            j.bits = tuple(bool(i >> k & 1) for k in range(self.split))
            yield j


class Check:
    """All explorations that decide one property."""

    def __init__(self, prop, jobs, assumptions=(), outside=''):
        self.prop = prop
        self.jobs = jobs                  # function(tier) -> [Job]
        self.assumptions = list(assumptions)
        self.outside = outside


def registry():
    reg = {}
    import symx.props as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module(f'symx.props.{m.name}')
        for c in getattr(mod, 'CHECKS', []):
            assert c.prop not in reg, c.prop
            reg[c.prop] = c
    return reg


# ---------------------------------------------------------------------------
# running one job (in a forked child)
# ---------------------------------------------------------------------------

class _Hang(E.Violation):
    pass


def _on_alarm(signum, frame):
    eng = E.current()
    # is it the code under test that does not return?
    src, own = os.path.realpath(rt.REPO_SRC), os.path.realpath(VERIF)
    f = frame
    hung = False
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(src):
            hung = True
            break
        if fn.startswith(own):
            break
        f = f.f_back
    if not hung:
        raise E.EngineLimit(f'a path took more than {PATH_ALARM_S} s')
    model = None
    if eng is not None and getattr(eng, 'symbolic', False):
        model = eng.model
        if model is None:
            raise E.EngineLimit(f'a path took more than {PATH_ALARM_S} s')
    raise _Hang(f'no answer within {PATH_ALARM_S} s of wall-clock time', model)


class _Alarm:
    def __enter__(self):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, PATH_ALARM_S)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_symbolic(job, gs, deadline, concrete_inputs=False, seed=1, keep=25, sample=False):
    """explore one job; returns a plain dict"""
    if not concrete_inputs and job.inject:
        rt.inject(gs, job.inject)
    eng = E.Engine(
        max_values=4096 if concrete_inputs else job.max_values,
        deadline=time.monotonic() + deadline,
        concrete_inputs=concrete_inputs,
        split=job.bits,
        rnd=random.Random(f'{seed} {job.name}') if sample else None,
    )
    rnd = random.Random(seed)
    violations = []
    samples = []
    seen = [0]
    history = []

    def on_path(e):
        if concrete_inputs and len(history) < MAX_HISTORY:
            history.append(e.assignment(e._get_model()))
        # reservoir of path witnesses, to be replayed on the plain code
        seen[0] += 1
        if len(samples) < keep:
            samples.append(e.assignment(e._get_model()))
        else:
            j = rnd.randrange(seen[0])
            if j < keep:
                samples[j] = e.assignment(e._get_model())

    def on_violation(msg, assignment, detail):
        violations.append({
            'message': msg, 'assignment': assignment,
            'detail': {k: _plain(v) for k, v in (detail or {}).items()},
            'history': list(history),
        })
        return len(violations) < MAX_VIOLATIONS and 'no answer within' not in msg

    def harness(e):
        if job.clear:
            rt.clear_caches()
        with warnings.catch_warnings(), _Alarm():
            warnings.simplefilter('ignore')
            job.harness(e, gs, **job.params)

    res = {'violations': violations, 'samples': samples, 'status': 'ok', 'why': ''}
    t0 = time.monotonic()
    try:
        complete = eng.explore(harness, on_path, on_violation)
        if not complete and not violations:
            res['status'], res['why'] = 'limit', 'exploration stopped'
    except E.EngineLimit as e:
        res['status'], res['why'] = 'limit', str(e)
    except BaseException:
        res['status'], res['why'] = 'error', traceback.format_exc(limit=-8)
    if violations:
        res['status'] = 'violation'
    res['stats'] = eng.stats.as_dict()
    res['wall_s'] = time.monotonic() - t0
    res['mode'] = 'concretised inputs' if concrete_inputs else 'symbolic'
    return res


def _plain(v):
    try:
        s = repr(v)
    except Exception as e:
        s = f'<{type(e).__name__}>'
    return s[:3000]


def run_concrete(job, gs, assignment, functions=None):
    """the harness on plain values; -> None | violation dict | 'aborted'"""
    eng = E.ConcreteEngine(assignment)
    prof = None
    if functions is not None:
        src = os.path.realpath(rt.REPO_SRC)

        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                if c.co_filename.startswith(src):
                    functions.add(f'{os.path.basename(c.co_filename)}:{c.co_qualname}')
    try:
        with warnings.catch_warnings(), _Alarm():
            warnings.simplefilter('ignore')
            if prof:
                sys.setprofile(prof)
            try:
                job.harness(eng, gs, **job.params)
            finally:
                sys.setprofile(None)
        return None
    except E.PathAbort:
        return 'aborted'
    except E.Violation as v:
        return {'message': v.msg, 'detail': {k: _plain(x) for k, x in (v.detail or {}).items()}}
    except Exception as e:
        return {'message': f'unexpected {type(e).__name__}: {e}',
                'detail': {'traceback': traceback.format_exc(limit=-8)}}


_CTX = {}


def _child(task):
    kind, idx, payload = task
    job = _CTX['jobs'][idx]
    gs = _CTX['gs']
    try:
        if kind == 'sym':
            return kind, idx, run_symbolic(job, gs, payload['deadline'], payload['concrete'],
                                           payload['seed'], payload['keep'], payload.get('sample', False))
        if kind == 'replay':
            return kind, idx, [run_concrete(job, gs, a) for a in payload]
        if kind == 'validate':
            fns = set()
            out = [(a, run_concrete(job, gs, a, fns)) for a in payload]
            return kind, idx, {'results': out, 'functions': fns}
    except BaseException:
        return kind, idx, {'crash': traceback.format_exc()}


def _send_result(conn, task):
    # in the forked process
    try:
        conn.send(_child(task))
    except BaseException:
        conn.send((task[0], task[1], {'crash': traceback.format_exc()}))
    conn.close()


def _pool_run(tasks, procs, until=None):
    """one forked process per task, at most procs at a time; results as they
    become available (not a multiprocessing.Pool, because that may hang when it
    is terminated early)
    """
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(tasks))
    running = {}
    try:
        while todo or running:
            while todo and len(running) < procs:
                task = todo.pop()
                if until is not None and task[0] == 'sym':
                    left = until - time.monotonic() - LEAST_S * len(todo) / procs
                    task[2]['deadline'] = min(task[2]['deadline'], max(LEAST_S, left))
                recv, send = ctx.Pipe(duplex=False)
                sys.stdout.flush()
                sys.stderr.flush()
                p = ctx.Process(target=_send_result, args=(send, task), daemon=True)
                p.start()
                send.close()
                running[recv] = (p, task, time.monotonic())
            ready = multiprocessing.connection.wait(list(running), timeout=5)
            for conn in ready:
                p, task, _ = running.pop(conn)
                try:
                    res = conn.recv()
                except Exception as e:
                    p.join(1)
                    res = (task[0], task[1], {'crash': f'the process ended without a result ({type(e).__name__}, exit code {p.exitcode})'})
                conn.close()
                p.join(10)
                yield res
            for conn, (p, task, t) in list(running.items()):
                limit = task[2]['deadline'] + 2 * PATH_ALARM_S if task[0] == 'sym' else 600
                if time.monotonic() - t > limit:
                    del running[conn]
                    p.kill()
                    conn.close()
                    yield task[0], task[1], {'crash': f'no result within {limit} s'}
    finally:
        for p, _, _ in running.values():
            p.kill()
        for p, _, _ in running.values():
            p.join(10)


def fresh_replay(path):
    """replay a counterexample file in a new interpreter"""
    import subprocess
    r = subprocess.run(
        [sys.executable, '-B', '-m', 'symx.run', '--replay', path],
        cwd=VERIF, env={**os.environ, 'PYTHONHASHSEED': '0'}, capture_output=True, text=True,
        timeout=PATH_ALARM_S + 60,
    )
    return r.returncode, r.stdout + r.stderr


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={prop} '):
                # finding: property=C01 match=<substring of the violation message> | description
                body = line.split(' ', 2)[2]
                m, _, desc = body.partition(' | ')
                out.append((m[len('match='):], desc))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('SYMX_PROCS', os.cpu_count() or 4)))
    ap.add_argument('--only', help='substring of job names (development)')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'symx.run'] + (argv or sys.argv[1:]))
    if args.replay:
        return replay_main(args.replay)

    t0 = time.monotonic()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    gs = rt.load()
    check = registry()[args.property]
    jobs = [x for j in check.jobs(tier) for x in j.expand()]
    if args.only:
        jobs = [j for j in jobs if args.only in j.name]
    assert jobs, 'no jobs'
    _CTX.update(jobs=jobs, gs=gs)
    keep = VALIDATE_PER_JOB[tier]
    # the parts of one exploration are spread over the whole time
    nth, part = {}, {}
    for i, j in enumerate(jobs):
        base = j.name.split('/')[0] if j.bits else j.name
        part[i] = nth[base] = nth.get(base, -1) + 1
    order = sorted(range(len(jobs)), key=lambda i: (part[i], -jobs[i].weight))

    def sym_tasks(idxs, concrete, limit=JOB_LIMIT_S[tier]):
        return [('sym', i, {'deadline': limit, 'concrete': concrete, 'seed': seed, 'keep': keep})
                for i in idxs]

    def out_of_time(r):
        return r['status'] == 'limit' and 'time limit' in r['why']

    results = {}
    inconclusive = []
    confirmed = []
    notes = []
    spurious = []
    known_hits = []
    known = known_findings(args.property)

    def confirm(idx, vs):
        """replay counterexamples in fresh interpreters; True if one is real"""
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        ok = False
        for v, h in [(v, n) for v in vs for n in (0, 1, 4, 30, 200, MAX_HISTORY) if not n or len(v.get('history', ())) * 8 > n]:
            # counterexamples may need earlier uses of the library in the same
            # process (state that leaks from one scheduler to another)
            hist = v.get('history', [])[-h:] if h else []
            h = abs(hash(json.dumps([jobs[idx].name, v['assignment']], sort_keys=True))) % 10**10
            path = os.path.join(VERIF, 'replays', f'{args.property}-{idx}-{h}.json')
            with open(path, 'w') as f:
                json.dump({'property': args.property, 'tier': tier, 'job': jobs[idx].name,
                           'message': v['message'], 'detail': v.get('detail', {}),
                           'assignment': v['assignment'], 'after': hist}, f, indent=1)
            try:
                rc, out = fresh_replay(path)
            except Exception as e:
                rc, out = 3, str(e)
            if rc == 1:
                hit = next((d for m, d in known if m in out), None)
                if hit is not None:
                    if hit not in known_hits:
                        known_hits.append(hit)
                        print(f'KNOWN-FINDING: property={args.property} {hit}')
                    ok = True
                    continue
                confirmed.append((idx, v, path))
                return True
            else:
                spurious.append((jobs[idx].name, v['message'], rc))
                if args.v:
                    print('not reproduced:', jobs[idx].name, v['message'], rc, v, out[-600:])
                os.unlink(path)
        return ok

    redo, slow, partial = [], [], []

    def explore(idxs, limit, until, last):
        for kind, idx, r in _pool_run(sym_tasks(idxs, False, limit), args.procs, until):
            if 'crash' in r:
                inconclusive.append(f'{jobs[idx].name}: {r["crash"]}')
                continue
            results[idx] = r
            if args.v:
                st = r['stats']
                print(f"{jobs[idx].name}: {r['status']} {r['why'][:900]} paths={st['paths']} aborted={st['aborted']} "
                      f"branches={st['branches']} queries={st['queries']} checks={st['checks']}/{st['checks_solver']} "
                      f"solver={st['solver_s']:.1f}s wall={r['wall_s']:.1f}s reach={st['reach']}", flush=True)
            if r['status'] == 'violation':
                if not confirm(idx, r['violations']):
                    redo.append(idx)
                elif confirmed:
                    return
            elif out_of_time(r):
                (partial if last else slow).append(idx)
            elif r['status'] != 'ok':
                redo.append(idx)

    def sample(idxs, concrete):
        """paths in random order, to have seen something of the later ones"""
        limit = max(LEAST_S, min(SAMPLE_S, SAMPLE_BUDGET_S * args.procs / max(1, len(idxs))))
        tasks = [('sym', i, {'deadline': limit, 'concrete': concrete, 'seed': seed, 'keep': 0, 'sample': True}) for i in idxs]
        for kind, idx, r in _pool_run(tasks, args.procs):
            if args.v:
                print(f"[random paths] {jobs[idx].name}: {r.get('status')} paths={r['stats']['paths'] if 'stats' in r else 0}", flush=True)
            if r.get('status') == 'violation' and confirm(idx, r['violations']) and confirmed:
                results[idx] = r
                return

    def concretised(idxs):
        """explorations that the symbolic mode could not decide: let the
        solver enumerate all values of the inputs, run the unmodified code on
        them"""
        for kind, idx, r in _pool_run(sym_tasks(idxs, True), args.procs, t0 + BUDGET_S[tier]):
            if 'crash' in r:
                inconclusive.append(f'{jobs[idx].name}: {r["crash"]}')
                continue
            why = results[idx]['why'] if idx in results else ''
            notes.append(f'{jobs[idx].name}: decided with concretised inputs ({why.strip()[-200:] or "spurious counterexample"})')
            results[idx] = r
            if args.v:
                st = r['stats']
                print(f"[concretised] {jobs[idx].name}: {r['status']} {r['why'][-1500:]} paths={st['paths']} wall={r['wall_s']:.1f}s", flush=True)
            if r['status'] == 'violation':
                if not confirm(idx, r['violations']):
                    inconclusive.append(f'{jobs[idx].name}: counterexample not reproduced: {r["violations"][0]["message"]}')
                elif confirmed:
                    return
            elif out_of_time(r):
                partial.append(idx)
            elif r['status'] != 'ok':
                inconclusive.append(f'{jobs[idx].name}: {r["why"][-300:]}')

    one_round = FIRST_ROUND_S[tier] >= JOB_LIMIT_S[tier]
    explore(order, FIRST_ROUND_S[tier], t0 + FIRST_BUDGET_S[tier], one_round)
    if slow and not confirmed:
        sample(slow, False)
    if redo and not confirmed:
        sample([i for i in redo if results[i]['status'] == 'limit'], True)
    if redo and not confirmed:
        concretised(redo)
    if slow and not confirmed:
        done = len(redo)
        explore(list(slow), JOB_LIMIT_S[tier], t0 + BUDGET_S[tier], True)
        if len(redo) > done and not confirmed:
            concretised(redo[done:])
    for i in partial:
        notes.append(f'{jobs[i].name}: PARTIAL: {results[i]["stats"]["paths"]} paths explored when the time was over')
    if partial and not any(r['status'] == 'ok' for r in results.values()):
        inconclusive.append('no exploration was completed in time')

    # path witnesses on the plain code: validates the encoding, path by path
    validated = 0
    functions = set()
    if not confirmed:
        vt = [('validate', i, results[i]['samples']) for i in results if results[i]['samples']]
        for kind, idx, r in _pool_run(vt, args.procs):
            if time.monotonic() > t0 + VALIDATE_UNTIL_S[tier]:
                notes.append('not all path witnesses were replayed: the time was over')
                break
            if 'crash' in r:
                inconclusive.append(f'{jobs[idx].name}: validation: {r["crash"]}')
                continue
            functions |= r['functions']
            for k, (a, out) in enumerate(r['results']):
                if out is None:
                    validated += 1
                elif out == 'aborted':
                    inconclusive.append(f'{jobs[idx].name}: a path witness violates the assumptions on the plain code')
                elif not confirmed:
                    if not confirm(idx, [{'message': out['message'], 'assignment': a, 'detail': out.get('detail', {}),
                                          'history': [x for x, _ in r['results'][:k]]}]):
                        inconclusive.append(f'{jobs[idx].name}: unstable outcome of a path witness: {out["message"]}')

    # vacuity: every harness must have reached what it is meant to reach
    if not confirmed:
        reach = {}
        for i, r in results.items():
            for k, n in r['stats']['reach'].items():
                reach[(jobs[i].harness.__name__, k)] = reach.get((jobs[i].harness.__name__, k), 0) + n
        for i, r in results.items():
            if r['status'] == 'ok':
                if r['stats']['paths'] == 0 or r['stats']['checks'] == 0:
                    inconclusive.append(f'{jobs[i].name}: vacuous (no completed path or no check)')
                for lab in jobs[i].require:
                    if not reach.get((jobs[i].harness.__name__, lab)):
                        inconclusive.append(f'{jobs[i].name}: never reached "{lab}"')

    wall = time.monotonic() - t0
    write_evidence(check, args.property, tier, seed, jobs, results, validated, functions, notes,
                   inconclusive, confirmed, wall)
    tot = sum(r['stats']['paths'] for r in results.values())
    print(f'{args.property} [{tier}]: {len(results)}/{len(jobs)} explorations, {tot} paths, '
          f'{sum(r["stats"]["queries"] for r in results.values())} solver queries, '
          f'{validated} path witnesses replayed, {wall:.1f} s')
    for n in notes:
        print('note:', n)
    if confirmed:
        idx, v, path = confirmed[0]
        print(f'{jobs[idx].name}: {v["message"]}')
        print(json.dumps(v['assignment']))
        for k, x in v.get('detail', {}).items():
            print(f'  {k}: {x}')
        print(f'VIOLATION property={args.property} replay={path}')
        return 1
    if inconclusive:
        for s in sorted(set(inconclusive))[:20]:
            print('INCONCLUSIVE:', s)
        return 2
    return 0


def write_evidence(check, prop, tier, seed, jobs, results, validated, functions, notes,
                   inconclusive, confirmed, wall):
    S = [r['stats'] for r in results.values()]
    samples = []
    for i, r in list(results.items())[:6]:
        if r['samples']:
            samples.append({'exploration': jobs[i].name, 'path_witness': r['samples'][-1]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(s['paths'] for s in S),
            'transitions': sum(s['branches'] for s in S),
            'traces_validated_against_impl': validated,
            'samples': samples or ['none'],
            'what_states_are': 'feasible paths of the real code explored by symbolic execution; transitions are branch or value decisions taken by the solver',
            'explorations': [
                {'name': jobs[i].name, 'bounds': jobs[i].bounds, 'mode': r['mode'], 'status': r['status'],
                 'paths': r['stats']['paths'], 'checks': r['stats']['checks'],
                 'checks_decided_by_solver_query': r['stats']['checks_solver'],
                 'queries': r['stats']['queries'], 'solver_s': round(r['stats']['solver_s'], 3),
                 'reached': r['stats']['reach']}
                for i, r in sorted(results.items())],
            'solver_queries': sum(s['queries'] for s in S),
            'solver_s': round(sum(s['solver_s'] for s in S), 3),
            'assertions_evaluated': sum(s['checks'] for s in S),
            'functions_encoded': sorted(functions),
            'outside_bounds': check.outside,
            'exhaustive': (not inconclusive and not confirmed and len(results) == len(jobs)
                           and all(r['status'] == 'ok' for r in results.values())),
            'notes': notes + [f'INCONCLUSIVE {s}' for s in inconclusive[:20]],
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)


def replay_main(path):
    d = json.load(open(path))
    gs = rt.load()
    check = registry()[d['property']]
    for tier in (d.get('tier', 'quick'), 'quick', 'thorough'):
        for j in check.jobs(tier):
            if j.name == d['job'].split('/')[0]:
                for a in d.get('after', []):
                    run_concrete(j, gs, a)
                out = run_concrete(j, gs, d['assignment'])
                print(json.dumps(out, indent=1) if out else 'holds')
                return 1 if isinstance(out, dict) else 0
    print('no such exploration', d['job'])
    return 3


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
