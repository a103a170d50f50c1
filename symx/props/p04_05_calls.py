"""C04 (EveryNCalls and default conditions) and C05 (call counts per time scale)."""
from .. import lib
from ..engine import AND, OR, NOT, IFF, SUM
from ..lib import node_names, layering, dag, Machine, TraceSpec
from ..run import Job, Check

BIG = 10 ** 6


def _n(eng, name='n', lo=-BIG):
    return eng.int(name, lo, BIG, small=(max(lo, -1), 3))


# ---------------------------------------------------------------------------
# C05
# ---------------------------------------------------------------------------

def _call_conditions(gs, eng, nodes, scales):
    """(name, condition, reference(ctx, X)) with a symbolic n"""
    n = _n(eng)
    TS = gs.TimeScale
    out = []
    for s in scales:
        ts = getattr(TS, s)
        for d in nodes:
            def cnt(ctx, X, d=d, s=s):
                return ctx.calls(d, s, X)
            out += [
                (f'BeforeNCalls({d}, n, {s})', gs.BeforeNCalls(d, n, ts), lambda c, X, f=cnt: f(c, X) < n),
                (f'AtNCalls({d}, n, {s})', gs.AtNCalls(d, n, ts), lambda c, X, f=cnt: f(c, X) == n),
                (f'AfterCall({d}, n, {s})', gs.AfterCall(d, n, ts), lambda c, X, f=cnt: f(c, X) > n),
                (f'AfterNCalls({d}, n, {s})', gs.AfterNCalls(d, n, ts), lambda c, X, f=cnt: f(c, X) >= n),
            ]
        for deps in ([nodes[0]], nodes):
            out.append((f'AfterNCallsCombined({deps}, n, {s})',
                        gs.AfterNCallsCombined(*deps, n=n, time_scale=ts),
                        lambda c, X, s=s, deps=deps: sum(c.calls(d, s, X) for d in deps) >= n))
            out.append((f'AllHaveRun({deps}, {s})', gs.AllHaveRun(*deps, time_scale=ts),
                        lambda c, X, s=s, deps=deps: all(c.calls(d, s, X) >= 1 for d in deps)))
        out.append((f'AllHaveRun({s})', gs.AllHaveRun(time_scale=ts),
                    lambda c, X, s=s: all(c.calls(d, s, X) >= 1 for d in nodes)))
    # defaults of time_scale: ENVIRONMENT_STATE_UPDATE
    E = 'ENVIRONMENT_STATE_UPDATE'
    d0 = nodes[0]
    out += [
        ('BeforeNCalls default scale', gs.BeforeNCalls(d0, n), lambda c, X: c.calls(d0, E, X) < n),
        ('AtNCalls default scale', gs.AtNCalls(d0, n), lambda c, X: c.calls(d0, E, X) == n),
        ('AfterCall default scale', gs.AfterCall(d0, n), lambda c, X: c.calls(d0, E, X) > n),
        ('AfterNCalls default scale', gs.AfterNCalls(d0, n), lambda c, X: c.calls(d0, E, X) >= n),
        ('AfterNCallsCombined default scale', gs.AfterNCallsCombined(*nodes, n=n),
         lambda c, X: sum(c.calls(x, E, X) for x in nodes) >= n),
        ('AllHaveRun default', gs.AllHaveRun(), lambda c, X: all(c.calls(x, E, X) >= 1 for x in nodes)),
    ]
    for d in nodes:
        out.append((f'JustRan({d})', gs.JustRan(d), lambda c, X, d=d: bool(c.last_set()) and d in c.last_set()))
    return out


SCALES = ('CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE')


def call_counts(eng, gs, k, edge, ops, ctx=False, scales=SCALES):
    """history of operations in one context; at every evaluation of a node's
    condition, all call-count conditions are compared with the log"""
    ns = node_names(k)
    g = {v: set() for v in ns}
    if edge:
        g[ns[-1]] = {ns[0]}
    eid = 'ctx' if ctx else NotImplemented
    conds = _call_conditions(gs, eng, ns, scales)

    def observe(m, ctx, X):
        if eng.replaying:
            return
        items = [(IFF(c.is_satisfied(scheduler=m.sched, execution_id=m.key), ref(ctx, X)), name)
                 for name, c, ref in conds]
        eng.check_all(items, log=ctx.events, considered_after=X)
        eng.reach('observed')
        if X:
            eng.reach('observed within a set')

    m = Machine(eng, gs, g, eid=eid, observe=observe)
    m.start()
    for _ in range(ops):
        if m.random_op() == 'step':
            m.observe()       # paused at a yielded set


def call_counts_anystate(eng, gs, k):
    """arbitrary counts (any integers): the conditions are evaluated on a
    scheduler whose public counts are unconstrained symbolic integers"""
    ns = node_names(k)
    sched = gs.Scheduler(graph={v: set() for v in ns})
    n = _n(eng)
    cnt = {}
    counts = sched.counts_total[None]
    for ts in gs.TimeScale:
        for v in ns:
            cnt[ts, v] = eng.int(f'count_{ts.name}_{v}', 0, BIG, small=(0, 2))
            counts[ts][v] = cnt[ts, v]
    if any(sched.counts_total[None][ts][v] is not cnt[ts, v] for ts, v in cnt):
        eng.check(True, 'representation differs')
        return
    for ts in [gs.TimeScale[eng.choose('scale', list(SCALES))]] if k > 3 else gs.TimeScale:
        for d in ns[1:]:
            c = cnt[ts, d]
            eng.check(IFF(gs.AfterNCalls(d, n, ts).is_satisfied(scheduler=sched, execution_id=None), c >= n), f'AfterNCalls {ts}')
        d = ns[0]
        c = cnt[ts, d]
        kw = dict(scheduler=sched, execution_id=None)
        eng.check_all([
            (IFF(gs.BeforeNCalls(d, n, ts).is_satisfied(**kw), c < n), f'BeforeNCalls {ts}'),
            (IFF(gs.AtNCalls(d, n, ts).is_satisfied(**kw), c == n), f'AtNCalls {ts}'),
            (IFF(gs.AfterCall(d, n, ts).is_satisfied(**kw), c > n), f'AfterCall {ts}'),
            (IFF(gs.AfterNCalls(d, n, ts).is_satisfied(**kw), c >= n), f'AfterNCalls {ts}'),
            (IFF(gs.AfterNCallsCombined(*ns, n=n, time_scale=ts).is_satisfied(**kw),
                 SUM(cnt[ts, v] for v in ns) >= n), f'AfterNCallsCombined {ts}'),
        ], counts=cnt)
        r = gs.AllHaveRun(*ns, time_scale=ts).is_satisfied(**kw)
        eng.check(IFF(r, AND([cnt[ts, v] >= 1 for v in ns])), f'AllHaveRun {ts}')
        r = gs.AllHaveRun(time_scale=ts).is_satisfied(**kw)
        eng.check(IFF(r, AND([cnt[ts, v] >= 1 for v in ns])), f'AllHaveRun() {ts}')
    eng.reach('evaluated')


def scheduled_by_calls(eng, gs, kind, edge, yields, runs):
    """the last node is scheduled by the condition itself"""
    two = kind in ('AfterNCallsCombined', 'AllHaveRun')
    ns = ['A', 'B', 'C'] if two else ['A', 'C']
    g = {v: set() for v in ns}
    if edge:
        g['C'] = set(ns) - {'C'}
    n = _n(eng, lo=0)
    s = eng.choose('scale', SCALES[1:])
    ts = getattr(gs.TimeScale, s)
    cond, ref = {
        'BeforeNCalls': (lambda: gs.BeforeNCalls('A', n, ts), lambda c, X: c.calls('A', s, X) < n),
        'AtNCalls': (lambda: gs.AtNCalls('A', n, ts), lambda c, X: c.calls('A', s, X) == n),
        'AfterCall': (lambda: gs.AfterCall('A', n, ts), lambda c, X: c.calls('A', s, X) > n),
        'AfterNCalls': (lambda: gs.AfterNCalls('A', n, ts), lambda c, X: c.calls('A', s, X) >= n),
        'AfterNCallsCombined': (lambda: gs.AfterNCallsCombined('A', 'B', n=n, time_scale=ts),
                                lambda c, X: c.calls('A', s, X) + c.calls('B', s, X) >= n),
        'AllHaveRun': (lambda: gs.AllHaveRun('A', 'B', time_scale=ts),
                       lambda c, X: c.calls('A', s, X) >= 1 and c.calls('B', s, X) >= 1),
        'JustRan': (lambda: gs.JustRan('A'), lambda c, X: bool(c.last_set()) and 'A' in c.last_set()),
        # the node itself is one of all nodes
        'AllHaveRun()': (lambda: gs.Any(gs.Condition(lambda: out('C')), gs.AllHaveRun(time_scale=ts)),
                         lambda c, X: OR(eng.known(eng.bool(f'c_C_{sum(1 for kk, p in c.events if kk == "exec")}')),
                                         all(c.calls(v, s, X) >= 1 for v in ns))),
    }[kind]
    state = {'y': 0, 'stop': False}

    def out(v):
        # outcome depends on the yield only, so that histories stay small
        return bool(eng.bool(f'c_{v}_{state["y"]}'))

    def truth(v, ctx, X):
        if v == 'C':
            return ref(ctx, X)
        return eng.known(eng.bool(f'c_{v}_{sum(1 for kk, p in ctx.events if kk == "exec")}'))

    sched = gs.Scheduler(
        graph=lib.copy_graph(g),
        conditions={**{v: gs.Condition(lambda v=v: out(v)) for v in ns[:-1]}, 'C': cond()},
        termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: state['stop']),
                           gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()},
    )
    spec = TraceSpec(eng, layering(g), truth)
    for r in range(runs):
        state['stop'] = False
        run = sched.run()
        spec.start_run()
        for i in range(yields):
            E = next(run)
            spec.resumed()
            spec.on_yield(E)
            state['y'] += 1
            if 'C' in E:
                eng.reach('C executed')
        if r == runs - 1:
            break
        end = eng.choose(f'end{r}', ['normal', 'abandon'])
        eng.reach(end)
        if end == 'normal':
            state['stop'] = True
            spec.resumed()
            spec.ended()
            eng.check(next(run, 'done') == 'done', 'a run went on after its termination')
            spec.inc('ENVIRONMENT_STATE_UPDATE')
        if eng.flag(f'endseq{r}'):
            sched.end_environment_sequence()
            spec.inc('ENVIRONMENT_SEQUENCE')


def terminated_by_calls(eng, gs, kind, edge, runs, yields):
    """runs that end by a condition on calls, some of which skip the increment"""
    TS = gs.TimeScale
    s = eng.choose('scale', SCALES[1:])
    ts = TS[s]
    n = eng.int('n', 0, 3)
    ns = ['A', 'B']
    cnt = {x: {v: 0 for v in ns} for x in SCALES[1:]}
    cond, ref = {
        'BeforeNCalls': (lambda: gs.Not(gs.BeforeNCalls('A', n, ts)), lambda c: c['A'] >= n),
        'AtNCalls': (lambda: gs.AtNCalls('A', n, ts), lambda c: c['A'] == n),
        'AfterCall': (lambda: gs.AfterCall('A', n, ts), lambda c: c['A'] > n),
        'AfterNCalls': (lambda: gs.AfterNCalls('A', n, ts), lambda c: c['A'] >= n),
        'AfterNCallsCombined': (lambda: gs.AfterNCallsCombined('A', 'B', n=n, time_scale=ts), lambda c: c['A'] + c['B'] >= n),
        'AllHaveRun': (lambda: gs.AllHaveRun('A', 'B', time_scale=ts), lambda c: c['A'] >= 1 and c['B'] >= 1),
        'AllHaveRun()': (lambda: gs.AllHaveRun(time_scale=ts), lambda c: c['A'] >= 1 and c['B'] >= 1),
    }[kind]
    zero = {v: 0 for v in ns}
    y = [0]
    key, other = ((TS.ENVIRONMENT_STATE_UPDATE, TS.ENVIRONMENT_SEQUENCE) if eng.flag('update') else
                  (TS.ENVIRONMENT_SEQUENCE, TS.ENVIRONMENT_STATE_UPDATE))
    flag = {v: gs.Condition(lambda v=v: eng.flag(f'c_{v}_{y[0]}')) for v in ns}
    if edge:
        flag['A'] = gs.Always()
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'} if edge else set()}, conditions=flag,
                         termination_conds={key: cond(), other: gs.Never()})
    hist = []
    for r in range(runs):
        skip = r < runs - 1 and eng.flag(f'skip{r}')
        for x in ('PASS', 'ENVIRONMENT_STATE_UPDATE'):
            cnt[x] = dict(zero)
        gen = sched.run(skip_environment_state_update_time_increment=skip)
        # None: within a pass, True: a pass may have ended since
        boundary = False
        for _ in range(yields):
            E = next(gen, None)
            if E is not None:
                E = set(E)
            t = ref(cnt[s])
            if s == 'PASS' and boundary:
                # when a pass has just ended, its counts or those of the next one
                t0 = ref(zero)
                eng.check(OR(t, t0) if E is None else NOT(AND(t, t0)), 'the run did not end exactly when the calls were reached',
                          yielded=hist, next=E)
            else:
                eng.check(IFF(E is None, t), 'the run did not end exactly when the calls were reached', yielded=hist, next=E,
                          calls=dict(cnt[s]))
            if E is None:
                eng.reach('ended')
                break
            hist.append(E)
            y[0] += 1
            if not edge or 'A' in E:
                cnt['PASS'] = dict(zero)
            for x in cnt:
                for v in E:
                    cnt[x][v] += 1
            boundary = True
        else:
            gen.close()
            eng.reach('abandoned')
        hist.append('end')
        if r < runs - 1 and eng.flag(f'endseq{r}'):
            sched.end_environment_sequence()
            cnt['ENVIRONMENT_SEQUENCE'] = dict(zero)
            eng.reach('sequence')


KINDS = ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined', 'AllHaveRun', 'JustRan')


def jobs05(tier):
    js = [Job(call_counts_anystate, dict(k=k), require=('evaluated',), split=2 if k > 3 else 0,
              bounds=f'any integer counts and n up to 10^6, {k} nodes, every TimeScale') for k in ((3, 5) if tier == 'quick' else (3, 5, 7))]
    for edge, ctx, ops in [(0, False, 4), (1, True, 5)] if tier == 'quick' else [
            (0, False, 6), (0, True, 6), (1, False, 7), (1, True, 7)]:
        req = ('observed', 'end', 'start', 'endseq')
        js.append(Job(call_counts, dict(k=2, edge=edge, ops=ops, ctx=ctx),
                      require=req if edge else req + ('observed within a set',), split=5 if tier == 'quick' else 8,
                      weight=10,
                      bounds=f'2 nodes; histories of {ops} operations (step, end run, abandon and restart, end '
                      'environment sequence) in the default or a named context; |n| <= 10^6 symbolic'))
    if tier == 'thorough':
        js.append(Job(call_counts, dict(k=3, edge=1, ops=5, ctx=True), require=('observed',), split=6, weight=20,
                      bounds='3 nodes, histories of 5 operations'))
    q = tier == 'quick'
    for kind in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined', 'AllHaveRun', 'AllHaveRun()'):
        for edge in (0, 1):
            js.append(Job(terminated_by_calls, dict(kind=kind, edge=edge, runs=2 if q else 3, yields=2 if q else 3 if edge else 2),
                          split=2 if q else 5, require=('ended', 'abandoned', 'sequence'), weight=1 if q else 4,
                          bounds='2 nodes, 2 (3) runs of up to 2 or 3 sets that end by the condition, n symbolic'))
    for kind in KINDS + ('AllHaveRun()',):
        for edge in (0, 1):
            quick1 = tier == 'quick' and kind in ('AfterNCallsCombined', 'AllHaveRun') and not edge
            runs = 1 if quick1 else 2
            y = 3 if quick1 or tier == 'thorough' else 2
            js.append(Job(scheduled_by_calls, dict(kind=kind, edge=edge, yields=y, runs=runs),
                          require=('C executed', 'normal', 'abandon') if runs > 1 else ('C executed',),
                          split=2 if tier == 'quick' else 6,
                          bounds='2 or 3 nodes, one scheduled by the condition with symbolic n >= 0, '
                          f'{runs} runs of {y} sets'))
    return js


# ---------------------------------------------------------------------------
# C04
# ---------------------------------------------------------------------------

def every_n_calls(eng, gs, edges, yields, runs):
    """A decided by the solver, B: EveryNCalls(A, n), C: default condition"""
    ns = ['A', 'B', 'C']
    g = {v: set() for v in ns}
    for e in edges.split():
        g[e[1]].add(e[0])
    n = _n(eng, lo=1)
    eid = eng.choose('eid', [NotImplemented, 'ctx']) if runs == 1 else NotImplemented
    kw = {} if eid is NotImplemented else {'execution_id': eid}
    state = {'y': 0, 'stop': False}

    def truth(v, ctx, X):
        if v == 'A':
            return eng.known(eng.bool(f'c_A_{sum(1 for kk, p in ctx.events if kk == "exec")}'))
        if v == 'B':
            return ctx.since('A', 'B', X) >= n
        return all(ctx.since(s, v, X) >= 1 for s in g[v])

    sched = gs.Scheduler(
        graph=lib.copy_graph(g),
        conditions={'A': gs.Condition(lambda: bool(eng.bool(f'c_A_{state["y"]}'))), 'B': gs.EveryNCalls('A', n)},
        termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: state['stop']),
                           gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()},
    )
    spec = TraceSpec(eng, layering(g), truth)
    for r in range(runs):
        state['stop'] = False
        run = sched.run(**kw)
        spec.start_run()
        for i in range(yields):
            E = next(run)
            spec.resumed()
            spec.on_yield(E)
            state['y'] += 1
            for v in E:
                eng.reach(f'{v} executed')
        if r == runs - 1:
            break
        end = eng.choose(f'end{r}', ['normal', 'abandon'])
        eng.reach(end)
        if end == 'normal':
            state['stop'] = True
            spec.resumed()
            spec.ended()
            eng.check(next(run, 'done') == 'done', 'a run went on after its termination')
            spec.inc('ENVIRONMENT_STATE_UPDATE')


def every_n_within(eng, gs, yields, third, runs=1):
    """B: EveryNCalls(A, n), in the same consideration set as A, which may
    execute after it; C: EveryNCalls(B, 1), in the same or the next one"""
    ns = ['A', 'B'] + (['C'] if third else [])
    g = {v: set() for v in ns}
    if third == 'next':
        g['C'] = {'A', 'B'}
    n = _n(eng, lo=1)
    TS = gs.TimeScale
    state = {'y': 0}

    def c(i, y):
        return eng.known(eng.bool(f'c{i}_{y}'))

    def truth(v, ctx, X):
        y = sum(1 for kk, p in ctx.events if kk == 'exec')
        if v == 'A':
            return OR(c(1, y), AND(c(2, y), 'B' in X))
        if v == 'B':
            return OR(c(3, y), ctx.since('A', 'B', X) >= n)
        return ctx.since('B', 'C', X) >= 1

    def flag(i):
        return gs.Condition(lambda: bool(eng.bool(f'c{i}_{state["y"]}')))
    conds = {'A': gs.Any(flag(1), gs.All(flag(2), gs.AfterNCalls('B', 1, TS.CONSIDERATION_SET_EXECUTION))),
             'B': gs.Any(flag(3), gs.EveryNCalls('A', n))}
    if third:
        conds['C'] = gs.EveryNCalls('B', 1)
    sched = gs.Scheduler(graph=lib.copy_graph(g), conditions=conds,
                         termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Never(), TS.ENVIRONMENT_SEQUENCE: gs.Never()})
    spec = TraceSpec(eng, layering(g), truth)
    for r in range(runs):
        run = sched.run()
        spec.start_run()
        for i in range(yields):
            E = next(run)
            spec.resumed()
            spec.on_yield(E)
            state['y'] += 1
            if {'A', 'B'} <= E:
                eng.reach('together')
        run.close()


def default_conditions(eng, gs, k, yields):
    """no conditions but on the sources, every DAG"""
    ns = node_names(k)
    g = dag(eng, ns)
    state = {'y': 0}
    srcs = [v for v in ns if not g[v]]
    adv = srcs[:1] if eng.flag('adversary') else []

    def truth(v, ctx, X):
        if v in adv:
            return eng.known(eng.bool(f'c_{v}_{sum(1 for kk, p in ctx.events if kk == "exec")}'))
        return all(ctx.since(s, v, X) >= 1 for s in g[v])

    sched = gs.Scheduler(
        graph=lib.copy_graph(g),
        conditions={v: gs.Condition(lambda v=v: bool(eng.bool(f'c_{v}_{state["y"]}'))) for v in adv},
        termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never()},
    )
    spec = TraceSpec(eng, layering(g), truth, order_matters=False)
    run = sched.run()
    spec.start_run()
    for i in range(yields):
        E = next(run)
        spec.resumed()
        spec.on_yield(E)
        state['y'] += 1
        eng.reach('executed' if E else 'empty')


def every_n_anystate(eng, gs, k):
    """arbitrary per-owner counts"""
    ns = node_names(k)
    sched = gs.Scheduler(graph={v: set() for v in ns})
    n = _n(eng, lo=1)
    cnt = {}
    useable = sched.counts_useable[None]
    for a in ns:
        for b in ns:
            cnt[a, b] = eng.int(f'since_{a}_{b}', 0, BIG, small=(0, 2))
            useable[a][b] = cnt[a, b]
    if any(sched.counts_useable[None][a][b] is not cnt[a, b] for a, b in cnt):
        eng.check(True, 'representation differs')
        return
    items = []
    for owner in ns:
        for d in ns:
            if d != owner:
                c = gs.EveryNCalls(d, n)
                c.owner = owner
                items.append((IFF(c.is_satisfied(scheduler=sched, execution_id=None), cnt[d, owner] >= n), f'EveryNCalls({d}) of {owner}'))
    eng.check_all(items, counts=cnt)
    eng.reach('evaluated')


def jobs04(tier):
    js = [Job(every_n_anystate, dict(k=3), require=('evaluated',),
              bounds='any integer counts and n up to 10^6, 3 nodes')]
    y = 3 if tier == 'quick' else 5
    for edges in ('', 'AB', 'AB BC', 'AC', 'BC AC', 'AB AC', 'AB BC AC', 'BA', 'CA CB'):
        js.append(Job(every_n_calls, dict(edges=edges, yields=y, runs=2), require=('A executed', 'B executed', 'normal', 'abandon'),
                      bounds=f'3 nodes, edges {edges}; 2 runs of {y} sets, n >= 1 symbolic', split=2 if tier == 'quick' else 4))
        js.append(Job(every_n_calls, dict(edges=edges, yields=y + 2, runs=1), require=('A executed', 'B executed'),
                      bounds=f'3 nodes, edges {edges}; 1 run of {y + 2} sets, n >= 1 symbolic', split=1))
    for third, y, r in ((None, 3, 1), ('same', 2, 1), ('next', 3, 1), (None, 2, 2)):
        js.append(Job(every_n_within, dict(yields=y if tier == 'quick' else y + 1, third=third, runs=r), split=3 if tier == 'quick' else 6, require=('together',),
                      bounds='2 or 3 nodes, owner and dependency in one consideration set and executed in any order, n >= 1 symbolic'))
    js.append(Job(default_conditions, dict(k=4, yields=5 if tier == 'quick' else 8), split=4, require=('executed',),
                  bounds='all DAGs on 4 nodes with default conditions'))
    if tier == 'thorough':
        js.append(Job(default_conditions, dict(k=5, yields=5), split=6, require=('executed',),
                      bounds='all DAGs on 5 nodes with default conditions'))
    return js


CHECKS = [
    Check('C04', jobs04, outside='more nodes, longer runs; EveryNCalls whose dependency is its own owner'),
    Check('C05', jobs05, outside='more nodes, longer histories'),
]
