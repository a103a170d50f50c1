"""C02 (order of executions) and C03 (executed exactly when satisfied)."""
from .. import lib
from ..engine import OR, IFF
from ..lib import node_names, layering, ancestors, dag, Adversary, TraceSpec
from ..run import Job, Check


BIG = 10 ** 6


def _setup(eng, gs, k):
    ns = node_names(k)
    g = dag(eng, ns)
    adv = Adversary(eng)
    sched = gs.Scheduler(
        graph=lib.copy_graph(g),
        conditions={v: adv.condition(gs, v) for v in ns},
        termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never(),
                           gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()},
    )
    return ns, g, adv, sched


def order(eng, gs, k, yields):
    """every set yielded is part of one consideration set, sets advance in
    queue order within a pass"""
    ns, g, adv, sched = _setup(eng, gs, k)
    layers = layering(g)
    run = sched.run()
    ptr, in_pass = -1, set()
    for _ in range(yields):
        E = next(run)
        adv.yielded()
        p = sched.get_clock().time.pass_
        E = set(E)
        at = [i for i, l in enumerate(layers) if E & l]
        eng.check(len(at) <= 1, 'a yielded set mixes nodes of several consideration sets', graph=g, yielded=E)
        for v in E:
            eng.check(not (E & ancestors(g, v)), 'a node was yielded together with one of its ancestors', graph=g, yielded=E)
        if _ == 0:
            cur_pass = p
        if p != cur_pass:
            ptr, in_pass, cur_pass = -1, set(), p
        if at:
            eng.check(at[0] > ptr, 'consideration sets visited out of order within a PASS', graph=g, yielded=E)
            ptr = at[0]
            eng.reach('executed')
            if in_pass:
                eng.reach('two sets in a pass')
        for v in E:
            eng.check(v not in in_pass, 'a node executed twice in a PASS', graph=g, node=v)
            for u in in_pass:
                eng.check(v not in ancestors(g, u), 'a node executed after one of its descendants within a PASS', graph=g, node=v)
        in_pass |= E
        if not E:
            eng.reach('empty pass')


def order_runs(eng, gs, edges, ops, keys):
    """the same for interleaved runs of two contexts that are abandoned and
    started again"""
    ns = ['A', 'B', 'C']
    g = {v: set() for v in ns}
    for e in edges.split():
        g[e[1]].add(e[0])
    layers = layering(g)
    TS = gs.TimeScale
    cnt = {k: 0 for k in keys}
    sched = gs.Scheduler(
        graph=lib.copy_graph(g),
        conditions={v: gs.Condition(lambda execution_id, v=v: eng.flag(f'{"xy"[keys.index(execution_id)]}_{v}_{cnt[execution_id]}')) for v in ns},
        termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Never(), TS.ENVIRONMENT_SEQUENCE: gs.Never()})
    gens, ptr, seen, pas = {}, {}, {}, {}
    hist = []
    for i in range(ops):
        key = eng.choose(f'who{i}', list(keys) if i else [keys[0]])
        kw = {} if key is None else {'execution_id': key}
        if key not in gens or eng.flag(f'restart{i}'):
            if key in gens:
                eng.reach('restart')
            gens[key] = sched.run(**kw)
            ptr[key], seen[key], pas[key] = -1, set(), None
            hist.append((key, 'start'))
        E = set(next(gens[key]))
        cnt[key] += 1
        hist.append((key, E))
        p = sched.get_clock(key).time.pass_
        if p != pas[key]:
            ptr[key], seen[key], pas[key] = -1, set(), p
        at = [j for j, l in enumerate(layers) if E & l]
        eng.check(len(at) <= 1, 'a yielded set mixes nodes of several consideration sets', graph=g, history=hist)
        if at:
            eng.check(at[0] > ptr[key], 'consideration sets visited out of order within a PASS', graph=g, history=hist)
            ptr[key] = at[0]
            eng.reach('executed')
        for v in E:
            eng.check(v not in seen[key], 'a node executed twice in a PASS', graph=g, history=hist)
            for u in seen[key]:
                eng.check(v not in ancestors(g, u), 'a node executed after one of its descendants within a PASS', graph=g, history=hist)
        seen[key] |= E


def _edges(edges, ns):
    g = {v: set() for v in ns}
    for e in edges.split():
        g[e[1]].add(e[0])
    return g


def order_library(eng, gs, edges, yields):
    """the same when the nodes have the built-in conditions"""
    ns = ['A', 'B', 'C']
    g = _edges(edges, ns)
    layers = layering(g)
    TS = gs.TimeScale
    n = eng.choose('n', [1, 2])
    absolute = {
        'repeat': lambda: gs.TimeInterval(repeat=n), 'repeat start': lambda: gs.TimeInterval(repeat=2, start=n),
        'start': lambda: gs.TimeInterval(start=n), 'end': lambda: gs.TimeInterval(end=n, end_inclusive=False),
        'any': lambda: gs.Any(gs.AtPass(0), gs.TimeInterval(repeat=3)),
    }
    others = {'Always': gs.Always, 'EveryNCalls': lambda: gs.EveryNCalls('A', n), 'AfterNCalls': lambda: gs.AfterNCalls('B', n),
              'JustRan': lambda: gs.JustRan('C'), 'EveryNPasses': lambda: gs.EveryNPasses(n), 'NWhen': lambda: gs.NWhen(gs.Always(), n)}
    mode = eng.choose('mode', ['absolute', 'termination', 'mixed', 'library'])
    if mode == 'library':
        def state(execution_id):
            return True
        cond = lib.library(gs, 'A', None, n)
        kind = eng.choose('kind', list(cond))
        conds = {v: cond[kind]() for v in ns}
    elif mode == 'absolute':
        conds = {v: absolute[eng.choose(f'kind{v}', list(absolute))]() for v in ns}
    else:
        table = {**others, **(absolute if mode == 'mixed' else {})}
        kind = eng.choose('kind', list(table))
        kind2 = eng.choose('kind2', list(table))
        conds = {'A': table[kind](), 'B': table[kind2](), 'C': table[kind]()}
    sched = gs.Scheduler(graph=lib.copy_graph(g), conditions=conds)
    gen = sched.run(termination_conds={
        TS.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination(100) if mode == 'termination' else gs.Never(), TS.ENVIRONMENT_SEQUENCE: gs.Never()})
    ptr, seen, pas, hist = -1, set(), None, []
    for i in range(yields):
        E = set(next(gen))
        hist.append(E)
        p = sched.get_clock().time.pass_
        if p != pas:
            ptr, seen, pas = -1, set(), p
        at = [j for j, l in enumerate(layers) if E & l]
        eng.check(len(at) <= 1, 'a yielded set mixes nodes of several consideration sets', graph=g, history=hist)
        if at:
            eng.check(at[0] > ptr, 'consideration sets visited out of order within a PASS', graph=g, history=hist)
            ptr = at[0]
            eng.reach(mode)
        eng.check(not (E & seen), 'a node executed twice in a PASS', graph=g, history=hist)
        seen |= E
        if mode in ('absolute', 'termination'):
            eng.check(E <= layers[i % len(layers)], 'consideration sets are not visited in order', graph=g, history=hist)


def exact_iff_absolute(eng, gs, edges, yields):
    """runs that depend on absolute time: every consideration set is yielded"""
    ns = ['A', 'B', 'C']
    g = _edges(edges, ns)
    layers = layering(g)
    TS = gs.TimeScale
    y = [0]

    def cond(v):
        return gs.Condition(lambda: eng.bool(f'{v}_{y[0]}'))
    which = eng.choose('absolute', ['termination', 'one node', 'all nodes', 'one node with repeat'])
    conds = {v: cond(v) for v in ns}
    for v in ns if which == 'all nodes' else [] if which == 'termination' else [eng.choose('node', ns)]:
        conds[v] = gs.Any(conds[v], gs.TimeInterval(start=BIG) if which != 'one node with repeat' else gs.TimeInterval(repeat=BIG, start=BIG))
    sched = gs.Scheduler(graph=lib.copy_graph(g), conditions=conds)
    gen = sched.run(termination_conds={TS.ENVIRONMENT_SEQUENCE: gs.Never(), TS.ENVIRONMENT_STATE_UPDATE:
                                       gs.TimeTermination(2 * BIG) if which == 'termination' else gs.Never()})
    hist = []
    for i in range(yields):
        E = set(next(gen))
        hist.append(E)
        now = sched.get_clock().time.absolute.m
        X = layers[i % len(layers)]
        exp = {v: eng.bool(f'{v}_{i}') for v in X}
        if which in ('one node', 'all nodes', 'one node with repeat'):
            # the interval itself may be satisfied
            sat = now >= BIG
            for v in X:
                if (which == 'all nodes' or conds[v].is_absolute):
                    exp[v] = None if which == 'one node with repeat' else OR(exp[v], sat)
        eng.check(E <= X, 'a node executed that was not considered', graph=g, history=hist)
        for v in X:
            if exp[v] is not None:
                eng.check(IFF(v in E, exp[v]), 'a considered node executed although its condition was not satisfied, or did not '
                          'although it was', graph=g, history=hist, node=v)
        y[0] += 1
        eng.reach(which)
        eng.reach('executed' if E else 'empty')


def exact_iff(eng, gs, k, yields):
    ns, g, adv, sched = _setup(eng, gs, k)
    spec = TraceSpec(eng, layering(g), lambda v, ctx, X: adv.out(v, sum(1 for kk, p in ctx.events if kk == 'exec'), X))
    run = sched.run()
    spec.start_run()
    for i in range(yields):
        E = next(run)
        if i:
            spec.resumed()
        spec.on_yield(E)
        adv.yielded()
        eng.reach('executed' if E else 'empty pass')
        if len(E) > 1:
            eng.reach('several nodes')
    # positive reference: the time shown agrees with the passes seen
    eng.check(sched.get_clock().time.pass_ == sum(1 for kk, p in spec.ctx().events if (kk, p) == ('inc', 'PASS')),
              'the number of passes differs from the number of times the whole queue was considered')


class _Lane:
    """one execution context: its outcomes, its reference schedule, its run"""

    def __init__(self, eng, tag, layers):
        self.eng, self.tag, self.n, self.sat = eng, tag, 0, []
        self.spec = TraceSpec(eng, layers, self.truth, what=f'schedule of {tag}')
        self.gen = None
        self.stop = False

    def out(self, v, n, X):
        return self.eng.known(self.eng.bool(f'{self.tag}_{v}_{n}' + ('_' + ''.join(sorted(X)) if X else '')))

    def truth(self, v, ctx, X):
        return self.out(v, sum(1 for kk, p in ctx.events if kk == 'exec'), X)

    def value(self, v):
        r = bool(self.out(v, self.n, self.sat))
        if r and v not in self.sat:
            self.sat.append(v)
        return r


def several_runs(eng, gs, k, edges, ops, keys, default):
    """histories of runs (some abandoned) in one or more contexts"""
    ns = node_names(k)
    g = {v: set() for v in ns}
    for e in edges.split():
        g[e[1]].add(e[0])
    layers = layering(g)
    lanes = {key: _Lane(eng, t, layers) for key, t in zip(keys, 'xyz')}
    TS = gs.TimeScale
    sched = gs.Scheduler(
        graph=lib.copy_graph(g), default_execution_id=default,
        conditions={v: gs.Condition(lambda execution_id, v=v: lanes[execution_id].value(v)) for v in ns},
        termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda execution_id: lanes[execution_id].stop),
                           TS.ENVIRONMENT_SEQUENCE: gs.Never()},
    )
    hist = []
    skip = eng.flag('skip')
    for i in range(ops):
        key = eng.choose(f'who{i}', list(keys)) if len(keys) > 1 and i else keys[0]
        l = lanes[key]
        kw = {} if key == default else {'execution_id': key}
        op = eng.choose(f'op{i}', ['step', 'end', 'restart'] if l.gen is not None else ['start', 'endseq'] if i else ['start'])
        hist.append((key, op))
        if op == 'endseq':
            sched.end_environment_sequence(**kw)
            eng.reach('endseq')
            continue
        if op == 'end':
            l.stop = True
            eng.check(next(l.gen, 'done') == 'done', 'a run went on after its termination', history=hist)
            l.spec.resumed()
            l.spec.ended()
            l.gen = None
            eng.reach('end')
            continue
        if op in ('start', 'restart'):
            l.stop = False
            l.gen = sched.run(**kw, **({'skip_environment_state_update_time_increment': True} if skip else {}))
            l.spec.start_run()
            eng.reach(op)
        else:
            l.spec.resumed()
            eng.reach('step')
        E = next(l.gen)
        l.spec.on_yield(E)
        l.n += 1
        l.sat = []


def _jobs(h, tier, req):
    cfg = [(2, 4, 2), (3, 3, 6)] if tier == 'quick' else [(2, 6, 4), (3, 4, 8), (4, 2, 8)]
    return [Job(h, dict(k=k, yields=y), require=req, weight=k, split=sp,
                bounds=f'all DAGs on {k} nodes, arbitrary condition outcomes (depending on everything that '
                f'happened before), first {y} execution sets')
            for k, y, sp in cfg]


def _run_jobs(tier):
    q = tier == 'quick'
    req = ('start', 'restart', 'step', 'end')
    out = []
    for k, edges, ops, keys, d in ((2, 'AB', 4, (None,), None), (2, '', 3, ('x',), None), (3, 'AB BC', 3, (None,), None),
                                   (2, 'AB', 3, (None, 'x'), None), (1, '', 4, (0, None), 0)):
        out.append(Job(several_runs, dict(k=k, edges=edges, ops=ops if q else ops + 2, keys=keys, default=d), split=2 if q else 5,
                       require=req, weight=2,
                       bounds=f'{k} nodes, edges {edges or "none"}, contexts {keys}: every history of {ops} (quick) or {ops + 2} operations '
                       '(step, end the run, abandon it and start another, end the environment sequence), any outcomes'))
    return out


CHECKS = [
    Check('C02', lambda tier: _jobs(order, tier, ('executed', 'two sets in a pass', 'empty pass')) + [
        Job(order_runs, dict(edges=e, ops=3 if tier == 'quick' else 4, keys=(None, 'x')), require=('executed', 'restart'),
            split=2 if tier == 'quick' else 6, weight=3,
            bounds=f'3 nodes, edges {e}; two interleaved contexts whose runs may be abandoned and started again at any step, 3 or 4 steps')
        for e in ('AB BC', 'AB AC', 'AC BC', 'AB')] + [
        Job(order_library, dict(edges=e, yields=6 if tier == 'quick' else 12), require=('absolute', 'termination', 'mixed', 'library'),
            split=2, bounds=f'3 nodes, edges {e}, the built-in conditions including those on absolute time, 6 (12) sets')
        for e in ('AB BC', 'AB AC', 'AC BC', 'BA', '')],
          outside='more nodes, longer runs'),
    Check('C03', lambda tier: _jobs(exact_iff, tier, ('executed', 'several nodes', 'empty pass')) + _run_jobs(tier) + [
        Job(exact_iff_absolute, dict(edges=e, yields=(3 if tier == 'quick' else 4) if e else 2), split=2, weight=2,
            require=('termination', 'one node', 'all nodes', 'executed', 'empty'),
            bounds=f'3 nodes, edges {e or "none"}, runs in absolute time mode, any outcomes, 2 to 4 sets')
        for e in ('AB BC', 'AC BC', '')],
          outside='more nodes, longer runs'),
]
