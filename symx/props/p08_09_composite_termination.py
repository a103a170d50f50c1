"""C08 (composite conditions) and C09 (termination)."""
import copy

from ..engine import AND, OR, NOT, IFF
from ..lib import Adversary, dag, node_names, layering
from ..run import Job, Check

BIG = 10 ** 6


# ---------------------------------------------------------------------------
# C08
# ---------------------------------------------------------------------------

def _tree(gs, eng, depth, leaf, arity, path=''):
    """(condition, reference term, leaves): any nesting of the composites"""
    ops = ['leaf'] if depth == 0 else ['leaf', 'All', 'Any', 'And', 'Or', 'Not', 'While', 'WhileNot']
    if depth == 0 or path == '':
        ops = [o for o in ops if path != '' or o != 'leaf'] or ops
    if depth and path:
        # aliases are tried at the root only
        ops = [o for o in ops if o not in ('And', 'Or')]
    op = eng.choose(f'op{path}', ops)
    if op == 'leaf':
        c, v = leaf(path)
        return c, v
    if op in ('While', 'WhileNot'):
        v = eng.bool(f'v{path}')
        calls = []

        if eng.flag(f'required{path}'):
            def func(number, scheduler, execution_id, extra, run_argument):
                calls.append(((number,), scheduler, execution_id, dict(extra=extra, run_argument=run_argument)))
                return v
        else:
            def func(*args, scheduler=None, execution_id=None, **kw):
                calls.append((args, scheduler, execution_id, kw))
                return v
        c = getattr(gs, op)(func, 7, extra=8)
        getattr(leaf, 'calls', []).append(calls)
        return c, (v if op == 'While' else NOT(v))
    if op == 'Not':
        s, v = _tree(gs, eng, depth - 1, leaf, arity, path + '0')
        return gs.Not(s), NOT(v)
    n = eng.choose(f'n{path}', list(range(1, arity + 1)))
    subs = [_tree(gs, eng, depth - 1, leaf, arity, path + str(i)) for i in range(n)]
    cls = getattr(gs, op)
    vs = [v for _, v in subs]
    return cls(*[s for s, _ in subs]), (AND(vs) if op in ('All', 'And') else OR(vs))


def composite(eng, gs, depth, arity):
    leaves = []
    seen = []
    TS = gs.TimeScale

    def leaf(path):
        v = eng.bool(f'v{path}')

        def func(scheduler, execution_id, run_argument, **kw):
            seen.append((path, scheduler, execution_id, run_argument, kw))
            return v
        c = gs.Condition(func)
        leaves.append(c)
        return c, v

    leaf.calls = []
    c, v = _tree(gs, eng, depth, leaf, arity)
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}})
    how = eng.choose('how', ['is_satisfied', 'run', 'moved'])
    marker = object()
    if how == 'is_satisfied':
        c.owner = 'B'
        for e in ('x', None, 'x'):
            r = c.is_satisfied(scheduler=sched, execution_id=e, run_argument=marker)
            eng.check(IFF(r, v), 'value of a composite condition', condition=str(c))
        exp_eid = ('x', None)
    else:
        sched.add_condition('A', gs.Always())
        if how == 'moved':
            sched.add_condition('A', c)
            sched.remove_condition(c)
            sched.add_condition('A', gs.Always())
        sched.add_condition('B', c)
        gen = sched.run(execution_id='x', run_argument=marker,
                        termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)})
        out = [set(s) for s in gen]
        eng.check(IFF(['A'] != [x for s in out for x in s], v), 'execution of a node with a composite condition',
                  condition=str(c))
        eng.check(out[0] == {'A'} and (out[1:] in ([], [{'B'}])), 'execution of a node with a composite condition')
        exp_eid = ('x',)
    eng.check(c.owner == 'B', 'owner of the composite condition')
    for l in leaves:
        eng.check(l.owner == 'B', 'a component does not have the owner of the composite condition', condition=str(c), how=how)
    for path, s, e, m, kw in seen:
        eng.check(s is sched and e in exp_eid and m is marker, 'arguments of a component', got=(s, e, m), kw=kw)
    for args, s, e, kw in [x for calls in leaf.calls for x in calls]:
        eng.check(args == (7,) and s is sched and e in exp_eid and kw == {'extra': 8, 'run_argument': marker},
                  'arguments of a component', got=(args, s, e, kw))
    eng.reach(how)


def component_context(eng, gs, outer, inner):
    """built-in components that depend on owner and context, inside composites"""
    TS = gs.TimeScale
    n = eng.int('n', 0, 3)

    def mk():
        return {
            'EveryNCalls': lambda: gs.EveryNCalls('A', n),
            'AtNCalls': lambda: gs.AtNCalls('A', n, TS.LIFE),
            'AtPass': lambda: gs.AtPass(n),
            'JustRan': lambda: gs.JustRan('A'),
        }[inner]()

    def wrap(c):
        return {
            'All': lambda: gs.All(c, gs.Always()),
            'Any': lambda: gs.Any(gs.Never(), c),
            'NotNot': lambda: gs.Not(gs.Not(c)),
            'NWhen': lambda: gs.NWhen(c, 100),
            'deep': lambda: gs.All(gs.Any(gs.Not(gs.Not(c)))),
            'NWhenAll': lambda: gs.NWhen(gs.All(c), 100),
            'NWhenNotAnyNot': lambda: gs.NWhen(gs.Not(gs.Any(gs.Not(c))), 100),
        }[outer]()

    outs = []
    moved = eng.flag('moved')
    for c in (mk(), wrap(mk())):
        sched = gs.Scheduler(
            graph={'A': set(), 'B': {'A'}},
            termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)},
            conditions={'A': gs.Condition(lambda scheduler, execution_id: eng.bool(
                f'A{len(scheduler.execution_list[execution_id])}'))})
        if moved:
            sched.add_condition('A', c)
            sched.remove_condition(c)
            sched.add_condition('A', gs.Condition(lambda scheduler, execution_id: eng.bool(
                f'A{len(scheduler.execution_list[execution_id])}')))
        sched.add_condition('B', c)
        tr = []
        for e in ('x', 'y'):
            tr.append([set(s) for s in sched.run(execution_id=e)])
        outs.append(tr)
    eng.check(outs[0] == outs[1], f'{outer} of one condition differs from the condition', plain=outs[0], wrapped=outs[1])
    eng.reach('done')


def nwhen(eng, gs, steps, kind):
    """any sequence of evaluations in two contexts"""
    n = eng.int('n', -BIG, BIG, small=(-1, 3))
    m = eng.int('m', -BIG, BIG, small=(-1, 3)) if kind == 'nested' else None
    cur = {}
    inner = gs.Condition(lambda: cur['v'])
    if kind == 'default':
        n = 1
        cond = gs.NWhen(inner)
    elif kind == 'nested':
        cond = gs.NWhen(gs.NWhen(inner, m), n)
    elif kind == 'in_not':
        cond = gs.Not(gs.NWhen(inner, n))
    else:
        cond = gs.NWhen(inner, n)
    sched = gs.Scheduler(graph={'A': set()})
    cond.owner = 'A'
    eng.check(inner.owner == 'A', 'owner of the component')
    cnt = {'x': 0, 'y': 0, None: 0}
    for i in range(steps):
        e = eng.choose(f'ctx{i}', ['x', 'y'] if i else ['x', 'y', None])
        v = cur['v'] = eng.flag(f'v{i}')
        r = cond.is_satisfied(scheduler=sched, execution_id=e)
        if kind == 'in_not':
            r = NOT(r)
        if kind == 'nested':
            exp = AND(v, cnt[e] < n, cnt[e] < m)
        else:
            exp = AND(v, cnt[e] < n)
        eng.check(IFF(r, exp), 'NWhen is not satisfied exactly the first n times', context=e, before=cnt)
        if v and exp:
            cnt[e] += 1
            eng.reach('satisfied')
        elif v:
            eng.reach('exhausted')


def nwhen_arguments(eng, gs, depth):
    """NWhen around and within other composites: what its components receive"""
    TS = gs.TimeScale
    seen = []
    shape = [eng.choose(f'op{i}', ['All', 'Any', 'Not', 'NWhen']) for i in range(depth)]
    eng.assume('NWhen' in shape)
    kind = eng.choose('leaf', ['Condition', 'While', 'WhileNot'])
    v = eng.bool('v')

    def func(*args, scheduler=None, execution_id=None, run_argument='default', **kw):
        seen.append((args, scheduler, execution_id, run_argument, kw))
        return v
    c = getattr(gs, kind)(func, 7, extra=8)
    leaf, r = c, (NOT(v) if kind == 'WhileNot' else v)
    for op in reversed(shape):
        if op == 'All':
            c = gs.All(gs.Always(), c)
        elif op == 'Any':
            c = gs.Any(gs.Never(), c)
        elif op == 'Not':
            c, r = gs.Not(c), NOT(r)
        else:
            c = gs.NWhen(c, 50)
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}}, conditions={'B': c, 'A': gs.Always()})
    marker = object()
    as_termination = eng.flag('termination')
    if as_termination:
        sched.add_condition('B', gs.Always())
        out = []
        gen = sched.run(execution_id='x', run_argument=marker, other=2, termination_conds={
            TS.ENVIRONMENT_STATE_UPDATE: gs.Any(c, gs.AfterNPasses(1)), TS.ENVIRONMENT_SEQUENCE: gs.Never()})
        out = [x for s in gen for x in s]
        eng.check(IFF(out == [], r), 'a nested condition with arguments does not have its value', shape=shape, got=out)
    else:
        gen = sched.run(execution_id='x', run_argument=marker, other=2, termination_conds={
            TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)})
        out = [x for s in gen for x in s]
        eng.check(IFF(out == ['A', 'B'], r), 'a nested condition with arguments does not have its value', shape=shape, got=out)
        eng.check(leaf.owner == 'B', 'owner of the component')
    eng.check(len(seen) > 0, 'the component was not evaluated')
    for args, s, e, m, kw in seen:
        eng.check(args == (7,) and s is sched and e == 'x' and m is marker and kw == {'extra': 8, 'other': 2},
                  'arguments of a component', shape=shape, got=(args, e, m, kw))
    eng.reach('termination' if as_termination else 'node')


def nwhen_runs(eng, gs, steps):
    """NWhen scheduling a node, contexts interleaved"""
    n = eng.int('n', 0, BIG, small=(0, 3))
    TS = gs.TimeScale
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}}, conditions={
        'A': gs.Always(), 'B': gs.NWhen(gs.AfterPass(0, TS.LIFE), n)},
        termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Never()})
    gens, cnt, passes, after = {}, {}, {}, {}
    for i in range(steps):
        e = eng.choose(f'ctx{i}', ['x', 'y', 'restart x'])
        if e == 'restart x':
            gens.pop('x', None)
            after.pop('x', None)
            e = 'x'
        if e not in gens:
            gens[e] = sched.run(execution_id=e)
            cnt.setdefault(e, 0)
        E = set(next(gens[e]))
        t = sched.get_clock(e)
        # B was considered between two A's
        if after.get(e) == 'A':
            p = t.get_total_times_relative(TS.PASS, TS.LIFE) - (0 if E == {'B'} else 1)
            exp = AND(p > 0, cnt[e] < n)
            eng.check(IFF(E == {'B'}, exp), 'a node with NWhen', context=e, executions=cnt, passes=p)
            if E == {'B'}:
                cnt[e] += 1
        after[e] = 'A' if E == {'A'} else 'B'
    eng.reach('done')


def jobs08(tier):
    q = tier == 'quick'
    out = [
        Job(composite, dict(depth=2, arity=2), require=('is_satisfied', 'run', 'moved'), split=4 if q else 5, weight=5,
            bounds='every nesting of All/Any/And/Or/Not/While/WhileNot of depth 2 with up to 2 components, all values'),
        Job(composite, dict(depth=1, arity=3 if q else 4), require=('is_satisfied', 'run', 'moved'), split=2,
            bounds='depth 1 with up to 3 (4) components'),
    ]
    for o in ('All', 'Any', 'NotNot', 'NWhen', 'deep', 'NWhenAll', 'NWhenNotAnyNot'):
        for i in ('EveryNCalls', 'AtNCalls', 'AtPass', 'JustRan'):
            out.append(Job(component_context, dict(outer=o, inner=i), require=('done',),
                           bounds='3 passes in each of two contexts, any executions of the dependency'))
    for k in ('plain', 'default', 'nested', 'in_not'):
        out.append(Job(nwhen, dict(steps=4 if q else 6, kind=k), require=('satisfied', 'exhausted'),
                       bounds='4 (quick) or 6 evaluations in two contexts, |n| <= 10^6'))
    out.append(Job(nwhen_arguments, dict(depth=3 if q else 4), require=('termination', 'node'), split=2,
                   bounds='every nesting of All, Any, Not and NWhen of depth 3 (4) with an NWhen'))
    out.append(Job(nwhen_runs, dict(steps=6 if q else 9), require=('done',),
                   bounds='6 (quick) or 9 steps of runs in two contexts'))
    if not q:
        out.append(Job(composite, dict(depth=2, arity=3), split=8, require=('is_satisfied', 'run', 'moved'),
                       bounds='depth 2, up to 3 components'))
    return out


# ---------------------------------------------------------------------------
# C09
# ---------------------------------------------------------------------------

def ends(eng, gs, k, yields, runs, edges='any'):
    """termination conditions and node conditions with arbitrary outcomes"""
    ns = node_names(k)
    g = dag(eng, ns)
    adv = Adversary(eng)
    TS = gs.TimeScale
    term = {s: gs.Condition(lambda s=s: eng.bool(f't{s}_{adv.n}')) for s in ('E', 'S')}
    given = eng.choose('given', ['constructor', 'run'])
    tc = {TS.ENVIRONMENT_STATE_UPDATE: term['E'], TS.ENVIRONMENT_SEQUENCE: term['S']}
    sched = gs.Scheduler(graph=g, conditions={v: adv.condition(gs, v) for v in ns},
                         **({'termination_conds': tc} if given == 'constructor' else {}))
    kw = {} if given == 'constructor' else {'termination_conds': tc}
    hist = []
    for r in range(runs):
        gen = sched.run(**kw)
        for y in range(yields + 1):
            try:
                E = set(next(gen))
                res = None
            except StopIteration as e:
                E, res = None, e.value
            t = OR(eng.known(eng.bool(f'tE_{adv.n}')), eng.known(eng.bool(f'tS_{adv.n}')))
            if E is None:
                eng.check(t, 'the run ended although no termination condition was satisfied', yielded=hist, graph=g)
                eng.check([set(x) for x in res] == hist, 'the result of the run is not the list of executions', got=res, yielded=hist)
                eng.reach('ended')
                break
            eng.check(NOT(t), 'the run went on although a termination condition was satisfied', yielded=hist, next=E, graph=g)
            hist.append(E)
            adv.yielded()
            eng.reach('went on')


def after_passes(eng, gs, passes, scale):
    """termination on the number of passes, checked when a pass begins"""
    p = eng.int('p', -1, passes)
    TS = gs.TimeScale
    n = [0]
    log = []

    def ask(v):
        log.append(v)
        return eng.bool(f'c_{v}_{n[0]}')
    cond = {'ESU': lambda: gs.AfterNPasses(p), 'SEQ': lambda: gs.AfterNPasses(p, TS.ENVIRONMENT_SEQUENCE)}[scale]()
    key = TS.ENVIRONMENT_STATE_UPDATE if scale == 'ESU' else TS.ENVIRONMENT_SEQUENCE
    other = TS.ENVIRONMENT_SEQUENCE if scale == 'ESU' else TS.ENVIRONMENT_STATE_UPDATE
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'}}, conditions={v: gs.Condition(lambda v=v: ask(v)) for v in 'AB'},
                         termination_conds={key: cond, other: gs.Never()})
    for s in sched.run():
        n[0] += 1
    eng.check(sched.get_clock(sched.default_execution_id).get_total_times_relative(TS.PASS, TS.LIFE) == (0 if p <= 0 else p),
              'number of passes of a run that ends after p passes')
    short = [v for i, v in enumerate(log) if i == 0 or log[i - 1] != v]
    full = ['A', 'B'] * (len(short) // 2)
    eng.check(short == full and AND(len(short) // 2 == (0 if p <= 0 else p)),
              'the nodes were not considered in exactly p passes', considered=log)
    eng.reach('done')


def considerations(eng, gs, k, steps, absolute):
    """termination conditions whose values change with every consideration of
    a set, whether it yields something or not"""
    ns = node_names(k)
    TS = gs.TimeScale
    log = []            # nodes considered, in order (one node in every set)
    over = []

    def m():
        return sum(1 for i, v in enumerate(log) if i == 0 or log[i - 1] != v)

    def ask(v):
        if not log or log[-1] != v:
            t = OR(eng.bool(f'tE{m()}'), eng.bool(f'tS{m()}'))
            eng.check(NOT(t), 'a set was considered although a termination condition was satisfied', considered=log + [v])
            eng.check(v == ns[m() % k], 'a set was left out', considered=log + [v])
        log.append(v)
        if m() > steps:
            eng.assume(False)
        return eng.bool(f'c{m()}')

    conds = {v: gs.Condition(lambda v=v: ask(v)) for v in ns}
    if absolute:
        conds[ns[0]] = gs.Any(conds[ns[0]], gs.All(gs.Never(), gs.TimeInterval(repeat=1)))
    sched = gs.Scheduler(graph={v: {ns[i - 1]} if i else set() for i, v in enumerate(ns)}, conditions=conds,
                         termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: eng.bool(f'tE{m()}')),
                                            TS.ENVIRONMENT_SEQUENCE: gs.Condition(lambda: eng.bool(f'tS{m()}'))})
    for x in sched.run():
        pass
    t = OR(eng.known(eng.bool(f'tE{m()}')), eng.known(eng.bool(f'tS{m()}')))
    eng.check(t, 'the run ended although no termination condition was satisfied', considered=log)
    eng.reach('ended')


def after_calls(eng, gs, edge, runs):
    """termination on the number of calls: B is not considered any more"""
    n = eng.int('n', 0, 3)
    TS = gs.TimeScale
    state = {'y': 0}
    sched = gs.Scheduler(graph={'A': set(), 'B': {'A'} if edge else set()},
                         conditions={v: gs.Condition(lambda v=v: eng.bool(f'c_{v}_{state["y"]}')) for v in 'AB'},
                         termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('A', n)})
    for r in range(runs):
        cnt = 0
        gen = sched.run()
        for i in range(6):
            E = next(gen, None)
            eng.check(IFF(E is None, cnt >= n), 'the run did not end exactly when the node had executed n times',
                      executions=cnt, next=E)
            if E is None:
                eng.reach('ended')
                break
            cnt += 'A' in E
            state['y'] += 1


def default_end(eng, gs, k, yields, runs):
    """without termination conditions: until all nodes have run"""
    ns = node_names(k)
    g = dag(eng, ns)
    adv = Adversary(eng)
    sched = gs.Scheduler(graph=g, conditions={v: adv.condition(gs, v) for v in ns})
    for r in range(runs):
        ran = set()
        gen = sched.run()
        for y in range(yields):
            try:
                E = set(next(gen))
            except StopIteration:
                eng.check(ran == set(ns), 'the run ended before all nodes had run', ran=ran, graph=g)
                eng.reach('ended')
                break
            eng.check(ran != set(ns), 'the run went on after all nodes had run', ran=ran, next=E, graph=g)
            ran |= E
            adv.yielded()


def default_end_chain(eng, gs, k, shape, late):
    """the same for graphs with many consideration sets; the nodes of one set
    decide whether to execute, all others execute in every pass"""
    ns = node_names(k)
    g = {v: {ns[i - 1]} if i and shape == 'chain' else set(ns[:i - i % 2]) if shape == 'layers' else set() for i, v in enumerate(ns)}
    last = eng.choose('last', ns)
    y = [0]
    sched = gs.Scheduler(graph=g, conditions={v: gs.Condition(lambda: eng.flag(f'c{y[0]}')) if v == last else gs.Always() for v in ns})
    ran, gen = set(), sched.run()
    for i in range(late):
        E = next(gen, None)
        if E is None:
            eng.check(ran == set(ns), 'the run ended before all nodes had run', ran=ran, graph=g)
            eng.reach('ended')
            break
        eng.check(ran != set(ns), 'the run went on after all nodes had run', ran=ran, next=E, graph=g)
        ran |= set(E)
        y[0] += 1


FORMS = ('scale', 'lower', 'upper', 'mixed')


def _key(TS, s, form):
    return {'scale': TS[s], 'lower': s.lower(), 'upper': s, 'mixed': s.title()}[form]


def overrides(eng, gs, runs, setter):
    """where termination conditions come from"""
    TS = gs.TimeScale
    E, S = 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE'

    def cond(name):
        return gs.Condition(lambda: eng.bool('t_' + name))

    def given(tag):
        """a dictionary for some of the scales, and the names of its conditions"""
        d, names = {}, {}
        has = [s for s in (E, S) if eng.flag(f'has_{s}{tag}')]
        if has:
            form = eng.choose('form' + tag, FORMS if not setter or tag == '_set' else FORMS[:2])
        for s in has:
            d[_key(TS, s, form)] = cond(s + tag)
            names[s] = s + tag
        return d, names

    d0, base = given('_init')
    keep = dict(d0)
    sched = gs.Scheduler(graph={'A': set()}, conditions={'A': gs.Always()}, **({'termination_conds': d0} if d0 else {}))
    eng.check(d0 == keep, "the caller's dictionary was modified")
    cur = dict(base)
    for r in range(runs):
        if setter and r == 1:
            if eng.flag('reset'):
                sched.termination_conds = None
                cur = dict(base)
            else:
                d, names = given('_set')
                keep = dict(d)
                sched.termination_conds = d
                eng.check(d == keep, "the caller's dictionary was modified")
                cur.update(names)
        d, names = ({}, {}) if (setter and r == 0) or not eng.flag(f'override{r}') else given(f'_{r}')
        eff = {**cur, **names}
        keep = dict(d)
        gen = sched.run(**({'termination_conds': d} if d else {}))
        t = OR([eng.known(eng.bool('t_' + x)) for x in eff.values()]) if eff else False
        first = next(gen, None)
        eng.check(IFF(first is None, t), 'the effective termination conditions are not the ones that were specified',
                  scheduler=sorted(cur.values()), run=sorted(names.values()))
        if first is not None:
            second = next(gen, None)
            # A has run: the default condition is satisfied now
            eng.check((second is None) == (E not in eff), 'the default termination condition', scheduler=sorted(cur.values()),
                      run=sorted(names.values()))
        eng.check(d == keep and list(d) == list(keep), "the caller's dictionary was modified")
    eng.reach('done')


def rejected(eng, gs):
    """anything that is not a mapping from TimeScales to basic conditions"""
    TS = gs.TimeScale
    where = eng.choose('where', ['constructor', 'setter', 'run'])
    kind = eng.choose('kind', ['container', 'key', 'value'])
    good = eng.flag('good_too')
    ok = gs.Never()
    if kind == 'container':
        bad = eng.choose('container', [[(TS.PASS, ok)], 3, 'PASS', ok, (ok,), {TS.ENVIRONMENT_STATE_UPDATE}, True])
    else:
        bad = {TS.ENVIRONMENT_SEQUENCE: gs.Never()} if good else {}
        if kind == 'key':
            bad[eng.choose('key', ['nope', '', 3, None, ('PASS',), 'PASSES', 'A', TS, 'mro', 'get_parent'])] = ok
        else:
            bad[eng.choose('key', [TS.ENVIRONMENT_STATE_UPDATE, 'environment_state_update', TS.PASS])] = eng.choose('value', [
                None, 'Never', 3, gs.Never, lambda: True, gs.AddEdgeTo('A'), gs.BeforeNode('A'), {}, [ok], TS.PASS])
    sched = gs.Scheduler(graph={'A': set()})
    before = dict(sched.termination_conds)
    keep = dict(bad) if isinstance(bad, dict) else bad
    try:
        if where == 'constructor':
            gs.Scheduler(graph={'A': set()}, termination_conds=bad)
        elif where == 'setter':
            sched.termination_conds = bad
        else:
            next(sched.run(termination_conds=bad))
        out = None
    except (TypeError, gs.SchedulerError, ValueError, AttributeError) as e:
        out = e
    eng.check(out is not None, 'invalid termination conditions were accepted', where=where, given=bad)
    eng.check(bad == keep, "the caller's object was modified", where=where)
    eng.check(sched.termination_conds == before, 'rejected termination conditions changed the scheduler', where=where, given=bad)
    eng.check(sched.execution_list[sched.default_execution_id] == [], 'something was recorded')
    eng.check([set(x) for x in sched.run()] == [{'A'}], 'the scheduler cannot be used after an error', where=where, given=bad)
    eng.reach(kind)


def jobs09(tier):
    q = tier == 'quick'
    out = [
        Job(ends, dict(k=2, yields=2 if q else 3, runs=1), split=4, require=('ended', 'went on'), weight=4,
            bounds='2 nodes, any edges, up to 2 (quick) or 3 yields, any outcomes'),
        Job(ends, dict(k=1, yields=3, runs=2), split=3, require=('ended', 'went on'), bounds='1 node, two runs of up to 3 yields'),
        Job(default_end, dict(k=2, yields=4 if q else 6, runs=1), require=('ended',), split=3,
            bounds='2 nodes, up to 4 (6) yields, default termination'),
        Job(default_end, dict(k=2, yields=2 if q else 3, runs=2), require=('ended',), split=3, bounds='two runs'),
        Job(default_end_chain, dict(k=5 if q else 7, shape='chain', late=8 if q else 12), require=('ended',), bounds='a chain of 5 (7) nodes, default termination'),
        Job(default_end_chain, dict(k=6 if q else 9, shape='layers', late=6 if q else 9), require=('ended',), bounds='layers of 2 nodes, default termination'),
        Job(default_end_chain, dict(k=6, shape='flat', late=3), require=('ended',), bounds='6 nodes in one set, default termination'),
        Job(overrides, dict(runs=2, setter=0), split=4, require=('done',), bounds='constructor and two runs, all scales and key forms'),
        Job(overrides, dict(runs=2, setter=1), split=2, require=('done',), bounds='constructor and termination_conds property'),
        Job(rejected, split=2, require=('container', 'key', 'value'), bounds='the listed invalid containers, keys and values, in all three places'),
    ]
    for s in ('ESU', 'SEQ'):
        out.append(Job(after_passes, dict(passes=2 if q else 4, scale=s), split=2, require=('done',), bounds='up to 2 (4) passes, p symbolic'))
    for k, steps, absolute in ((2, 4, False), (3, 4, False), (2, 3, True)) if q else ((2, 6, False), (3, 6, False), (4, 6, False), (2, 5, True), (3, 5, True)):
        out.append(Job(considerations, dict(k=k, steps=steps, absolute=absolute), require=('ended',), split=2,
                       bounds='2-4 sets, up to 4 (6) considerations, any outcomes of all conditions at each of them'))
    for e in (0, 1):
        out.append(Job(after_calls, dict(edge=e, runs=1 if q else 2), split=3, require=('ended',), bounds='up to 6 yields, n <= 3 symbolic'))
    if not q:
        out.append(Job(ends, dict(k=3, yields=2, runs=1), split=8, require=('ended', 'went on'), bounds='3 nodes'))
        out.append(Job(ends, dict(k=2, yields=2, runs=2), split=8, require=('ended', 'went on'), bounds='2 nodes, two runs'))
    return out


CHECKS = [
    Check('C08', jobs08, outside='deeper nesting, more components; TimeInterval and TimeTermination as components (see C14)'),
    Check('C09', jobs09, outside='longer runs, more nodes; invalid objects other than the listed ones'),
]
