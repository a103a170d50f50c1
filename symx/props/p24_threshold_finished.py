"""C24: Threshold and WhenFinished conditions."""
import warnings

from ..engine import AND, OR, NOT, IFF
from ..run import Job, Check
from ..lib import node_names

OPS = ['<', '<=', '>', '>=', '==', '!=']


class Obj:
    def __init__(self, n, **kw):
        self.n = n
        self.__dict__.update(kw)

    def __repr__(self):
        return f'<{self.n}>'

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, other):
        return self is other


def _want(v, t, comp, atol, rtol):
    if comp == '<':
        return v < t
    if comp == '<=':
        return v <= t
    if comp == '>':
        return v > t
    if comp == '>=':
        return v >= t
    near = abs(v - t) <= atol + rtol * abs(t)
    return near if comp == '==' else NOT(near)


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def _evaluate(cond, eid='ctx', scheduler=None):
    return cond.is_satisfied(scheduler=scheduler, execution_id=eid)


def _numbers(eng, kind):
    """threshold and tolerances"""
    mk = (lambda n: eng.real(n, -6, 6)) if kind == 'real' else (lambda n: eng.int(n, -6, 6))
    t = mk('threshold')
    atol = eng.real('atol', 0, 4) if eng.flag('with_atol') else 0
    rtol = eng.choose('rtol', [0, 0.25, 0.5, 1.0])
    return mk, t, atol, rtol


def threshold(eng, gs, comps, kind, times=2):
    """the value may change between evaluations"""
    comp = eng.choose('comparator', comps)
    mk, t, atol, rtol = _numbers(eng, kind)
    d = Obj('dep', p=mk('v0'), other=Obj('none'))
    kw = {}
    if not isinstance(atol, int) or eng.flag('give_atol'):
        kw['atol'] = atol
    if rtol != 0:
        kw['rtol'] = rtol
    cond = _quiet(gs.Threshold, d, 'p', t, comp, **kw)
    for i in range(times):
        if i:
            d.p = mk(f'v{i}')
        got = _evaluate(cond)
        eng.check(IFF(got, _want(d.p, t, comp, atol, rtol)),
                  f'Threshold with {comp} does not compare the current value with the threshold (within its tolerances)',
                  comparator=comp, value=d.p, threshold=t, atol=atol, rtol=rtol, got=got, evaluation=i)
    eng.reach('compared')
    eng.reach(comp)


def ways(eng, gs, comps, how):
    """indices and getters"""
    comp = eng.choose('comparator', comps)
    mk, t, atol, rtol = _numbers(eng, 'real')
    kw = dict(atol=atol, rtol=rtol)
    seen = []

    def run(cond, value, **detail):
        for i in range(2):
            if i:
                value = change()
            got = _evaluate(cond, 'ctx')
            eng.check(IFF(got, _want(value, t, comp, atol, rtol)), f'Threshold with {comp} ({how}) does not compare the value named',
                      comparator=comp, value=value, threshold=t, atol=atol, rtol=rtol, got=got, evaluation=i, **detail)
    if how == 'index':
        vals = [mk('v0'), mk('v1'), mk('v2')]
        i = eng.choose('i', [0, 1, 2, -1])
        shape = eng.choose('shape', ['int', 'list', 'tuple'])
        d = Obj('dep', p=eng.choose('container', [list, tuple])(vals))

        def change():
            d.p = [vals[1], vals[2], vals[0]]
            return d.p[i]
        c = _quiet(gs.Threshold, d, 'p', t, comp, indices={'int': i, 'list': [i], 'tuple': (i,)}[shape], **kw)
        run(c, vals[i], index=i, shape=shape)
    elif how == 'nested':
        vals = [[mk('v00'), mk('v01')], [mk('v10'), mk('v11')]]
        depth = eng.choose('depth', [2, 3])
        i, j, k = (eng.choose(n, [0, 1]) for n in 'ijk')
        data = vals if depth == 2 else [vals, [[r[1], r[0]] for r in vals]]
        if eng.flag('dictionary'):
            data = {n: x for n, x in enumerate(data)}
        d = Obj('dep', p=data)
        idx = [i, j] if depth == 2 else [k, i, j]

        def change():
            vals[i][j] = mk('w')
            data2 = vals if depth == 2 else [vals, [[r[1], r[0]] for r in vals]]
            d.p = data2
            for x in idx:
                data2 = data2[x]
            return data2
        c = _quiet(gs.Threshold, d, 'p', t, comp, indices=idx, **kw)
        v = data
        for x in idx:
            v = v[x]
        run(c, v, indices=idx)
    elif how == 'timescale':
        scale = eng.choose('scale', list(gs.TimeScale))
        tm = gs.Time()
        vals = {s: eng.int(f'v_{s.name}', 0, 9) for s in gs.TimeScale}
        for s, v in vals.items():
            tm[s] = v
        form = eng.choose('form', ['time', 'list'])
        src = tm if form == 'time' else [vals[s] for s in sorted(gs.TimeScale)]
        d = Obj('dep', p=src)

        def change():
            w = eng.int('w', 0, 9)
            src[scale if form == 'time' else scale.value] = w
            return w
        c = _quiet(gs.Threshold, d, 'p', t, comp, indices=scale, **kw)
        run(c, vals[scale], scale=scale, form=form)
    elif how == 'getter':
        d = Obj('dep')
        state = {'ctx': mk('v0'), 'other': mk('v1')}
        own = eng.choose('signature', ['plain', 'eid', 'default', 'kwargs', 'method'])

        def get(dep, par, eid='ctx'):
            seen.append((dep, par, eid))
            return state[eid]

        class M:
            def get(self, dep, par, execution_id):
                return get(dep, par, execution_id)
        f = {'plain': lambda dep, par: get(dep, par), 'eid': lambda dep, par, execution_id: get(dep, par, execution_id),
             'default': lambda dep, par, execution_id=None: get(dep, par, execution_id),
             'kwargs': lambda dep, par, **k: get(dep, par, k['execution_id']), 'method': M().get}[own]
        validated = []
        c = _quiet(gs.Threshold, d, 'nosuch', t, comp, custom_parameter_getter=f,
                   custom_parameter_validator=lambda dep, par: validated.append((dep, par)), **kw)
        eng.check(len(validated) == 1 and validated[0][0] is d and validated[0][1] == 'nosuch', 'the custom validator was not called with dependency and parameter')
        for e in ('ctx', 'other'):
            got = _evaluate(c, e)
            ex = 'ctx' if own == 'plain' else e
            eng.check(seen[-1][0] is d and seen[-1][1] == 'nosuch' and seen[-1][2] == ex, 'the custom getter was not called with dependency, parameter and execution id', seen=seen)
            eng.check(IFF(got, _want(state[ex], t, comp, atol, rtol)), f'Threshold with {comp} and a custom getter does not compare its result', comparator=comp,
                      value=state[ex], threshold=t, atol=atol, rtol=rtol, got=got)
    eng.reach('compared')


def threshold_errors(eng, gs):
    d = Obj('dep', p=1.0)
    comp = eng.choose('comparator', OPS + ['=', '=<', '', 'lt', None, '<>', '==='])
    par = eng.choose('parameter', ['p', 'q'])
    val = eng.choose('validator', ['none', 'accepts', 'rejects'])

    class Rejected(Exception):
        pass

    def validator(dep, par):
        if val == 'rejects':
            raise Rejected
    kw = {} if val == 'none' else {'custom_parameter_validator': validator}
    bad_par = par == 'q' and val == 'none'
    try:
        gs.Threshold(d, par, 0, comp, **kw)
        res = 'ok'
    except gs.ConditionError:
        res = 'ConditionError'
    except Rejected:
        res = 'rejected'
    want = 'rejected' if val == 'rejects' else 'ConditionError' if bad_par or comp not in OPS else 'ok'
    if val == 'rejects' and comp not in OPS:
        eng.check(res != 'ok', 'a Threshold with an invalid comparator and a rejected parameter was created')
    else:
        eng.check(res == want, 'the arguments of Threshold are not validated', comparator=comp, parameter=par, validator=val, got=res, want=want)
    eng.reach(res)


def threshold_run(eng, gs, npasses):
    """as a node's condition, in two execution contexts: the value that counts
    is the one at the time of each consideration"""
    comp = eng.choose('comparator', OPS)
    t = eng.real('threshold', -3, 3)
    atol = eng.real('atol', 0, 2) if comp in ('==', '!=') else 0
    class D(Obj):
        @property
        def p(self):
            return self.vals[self.i]
    d = D('dep', i=0, vals=[eng.real(f'v{i}', -3, 3) for i in range(npasses + 1)])
    cond = gs.Threshold(d, 'p', t, comp, atol=atol)
    s = gs.Scheduler(graph={'A': set(), d: set(), 'B': {d}}, conditions={'B': cond, d: gs.Never(), 'A': gs.Always()})
    run = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(npasses - 1)})
    layers = s.consideration_queue
    got = []
    for E in run:
        E = set(E)
        got.append(E)
        if 'A' in E:
            d.i += 1          # the value changes after A has executed
    want = []
    for i in range(npasses):
        want.append((['A'], True))
    n = 0
    idx = 0
    for i in range(npasses):
        eng.check(idx < len(got) and got[idx] == {'A'}, 'A does not execute first in every pass', got=got)
        idx += 1
        w = bool(eng.known(_want(d.vals[i + 1], t, comp, atol, 0)))
        has = idx < len(got) and got[idx] == {'B'}
        eng.check(has == w, 'Threshold does not decide the execution by the current value', comparator=comp, got=got, passno=i,
                  value=d.vals[i + 1], threshold=t, atol=atol)
        idx += has
        n += has
    eng.check(idx == len(got), 'unexpected executions', got=got)
    eng.reach('executed' if n else 'not executed')


class Node(Obj):
    def is_finished(self, *args, **kwargs):
        return self.eng_fin(self, args, kwargs)


def _nodes(eng, k, value):
    log = []

    def fin(self, args, kwargs):
        log.append((self.n, args, kwargs))
        return value(self.n, args[0] if args else kwargs.get('execution_id'))
    return [Node(f'D{i}', eng_fin=fin) for i in range(k)], log


def finished(eng, gs, cls, k, times=2):
    state = {}

    def value(n, e):
        return state[n, e]
    ds, log = _nodes(eng, k, value)
    explicit = cls == 'WhenFinished' or eng.flag('explicit')
    ndep = 1 if cls == 'WhenFinished' else eng.choose('ndep', list(range(1, k + 1))) if explicit else 0
    first = eng.choose('first', list(range(k)))
    deps = [ds[(first + i) % k] for i in range(ndep)]
    cond = getattr(gs, cls)(*deps)
    s = gs.Scheduler(graph={d: set() for d in ds}) if not explicit else None
    over = deps if explicit else ds
    for i in range(times):
        for e in ('c1', 'c2'):
            for d in ds:
                # any truth value counts
                state[d.n, e] = eng.bool(f'fin_{d.n}_{e}_{i}')
        for e in ('c1', 'c2'):
            got = _evaluate(cond, e, s)
            vals = [state[d.n, e] for d in over]
            want = vals[0] if cls == 'WhenFinished' else OR(vals) if cls == 'WhenFinishedAny' else AND(vals)
            eng.check(IFF(got, want), f'{cls} does not reflect the finished state of its dependencies in the context', got=got,
                      states={d.n: state[d.n, e] for d in over}, context=e, explicit=explicit, evaluation=i)
            for n, a, kw in log:
                eng.check(a == (e,) and not kw, 'is_finished is not called with the execution id as its only argument', args=a, kwargs=kw)
            log.clear()
    eng.reach('explicit' if explicit else 'all nodes')


def finished_errors(eng, gs, cls):
    """a dependency without is_finished that must be consulted"""
    state = {'D0': eng.bool('f0'), 'D1': eng.bool('f1')}
    ds, log = _nodes(eng, 2, lambda n, e: state[n])
    bad = eng.choose('bad', ['string', 'object', 'int'])
    b = {'string': 'x', 'object': Obj('plain'), 'int': 3}[bad]
    pos = eng.choose('pos', [0] if cls == 'WhenFinished' else [0, 1, 2])
    deps = [b] if cls == 'WhenFinished' else ds[:pos] + [b] + ds[pos:]
    if cls == 'WhenFinishedAny':
        eng.assume(NOT(OR(list(state.values()))))
    elif cls == 'WhenFinishedAll':
        eng.assume(AND(list(state.values())))
    c = getattr(gs, cls)(*deps)
    try:
        r = _evaluate(c)
    except gs.ConditionError:
        eng.reach('rejected')
        r = 'rejected'
    eng.check(isinstance(r, str), f'{cls} was evaluated with a dependency that cannot be finished', got=r, dependency=bad, position=pos)


def finished_run(eng, gs, cls, npasses):
    """in a run: the nodes of the scheduler by default; two contexts"""
    state = {}

    def value(n, e):
        k = n, e, state.get('i', 0)
        if k not in state:
            state[k] = eng.flag(f'fin_{n}_{e}_{k[2]}')
        return state[k]
    ds, log = _nodes(eng, 3, value)
    a, b, c = ds
    deps = eng.choose('deps', [[], [a], [a, b]] if cls != 'WhenFinished' else [[a]])
    cond = getattr(gs, cls)(*deps)
    s = gs.Scheduler(graph={a: set(), b: {a}, c: {b}}, conditions={a: gs.Always(), b: gs.Never(), c: cond})
    over = deps or ds
    agg = any if cls == 'WhenFinishedAny' else all
    e = eng.choose('context', ['c1', 'c2'])
    run = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(npasses - 1)}, execution_id=e)
    got = []
    for E in run:
        got.append(set(E))
        if a in E:
            state['i'] = state.get('i', 0) + 1
    idx = 0
    for i in range(npasses):
        eng.check(idx < len(got) and got[idx] == {a}, 'a does not execute first in every pass', got=got)
        idx += 1
        state['i'] = i + 1
        w = agg(value(d.n, e) for d in over)
        has = idx < len(got) and got[idx] == {c}
        eng.check(has == w, f'{cls} does not decide the execution by the finished state', got=got, passno=i, states={str(k): v for k, v in state.items()})
        idx += has
    eng.check(idx == len(got), 'unexpected executions', got=got)
    eng.reach('ran')


# finished states of any type, by truth value
TRUTHY = (True, 1, 'x', [0], 2.5, -1)
FALSY = (False, 0, '', [], None, 0.0)
IDS = ('c', 0, '', None, False, (), frozenset(), 0.0)


def _as(eng, tag, form):
    """a truth value, as an object of some type"""
    v = eng.bool(tag)
    if form == 'bool':
        return v, v
    v = bool(eng.known(v))
    if form == 'numpy':
        import numpy
        return v, numpy.bool_(v)
    if form == 'object':
        class T:
            def __bool__(self):
                return v
        return v, T()
    if form == 'sized':
        class L:
            def __len__(self):
                return 3 if v else 0
        return v, L()
    return v, (TRUTHY if v else FALSY)[form]


def finished_values(eng, gs, cls, k):
    """finished states that are not bool, and execution ids that are falsy"""
    form = eng.choose('form', ['bool', 'numpy', 'object', 'sized', *range(len(TRUTHY))])
    e = eng.choose('id', list(IDS))
    state = {}
    seen = []

    def value(n, eid):
        seen.append(eid)
        return state[n][1]
    ds, log = _nodes(eng, k, value)
    for i, d in enumerate(ds):
        state[d.n] = _as(eng, f'fin_{d.n}', form if i != 1 else 'bool')
    explicit = cls == 'WhenFinished' or eng.flag('explicit')
    cond = getattr(gs, cls)(*(ds if explicit else ()))
    n = eng.choose('wrapped', ['no', 'not', 'all'])
    cond = {'no': lambda: cond, 'not': lambda: gs.Not(cond), 'all': lambda: gs.All(gs.Always(), cond)}[n]()
    s = gs.Scheduler(graph={d: set() for d in ds}) if not explicit else None
    got = _evaluate(cond, e, s)
    vals = [state[d.n][0] for d in ds]
    want = vals[0] if cls == 'WhenFinished' else OR(vals) if cls == 'WhenFinishedAny' else AND(vals)
    # the condition itself may have any type
    got = got if hasattr(got, 't') else bool(got)
    eng.check(IFF(got, NOT(want) if n == 'not' else want), f'{cls} does not reflect the finished state of its dependencies', got=got,
              states={d.n: state[d.n] for d in ds}, context=e, explicit=explicit)
    eng.check(all(x is e for x in seen), 'is_finished was called with another execution id', got=seen, execution_id=e)
    eng.reach('evaluated')


def contexts(eng, gs, npasses):
    """Threshold getters and is_finished in runs of contexts whose ids are
    falsy, or equal to each other"""
    ids = eng.choose('ids', [(0, ''), (None, 0), ('', ()), (False, None), ((1,), 1)])
    state = {}

    class D(Obj):
        def is_finished(self, execution_id):
            return bool(eng.known(eng.bool(f'f{ids.index(execution_id)}_{state["i"]}')))
    d = D('dep')
    t = eng.int('threshold', -3, 3)
    vals = {}

    def get(dep, par, execution_id='missing'):
        k = ids.index(execution_id), state['i']
        if k not in vals:
            vals[k] = eng.int(f'v{k[0]}_{k[1]}', -3, 3)
        return vals[k]
    which = eng.choose('which', ['Threshold', 'WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'])
    cond = gs.Threshold(d, 'p', t, '>', custom_parameter_getter=get, custom_parameter_validator=lambda a, b: None) if which == 'Threshold' else \
        getattr(gs, which)(d)
    s = gs.Scheduler(graph={d: set()}, conditions={d: cond}, default_execution_id=ids[0])
    gens = [s.run(execution_id=e, termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never()}) for e in ids]
    for i in range(npasses):
        for j, e in enumerate(ids):
            state['i'] = i
            E = set(next(gens[j]))
            want = vals[j, i] > t if which == 'Threshold' else eng.known(eng.bool(f'f{j}_{i}'))
            eng.check(IFF(E == {d}, want), f'{which} does not decide by the state in its execution context', context=e, got=E)
    eng.reach(which)


def jobs24(tier):
    quick = tier == 'quick'
    inj = ('float', 'np')
    js = []
    for kind in ('real', 'int'):
        for comps in (['<', '<='], ['>', '>='], ['=='], ['!=']):
            js.append(Job(threshold, dict(comps=comps, kind=kind, times=2 if quick else 3), inject=inj, require=('compared', *comps), split=2,
                          bounds=f'all {kind} values and thresholds in [-6, 6], atol in [0, 4], rtol in 0, 1/4, 1/2, 1; {2 if quick else 3} evaluations'))
    for how in ('index', 'nested', 'timescale', 'getter'):
        for comps in ([['<', '=='], ['>=', '!=']] if quick else [[c] for c in OPS]):
            js.append(Job(ways, dict(comps=comps, how=how), inject=inj, require=('compared',), split=3, bounds=f'values reached through {how}'))
    js.append(Job(threshold_errors, {}, require=('ok', 'ConditionError', 'rejected'), bounds='comparators, missing parameters, validators'))
    js.append(Job(threshold_run, dict(npasses=2 if quick else 3), inject=inj, require=('executed', 'not executed'), split=3,
                  bounds='as the condition of a node, values changing between considerations'))
    for cls in ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'):
        js.append(Job(finished, dict(cls=cls, k=2 if quick else 3, times=2), require=('explicit',) + (() if cls == 'WhenFinished' else ('all nodes',)), split=3,
                      bounds=f'{2 if quick else 3} dependencies, 2 contexts, 2 evaluations'))
        js.append(Job(finished_values, dict(cls=cls, k=1 if cls == 'WhenFinished' else 2 if quick else 3), require=('evaluated',), split=1 if quick else 3,
                      bounds='finished states of several types (truth value symbolic), execution ids that are falsy'))
        js.append(Job(finished_errors, dict(cls=cls), require=('rejected',), bounds='dependencies without is_finished'))
        js.append(Job(finished_run, dict(cls=cls, npasses=2), require=('ran',), split=3, bounds='in a run of 2 passes'))
    js.append(Job(contexts, dict(npasses=1 if quick else 2), require=('Threshold', 'WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'), split=2,
                  bounds='runs in two contexts with falsy ids'))
    return js


CHECKS = [
    Check('C24', jobs24, assumptions=['numpy.isclose(a, b) is |a - b| <= atol + rtol * |b|', 'arithmetic is exact (values are multiples of 1/4)'],
          outside='rtol other than 0, 1/4, 1/2, 1; NaN and infinite values; array-valued results'),
]
