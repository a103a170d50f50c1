"""C19 (graphs of a scheduler over histories of structural conditions) and
C20 (bookkeeping of ConditionSet)."""
import itertools
import warnings
from collections import deque

from .. import lib
from ..lib import node_names, copy_graph, layering, has_cycle
from ..run import Job, Check


# ---------------------------------------------------------------------------
# C19
# ---------------------------------------------------------------------------

def _spec(eng, kind, ns, tag):
    """(owner, how to make the condition)"""
    if kind == 'bad':
        return eng.choose(f'{tag}_owner', ns), ('bad', ns[0])
    o, n = eng.choose(f'{tag}_pair', [(a, b) for a in ns for b in ns if a != b])
    return o, (kind, n)


class Flip:
    """graph function that toggles an edge"""

    def __init__(self, o, n):
        self.o, self.n = o, n

    def __call__(self, graph):
        graph[self.o] ^= {self.n}
        return graph


def _make(gs, owner, spec):
    kind, n = spec
    if kind == 'bad':
        return gs.BeforeNode('missing')
    if kind == 'custom':
        return gs.CustomGraphStructureCondition(Flip(owner, n))
    return getattr(gs, kind)(n)


def _expected(gs, g0, present):
    """the graph determined by the conditions, or None if one of them raises"""
    g = copy_graph(g0)
    for owner, spec, _ in present:
        c = _make(gs, owner, spec)
        c.owner = owner
        try:
            g = c.modify_graph(g)
        except gs.ConditionError:
            return None
    return {k: set(v) for k, v in g.items()}


def _queue(g):
    if has_cycle(g):
        return [set()]
    return layering(g)


def check_graph(eng, gs, sched, g0, present, order):
    exp = _expected(gs, g0, present)
    ctx = dict(base=g0, conditions=[(o, s) for o, s, _ in present], expected=exp)
    what = {
        'graph': lambda: {k: set(v) for k, v in sched.graph.items()},
        'queue': lambda: [set(s) for s in sched.consideration_queue],
        'indices': lambda: dict(sched.consideration_queue_indices),
    }
    got = {}
    for k in order:
        try:
            got[k] = what[k]()
        except gs.ConditionError as e:
            got[k] = e
    if exp is None:
        eng.reach('error')
        eng.check(all(isinstance(v, Exception) for v in got.values()), 'a condition that cannot be applied was ignored', got=got, **ctx)
        return None
    eng.check(not any(isinstance(v, Exception) for v in got.values()), 'an error of a condition that is not present (any more)', got=got, **ctx)
    if 'graph' in got:
        eng.check(got['graph'] == exp, 'the graph is not the one the current conditions determine', got=got, **ctx)
    q = _queue(exp)
    if 'queue' in got:
        eng.check(got['queue'] == q, 'the consideration queue is not the one of the current graph', got=got, **ctx)
    if 'indices' in got:
        eng.check(got['indices'] == {v: i for i, l in enumerate(q) for v in l},
                  'the consideration queue indices are not those of the current graph', got=got, **ctx)
    return exp


def _run_once(eng, gs, sched, exp, n):
    """one pass with default conditions visits every consideration set"""
    if exp is None:
        return
    run = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(0)})
    if has_cycle(exp):
        try:
            got = list(run)
        except gs.SchedulerError:
            return
        eng.fail('a cyclic graph was run', graph=exp, got=got)
    got = [set(x) for x in run]
    eng.check(got == layering(exp), 'default conditions do not follow the current graph', graph=exp, got=got, run=n)
    eng.reach('run')


def history(eng, gs, k, kinds, nops, via, runs=False, remove=('cond',), script=None, dags=True):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ns = node_names(k)
        g0 = lib.dag(eng, ns) if dags else {v: set() for v in ns}
        sched = gs.Scheduler(graph=copy_graph(g0))
        tgt = sched if via == 'sched' else sched.conditions
        present = []
        nrun = 0
        nadd = 0
        for i in range(nops):
            ops = ['add'] if nadd < len(kinds) else []
            if present:
                ops += list(remove)
            if not ops:
                break
            op = script[i] if script else eng.choose(f'op{i}_' + '_'.join(ops), ops)
            if op == 'add':
                kind = kinds[nadd]
                nadd += 1
                o, s = _spec(eng, kind, ns, f'add{i}')
                c = _make(gs, o, s)
                present.append((o, s, c))
                try:
                    if via == 'sched':
                        sched.add_condition(o, c)
                    elif via == 'cset':
                        sched.conditions.add_condition_set({o: [c]})
                    else:
                        sched.conditions.add_condition(o, c)
                except gs.ConditionError:
                    eng.check(_expected(gs, g0, present) is None, 'adding a condition raised although it can be applied',
                              base=g0, conditions=[(a, b) for a, b, _ in present])
            elif op == 'cond':
                j = eng.choose(f'rm{i}_{len(present)}', list(range(len(present))))
                o, s, c = present.pop(j)
                r = tgt.remove_condition(c) if via == 'sched' else sched.conditions.remove_condition(c)
                eng.check(r is c, 'remove_condition did not return the removed condition')
            elif op == 'owner':
                owners = [a for a in ns if len([x for x in present if x[0] == a]) == 1]
                if not owners:
                    continue
                o = eng.choose(f'rmo{i}_{"".join(owners)}', owners)
                present = [x for x in present if x[0] != o]
                sched.conditions.remove_condition(o)
            elif op == 'set':
                # replaces all structural conditions of an owner
                o, s = _spec(eng, 'AddEdgeTo', ns, f'set{i}')
                c = _make(gs, o, s)
                present = [x for x in present if x[0] != o] + [(o, s, c)]
                sched.conditions[o] = c
            elif op == 'readd':
                # the same condition object moves to the end of the order
                j = eng.choose(f'readd{i}_{len(present)}', list(range(len(present))))
                x = present.pop(j)
                sched.conditions.remove_condition(x[2])
                sched.conditions.add_condition(x[0], x[2])
                present.append(x)
            elif op == 'permute':
                # all are removed, and some are added again in any order
                sel = eng.choose(f'perm{i}', [p for m in range(1, len(present) + 1) for p in itertools.permutations(range(len(present)), m)])
                old = list(present)
                for x in (old if eng.flag(f'forward{i}') else old[::-1]):
                    sched.conditions.remove_condition(x[2])
                present = [old[j] for j in sel]
                for x in present:
                    sched.conditions.add_condition(x[0], x[2])
            elif op == 'clear':
                while present:
                    sched.conditions.remove_condition(present.pop(eng.choose(f'clr{i}_{len(present)}', [0, len(present) - 1]))[2])
            eng.reach(op)
            order = eng.choose(f'access{i}', [(), ('graph', 'queue', 'indices')] if i < nops - 1 else
                               [('graph', 'queue', 'indices'), ('indices', 'queue')])
            if order:
                exp = check_graph(eng, gs, sched, g0, present, order)
                if runs and eng.flag(f'run{i}'):
                    _run_once(eng, gs, sched, exp, nrun)
                    nrun += 1
        if not present:
            eng.check({k_: set(v) for k_, v in sched.graph.items()} == g0, 'the original graph is not restored', base=g0, got=sched.graph)
            eng.reach('restored')


def jobs19(tier):
    quick = tier == 'quick'
    js = []

    def add(split=2, req=(), **kw):
        js.append(Job(history, kw, split=split, require=req, weight=3,
                      bounds=f'graphs on {kw["k"]} nodes, {kw["nops"]} operations'))
    for via in ('sched', 'set', 'cset'):
        add(k=3, kinds=('AddEdgeTo', 'RemoveEdgeFrom'), nops=3, via=via, req=('cond',), split=3)
    add(k=3, kinds=('BeforeNode', 'AfterNode'), nops=3, via='set', req=('restored',) if False else (), split=3)
    add(k=3, kinds=('WithNode', 'BeforeNode'), nops=3, via='sched', split=3)
    add(k=3, kinds=('custom', 'AfterNode'), nops=3, via='set', split=3)
    add(k=2, kinds=('AddEdgeTo', 'custom', 'RemoveEdgeFrom', 'BeforeNode'), nops=4 if quick else 5, via='set', req=('restored',), split=3)
    add(k=3, kinds=('AddEdgeTo', 'custom'), nops=3 if quick else 4, via='set', remove=('cond', 'owner'), dags=False, req=('owner',), split=3)
    add(k=3, kinds=('custom',) if quick else ('custom', 'AddEdgeTo'), nops=3, via='set', remove=('set', 'clear'), dags=False, req=('set', 'clear'), split=2)
    add(k=2, kinds=('AddEdgeTo', 'bad', 'AddEdgeTo'), nops=4, via='sched', req=('error', 'cond'), split=2)
    add(k=2, kinds=('bad', 'custom', 'AddEdgeTo'), nops=4, via='set', req=('error', 'cond'), split=2)
    add(k=3, kinds=('AddEdgeTo', 'RemoveEdgeFrom'), nops=2 if quick else 3, via='sched', runs=True, dags=True, req=('run',), split=3)
    add(k=2, kinds=('AddEdgeTo', 'custom'), nops=4, via='set', runs=True, req=('run',), split=2)
    add(k=2, kinds=('AddEdgeTo', 'custom'), nops=4, via='set', remove=('cond', 'readd'), req=('readd',), split=2)
    add(k=3, kinds=('BeforeNode', 'RemoveEdgeFrom'), nops=3, via='set', remove=('readd',), req=('readd',), split=2)
    for kinds in (('custom', 'AddEdgeTo', 'RemoveEdgeFrom'), ('BeforeNode', 'custom', 'AddEdgeTo')):
        add(k=2, kinds=kinds, nops=4, via='set', remove=('permute',), script=('add', 'add', 'add', 'permute'), req=('permute',), split=2)
    if not quick:
        add(k=2, kinds=('custom', 'AddEdgeTo', 'RemoveEdgeFrom', 'custom'), nops=6, via='set', remove=('permute',),
            script=('add', 'add', 'add', 'permute', 'add', 'permute'), req=('permute',), split=7, dags=False)
        add(k=3, kinds=('custom', 'RemoveEdgeFrom', 'AfterNode'), nops=4, via='set', remove=('permute',),
            script=('add', 'add', 'add', 'permute'), req=('permute',), split=5, dags=False)
    if not quick:
        for a in ('AddEdgeTo', 'BeforeNode', 'AfterNode', 'WithNode', 'custom'):
            for b in ('RemoveEdgeFrom', 'BeforeNode', 'AfterNode', 'WithNode'):
                add(k=3, kinds=(a, b, 'AddEdgeTo'), nops=4, via='set' if a < b else 'sched', remove=('cond',), split=5)
        add(k=3, kinds=('custom', 'bad', 'AddEdgeTo'), nops=4, via='set', req=('error',), dags=False, split=5)
        add(k=3, kinds=('AddEdgeTo', 'custom'), nops=4, via='set', runs=True, remove=('cond', 'set'), req=('run',), dags=False, split=5)
    return js


# ---------------------------------------------------------------------------
# C20
# ---------------------------------------------------------------------------

class Model:
    def __init__(self):
        self.basic = {}
        self.struct = []              # (owner, condition), in the order added

    def add(self, owner, cond, structural):
        if structural:
            self.struct.append((owner, cond))
        else:
            self.basic[owner] = cond

    def of(self, owner):
        return [c for o, c in self.struct if o == owner]

    def all(self):
        return list(self.basic.values()) + [c for _, c in self.struct]


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check_set(eng, cs, m, owners, hist):
    ctx = dict(history=hist)
    eng.check(set(cs.conditions_basic) == set(m.basic) and all(cs.conditions_basic[o] is c for o, c in m.basic.items()),
              'conditions_basic does not hold the last basic condition of every owner', got=dict(cs.conditions_basic), **ctx)
    so = {o for o, _ in m.struct}
    eng.check(set(cs.conditions_structural) == so and all(_same(cs.conditions_structural[o], m.of(o)) for o in so),
              'conditions_structural does not hold the structural conditions in the order added', got=dict(cs.conditions_structural), **ctx)
    eng.check(_same(cs.structural_condition_order, [c for _, c in m.struct]),
              'structural_condition_order is not the order of addition', got=list(cs.structural_condition_order), **ctx)
    conds = cs.conditions
    present = so | set(m.basic)
    eng.check(set(conds) == present and set(iter(cs)) == present and all((o in cs) == (o in present) for o in owners),
              'conditions, iteration or membership do not show the owners of conditions', got=dict(conds), **ctx)
    for o in present:
        want = ([m.basic[o]] if o in m.basic else []) + m.of(o)
        got = cs[o]
        got = got if isinstance(got, list) else [got]
        eng.check(_same(got, want) and conds[o] is cs[o], 'the condition mapping does not show the conditions of an owner', owner=o, got=got, **ctx)
        for c in want:
            eng.check(c.owner == o, 'a condition does not know its owner', owner=o, got=c.owner, **ctx)


def _new(gs, structural, owner, style):
    if structural:
        return gs.AddEdgeTo('Z') if style else gs.BeforeNode('Z')
    return gs.Always() if style else gs.All(gs.EveryNCalls('Z', 1), gs.Never())


class Iter:
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        return iter(self.l)


class OtherMapping(dict):
    pass


ITERABLES = {
    'lists': list, 'tuples': tuple, 'frozensets': frozenset, 'keys': lambda l: dict.fromkeys(l).keys(),
    'values': lambda l: dict(enumerate(l)).values(), 'deque': deque, 'iterable': Iter, 'generator': lambda l: (x for x in l),
    'iterator': iter, 'mapping': tuple,
}


def cset(eng, gs, nops, ops, owners=('A', 'B'), check_each=True, forms=('dict', 'lists', 'set')):
    forms = list(forms)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        owners = list(owners)
        m = Model()
        removed = []
        hist = []
        start = eng.choose('start', ['empty', 'dict', 'set', 'both']) if 'start' in ops else 'empty'
        if start == 'empty':
            cs = gs.ConditionSet()
        else:
            a, b, c = gs.Always(), gs.AddEdgeTo('Z'), gs.Never()
            o0, o1 = owners
            if start == 'dict':
                cs = gs.ConditionSet({o0: [a, b], o1: c})
            elif start == 'set':
                cs = gs.ConditionSet(gs.ConditionSet({o0: [a, b], o1: c}))
            else:
                cs = gs.ConditionSet(None, {o0: b}, conditions={o0: a, o1: [c]})
            m.add(o0, a, False)
            m.add(o0, b, True)
            m.add(o1, c, False)
            check_set(eng, cs, m, owners, [start])
        hist.append(start)
        for i in range(nops):
            avail = [o for o in ops if o in ('basic', 'struct', 'assign_basic', 'assign_struct', 'many', 'badowner', 'owner', 'foreign')
                     or (o == 'cond' and m.all()) or (o == 'again' and removed)]
            op = eng.choose(f'op{i}_' + '_'.join(avail), avail)
            hist.append(op)
            o = eng.choose(f'owner{i}', owners) if op not in ('cond', 'again', 'foreign', 'many') else None
            if op in ('basic', 'struct'):
                c = _new(gs, op == 'struct', o, i % 2)
                if op == 'basic' and o in m.basic:
                    removed.append(m.basic[o])
                cs.add_condition(o, c)
                m.add(o, c, op == 'struct')
                hist.append(o)
            elif op in ('assign_basic', 'assign_struct'):
                c = _new(gs, op == 'assign_struct', o, i % 2)
                cs[o] = c
                m.struct = [x for x in m.struct if x[0] != o]
                m.add(o, c, op == 'assign_struct')
                hist.append(o)
            elif op == 'many':
                form = eng.choose(f'form{i}', forms)
                b, s1, s2 = gs.Always(), gs.AddEdgeTo('Z'), gs.RemoveEdgeFrom('Z')
                o0, o1 = owners
                if form == 'dict':
                    cs.add_condition_set({o0: b, o1: s1})
                    m.add(o0, b, False)
                    m.add(o1, s1, True)
                elif form == 'set':
                    cs.add_condition_set(gs.ConditionSet({o1: [b, s1, s2]}))
                    m.add(o1, b, False)
                    m.add(o1, s1, True)
                    m.add(o1, s2, True)
                else:
                    it = ITERABLES[form]
                    d = {o0: it([s1, b]), o1: it([s2])}
                    cs.add_condition_set(OtherMapping(d) if form == 'mapping' else d)
                    m.add(o0, s1, True)
                    m.add(o0, b, False)
                    m.add(o1, s2, True)
                hist.append(form)
            elif op == 'badowner':
                try:
                    cs.add_condition(o, gs.BeforeNode('Z', ) if False else gs.AfterNode(o))
                except gs.ConditionError:
                    pass
                else:
                    eng.fail('a condition was accepted for an owner that is one of its own nodes', history=hist)
            elif op == 'cond':
                cands = m.all()
                j = eng.choose(f'which{i}_{len(cands)}', list(range(len(cands))))
                c = cands[j]
                r = cs.remove_condition(c)
                eng.check(r is c, 'remove_condition(condition) did not return the condition', history=hist, got=r)
                for ow in [x for x, y in m.basic.items() if y is c]:
                    del m.basic[ow]
                m.struct = [x for x in m.struct if x[1] is not c]
                removed.append(c)
                hist.append(c)
            elif op in ('again', 'foreign'):
                # a condition that is not in the set
                if op == 'again':
                    c = removed[-1]
                elif eng.flag(f'owned{i}'):
                    c = gs.Always() if eng.flag(f'basic{i}') else gs.AddEdgeTo('Z')
                    gs.ConditionSet({owners[0]: c})
                else:
                    c = gs.Always()
                if c.owner is None:
                    try:
                        cs.remove_condition(c)
                    except gs.ConditionError:
                        pass
                    else:
                        eng.fail('a condition without owner was removed', history=hist)
                else:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        r = cs.remove_condition(c)
                    eng.check(r is None and len(w) > 0, 'removing a condition that is not there must return None, with a warning', history=hist, got=r)
            elif op == 'owner':
                n = len(m.of(o)) + (o in m.basic)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    try:
                        r = cs.remove_condition(o)
                    except gs.ConditionError as e:
                        r = e
                if n == 0:
                    eng.check(r is None and len(w) > 0, 'removing the condition of an owner that has none must return None, with a warning', history=hist, got=r)
                    eng.reach('none')
                elif n > 1:
                    eng.check(isinstance(r, gs.ConditionError), 'removing an ambiguous condition must raise ConditionError', history=hist, got=r)
                    eng.reach('ambiguous')
                else:
                    want = m.basic[o] if o in m.basic else m.of(o)[0]
                    eng.check(r is want, 'remove_condition(owner) did not return the removed condition', history=hist, got=r)
                    m.basic.pop(o, None)
                    m.struct = [x for x in m.struct if x[0] != o]
                    removed.append(want)
                    eng.reach('one')
                hist.append(o)
            eng.reach(op)
            if i == nops - 1 or check_each or eng.flag(f'check{i}'):
                check_set(eng, cs, m, owners, hist)


def jobs20(tier):
    quick = tier == 'quick'
    n = 4 if quick else 5
    sp = 3 if quick else 6

    def add(nops, ops, split=sp, **kw):
        return Job(cset, dict(nops=nops, ops=ops, **kw), require=tuple(o for o in ops if o != 'start'), split=split,
                   bounds=f'2 owners, {nops} operations', weight=3)
    return [
        add(n, ('basic', 'struct', 'cond', 'owner')),
        add(n, ('struct', 'assign_basic', 'assign_struct', 'cond'), check_each=False),
        add(n - 1, ('basic', 'struct', 'many', 'owner', 'badowner')),
        add(n, ('basic', 'struct', 'again', 'cond'), owners=('A',), check_each=False),
        add(n - 1, ('basic', 'struct', 'foreign', 'owner')),
        add(2 if quick else 3, ('many', 'owner', 'struct'), forms=tuple(ITERABLES), split=2),
        *[add(2 if quick else 3, ('start', 'basic', 'struct', 'owner', 'cond', 'again', 'assign_struct', 'many'), owners=o) for o in
          ((0, ''), ((), False), (0.0, frozenset()), ('A', 0))],
        add(2 if quick else 3, ('start', 'basic', 'struct', 'cond', 'owner', 'assign_basic', 'assign_struct', 'many')),
    ]


CHECKS = [
    Check('C19', jobs19, outside='larger graphs, longer histories'),
    Check('C20', jobs20, outside='longer histories, the same condition object added twice'),
]
