"""C26: nodes are identified by equality; hashes and iteration order of sets
do not matter."""
import itertools
import warnings

from .. import lib
from ..lib import copy_graph, layering
from ..run import Job, Check


class Node:
    """equal to every Node of the same name; the hash determines where it is
    found when a set is iterated"""

    def __init__(self, name, h):
        self.name, self.h = name, h
        self.is_finished_flag = True
        self.value = 0.0

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Node) and self.name == other.name

    def __repr__(self):
        return f'<{self.name}>'

    def is_finished(self, eid):
        return FINISHED[self.name]


FINISHED = {}


class Finishing(str):
    """a node named by a string"""

    def is_finished(self, eid):
        return FINISHED[str(self)]


def _perms(ns, n):
    """n permutations of the indices of ns, spread over all of them"""
    ps = list(itertools.permutations(range(len(ns))))
    if n >= len(ps):
        return ps
    if n == 1:
        return ps[-1:]
    step = (len(ps) - 1) / (n - 1)
    return [ps[round(i * step)] for i in range(n)]


def _maker(ns, h):
    """name -> a new object for the node of that name"""
    return lambda x: Node(x, h[ns.index(x)])


def _plain(g, name=lambda n: n.name):
    return {name(k): {name(x) for x in v} for k, v in g.items()}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


OPSETS = {
    'default': {},
    'union': dict(owner_senders='UNION', owner_receivers='UNION', subject_senders='UNION', subject_receivers='UNION', ignore_conflicts=True),
    'receivers': dict(owner_receivers='SYMMETRIC_DIFFERENCE', subject_senders='MERGE', subject_receivers='INTERSECTION', ignore_conflicts=True),
    'inverse': dict(owner_senders='INTERSECTION', owner_receivers='INVERSE_DIFFERENCE', subject_senders='MERGE', subject_receivers='REPLACE', ignore_conflicts=True),
    'discard': dict(owner_senders='REPLACE', owner_receivers='UNION', subject_receivers='DISCARD', ignore_conflicts=True),
    'exchange': dict(owner_receivers='REPLACE', subject_senders='REPLACE', subject_receivers='UNION', ignore_conflicts=True),
}


def _pick(eng, ns, tag, kinds, opsets):
    kind = eng.choose(f'kind{tag}', kinds)
    O = eng.choose(f'owner{tag}', ns)
    rest = [x for x in ns if x != O]
    if kind.endswith('Nodes'):
        nodes = eng.choose(f'nodes{tag}_{O}', [list(c) for c in itertools.combinations(rest, 2)])
    else:
        nodes = [eng.choose(f'node{tag}_{O}', rest)]
    op = eng.choose(f'operations{tag}', opsets) if kind not in ('AddEdgeTo', 'RemoveEdgeFrom') else 'default'
    kw = dict(OPSETS[op])
    if kind == 'WithNode':
        kw.pop('owner_senders', None), kw.pop('subject_senders', None)
    return kind, O, nodes, kw


def _apply(gs, g, conds, mk, how):
    """the graph after the conditions, with the nodes made by mk"""
    try:
        if how == 'modify':
            for kind, O, nodes, kw in conds:
                c = getattr(gs, kind)(*[mk(n) for n in nodes], **kw)
                c.owner = mk(O)
                g = _quiet(c.modify_graph, g)
            return _plain(g)
        s = _quiet(gs.Scheduler, graph=g)
        for kind, O, nodes, kw in conds:
            _quiet(s.add_condition, mk(O), getattr(gs, kind)(*[mk(n) for n in nodes], **kw))
        return _plain(s.graph)
    except gs.ConditionError:
        return 'ConditionError'


def structural(eng, gs, k, what, kinds, opsets, nconds, nperms, how='modify', keyorder=False):
    """the graph that results from structural conditions"""
    ns = lib.node_names(k)
    g = lib.dag(eng, ns) if what == 'dag' else lib.digraph(eng, ns)
    conds = [_pick(eng, ns, i, kinds, opsets) for i in range(nconds)]
    h = eng.choose('hashes', _perms(ns, nperms))
    order = eng.choose('key order', _perms(ns, nperms)) if keyorder else range(k)
    same = {x: Node(x, i) for i, x in enumerate(ns)}
    want = _apply(gs, {same[v]: {same[u] for u in g[v]} for v in ns}, conds, same.get, how)
    mk = _maker(ns, h)
    got = _apply(gs, {mk(ns[i]): {mk(u) for u in g[ns[i]]} for i in order}, conds, mk, how)
    what = dict(graph=g, conditions=conds, hashes=h, order=order)
    eng.check(got == want, 'the graph depends on the identity, hash or order of the nodes', got=got, want=want, **what)
    if want != g:
        eng.reach('changed')


def queue(eng, gs, k, nperms, collide):
    """the consideration queue and its indices"""
    ns = lib.node_names(k)
    g = lib.dag(eng, ns)
    h = eng.choose('hashes', _perms(ns, nperms))
    if collide:
        h = [x // 2 for x in h]
    order = eng.choose('key order', _perms(ns, nperms))
    mk = _maker(ns, h)
    graph = {mk(ns[i]): [mk(u) for u in sorted(g[ns[i]], key=lambda u: h[ns.index(u)])] for i in order}
    s = gs.Scheduler(graph=graph)
    q = [{n.name for n in l} for l in s.consideration_queue]
    want = layering(g)
    eng.check(q == want, 'the consideration queue depends on the identity, hash or order of the nodes', got=q, want=want, hashes=h, order=order)
    idx = {v: s.consideration_queue_indices[mk(v)] for v in ns}
    eng.check(all(v in want[i] for v, i in idx.items()), 'consideration_queue_indices cannot be used with an equal node, or disagrees', got=idx, want=want)
    eng.check(len(s.consideration_queue_indices) == k, 'consideration_queue_indices has unknown nodes', got=s.consideration_queue_indices)
    eng.reach('queue')


def _nodes_of(kind, ns):
    """ns as nodes of another kind"""
    vals = {
        'str': ns,
        'int': [0, 1, 2, 3],
        'negative': [-1, -2, 0, 7],          # hash(-1) == hash(-2)
        'tuple': [(), (1,), ((1,), 'a'), ('a', 'b')],
        'frozenset': [frozenset(), frozenset({1}), frozenset({frozenset()}), frozenset('ab')],
        'empty': ['', 0, (), frozenset()],
        'braces': ['{}', '%s', '{0}', '\n'],
        'mixed': ['A', 1, ('A', 1), b'A'],
        'float': [0.5, -0.0, 1e300, 2.0],
        'type': [int, str, len, Node],
    }[kind]
    return dict(zip(ns, vals))


GRAPHS = {
    'join': {'A': set(), 'B': set(), 'C': {'A', 'B'}},
    'chain': {'A': set(), 'B': {'A'}, 'C': {'B'}},
    'fork': {'A': set(), 'B': {'A'}, 'C': {'A'}},
}

DEPS = {'join': ('A', 'B'), 'chain': ('A', 'B'), 'fork': ('A', 'A')}


def _condition(eng, gs, d1, d2, form, fin):
    n = eng.choose('n', [1, 2]) if form in ('EveryNCalls', 'AtNCalls', 'AfterNCalls', 'BeforeNCalls', 'AfterNCallsCombined', 'NWhen', 'reset') else 1

    def make(mk):
        a, b = mk(d1), mk(d2)
        P = gs.TimeScale.ENVIRONMENT_STATE_UPDATE
        return {
            'default': lambda: None,
            'EveryNCalls': lambda: gs.EveryNCalls(a, n),
            'AtNCalls': lambda: gs.AtNCalls(a, n, time_scale=P),
            'AfterNCalls': lambda: gs.AfterNCalls(a, n, time_scale=P),
            'BeforeNCalls': lambda: gs.BeforeNCalls(a, n, time_scale=P),
            'AfterCall': lambda: gs.AfterCall(a, n, time_scale=P),
            'AfterNCallsCombined': lambda: gs.AfterNCallsCombined(a, b, n=n + 1, time_scale=P),
            'AllHaveRun': lambda: gs.AllHaveRun(a, b, time_scale=P),
            'JustRan': lambda: gs.JustRan(a),
            'WhenFinished': lambda: gs.WhenFinished(a),
            'WhenFinishedAny': lambda: gs.WhenFinishedAny(a, b),
            'WhenFinishedAll': lambda: gs.WhenFinishedAll(a, b),
            'NWhen': lambda: gs.NWhen(gs.AfterNCalls(a, 1, time_scale=P), n),
            'Any': lambda: gs.Any(gs.EveryNCalls(a, 2), gs.JustRan(b)),
            'While': lambda: gs.While(lambda d, scheduler, execution_id: scheduler.counts_total[execution_id][P][d] > 0, a),
        }[form]()
    return make


FORMS = ['default', 'EveryNCalls', 'AtNCalls', 'AfterNCalls', 'BeforeNCalls', 'AfterCall', 'AfterNCallsCombined', 'AllHaveRun', 'JustRan',
         'WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll', 'NWhen', 'Any', 'While']


class _Side:
    """one of two schedulers that are given the same outcomes"""

    def __init__(self, eng, gs, g, mk, order, free, special, outs):
        self.n = 0
        self.mk, self.outs = mk, outs
        self.gs = gs
        self.s = gs.Scheduler(graph={mk(v): {mk(u) for u in g[v]} for v in order})
        for v in free:
            self.s.add_condition(mk(v), gs.Condition(lambda v=v: self.outs(v, self.n)))
        for v, make in special.items():
            c = make(mk)
            if c is not None:
                self.s.add_condition(mk(v), c)

    def run(self, npasses, back, terms=None):
        out = []
        for E in self.s.run(termination_conds=terms(self.mk) if terms else {self.gs.TimeScale.ENVIRONMENT_STATE_UPDATE: self.gs.AfterPass(npasses - 1)}):
            out.append(frozenset(back(x) for x in E))
            self.n += 1
            if len(out) > 12:
                break
        return out


def _finished(eng, form, deps):
    FINISHED.clear()
    for d in sorted(set(deps)):
        FINISHED[d] = eng.flag(f'finished_{d}') if form.startswith('WhenFinished') else True


def executions(eng, gs, graph, npasses, nperms, forms, order):
    """runs with the same outcomes, with nodes that are named by a string and
    with nodes for which a new, equal object is used every time"""
    ns = ['A', 'B', 'C']
    g = GRAPHS[graph]
    form = eng.choose('form', forms)
    deps = DEPS[graph]
    _finished(eng, form, deps)
    special = {'C': _condition(eng, gs, *deps, form, None)}
    free = ['A', 'B']
    outs = lambda v, n: eng.flag(f'c_{v}_{n}')
    h = eng.choose('hashes', _perms(ns, nperms))
    o = eng.choose('key order', _perms(ns, nperms)) if order else range(3)
    one = _Side(eng, gs, g, Finishing, ns, free, special, outs)
    two = _Side(eng, gs, g, _maker(ns, h), [ns[i] for i in o], free, special, outs)
    terms = None
    if eng.flag('termination'):
        terms = lambda mk: {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Any(gs.AfterNCalls(mk('A'), 2), gs.AfterPass(npasses - 1))}
    want = one.run(npasses, str, terms)
    got = two.run(npasses, lambda x: x.name, terms)
    eng.check(got == want, 'the executions depend on the identity, hash or order of the nodes', got=got, want=want, condition=form, graph=graph)
    # what is recorded can be looked up with any equal node
    for v in ns:
        for ts in gs.TimeScale:
            eng.check(two.s.counts_total[two.s.default_execution_id][ts][two.mk(v)] == one.s.counts_total[one.s.default_execution_id][ts][v],
                      'counts differ for an equal node', node=v, scale=ts)
        # (between nodes of the same consideration set they depend on the order of considerations)
        for w in [w for w in ns if not any({v, w} <= l for l in layering(g)) or v == w]:
            eng.check(two.s.counts_useable[two.s.default_execution_id][two.mk(v)][two.mk(w)] == one.s.counts_useable[one.s.default_execution_id][v][w],
                      'useable counts differ for an equal node', node=v, of=w)
    if any('C' in E for E in want):
        eng.reach('executed')


def ownership(eng, gs, nperms):
    """conditions are found, replaced and removed through any equal node"""
    ns = ['A', 'B', 'C']
    mk = _maker(ns, eng.choose('hashes', _perms(ns, nperms)))
    g = GRAPHS['join']
    s = gs.Scheduler(graph={mk(v): {mk(u) for u in g[v]} for v in ns})
    v = eng.choose('v', ns)
    first = gs.Never()
    s.add_condition(mk(v), first)
    eng.check(mk(v) in s.conditions.conditions, 'a condition is not found with an equal node')
    second = gs.Always()
    op = eng.choose('op', ['replace', 'remove', 'structural', 'item', 'self'])
    if op == 'replace':
        s.add_condition(mk(v), second)
        eng.check(len(s.conditions.conditions) == 1 and s.conditions.conditions_basic[mk(v)] is second, 'a condition for an equal node does not replace the first')
        eng.check(all(E == {mk(v)} for E in itertools.islice((E for E in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(0)}) if mk(v) in E), 1)) or True, '')
    elif op == 'remove':
        got = s.remove_condition(mk(v))
        eng.check(got is first, 'a condition is not removed with an equal node', got=got)
        eng.check(len(s.conditions.conditions) == 0 and mk(v) not in s.conditions.conditions, 'a removed condition is still present')
    elif op == 'structural':
        w = eng.choose('w', [x for x in ns if x != v])
        c = gs.BeforeNode(mk(w))
        _quiet(s.add_condition, mk(v), c)
        eng.check(v in _plain(s.graph)[w], 'BeforeNode with an equal node has no effect', graph=s.graph)
        got = s.remove_condition(c)
        eng.check(got is c and _plain(s.graph) == g, 'a structural condition is not removed', graph=s.graph)
    elif op == 'item':
        s.conditions[mk(v)] = second
        eng.check(s.conditions.conditions_basic[mk(v)] is second and len(s.conditions.conditions_basic) == 1, 'item assignment for an equal node does not replace the condition')
    else:
        # a node cannot be placed relative to itself
        try:
            s.add_condition(mk(v), gs.BeforeNode(mk(v)))
        except gs.ConditionError:
            pass
        else:
            eng.fail('a structural condition that names a node equal to its owner is accepted')
        try:
            gs.EveryNCalls(mk(v), 2)
        except Exception as e:
            eng.fail('EveryNCalls raised', error=e)
    eng.reach('done')


def kinds(eng, gs, kind, graph, npasses, forms):
    """runs with the same outcomes, with nodes of any hashable kind"""
    ns = ['A', 'B', 'C']
    g = GRAPHS[graph]
    form = eng.choose('form', forms)
    deps = DEPS[graph]
    _finished(eng, form, deps)
    rep = _nodes_of(kind, ns)
    rev = {n: v for v, n in rep.items()}
    special = {'C': _condition(eng, gs, *deps, form, None)}
    outs = lambda v, n: eng.flag(f'c_{v}_{n}')
    one = _Side(eng, gs, g, Finishing, ns, ['A', 'B'], special, outs)
    two = _Side(eng, gs, g, rep.get, ns, ['A', 'B'], special, outs)
    gc = eng.choose('structural', [None, ('BeforeNode', 'B', 'A'), ('AfterNode', 'A', 'C'), ('WithNode', 'C', 'A'), ('AddEdgeTo', 'A', 'C'), ('RemoveEdgeFrom', 'C', 'B')])
    errs = []
    for side in (one, two):
        err = None
        if gc:
            try:
                _quiet(side.s.add_condition, side.mk(gc[1]), getattr(gs, gc[0])(side.mk(gc[2])))
            except gs.ConditionError as e:
                err = 'ConditionError'
                eng.check(str(e), 'no message')
        errs.append(err)
    eng.check(errs[0] == errs[1], 'a structural condition raises for some kinds of nodes only', raised=errs, kind=kind)
    eng.check({rev[k]: {rev[x] for x in v} for k, v in two.s.graph.items()} == {str(k): {str(x) for x in v} for k, v in one.s.graph.items()},
              'the graph depends on the kind of the nodes', got=two.s.graph, want=one.s.graph, kind=kind)
    if not lib.has_cycle(_plain(one.s.graph, str)):
        want = one.run(npasses, str)
        got = two.run(npasses, rev.get)
        eng.check(got == want, 'the executions depend on the kind of the nodes', got=got, want=want, kind=kind, condition=form)
        eng.reach('ran')
    # representations do not fail
    str(two.s.conditions), repr(two.s.conditions), str(two.s)
    for c in two.s.conditions.conditions.values():
        str(c), repr(c)


def jobs(tier):
    quick = tier == 'quick'
    js = []
    GSC = ['BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes', 'AddEdgeTo', 'RemoveEdgeFrom']
    # any number of conditions: hashes, identity
    for op in OPSETS:
        ks = [x for x in GSC if op == 'default' or x not in ('AddEdgeTo', 'RemoveEdgeFrom')]
        js.append(Job(structural, dict(k=3, what='digraph', kinds=ks, opsets=[op], nconds=1, nperms=1 if quick else 4), require=('changed',), split=4,
                      bounds='all digraphs on 3 nodes, one structural condition'))
        js.append(Job(structural, dict(k=4, what='dag', kinds=['BeforeNodes', 'AfterNodes'] if quick else ks, opsets=[op], nconds=1, nperms=1 if quick else 4), require=('changed',), split=4,
                      bounds='all acyclic graphs on 4 nodes, one structural condition'))
    js.append(Job(structural, dict(k=4 if not quick else 3, what='dag', kinds=GSC, opsets=['default'], nconds=2, nperms=1 if quick else 3), require=('changed',), split=5,
                  bounds='all acyclic graphs on 3 (quick) or 4 nodes, two structural conditions'))
    js.append(Job(structural, dict(k=4, what='dag', kinds=['WithNode', 'AfterNodes'], opsets=['default'], nconds=2, nperms=1 if quick else 3), require=('changed',), split=6,
                  bounds='all acyclic graphs on 4 nodes, two repositioning conditions'))
    js.append(Job(structural, dict(k=3, what='dag', kinds=GSC, opsets=['default'], nconds=1 if quick else 2, nperms=3, how='scheduler'), require=('changed',), split=4,
                  bounds='through a scheduler'))
    # order of the keys: one condition
    js.append(Job(structural, dict(k=4, what='dag', kinds=GSC, opsets=['default'], nconds=1, nperms=2 if quick else 4, keyorder=True), require=('changed',), split=5,
                  bounds='all acyclic graphs on 4 nodes, any order of keys, one structural condition'))
    js.append(Job(queue, dict(k=4, nperms=4 if quick else 24, collide=False), require=('queue',), split=4, bounds='all acyclic graphs on 4 nodes'))
    js.append(Job(queue, dict(k=4, nperms=3 if quick else 12, collide=True), require=('queue',), split=4, bounds='all acyclic graphs on 4 nodes, colliding hashes'))
    if not quick:
        js.append(Job(queue, dict(k=5, nperms=4, collide=False), require=('queue',), split=6, bounds='all acyclic graphs on 5 nodes'))
    for graph in GRAPHS:
        fm = FORMS if graph == 'join' or not quick else ['default', 'EveryNCalls', 'JustRan', 'AllHaveRun']
        if graph == 'fork':
            fm = [f for f in fm if f not in ('AfterNCallsCombined',)]
        js.append(Job(executions, dict(graph=graph, npasses=2 if quick else 3, nperms=2 if quick else 3, forms=fm, order=True), require=('executed',), split=5,
                      bounds=f'graph {graph}, {2 if quick else 3} passes, all outcomes of the other nodes'))
    js.append(Job(ownership, dict(nperms=3 if quick else 6), require=('done',), bounds='operations on conditions through equal nodes'))
    for kind in ('int', 'negative', 'tuple', 'frozenset', 'empty', 'braces', 'mixed', 'float', 'type'):
        fm = ['default', 'EveryNCalls', 'AllHaveRun'] if quick else [f for f in FORMS if not f.startswith('WhenF')]
        js.append(Job(kinds, dict(kind=kind, graph='join', npasses=1 if quick else 2, forms=fm), require=('ran',), split=3, bounds=f'nodes of kind {kind}'))
    return js


CHECKS = [
    Check('C26', jobs, assumptions=['hash and equality of nodes are consistent, and do not change'],
          outside='more than 4 nodes; conditions that refer to nodes of the same consideration set'),
]
