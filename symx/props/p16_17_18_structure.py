"""C16, C17 and C18: what structural conditions do to a graph."""
import itertools
import warnings

from .. import lib
from ..engine import AND, OR, NOT, IFF, is_sym
from ..lib import copy_graph, ancestors, has_cycle
from ..run import Job, Check

OPS = ['KEEP', 'REPLACE', 'DISCARD', 'INTERSECTION', 'UNION', 'MERGE', 'DIFFERENCE', 'INVERSE_DIFFERENCE', 'SYMMETRIC_DIFFERENCE']

# membership of x in the result, given membership in source and comparison
MEM = {
    'KEEP': lambda s, c: s,
    'REPLACE': lambda s, c: c,
    'DISCARD': lambda s, c: False,
    'INTERSECTION': lambda s, c: AND(s, c),
    'UNION': lambda s, c: OR(s, c),
    'MERGE': lambda s, c: OR(s, c),
    'DIFFERENCE': lambda s, c: AND(s, NOT(c)),
    'INVERSE_DIFFERENCE': lambda s, c: AND(c, NOT(s)),
    'SYMMETRIC_DIFFERENCE': lambda s, c: NOT(IFF(s, c)),
}


# ---------------------------------------------------------------------------
# the operations themselves, over sets with symbolic membership
# ---------------------------------------------------------------------------

def _symset(eng, tag, elems):
    b = {x: eng.bool(f'{tag}_{i}') for i, x in enumerate(elems)}
    if getattr(eng, 'symbolic', False):
        from ..rt import SymSet
        return SymSet({x: v.t for x, v in b.items()}), b
    return {x for x, v in b.items() if v}, b


def _mem(s, x):
    from ..rt import SymSet
    from ..engine import wrap_bool
    if isinstance(s, SymSet):
        return wrap_bool(s.term(x))
    return x in s


def algebra(eng, gs, op, k, kind):
    elems = {'str': [f'n{i}' for i in range(k)], 'mixed': ['A', 1, ('t', 2), frozenset({3}), None, -1][:k]}[kind]
    s, sb = _symset(eng, 's', elems)
    c, cb = _symset(eng, 'c', elems)
    o = gs.Operation[op]
    res = o(s, c)
    items = []
    for x in elems:
        items.append((IFF(_mem(res, x), MEM[op](sb[x], cb[x])), f'{op}: wrong membership of an element in the result'))
        items.append((IFF(_mem(s, x), sb[x]), f'{op}: the source set was modified'))
        items.append((IFF(_mem(c, x), cb[x]), f'{op}: the comparison set was modified'))
    eng.check_all(items, op=op)
    # no element out of nowhere
    from ..rt import SymSet
    eng.check(set(res.m if isinstance(res, SymSet) else res) <= set(elems), f'{op}: unknown element in the result')
    res2 = o(s, c)
    eng.check_all([(IFF(_mem(res2, x), MEM[op](sb[x], cb[x])), f'{op}: a second application differs') for x in elems])


def names(eng, gs):
    """operations given as strings, in any case"""
    nm = eng.choose('op', OPS)
    form = eng.choose('form', ['upper', 'lower', 'title', 'enum'])
    arg = gs.Operation[nm] if form == 'enum' else getattr(nm, form)()
    slot = eng.choose('slot', ['owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers'])
    asdict = slot.startswith('subject') and eng.flag('dict')
    cond = gs.BeforeNode('S', **{slot: {'S': arg} if asdict else arg}, prune_cycles=False, reconnect_non_subject_receivers=False)
    cond.owner = 'O'
    g = {'O': {'X', 'Y'}, 'S': {'Y', 'Z'}, 'X': {'S'}, 'Y': set(), 'Z': set(), 'U': {'O', 'S'}, 'V': {'O'}}
    ops = {'owner_senders': 'MERGE', 'owner_receivers': 'KEEP', 'subject_senders': {'S': 'KEEP'}, 'subject_receivers': {'S': 'KEEP'}}
    ops[slot] = {'S': nm} if slot.startswith('subject') else nm
    exp, conf = reference(g, 'O', ['S'], ops, 'BeforeNode')
    try:
        got = cond.modify_graph(g)
    except gs.ConditionError:
        got = None
    eng.check((got is None) == conf, 'conflict reported wrongly', op=nm, slot=slot)
    if got is not None:
        eng.check(got == exp, 'an operation given by name is not the operation of that name', op=nm, form=form, slot=slot,
                  got=got, expected=exp)


# ---------------------------------------------------------------------------
# reference result of a condition with operations
# ---------------------------------------------------------------------------

def apply_op(op, s, c):
    return {x for x in s | c if MEM[op](x in s, x in c)}


def already(g, kind, O, nodes):
    if kind.startswith('Before'):
        return [n for n in nodes if O in g[n]]
    if kind.startswith('After'):
        return [n for n in nodes if n in g[O]]
    return [n for n in nodes if g[n] == g[O]]


def reference(g, O, nodes, ops, kind, ignore=False, rm_self=True):
    """(graph, is there a conflict), without pruning and reconnection"""
    if len(already(g, kind, O, nodes)) == len(nodes):
        return copy_graph(g), False
    pre = copy_graph(g)
    for n in nodes:
        pre[n].discard(O)
        pre[O].discard(n)
    rec = {v: {w for w in pre if v in pre[w]} for v in pre}
    S = [O] + list(nodes)
    NS, NR = {}, {}
    NS[O] = apply_op(ops['owner_senders'], pre[O], set().union(*[pre[n] for n in nodes]))
    NR[O] = apply_op(ops['owner_receivers'], rec[O], set().union(*[rec[n] for n in nodes]))
    for n in nodes:
        NS[n] = apply_op(ops['subject_senders'][n], pre[n], pre[O])
        NR[n] = apply_op(ops['subject_receivers'][n], rec[n], rec[O])
    conflict = any((s in NS[r]) != (r in NR[s]) for s in S for r in S)
    if conflict and not ignore:
        return None, True
    res = copy_graph(pre)
    for r in S:
        res[r] = set(NS[r])
    for s in S:
        for v in res:
            (res[v].add if v in NR[s] else res[v].discard)(s)
    if kind.startswith('Before'):
        for n in nodes:
            res[n].add(O)
    elif kind.startswith('After'):
        res[O] |= set(nodes)
    elif kind == 'WithNode':
        res[O] = res[nodes[0]] | res[O]
        res[nodes[0]] = set(res[O])
    if rm_self:
        for v in res:
            if v not in g[v]:
                res[v].discard(v)
    return res, conflict


DEFAULTS = {
    'Before': dict(owner_senders='MERGE', owner_receivers='KEEP', subject_senders='KEEP', subject_receivers='KEEP'),
    'After': dict(owner_senders='KEEP', owner_receivers='MERGE', subject_senders='MERGE', subject_receivers='KEEP'),
    'With': dict(owner_senders='MERGE', owner_receivers='KEEP', subject_senders='MERGE', subject_receivers='KEEP'),
}


def defaults(kind):
    return DEFAULTS[kind[:-4] if kind.endswith('Node') else kind[:-5]]


def _modify(gs, cond, g):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            return cond.modify_graph(g), w
        except gs.ConditionError as e:
            return e, w


def _full_ops(ops, nodes):
    return {k: ({n: v if isinstance(v, str) else v[n] for n in nodes} if k.startswith('subject') else v) for k, v in ops.items()}


def operations(eng, gs, kind, nnodes, nother, slots, base, options):
    """the graph that results from a choice of operations"""
    nodes = ['S', 'T', 'U', 'V'][:nnodes]
    ns = ['O'] + nodes + ['X', 'Y'][:nother]
    ops = dict(defaults(kind)) if base == 'default' else {k: 'KEEP' for k in DEFAULTS['Before']}
    if kind == 'WithNode':
        ops['owner_senders'] = ops['subject_senders'] = 'MERGE'
    for s in slots:
        if s.endswith('[]'):
            ops[s[:-2]] = {n: eng.choose(f'{s}_{n}', OPS) for n in nodes}
        else:
            ops[s] = eng.choose(s, OPS)
    strings = any(isinstance(v, dict) for v in ops.values()) and eng.flag('strings')
    op = (lambda o: o.lower()) if strings else (lambda o: gs.Operation[o])
    kw = {k: ({n: op(o) for n, o in v.items()} if isinstance(v, dict) else gs.Operation[v]) for k, v in ops.items()}
    if kind == 'WithNode':
        del kw['owner_senders'], kw['subject_senders']
    ignore = bool(options) and options not in ('loops', 'star') and eng.flag('ignore')
    rm_self = not options or options in ('loops', 'star') or eng.flag('rm_self')
    cond = getattr(gs, kind)(*nodes, **kw, prune_cycles=False, reconnect_non_subject_receivers=False,
                             ignore_conflicts=ignore, remove_new_self_referential_edges=rm_self)
    cond.owner = 'O'
    if options == 'star':
        # edges between the others and the moved nodes, in one direction
        g = {v: set() for v in ns}
        out = eng.flag('out')
        for x in ns[1 + nnodes:]:
            for v in ns[:1 + nnodes]:
                if eng.flag(f'e_{v}{x}'):
                    g[x if out else v].add(v if out else x)
        if eng.flag('chain'):
            g['S'].add(nodes[-1])
    else:
        g = lib.digraph(eng, ns, self_loops=options == 'all')
    if options == 'loops':
        for v in ('O', 'S'):
            if eng.flag(f'loop_{v}'):
                g[v].add(v)
    exp, conflict = reference(g, 'O', nodes, _full_ops(ops, nodes), kind, ignore, rm_self)
    got, w = _modify(gs, cond, g)
    raised = isinstance(got, Exception)
    what = dict(kind=kind, operations=ops, graph=g, ignore_conflicts=ignore)
    if conflict:
        eng.reach('conflict')
    if conflict and not ignore:
        eng.check(raised, 'conflicting operations were not reported', got=got, **what)
    else:
        eng.check(not raised, 'a conflict was reported where there is none', error=got, **what)
        eng.check({k: set(v) for k, v in got.items()} == exp,
                  'the new senders and receivers are not the results of the operations', got=got, expected=exp, **what)
        if exp != g:
            eng.reach('changed')


def jobs17(tier):
    quick = tier == 'quick'
    js = []
    for op in OPS:
        js.append(Job(algebra, dict(op=op, k=6, kind='str'), inject=('set',), bounds='all subsets of 6 elements (symbolic)'))
        js.append(Job(algebra, dict(op=op, k=6, kind='mixed'), inject=('set',), bounds='all subsets of 6 elements (symbolic)'))
    js.append(Job(names, {}, split=2, bounds='all names, cases and slots'))
    allslots = ['owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers']
    for kind, nnodes in (('BeforeNode', 1), ('AfterNode', 1), ('BeforeNodes', 2), ('AfterNodes', 2), ('WithNode', 1)):
        slots = allslots if kind != 'WithNode' else ['owner_receivers', 'subject_receivers']
        for a, b in itertools.combinations(slots, 2):
            base = 'default' if nnodes == 1 else 'keep'
            js.append(Job(operations, dict(kind=kind, nnodes=nnodes, nother=3 - 1 - nnodes, slots=(a, b), base=base, options=False),
                          require=('changed',) if nnodes == 1 else (),
                          split=2, bounds='all digraphs on 3 nodes, all pairs of operations', weight=3))
        for a in slots:
            for opt in ('options', 'loops') if quick else ('all',):
                js.append(Job(operations, dict(kind=kind, nnodes=nnodes, nother=2 - nnodes, slots=(a,), base='default', options=opt),
                              split=1 if quick else 5,
                              bounds='all digraphs on 3 nodes with self-loops and options, one operation', weight=3))
            if not quick:
                js.append(Job(operations, dict(kind=kind, nnodes=nnodes, nother=3 - nnodes, slots=(a,), base='default', options=False),
                              split=5, bounds='all digraphs on 4 nodes, one operation', weight=3))
    for kind in ('BeforeNodes', 'AfterNodes'):
        for a in allslots:
            for base in ('default', 'keep'):
                js.append(Job(operations, dict(kind=kind, nnodes=3, nother=1, slots=(a,), base=base, options='star'), split=1,
                              bounds='three named nodes and one other, its edges from or to the moved nodes, one operation'))
            if not quick:
                js.append(Job(operations, dict(kind=kind, nnodes=3, nother=2, slots=(a,), base='keep', options='star'), split=5, weight=5,
                              bounds='three named nodes and two others, one operation'))
                js.append(Job(operations, dict(kind=kind, nnodes=4, nother=1, slots=(a,), base='default', options='star'), split=3,
                              bounds='four named nodes and one other, one operation'))
    for s in ('subject_senders[]', 'subject_receivers[]'):
        for kind in ('BeforeNodes', 'AfterNodes'):
            js.append(Job(operations, dict(kind=kind, nnodes=2, nother=0 if quick else 1, slots=(s,), base='keep', options=False), split=2 if quick else 6,
                          bounds='all digraphs on 3 (quick) or 4 nodes, operations per subject'))
    if not quick:
        for kind in ('BeforeNode', 'AfterNode'):
            js.append(Job(operations, dict(kind=kind, nnodes=1, nother=1, slots=tuple(allslots), base='keep', options=False), split=6,
                          bounds='all digraphs on 3 nodes, all 6561 combinations of operations', weight=9))
        js.append(Job(operations, dict(kind='WithNode', nnodes=1, nother=1, slots=('owner_receivers', 'subject_receivers'), base='keep', options='all'),
                      split=5, bounds='all digraphs on 3 nodes with self-loops'))
    return js


# ---------------------------------------------------------------------------
# C16 and C18
# ---------------------------------------------------------------------------

def _graph(eng, ns, what, self_loops=False):
    if what == 'digraph':
        return lib.digraph(eng, ns, self_loops=self_loops)
    return lib.dag(eng, ns)


def _pick(eng, ns, kind, n2=2):
    O = eng.choose('owner', ns)
    rest = [x for x in ns if x != O]
    if kind.endswith('Nodes'):
        combos = [c for k in range(1, n2 + 1) for c in itertools.combinations(rest, k)]
        return O, list(eng.choose(f'nodes_{O}', combos))
    return O, [eng.choose(f'node_{O}', rest)]


def position(eng, gs, kind, k, what, self_loops=False, options=False):
    ns = lib.node_names(k)
    O, nodes = _pick(eng, ns, kind, k - 1)
    g = _graph(eng, ns, what, self_loops)
    kw = {}
    if options and kind not in ('AddEdgeTo', 'RemoveEdgeFrom'):
        kw = {o: eng.flag(o) for o in ('prune_cycles', 'reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'ignore_conflicts')}
    cond = getattr(gs, kind)(*nodes, **kw)
    cond.owner = O
    saved = copy_graph(g)
    got, w = _modify(gs, cond, g)
    ctx = dict(kind=kind, owner=O, nodes=nodes, graph=saved, options=kw)
    eng.check(g == saved, 'modify_graph changed the graph it was given', **ctx)
    if kind in ('AddEdgeTo', 'RemoveEdgeFrom'):
        exp = copy_graph(saved)
        (exp[nodes[0]].add(O) if kind == 'AddEdgeTo' else exp[O].discard(nodes[0]))
        eng.check(not isinstance(got, Exception), f'{kind} raised', error=got, **ctx)
        eng.check({x: set(v) for x, v in got.items()} == exp, f'{kind} did not change exactly the named edge', got=got, **ctx)
        return
    if isinstance(got, Exception):
        exp, conflict = reference(saved, O, nodes, _full_ops(defaults(kind), nodes), kind)
        eng.check(conflict and not kw.get('ignore_conflicts'), f'{kind} raised although no operations conflict', error=got, **ctx)
        eng.reach('conflict')
        return
    got = {x: set(v) for x, v in got.items()}
    alr = already(saved, kind, O, nodes)
    if alr:
        eng.check(len(w) > 0, 'no warning about a condition that already holds', **ctx)
        eng.reach('already')
    if len(alr) == len(nodes):
        eng.check(got == saved, 'a condition that already holds changed the graph', got=got, **ctx)
        return
    eng.reach('moved')
    if kind.startswith('Before'):
        eng.check(all(O in got[n] for n in nodes), f'{kind}: the owner is not a sender of all named nodes', got=got, **ctx)
    elif kind.startswith('After'):
        eng.check(all(n in got[O] for n in nodes), f'{kind}: not all named nodes are senders of the owner', got=got, **ctx)
    else:
        n = nodes[0]
        eng.check(got[O] == got[n], 'WithNode: owner and node do not have the same senders', got=got, **ctx)


def jobs16(tier):
    quick = tier == 'quick'
    js = []
    for kind in ('BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes', 'AddEdgeTo', 'RemoveEdgeFrom'):
        gsc = kind not in ('AddEdgeTo', 'RemoveEdgeFrom')
        req = ('moved', 'already') if gsc else ()
        js.append(Job(position, dict(kind=kind, k=3, what='digraph', self_loops=not quick, options=gsc), require=req, split=2 if quick else 5,
                      bounds='all digraphs on 3 nodes, all owners, nodes and options', weight=3))
        if quick:
            js.append(Job(position, dict(kind=kind, k=3, what='digraph', self_loops=True), require=req, split=2,
                          bounds='all digraphs on 3 nodes with self-loops, all owners and nodes', weight=3))
        js.append(Job(position, dict(kind=kind, k=4, what='dag'), require=req, split=2, bounds='all DAGs on 4 nodes, all owners and nodes'))
        if not quick:
            js.append(Job(position, dict(kind=kind, k=4, what='digraph'), require=req, split=7, bounds='all digraphs on 4 nodes'))
            js.append(Job(position, dict(kind=kind, k=5, what='dag'), require=req, split=6, bounds='all DAGs on 5 nodes'))
    return js


def _edges(g):
    return {(u, v) for v in g for u in g[v]}


def _connected(g, a, b):
    return a in ancestors(g, b) or b in ancestors(g, a)


def _mutate_probe(eng, g, res, saved, ctx):
    """the result shares no sets with the input, nor between its nodes"""
    for i, v in enumerate(res):
        res[v].add(('probe', i))
    eng.check(all({x for x in res[v] if isinstance(x, tuple)} == {('probe', i)} for i, v in enumerate(res)),
              'nodes of the result share mutable state', **ctx)
    eng.check(g == saved, 'the result shares mutable state with the given graph', **ctx)
    for i, v in enumerate(res):
        res[v].discard(('probe', i))


def preserve(eng, gs, kind, k, what, self_loops=False, flags=(), slot=None):
    ns = lib.node_names(k)
    O, nodes = _pick(eng, ns, kind, k - 1)
    kw = {}
    for o in flags:
        kw[o] = eng.flag(o)
    if slot:
        kw[slot] = eng.choose(slot, OPS).lower()
    g = _graph(eng, ns, what, self_loops)
    saved = copy_graph(g)
    make = getattr(gs, kind)
    cond = make(*nodes, **kw)
    cond.owner = O
    ctx = dict(kind=kind, owner=O, nodes=nodes, graph=saved, options=kw)
    got, w = _modify(gs, cond, g)
    eng.check(g == saved, 'modify_graph changed the graph it was given', **ctx)
    again, _ = _modify(gs, cond, copy_graph(saved))
    if isinstance(got, Exception):
        eng.check(isinstance(again, Exception), 'a second attempt differs from the first', **ctx)
        return
    res = {x: set(v) for x, v in got.items()}
    eng.check({x: set(v) for x, v in again.items()} == res, 'a second application to the same graph differs from the first', got=res, second=again, **ctx)
    _mutate_probe(eng, g, got, saved, ctx)
    eng.check(set(res) == set(saved) and all(v <= set(saved) for v in res.values()), 'the set of nodes has changed', got=res, **ctx)
    if kind in ('AddEdgeTo', 'RemoveEdgeFrom'):
        return
    moved = {O, *nodes}
    if kw.get('remove_new_self_referential_edges', True):
        eng.check(all(v in saved[v] for v in res if v in res[v]), 'a new self-referential edge', got=res, **ctx)
    # without pruning and reconnection
    plain = make(*nodes, **{**kw, 'prune_cycles': False, 'reconnect_non_subject_receivers': False})
    plain.owner = O
    P, _ = _modify(gs, plain, copy_graph(saved))
    eng.check(not isinstance(P, Exception), 'pruning or reconnection hides a conflict', **ctx)
    P = {x: set(v) for x, v in P.items()}
    outside = {(a, b) for a, b in _edges(saved) if a not in moved and b not in moved}
    Pout = {(a, b) for a, b in _edges(P) if a not in moved and b not in moved}
    eng.check(Pout == outside, 'an edge between nodes that are not named was changed', got=P, **ctx)
    prune = kw.get('prune_cycles', True)
    recon = kw.get('reconnect_non_subject_receivers', True)
    removed = _edges(P) - _edges(res)
    added = _edges(res) - _edges(P)
    if not prune:
        eng.check(not removed, 'an edge was removed although no cycle was to be resolved', got=res, plain=P, **ctx)
    for a, b in removed:
        eng.check(b in ancestors(P, a) if a != b else a not in saved[a], 'an edge was removed that is not part of a (new) cycle', edge=(a, b),
                  got=res, plain=P, **ctx)
        eng.reach('pruned')
    former_s = saved[O]
    former_r = {v for v in saved if O in saved[v]}
    for a, b in added:
        eng.check(recon and a in former_s and b in former_r and b not in nodes, 'an edge was added that no operation, position or reconnection asks for',
                  edge=(a, b), got=res, plain=P, **ctx)
        eng.reach('reconnected')
    if recon:
        for a in former_s:
            for b in former_r:
                if a != b and b not in nodes and b != O and a != O:
                    eng.check(_connected(res, a, b), 'a former sender of the owner is not connected to a former receiver any more',
                              sender=a, receiver=b, got=res, **ctx)


def custom(eng, gs, k):
    """user functions that change the graph they are given"""
    ns = lib.node_names(k)
    g = lib.digraph(eng, ns)
    saved = copy_graph(g)
    a, b = eng.choose('edge', [(x, y) for x in ns for y in ns])
    style = eng.choose('style', ['inplace', 'new', 'self'])

    def f(graph):
        graph[b] ^= {a}
        return graph

    def f_new(graph):
        return {v: (s ^ {a} if v == b else s) for v, s in graph.items()}

    def f_self(self, graph):
        assert self is cond
        graph[b] ^= {self.extra}
        return graph
    cond = gs.CustomGraphStructureCondition({'inplace': f, 'new': f_new, 'self': f_self}[style], extra=a)
    cond.owner = ns[0]
    for i in range(2):
        got, _ = _modify(gs, cond, g)
        eng.check(g == saved, 'modify_graph changed the graph it was given', graph=saved, style=style)
        exp = copy_graph(saved)
        exp[b] ^= {a}
        eng.check({x: set(v) for x, v in got.items()} == exp, 'the result is not what the function returned', graph=saved, got=got, style=style)
        _mutate_probe(eng, g, got, saved, dict(graph=saved, style=style))


def jobs18(tier):
    quick = tier == 'quick'
    js = [Job(custom, dict(k=3), split=2, bounds='all digraphs on 3 nodes')]
    ops = ('prune_cycles', 'reconnect_non_subject_receivers', 'remove_new_self_referential_edges', 'ignore_conflicts')
    for kind in ('BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes', 'AddEdgeTo', 'RemoveEdgeFrom'):
        gsc = kind not in ('AddEdgeTo', 'RemoveEdgeFrom')
        req = ('reconnected',) if gsc else ()
        js.append(Job(preserve, dict(kind=kind, k=3, what='digraph', flags=ops if gsc else ()), split=2,
                      bounds='all digraphs on 3 nodes, all owners, nodes and options', weight=3))
        js.append(Job(preserve, dict(kind=kind, k=4, what='dag'), split=2, require=req,
                      bounds='all DAGs on 4 nodes, all owners and nodes', weight=3))
        if gsc:
            slots = ['owner_receivers', 'subject_receivers'] + (['owner_senders', 'subject_senders'] if kind != 'WithNode' else [])
            for slot in slots:
                js.append(Job(preserve, dict(kind=kind, k=3, what='digraph', slot=slot), split=2,
                              bounds='all digraphs on 3 nodes, one operation', weight=3))
                if not quick:
                    js.append(Job(preserve, dict(kind=kind, k=4, what='dag', slot=slot), split=5,
                                  bounds='all DAGs on 4 nodes, one operation', weight=6))
        if quick:
            js.append(Job(preserve, dict(kind=kind, k=3, what='digraph', self_loops=True), split=3,
                          bounds='all digraphs on 3 nodes with self-loops', weight=3))
        if not quick:
            js.append(Job(preserve, dict(kind=kind, k=4, what='digraph'), split=6, bounds='all digraphs on 4 nodes', weight=9))
            js.append(Job(preserve, dict(kind=kind, k=5, what='dag'), split=7, bounds='all DAGs on 5 nodes', weight=9))
            js.append(Job(preserve, dict(kind=kind, k=3, what='digraph', self_loops=True, flags=ops if gsc else ()), split=5,
                          bounds='all digraphs on 3 nodes with self-loops, options', weight=9))
    return js


CHECKS = [
    Check('C16', jobs16, outside='graphs with more nodes'),
    Check('C17', jobs17, outside='graphs with more nodes'),
    Check('C18', jobs18, outside='graphs with more nodes'),
]
