"""C01 (consideration queue), C21 (cycles) and C22 (graph utilities)."""
import copy
import itertools
import warnings

from .. import lib
from ..lib import node_names, dag, digraph, layering, ancestors, has_cycle, copy_graph
from ..run import Job, Check


class Obj:
    """a hashable node that is not a string"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Obj({self.name})'


class Same:
    """nodes that are told apart by equality only: all have the same hash"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Same) and self.name == other.name

    def __repr__(self):
        return self.name


def _nodes(kind, k):
    return {
        'str': lambda: node_names(k),
        'words': lambda: ['AB', 'A', 'B', 'BA', 'ABA'][:k],
        'rev': lambda: node_names(k)[::-1],
        'int': lambda: list(range(k)),
        'tuple': lambda: [('n', i) for i in range(k)],
        'obj': lambda: [Obj(i) for i in range(k)],
        'same': lambda: [Same(x) for x in node_names(k)],
        'mixed': lambda: ['A', 1, ('t', 2), None, frozenset({3})][:k],
    }[kind]()


def _present(eng, gs, g, form):
    """the graph in one of the forms a user can give it in"""
    nx = gs.scheduler.nx
    if form == 'nx':
        G = nx.DiGraph()
        G.add_nodes_from(reversed(list(g)))
        for v in g:
            for u in g[v]:
                G.add_edge(u, v)
        return G
    out = {}
    for v in reversed(list(g)) if form == 'partial' else g:
        s = list(g[v])
        if form in ('partial', 'single partial') and not s and any(v in x for x in g.values()):
            continue          # v is a sender only, not a key
        out[v] = {'set': set, 'partial': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset}[
            form if 'single' not in form else 'set'](s)
        if 'single' in form and len(s) == 1 and isinstance(s[0], (str, int)):
            out[v] = s[0]
    return out


def _freeze(G):
    if hasattr(G, 'adj'):
        return (list(G.nodes), list(G.edges))
    return {k: (type(v), copy.copy(v)) for k, v in G.items()}


def check_queue(eng, sched, g, what=''):
    layers = layering(g)
    q = sched.consideration_queue
    eng.check(isinstance(q, list), what + 'consideration_queue is not a list')
    eng.check([set(l) for l in q] == layers, what + 'consideration_queue is not the topological layering of the graph',
              graph=g, queue=q, expected=layers)
    idx = sched.consideration_queue_indices
    eng.check(dict(idx) == {v: i for i, l in enumerate(layers) for v in l},
              what + 'consideration_queue_indices disagrees with the queue', graph=g, indices=idx)
    eng.check(set(sched.nodes) == set(g) and len(sched.nodes) == len(g), what + 'scheduler.nodes are not the nodes of the graph')
    eng.check({k: set(v) for k, v in sched.graph.items()} == {k: set(v) for k, v in g.items()},
              what + 'scheduler.graph is not the given graph', graph=g, got=sched.graph)


def queue(eng, gs, k, kind, form):
    ns = _nodes(kind, k)
    g = {}
    for j, v in enumerate(ns):
        g[v] = set()
        for i in range(j):
            if eng.flag(f'e_{i}_{j}'):
                g[v].add(ns[i])
    given = _present(eng, gs, g, form)
    before = _freeze(given)
    sched = gs.Scheduler(graph=given)
    eng.check(_freeze(given) == before, 'the given graph was modified', graph=g)
    check_queue(eng, sched, g)
    if hasattr(given, 'adj') or kind != 'str':
        pass
    elif form in ('set', 'partial'):
        # later changes of the caller's graph have no effect
        for v in given.values():
            v.add('Z')
        given['Y'] = set()
        check_queue(eng, sched, g, 'after the given graph was changed: ')
    if len(layering(g)) == k:
        eng.reach('chain')
    if len(layering(g)) == 1:
        eng.reach('one set')
    # a run visits the sets in this order
    if kind == 'str':
        run = sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(0)})
        got = list(run)
        eng.check([set(x) for x in got] == layering(g), 'the first pass with default conditions differs from the queue',
                  graph=g, yielded=got)


def jobs01(tier):
    js = []
    for form in ('set', 'partial', 'list', 'tuple', 'frozenset', 'single', 'nx'):
        js.append(Job(queue, dict(k=4 if tier == 'quick' else 5, kind='str', form=form), require=('chain', 'one set'),
                      split=2 if tier == 'quick' else 4,
                      bounds='all DAGs on 4 (quick) or 5 (thorough) nodes', weight=5))
    for form in ('set', 'partial', 'single', 'single partial', 'list', 'nx'):
        js.append(Job(queue, dict(k=3 if tier == 'quick' else 4, kind='words', form=form), require=('chain', 'one set'),
                      bounds='all DAGs on 3 (quick) or 4 (thorough) nodes, whose names are made of each other'))
    for kind in ('rev', 'int', 'tuple', 'obj', 'same', 'mixed'):
        for form in ('set', 'partial', 'nx', 'single', 'single partial'):
            if kind == 'mixed' and form == 'nx':
                continue      # networkx does not accept None as a node
            js.append(Job(queue, dict(k=3 if tier == 'quick' else 4, kind=kind, form=form), require=('chain', 'one set'),
                          bounds='all DAGs on 3 (quick) or 4 (thorough) nodes'))
    return js


# ---------------------------------------------------------------------------
# C21
# ---------------------------------------------------------------------------

def _snapshot(s):
    return (
        {k: [set(x) for x in v] for k, v in s.execution_list.items()},
        {k: {ts: dict(c) for ts, c in v.items()} for k, v in s.counts_total.items()},
        {k: repr(c.time) for k, c in s.clocks.items()},
    )


def _try_run(eng, gs, sched, g, what):
    """run must raise SchedulerError iff g is cyclic"""
    cyc = has_cycle(g)
    before = _snapshot(sched)
    try:
        got = [next(sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never()}))]
        err = None
    except gs.SchedulerError as e:
        got, err = None, e
    eng.check((err is not None) == cyc, f'{what}: ' + ('a cyclic graph was scheduled' if cyc else 'an acyclic graph was rejected'),
              graph=g, error=err, yielded=got)
    if cyc:
        eng.check(_snapshot(sched) == before, f'{what}: a rejected run left traces', graph=g)
        eng.reach('rejected')
    else:
        eng.reach('accepted')


def base_cycle(eng, gs, k, self_loops, mode):
    ns = node_names(k)
    g = digraph(eng, ns, self_loops=self_loops)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        sched = gs.Scheduler(graph=copy_graph(g), mode=getattr(gs.SchedulingMode, mode))
    cyc = has_cycle(g)
    eng.check(any('cycl' in str(x.message).lower() or 'base graph' in str(x.message).lower() for x in w) == cyc,
              'a warning must be given exactly if the base graph is cyclic', graph=g, warnings=[str(x.message) for x in w])
    for i in range(2):
        _try_run(eng, gs, sched, g, f'attempt {i}')
    if any(v in g[v] for v in g) and not cyc:
        eng.reach('self-loop only')


def edge_cycle(eng, gs, k, nconds, via, base='dag', mode='STANDARD'):
    """cycles made (and removed) by structural conditions"""
    ns = node_names(k)
    g0 = dag(eng, ns) if base == 'dag' else digraph(eng, ns, self_loops=base == 'loops')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sched = gs.Scheduler(graph=copy_graph(g0), mode=getattr(gs.SchedulingMode, mode))
    cur = copy_graph(g0)
    stack = [(None, None, None)]
    for i in range(nconds):
        ops = ['add', 'rm'] + (['undo'] if len(stack) > 1 else [])
        op = eng.choose(f'op{i}_{len(ops)}', ops)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if op == 'undo':
                j = eng.choose(f'undo{i}_{len(stack)}', list(range(1, len(stack))))
                cond, *_ = stack.pop(j)
                (sched if via == 'sched' else sched.conditions).remove_condition(cond)
            else:
                s, r = eng.choose(f'edge{i}_{op}', [(a, b) for a in ns for b in ns if a != b])
                if via == 'sched':
                    cond = (sched.add_graph_edge if op == 'add' else sched.remove_graph_edge)(s, r)
                else:
                    cond = gs.AddEdgeTo(r) if op == 'add' else gs.RemoveEdgeFrom(s)
                    sched.conditions.add_condition(s if op == 'add' else r, cond)
                stack.append((cond, op, (s, r)))
            new = copy_graph(g0)
            for _, o, e in stack[1:]:
                if o == 'add':
                    new[e[1]].add(e[0])
                else:
                    new[e[1]].discard(e[0])
            eng.check({k_: set(v) for k_, v in sched.graph.items()} == new, 'the graph is not the one the conditions determine',
                      expected=new, got=sched.graph, ops=[x[1:] for x in stack[1:]])
        if has_cycle(new) and not has_cycle(cur) and op == 'add':
            eng.check(any('cycle' in str(x.message).lower() for x in w), 'no warning when a cycle appeared', graph=new)
            eng.reach('cycle appeared')
        if has_cycle(cur) and not has_cycle(new):
            eng.reach('cycle removed')
        cur = new
        _try_run(eng, gs, sched, cur, f'after operation {i}')


def jobs21(tier):
    js = [
        Job(base_cycle, dict(k=3, self_loops=True, mode='STANDARD'), require=('rejected', 'accepted', 'self-loop only'), split=3,
            bounds='all digraphs on 3 nodes, with self-loops'),
        Job(base_cycle, dict(k=3, self_loops=False, mode='EXACT_TIME'), require=('rejected', 'accepted'),
            bounds='all digraphs on 3 nodes, exact time mode'),
    ]
    n = 2 if tier == 'quick' else 3
    for via in ('sched', 'set'):
        js.append(Job(edge_cycle, dict(k=3, nconds=n, via=via), require=('cycle appeared', 'accepted'), split=3,
                      bounds=f'all DAGs on 3 nodes; {n} edge additions, removals or undo operations'))
        js.append(Job(edge_cycle, dict(k=2, nconds=n + 1, via=via), require=('cycle appeared', 'cycle removed'),
                      bounds=f'2 nodes; {n + 1} operations', split=1))
    q = tier == 'quick'
    for i, via in enumerate(('sched', 'set')):
        for base, k, m in (('digraph', 3, 1 if q else 2), ('digraph', 2, 3 if q else 4), ('loops', 2, 2 if q else 3)):
            for mode in ('STANDARD', 'EXACT_TIME') if k == 2 or not q else (('STANDARD', 'EXACT_TIME')[i],):
                js.append(Job(edge_cycle, dict(k=k, nconds=m, via=via, base=base, mode=mode), require=('accepted',), split=3,
                              bounds=f'all digraphs on {k} nodes{" with self-loops" if base == "loops" else ""}; {m} operations'))
    if tier == 'thorough':
        js.append(Job(base_cycle, dict(k=4, self_loops=False, mode='STANDARD'), require=('rejected',), split=6,
                      bounds='all digraphs on 4 nodes'))
    return js


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------

def _ref_cycles(g):
    """set of simple cycles in sender->receiver direction, rotated to a canonical start"""
    out = set()
    nodes = sorted(set(g) | {u for v in g.values() for u in v}, key=str)
    for r in range(1, len(nodes) + 1):
        for perm in itertools.permutations(nodes, r):
            if perm[0] != min(perm, key=str):
                continue
            if all(perm[i] in g.get(perm[(i + 1) % r], ()) for i in range(r)):
                out.add(perm)
    return out


def _canon(c):
    c = list(c)
    i = c.index(min(c, key=str))
    return tuple(c[i:] + c[:i])


def _check_utils(eng, u, g, what):
    nodes = set(g) | {x for v in g.values() for x in v}
    rec = u.get_receivers(g)
    exp = {v: {w for w in g if v in g[w]} for v in nodes}
    eng.check({k: set(v) for k, v in rec.items()} == exp, what + 'get_receivers', graph=g, got=rec, expected=exp)
    anc = u.get_ancestors(g)
    exp = {v: lib.ancestors(g, v) - {v} for v in g}
    eng.check({k: set(v) for k, v in anc.items()} == exp, what + 'get_ancestors', graph=g, got=anc, expected=exp)
    desc = u.get_descendants(g)
    exp = {v: {w for w in nodes if w != v and v in lib.ancestors(g, w)} for v in g}
    eng.check({k: set(v) for k, v in desc.items()} == exp, what + 'get_descendants', graph=g, got=desc, expected=exp)
    cyc = [list(c) for c in u.get_simple_cycles(g)]
    eng.check(len(cyc) == len({_canon(c) for c in cyc}) and {_canon(c) for c in cyc} == _ref_cycles(g),
              what + 'get_simple_cycles', graph=g, got=cyc, expected=_ref_cycles(g))
    return rec, anc, desc


def utilities(eng, gs, k, self_loops, change, missing=False, kind='str'):
    u = gs.utilities
    ns = _nodes(kind, k)
    g = digraph(eng, ns, self_loops=self_loops)
    if missing:
        for v in list(g):
            if not g[v] and any(v in x for x in g.values()):
                del g[v]
                eng.reach('sender that is not a key')
    res = _check_utils(eng, u, g, '')
    if g and _ref_cycles(g):
        eng.reach('cyclic')
    saved = copy_graph(g)
    if change == 'result':
        for r in res:
            for v in r.values():
                v.add('Z')
                v.discard('A')
            r['Q'] = set()
        cs = u.get_simple_cycles(g)
        for c in cs:
            c.append('Z')
        cs.append(['Z'])
        _check_utils(eng, u, g, 'after an earlier result was modified: ')
    elif change == 'graph':
        s, r = eng.choose('edge', [(a, b) for a in ns for b in ns if a != b])
        if r in g:
            g[r] ^= {s}
        else:
            g[r] = {s}
        if eng.flag('swap'):
            # also in place, and with the same number of senders
            t = eng.choose('other', [x for x in ns if x not in (s, r)])
            g[r] ^= {t}
        _check_utils(eng, u, g, 'after the graph was modified in place: ')
        g.clear()
        g.update(copy_graph(saved))
        _check_utils(eng, u, g, 'after the graph was restored: ')
    elif change == 'clone':
        g2 = u.clone_graph(g)
        eng.check({k_: set(v) for k_, v in g2.items()} == saved, 'clone_graph is not equal to the original')
        for v in g2.values():
            v.add('Z')
        g2['Q'] = set()
        eng.check(g == saved, 'clone_graph shares state with the original', graph=g)
        d = u.dependency_dict_to_networkx_digraph(g)
        eng.check(g == saved, 'conversion modified the graph')
        allnodes = set(g) | {x for v in g.values() for x in v}
        eng.check(set(d.nodes) == allnodes and set(d.edges) == {(a, b) for b in g for a in g[b]},
                  'dependency_dict_to_networkx_digraph', graph=g, edges=list(d.edges))
        back = u.networkx_digraph_to_dependency_dict(d)
        eng.check({k_: set(v) for k_, v in back.items()} == {v: saved.get(v, set()) for v in allnodes},
                  'conversion to networkx and back is not the identity', graph=saved, got=back)
        for v in back.values():
            v.add('Z')
        eng.check(g == saved and 'Z' not in d, 'conversion shares state')


def clone_forms(eng, gs, k):
    """clone_graph of graphs whose values are not sets"""
    u = gs.utilities
    ns = node_names(k)
    g = digraph(eng, ns)
    f = {}
    for v in g:
        forms = [set, list, tuple, frozenset] + ([lambda s: list(s)[0]] if len(g[v]) == 1 else [])
        f[v] = eng.choose(f'form_{v}_{len(forms)}', forms)(sorted(g[v]))
    before = copy.deepcopy(f)
    c = u.clone_graph(f)
    eng.check(all(type(x) is set for x in c.values()) and c == g, 'clone_graph does not normalise the senders', graph=f, got=c)
    for x in c.values():
        x.add('Z')
    eng.check(f == before, 'clone_graph shares state with the original')


def jobs22(tier):
    js = []
    for ch in ('result', 'graph', 'clone'):
        js.append(Job(utilities, dict(k=3, self_loops=ch != 'graph', change=ch), require=('cyclic',), split=4, clear=True,
                      bounds='all digraphs on 3 nodes'))
        if ch != 'result':
            js.append(Job(utilities, dict(k=3, self_loops=False, change=ch, kind='same'), require=('cyclic',), split=2,
                          bounds='all digraphs on 3 nodes with equal hashes'))
        js.append(Job(utilities, dict(k=3, self_loops=False, change=ch, missing=True), require=('sender that is not a key',),
                      split=2, bounds='all digraphs on 3 nodes, senders that are not keys'))
        if tier == 'thorough':
            js.append(Job(utilities, dict(k=4, self_loops=False, change=ch), require=('cyclic',), split=7,
                          bounds='all digraphs on 4 nodes'))
    js.append(Job(clone_forms, dict(k=3), split=2, bounds='all digraphs on 3 nodes, 5 forms of value'))
    return js


CHECKS = [
    Check('C01', jobs01, outside='graphs with more nodes'),
    Check('C21', jobs21, outside='graphs with more nodes, longer histories'),
    Check('C22', jobs22, outside='graphs with more nodes'),
]
