"""C27: schedulers do not influence one another."""
import warnings

from ..run import Job, Check
from .p06_07_time import ATTR, ORDER


class Node:
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return sum(map(ord, self.name))

    def __repr__(self):
        return self.name


class Colliding(Node):
    def __hash__(self):
        return 1


SHAPES = {
    'chain': 'AB BC', 'fork': 'AB AC', 'join': 'AC BC', 'flat': '', 'edge': 'AC',
}
# what is done to a scheduler, after which its state is compared
RUNNING = ('begin', 'step', 'full', 'endseq')
CHANGES = ('edge', 'unedge', 'before', 'pop', 'basic', 'interval', 'terms', 'delete')


class World:
    """what one user of the library holds: the objects given to schedulers"""

    def __init__(self, gs, shape, nodes, shared_conds, other=None):
        TS = gs.TimeScale
        A, B, C = nodes
        self.gs, self.nodes = gs, nodes
        by = {n.name: n for n in nodes}
        self.graph = {n: set() for n in nodes}
        for e in SHAPES[shape].split():
            self.graph[by[e[1]]].add(by[e[0]])
        # (the second scheduler may have another graph of the same nodes)
        self.other = self.graph
        if other is not None:
            self.other = {n: {by[e[0]] for e in SHAPES[other].split() if e[1] == n.name} for n in nodes}
        self.terms = {'environment_state_update': gs.Any(gs.AllHaveRun(), gs.AfterNPasses(3))}
        self.run_terms = {TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}
        self.conds = None
        if shared_conds == 'dict':
            self.conds = {C: gs.Any(gs.EveryNCalls(A, 2), gs.AfterNCalls(A, 2, TS.LIFE))}
        elif shared_conds == 'set':
            # (one with structural conditions, which owners get more of later)
            self.conds = gs.ConditionSet({C: [gs.All(gs.EveryNCalls(B, 1), gs.AtPass(1)), gs.AddEdgeTo(B)], B: [gs.RemoveEdgeFrom(A)]}
                                         if shape in ('fork', 'edge') else {C: [gs.All(gs.EveryNCalls(B, 1), gs.AtPass(1))], B: [gs.AddEdgeTo(C)]})


class Sched:
    def __init__(self, eng, world, tag, mode, terms, eid):
        gs = world.gs
        self.eng, self.world, self.tag, self.gs = eng, world, tag, gs
        A, B, C = world.nodes
        self.n = 0
        self.struct = []
        kw = {}
        if terms:
            kw['termination_conds'] = world.terms
        if eid is not None:
            kw['default_execution_id'] = eid
        if world.other is not world.graph and tag:
            kw['default_absolute_time_unit'] = '5 ms'
        self.s = gs.Scheduler(graph=world.other if tag else world.graph, conditions=world.conds, **kw,
                              mode=gs.SchedulingMode.EXACT_TIME if mode == 'exact' else gs.SchedulingMode.STANDARD)
        self.s.add_condition(A, gs.Condition(lambda: self.eng.flag(f'a{self.tag}_{self.n}')))
        self.gen = None

    def next(self):
        try:
            r = frozenset(x.name for x in next(self.gen))
            self.n += 1
        except StopIteration:
            r, self.gen = 'end', None
        except self.gs.SchedulerError:
            r, self.gen = 'error', None
        return r

    def do(self, op):
        gs, s = self.gs, self.s
        A, B, C = self.world.nodes
        TS = gs.TimeScale
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if op == 'begin':
                self.gen = s.run(self.world.run_terms)
                return self.next()
            if op == 'step':
                return self.next() if self.gen is not None else None
            if op == 'full':
                self.gen = s.run()
                return [self.next() if self.gen is not None else None for _ in range(3)]
            if op == 'endseq':
                return s.end_environment_sequence()
            if op == 'delete':
                self.gen = None
                return s._delete_counts(s.default_execution_id)
            if op in ('edge', 'unedge', 'before'):
                o, c = {'edge': (B, gs.AddEdgeTo(A)), 'unedge': (C, gs.RemoveEdgeFrom(A)), 'before': (C, gs.BeforeNodes(A, B))}[op]
                try:
                    s.add_condition(o, c)
                except gs.ConditionError:
                    s.remove_condition(c)
                    return 'conflict'
                self.struct.append(c)
            elif op == 'pop':
                if self.struct:
                    s.remove_condition(self.struct.pop())
            elif op == 'basic':
                s.add_condition(B, gs.Not(gs.AtPass(0)))
            elif op == 'interval':
                s.add_condition(B, gs.TimeInterval(repeat=2, start=1))
            elif op == 'start':
                s.add_condition(B, gs.TimeInterval(start=1))
            elif op == 'terms':
                s.termination_conds = {TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}

    def state(self):
        s = self.s
        e = s.default_execution_id

        def nm(d):
            return {k.name: frozenset(x.name for x in v) for k, v in d.items()}
        T = s.clocks[e].time if e in s.clocks else None
        return {
            'graph': nm(s.graph),
            'queue': [frozenset(x.name for x in q) for q in s.consideration_queue],
            'indices': {k.name: i for k, i in s.consideration_queue_indices.items()},
            'executions': [frozenset(x.name for x in q) for q in s.execution_list.get(e, ())],
            'counts': {ts.name: {k.name: n for k, n in c.items()} for ts, c in s.counts_total[e].items()} if e in s.counts_total else None,
            'clock': T and ([getattr(T, ATTR[x]) for x in ORDER], str(T.absolute), T.absolute_enabled),
            'timestamps': [str(t) for t in s.execution_timestamps.get(e, ())],
            'basic': {k.name: type(c).__name__ for k, c in s.conditions.conditions_basic.items()},
            'structural': {k.name: [type(c).__name__ for c in cs] for k, cs in s.conditions.conditions_structural.items()},
            'mapping': {k.name: [type(c).__name__ for c in (v if isinstance(v, list) else [v])] for k, v in s.conditions.conditions.items()},
            'interval': T and str(T.absolute_interval),
            'terminations': {k.name: str(v) for k, v in s.termination_conds.items()},
            'contexts': sorted(map(str, s.clocks)),
        }


def schedulers(eng, gs, nops, ops, shape, conds='none', mode='standard', late=False, other=None, collide=False):
    """any interleaving of operations on two schedulers that are made from the
    same objects, compared with each scheduler on its own"""
    warnings.simplefilter('ignore')
    terms = eng.flag('terms')
    cfg = [(mode, terms, None), ('standard', terms, 'ctx')]
    hist = []
    for i in range(nops):
        # (nothing is to be seen of a second scheduler before the first is used)
        who = eng.choose(f'who{i}', [0, 1]) if i else 0
        op = eng.choose(f'op{i}', list(ops))
        hist.append((who, op))
    def nodes():
        return [(Colliding if collide else Node)(x) for x in 'ABC']

    # each of them on its own, made from objects of its own
    alone = {}
    for k in (1, 0):
        s = Sched(eng, World(gs, shape, nodes(), conds, other), k, *cfg[k])
        alone[k] = [(None, s.state())] + [(s.do(op), s.state()) for who, op in hist if who == k]
    # both together
    w = World(gs, shape, nodes(), conds, other)
    g0 = [{k: set(v) for k, v in g.items()} for g in (w.graph, w.other)]
    both = {0: Sched(eng, w, 0, *cfg[0])}
    if not late:
        both[1] = Sched(eng, w, 1, *cfg[1])
    pos = {0: 0, 1: 0}
    for i, (who, op) in enumerate(hist):
        if who not in both:
            both[who] = Sched(eng, w, who, *cfg[who])
        pos[who] += 1
        r = both[who].do(op)
        want = alone[who][pos[who]][0]
        eng.check(r == want, 'a scheduler does something else than it would on its own', history=hist[:i + 1], got=r, alone=want)
        for k, s in both.items():
            got, want = s.state(), alone[k][pos[k]][1]
            eng.check(got == want, 'a scheduler is affected by what is done to another one', history=hist[:i + 1], scheduler=k,
                      wrong={x: (got[x], want[x]) for x in got if got[x] != want[x]})
        eng.reach(op)
    eng.check([w.graph, w.other] == g0, 'the graph given to schedulers was modified', graph=w.graph)
    eng.check(list(w.terms) == ['environment_state_update'] and len(w.run_terms) == 1, 'the termination conditions given to schedulers were modified')
    if len({h[0] for h in hist}) == 2:
        eng.reach('both')


def jobs27(tier):
    quick = tier == 'quick'
    js = []
    kinds = [(c, m) for c in ('none', 'dict', 'set') for m in ('standard', 'exact')]
    for j, shape in enumerate(SHAPES):
        for i, (c, m) in enumerate(kinds):
            if quick and (i + j) % 3:
                continue
            late = bool((i + j) // 3 % 2)
            kw = dict(shape=shape, conds=c, mode=m, late=late)
            n = 3 if quick else 4
            if not quick or j % 2 == i % 2:
                js.append(Job(schedulers, dict(nops=n, ops=RUNNING, **kw), split=2 if quick else 5,
                              require=('both',), bounds='two schedulers, 3 (quick) or 4 operations'))
            n = 2 if quick else 3
            js.append(Job(schedulers, dict(nops=n, ops=('begin', 'full') + CHANGES, **kw), split=1 if quick else 5,
                          require=('both',), bounds='two schedulers, 2 (quick) or 3 operations'))
    names = list(SHAPES)
    for i, shape in enumerate(names):
        for d in (1, 2) if quick else (1, 2, 3, 4):
            other = names[(i + d) % len(names)]
            js.append(Job(schedulers, dict(nops=2 if quick else 3, ops=('begin', 'full', 'start', 'edge'), shape=shape, other=other,
                                           collide=d % 2 == 1, late=(i + d) % 3 == 0), split=1 if quick else 4,
                          require=('both',), bounds='two schedulers with different graphs of the same nodes, 2 (quick) or 3 operations'))
    js.append(Job(schedulers, dict(nops=3 if quick else 4, ops=('edge', 'before', 'pop', 'full'), shape='join'), split=3 if quick else 6,
                  require=('both',), bounds='two schedulers, 3 (quick) or 4 operations'))
    return js


CHECKS = [
    Check('C27', jobs27, outside='Condition objects that are removed from one of the schedulers that share them; conditions with state of their own (NWhen)'),
]
