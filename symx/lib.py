"""Reference semantics and drivers shared by the harnesses.

Everything here is written from the documentation, over logs of what was
observed through the public API, and does not use the code under test."""
import itertools

from .engine import AND, OR, NOT, IFF, SUM, is_sym

NAMES = 'ABCDEFG'


def node_names(k):
    return list(NAMES[:k])


def dag(eng, ns, tag='e'):
    """any acyclic dependency dict over ns whose edges go forward in ns (every
    acyclic graph is one of these up to renaming)"""
    g = {}
    for j, v in enumerate(ns):
        g[v] = set()
        for i in range(j):
            if eng.flag(f'{tag}_{ns[i]}{v}'):
                g[v].add(ns[i])
    return g


def digraph(eng, ns, tag='e', self_loops=False):
    g = {}
    for v in ns:
        g[v] = set()
        for u in ns:
            if u == v and not self_loops:
                continue
            if eng.flag(f'{tag}_{u}{v}'):
                g[v].add(u)
    return g


def layering(graph):
    """list of sets: nodes by length of the longest path leading to them"""
    depth = {}

    def d(v, seen=()):
        assert v not in seen
        if v not in depth:
            ps = [p for p in graph.get(v, ()) if p != v]
            depth[v] = 1 + max(d(p, seen + (v,)) for p in ps) if ps else 0
        return depth[v]
    allnodes = set(graph)
    for v in graph.values():
        allnodes |= set(v)
    for v in allnodes:
        d(v)
    out = [set() for _ in range(1 + max(depth.values()))] if depth else []
    for v, k in depth.items():
        out[k].add(v)
    return out


def ancestors(graph, v):
    out, todo = set(), list(graph.get(v, ()))
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(graph.get(x, ()))
    return out


def reach_from(graph, v):
    """transitive senders of v (v included only if on a cycle)"""
    return ancestors(graph, v)


def has_cycle(graph, self_loops=False):
    for v in graph:
        g = graph if self_loops else {k: set(x) - {k} for k, x in graph.items()}
        if v in ancestors(g, v):
            return True
    return False


def copy_graph(g):
    return {k: set(v) for k, v in g.items()}


class Ctx:
    """What is known about one execution context: increments and executions."""

    def __init__(self):
        self.events = []       # (kind, payload): 'exec' ordered tuple | 'inc' scale name | 'run' None

    def copy(self):
        c = Ctx()
        c.events = list(self.events)
        return c

    # executions, most recent last, flattened in order; with X in progress
    def _flat(self, start, X):
        out = []
        for k, p in self.events[start:]:
            if k == 'exec':
                out.extend(p)
        out.extend(X)
        return out

    def _last(self, pred):
        for i in range(len(self.events) - 1, -1, -1):
            if pred(*self.events[i]):
                return i + 1
        return 0

    def calls(self, node, scale, X=()):
        """executions of node in the current unit of scale"""
        if scale == 'LIFE':
            start = 0
        elif scale == 'ENVIRONMENT_SEQUENCE':
            start = self._last(lambda k, p: k == 'inc' and p == 'ENVIRONMENT_SEQUENCE')
        elif scale == 'ENVIRONMENT_STATE_UPDATE':
            start = self._last(lambda k, p: k == 'run' or (k == 'inc' and p in ('ENVIRONMENT_SEQUENCE',)))
        elif scale == 'PASS':
            start = self._last(lambda k, p: k == 'run' or (k == 'inc' and p in ('ENVIRONMENT_SEQUENCE', 'PASS', 'ENVIRONMENT_STATE_UPDATE')))
        else:
            start = self._last(lambda k, p: k in ('run', 'inc'))
        return self._flat(start, X).count(node)

    def since(self, dep, owner, X=()):
        """executions of dep since the last execution of owner, in this run"""
        flat = self._flat(self._last(lambda k, p: k == 'run'), X)
        n = 0
        for v in flat:
            if v == owner:
                n = 0
            elif v == dep:
                n += 1
        return n

    ORDER = ('CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE')

    def units(self, query, base):
        """number of query units completed in the current base unit"""
        if base == 'LIFE':
            start = 0
        else:
            coarse = self.ORDER[self.ORDER.index(base):]
            start = self._last(lambda k, p: k == 'inc' and p in coarse)
        return sum(1 for k, p in self.events[start:] if k == 'inc' and p == query)

    def last_set(self):
        for k, p in reversed(self.events):
            if k == 'exec':
                return p
        return None


class TraceSpec:
    """Checks that a sequence of yielded sets is a valid schedule.

    truth(node, ctx, X) gives the documented truth value of the condition of
    node, when X (ordered tuple) was already added to the current execution
    set.  The order inside a set is not observable, so all orders that are
    consistent with what was yielded are kept as hypotheses."""

    def __init__(self, eng, layers, truth, order_matters=True, what='schedule'):
        self.eng = eng
        self.layers = [set(l) for l in layers]
        self.truth = truth
        self.hyps = [(Ctx(), True)]
        self.order_matters = order_matters
        self.ptr = -1              # last consideration set that executed in this pass
        self.what = what
        self.open_yield = False
        self.empty_pass = False
        self.trace = []

    # --- events ------------------------------------------------------------
    def _log(self, kind, payload):
        for c, _ in self.hyps:
            c.events.append((kind, payload))

    def inc(self, scale):
        self._log('inc', scale)

    def start_run(self):
        self._log('run', None)
        self.ptr = -1
        self.open_yield = False
        self.empty_pass = False

    def resumed(self):
        """the generator was resumed after a yield"""
        if self.open_yield:
            self._log('inc', 'CONSIDERATION_SET_EXECUTION')
            self.open_yield = False
            if self.empty_pass:
                self._log('inc', 'PASS')
                self.empty_pass = False

    # --- terms -------------------------------------------------------------
    def _none(self, c, ctx, frm, to):
        """c, and no condition is satisfied in consideration sets frm..to-1"""
        for l in range(frm, to):
            for u in sorted(self.layers[l]):
                if c is False:
                    return False
                c = AND(c, NOT(self.truth(u, ctx, ())))
        return c

    def _valid(self, ctx, i, E):
        """(order, term) for every order of E"""
        rest = sorted(self.layers[i] - set(E))
        perms = itertools.permutations(sorted(E)) if self.order_matters else [tuple(sorted(E))]
        for perm in perms:
            t = True
            for k, u in enumerate(perm):
                if t is not False:
                    t = AND(t, self.truth(u, ctx, perm[:k]))
            for u in rest:
                if t is not False:
                    t = AND(t, NOT(self.truth(u, ctx, perm)))
            if t is not False:
                yield perm, t

    def on_yield(self, E):
        E = frozenset(E)
        eng = self.eng
        self.trace.append(sorted(map(str, E)))
        L = len(self.layers)
        if E:
            at = [i for i, l in enumerate(self.layers) if E <= l]
            eng.check(len(at) == 1, f'{self.what}: yielded set is not part of one consideration set',
                      trace=self.trace, layers=self.layers)
            i = at[0]
            alts = ([False] if i > self.ptr else []) + ([True] if self.ptr >= 0 else [])
        else:
            i = L
            alts = [self.ptr >= 0]
        new = []
        for ctx, c in self.hyps:
            for wrap in alts:
                t, cx, start = c, ctx, self.ptr + 1
                if wrap:
                    t = self._none(t, ctx, start, L)
                    cx = ctx.copy()
                    cx.events.append(('inc', 'PASS'))
                    start = 0
                t = self._none(t, cx, start, i)
                if t is False:
                    continue
                for perm, v in (self._valid(cx, i, E) if E else [((), True)]):
                    tv = AND(t, v)
                    if tv is not False:
                        c2 = cx.copy()
                        c2.events.append(('exec', perm))
                        new.append((c2, tv))
        eng.check(OR([t for _, t in new]) if new else False,
                  f'{self.what}: the yielded set {sorted(map(str, E))} is not the one that the conditions determine',
                  trace=self.trace, layers=self.layers)
        self.hyps = self._merge(new)
        if E:
            self.ptr = i
        else:
            self.ptr = -1
            self.empty_pass = True
        self.open_yield = True

    def _merge(self, hyps):
        """hypotheses whose logs cannot be told apart any more"""
        out = {}
        for ctx, t in hyps:
            k = tuple(ctx.events)
            out[k] = (ctx, OR(out[k][1], t)) if k in out else (ctx, t)
        # a hypothesis that holds for sure leaves no room for others
        # (they are mutually exclusive only if conditions do not depend on
        # order, so all are kept)
        return list(out.values())

    def ended(self):
        """the run ended because its termination condition was satisfied"""
        if self.ptr >= 0:
            self._log('inc', 'PASS')
        self.ptr = -1
        self.open_yield = False

    def ctx(self):
        return self.hyps[0][0]


class Adversary:
    """Condition outcomes chosen by the solver, as a function of the state
    visible to the harness: how often the context yielded, and which nodes
    were already found to be satisfied since."""

    def __init__(self, eng, tag='c'):
        self.eng = eng
        self.tag = tag
        self.n = 0
        self.sat = []

    def out(self, node, n, X):
        return self.eng.known(self.eng.bool(
            f'{self.tag}_{node}_{n}' + (('_' + ''.join(sorted(map(str, X)))) if X else '')))

    def value(self, node):
        r = bool(self.out(node, self.n, self.sat))
        if r and node not in self.sat:
            self.sat.append(node)
        return r

    def yielded(self):
        self.n += 1
        self.sat = []

    def condition(self, gs, node):
        return gs.Condition(lambda: self.value(node))


class Machine:
    """Drives one execution context of a scheduler through a bounded history
    of operations, and logs what was observed in a Ctx.

    The nodes get conditions whose outcome the solver chooses at every
    evaluation; `observe(machine, ctx, X)` is called at every evaluation (X:
    nodes already found satisfied in this consideration) and, if
    between=True, also whenever the scheduler is not running."""

    def __init__(self, eng, gs, graph, eid=NotImplemented, observe=None, order_matters=True,
                 controlled=None, conditions=None, sched=None, tag='c', skip=(False,), extra_terms=None):
        self.eng, self.gs, self.graph, self.eid, self.tag = eng, gs, graph, eid, tag
        self.layers = layering(graph)
        self.layer = {v: i for i, l in enumerate(self.layers) for v in l}
        self.observe_ = observe
        self.order_matters = order_matters
        self.nodes = sorted(graph, key=str)
        self.controlled = list(self.nodes if controlled is None else controlled)
        self.log = Ctx()
        self.X = []
        self.n_yield = 0
        self.stop = False
        self.gen = None
        self.pending = False       # a yield was not resumed yet
        self.in_pass = False
        self.yields = []
        self.skip = skip
        self.sched = sched or gs.Scheduler(
            graph=copy_graph(graph),
            conditions={**{v: gs.Condition(lambda v=v: self.decide(v)) for v in self.controlled}, **(conditions or {})},
            termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: self.stop),
                               gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()},
        )
        self.nop = 0

    @property
    def key(self):
        return self.sched.default_execution_id if self.eid is NotImplemented else self.eid

    def kw(self):
        return {} if self.eid is NotImplemented else {'execution_id': self.eid}

    # --- conditions ----------------------------------------------------------
    def decide(self, v):
        self._considering(self.layer[v])
        self.observe(self.X)
        name = f'{self.tag}_{v}_{self.n_yield}'
        if self.order_matters and self.X:
            name += '_' + ''.join(sorted(map(str, self.X)))
        r = self.eng.flag(name)
        if r and v not in self.X:
            self.X.append(v)
        return r

    def _considering(self, l):
        """a node (set) of layer l is considered: did a pass end before that?"""
        if l < self.pos or (l == self.pos and self.yielded_since):
            self._end_pass()
        self.pos = l
        self.yielded_since = False

    def observe(self, X=()):
        if self.observe_ is not None:
            self.observe_(self, self.log, tuple(X))

    # --- operations ------------------------------------------------------------
    def start(self, **kw):
        """start a run (an earlier one is abandoned)"""
        self.gen = self.sched.run(**self.kw(), **kw)
        self.pending = False
        self.fresh = True
        self.in_pass = False
        self.empty = False
        self.pos = -1
        self.yielded_since = False
        self.stop = False
        self.nyields = 0

    def _begin(self):
        if self.fresh:
            self.log.events.append(('run', None))
            self.fresh = False

    def _resumed(self):
        if self.pending:
            self.log.events.append(('inc', 'CONSIDERATION_SET_EXECUTION'))
            self.pending = False
            if self.empty:
                self._end_pass()

    def _end_pass(self):
        self.log.events.append(('inc', 'PASS'))
        self.in_pass = False
        self.pos = -1
        self.yielded_since = False

    empty = False
    pos = -1
    yielded_since = False

    def step(self):
        """resume the run up to the next yielded set"""
        self._begin()
        self._resumed()
        self.X = []
        E = set(next(self.gen))
        if E:
            self._considering(max(self.layer[v] for v in E))
            self.in_pass = True
            self.empty = False
        else:
            if self.in_pass:
                self._end_pass()
            self.empty = True
        self.log.events.append(('exec', tuple(x for x in self.X if x in E) + tuple(x for x in sorted(E) if x not in self.X)))
        self.X = []
        self.n_yield += 1
        self.nyields += 1
        self.pending = True
        self.yielded_since = True
        self.yields.append(frozenset(E))
        return E

    def end(self, inc=True):
        """let the run end, by satisfying its termination condition"""
        self._begin()
        self.stop = True
        self._resumed()
        if self.in_pass:
            self._end_pass()
        res = None
        try:
            next(self.gen)
        except StopIteration as e:
            res = e.value
        else:
            self.eng.fail('a run went on although its termination condition was satisfied')
        if inc:
            self.log.events.append(('inc', 'ENVIRONMENT_STATE_UPDATE'))
        self.gen = None
        self.pending = False
        return res

    def endseq(self):
        self.sched.end_environment_sequence(**self.kw())
        self.log.events.append(('inc', 'ENVIRONMENT_SEQUENCE'))

    def random_op(self, ops=('step', 'end', 'start', 'endseq')):
        """one operation chosen by the solver"""
        eng = self.eng
        self.nop += 1
        avail = [o for o in ops if
                 (o in ('step', 'end') and self.gen is not None)
                 or (o == 'start' and (self.gen is None or self.nyields > 0))
                 or (o == 'endseq' and self.gen is None)
                 ]
        op = eng.choose(f'op{self.tag}{self.nop}_' + '_'.join(avail), avail)
        getattr(self, op)()
        eng.reach(op)
        return op


def library(gs, dep, state=None, n=1):
    """every built-in condition class, with small arguments: name -> constructor.

    state(execution_id): whether dep counts as finished (WhenFinished...), and
    the value compared by Threshold."""
    TS = gs.TimeScale
    S, L = TS.ENVIRONMENT_SEQUENCE, TS.LIFE
    out = {
        'Always': lambda: gs.Always(),
        'Never': lambda: gs.Never(),
        'While': lambda: gs.While(lambda: True),
        'WhileNot': lambda: gs.WhileNot(lambda: False),
        'All': lambda: gs.All(gs.Always(), gs.AtPass(n)),
        'Any': lambda: gs.Any(gs.Never(), gs.AtPass(n)),
        'Not': lambda: gs.Not(gs.AtPass(n)),
        'NWhen': lambda: gs.NWhen(gs.Always(), n),
        'NWhen composite': lambda: gs.All(gs.Not(gs.NWhen(gs.Always(), n)), gs.NWhen(gs.Any(gs.AfterPass(0, L)), n)),
        'BeforeConsiderationSetExecution': lambda: gs.BeforeConsiderationSetExecution(n + 1),
        'AtConsiderationSetExecution': lambda: gs.AtConsiderationSetExecution(n, S),
        'AfterConsiderationSetExecution': lambda: gs.AfterConsiderationSetExecution(n),
        'AfterNConsiderationSetExecutions': lambda: gs.AfterNConsiderationSetExecutions(n + 1, L),
        'BeforePass': lambda: gs.BeforePass(n),
        'AtPass': lambda: gs.AtPass(n),
        'AfterPass': lambda: gs.AfterPass(n - 1, S),
        'AfterNPasses': lambda: gs.AfterNPasses(n),
        'EveryNPasses': lambda: gs.EveryNPasses(n + 1),
        'EveryNPasses(LIFE)': lambda: gs.EveryNPasses(n + 1, L),
        'BeforeEnvironmentStateUpdate': lambda: gs.BeforeEnvironmentStateUpdate(n),
        'AtEnvironmentStateUpdate': lambda: gs.AtEnvironmentStateUpdate(n),
        'AfterEnvironmentStateUpdate': lambda: gs.AfterEnvironmentStateUpdate(n - 1),
        'AfterNEnvironmentStateUpdates': lambda: gs.AfterNEnvironmentStateUpdates(n, L),
        'AtEnvironmentSequence': lambda: gs.AtEnvironmentSequence(n),
        'AfterEnvironmentSequence': lambda: gs.AfterEnvironmentSequence(n - 1),
        'AfterNEnvironmentSequences': lambda: gs.AfterNEnvironmentSequences(n),
        'BeforeNCalls': lambda: gs.BeforeNCalls(dep, n + 1),
        'AtNCalls': lambda: gs.AtNCalls(dep, n, S),
        'AfterCall': lambda: gs.AfterCall(dep, n),
        'AfterNCalls': lambda: gs.AfterNCalls(dep, n + 1, L),
        'AfterNCallsCombined': lambda: gs.AfterNCallsCombined(dep, n=n + 1),
        'EveryNCalls': lambda: gs.EveryNCalls(dep, n + 1),
        'JustRan': lambda: gs.JustRan(dep),
        'AllHaveRun': lambda: gs.AllHaveRun(dep),
        'AllHaveRun()': lambda: gs.Not(gs.AllHaveRun(time_scale=S)),
        'AtEnvironmentStateUpdateStart': lambda: gs.AtEnvironmentStateUpdateStart(),
        'AtEnvironmentStateUpdateNStart': lambda: gs.AtEnvironmentStateUpdateNStart(n),
        'AtEnvironmentSequenceStart': lambda: gs.AtEnvironmentSequenceStart(),
        'AtEnvironmentSequenceNStart': lambda: gs.AtEnvironmentSequenceNStart(n),
        'TimeInterval': lambda: gs.TimeInterval(repeat=2, start=1),
    }
    if state is not None:
        out.update({
            'WhenFinished': lambda: gs.WhenFinished(dep),
            'WhenFinishedAny': lambda: gs.WhenFinishedAny(dep),
            'WhenFinishedAll': lambda: gs.WhenFinishedAll(dep),
            'Threshold': lambda: gs.Threshold(dep, 'p', 0, '>', custom_parameter_validator=lambda *a: None,
                                              custom_parameter_getter=lambda d, p, execution_id: state(execution_id)),
        })
    return out
