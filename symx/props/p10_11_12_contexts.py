"""C10 (records of a run), C11 (isolation of contexts), C12 (new contexts)."""
from ..engine import AND, OR, NOT, IFF
from ..lib import Ctx, Machine, node_names, layering, library
from ..run import Job, Check
from .p06_07_time import ATTR, ORDER

SCALES = ORDER


def _clock(sched, key):
    t = sched.get_clock(key).time
    return {s: getattr(t, ATTR[s]) for s in ORDER}


# ---------------------------------------------------------------------------
# C10
# ---------------------------------------------------------------------------

def _records(eng, m, ctx, X, running):
    s = m.sched
    eng.check([frozenset(x) for x in s.execution_list[m.key]] == m.yields,
              'execution_list is not the sequence of yielded sets', got=s.execution_list[m.key], yielded=m.yields)
    scales = SCALES if running else ('ENVIRONMENT_SEQUENCE', 'LIFE')
    got = {(ts, v): s.counts_total[m.key][getattr(m.gs.TimeScale, ts)][v] for ts in scales for v in m.nodes}
    exp = {(ts, v): ctx.calls(v, ts, X) for ts in scales for v in m.nodes}
    eng.check(got == exp, 'counts_total does not agree with the executions', log=ctx.events, considered=X,
              wrong={k: (got[k], exp[k]) for k in got if got[k] != exp[k]})
    exp = {ts: ctx.units(ts, ORDER[ORDER.index(ts) + 1]) for ts in ORDER[:-1]}
    exp['LIFE'] = 0
    got = _clock(s, m.key)
    eng.check(got == exp, 'the clock does not agree with the executions', log=ctx.events, got=got, expected=exp)
    eng.reach('running' if running else 'idle')


def records(eng, gs, k, edges, ops, eid, order_matters=True, known_kinds=None):
    ns = node_names(k)
    g = {v: set() for v in ns}
    for e in edges.split():
        g[e[1]].add(e[0])

    def observe(m, ctx, X):
        eng.section(_records, eng, m, ctx, X, True)

    m = Machine(eng, gs, g, eid=NotImplemented if eid is None else eid, observe=observe, order_matters=order_matters)
    m.start()
    for _ in range(ops):
        op = m.random_op()
        if op == 'step':
            m.observe()
        elif m.gen is None:
            eng.section(_records, eng, m, m.log, (), False)


def run_result(eng, gs, k, runs, edge):
    """what a completed run returns and what it does to the clock"""
    TS = gs.TimeScale
    ns = node_names(k)
    g = {v: set() for v in ns}
    if edge:
        g[ns[-1]] = {ns[0]}
    state = {'y': 0}
    sched = gs.Scheduler(graph=g, conditions={v: gs.Condition(lambda v=v: eng.bool(f'c_{v}_{state["y"]}')) for v in ns},
                         default_execution_id=eng.choose('default', [None, 'd']))
    key = eng.choose('key', [NotImplemented, 'x', ('t', 1)])
    kw = {} if key is NotImplemented else {'execution_id': key}
    key = sched.default_execution_id if key is NotImplemented else key
    all_, updates, csx = [], 0, 0
    for r in range(runs):
        n = eng.cint(f'passes{r}', 0, 2)
        skip = eng.choose(f'skip{r}', [None, False, True])
        by = eng.choose(f'by{r}', ['ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE'])
        terms = {TS.ENVIRONMENT_STATE_UPDATE: gs.Never(), TS.ENVIRONMENT_SEQUENCE: gs.Never(),
                 TS[by]: gs.AfterNPasses(n, TS.ENVIRONMENT_STATE_UPDATE)}
        gen = sched.run(termination_conds=terms, **kw, **({} if skip is None else {'skip_environment_state_update_time_increment': skip}))
        before = _clock(sched, key)
        mine = []
        res = None
        while True:
            try:
                mine.append(set(next(gen)))
                state['y'] += 1
                cnt = sched.counts_total[key]
                for v in ns:
                    for ts, h in (('ENVIRONMENT_STATE_UPDATE', mine), ('ENVIRONMENT_SEQUENCE', all_ + mine), ('LIFE', all_ + mine)):
                        eng.check(cnt[TS[ts]][v] == sum(v in x for x in h), 'counts_total does not agree with the executions', scale=ts,
                                  got=cnt[TS[ts]][v], run=mine, before=all_)
            except StopIteration as e:
                res = e.value
                break
        all_ += mine
        eng.check([set(x) for x in res] == all_, 'a run does not return the executions of its context', got=res, yielded=all_)
        after = _clock(sched, key)
        if skip:
            exp = {**before, 'PASS': max(n, before['PASS']), 'CONSIDERATION_SET_EXECUTION': after['CONSIDERATION_SET_EXECUTION']}
            eng.check(after == exp, 'a run that is told to skip the increment', before=before, after=after)
            # the next run continues in the same ENVIRONMENT_STATE_UPDATE
            sched.get_clock(key).history.increment_time(TS.ENVIRONMENT_STATE_UPDATE)
        else:
            eng.check(after == {**before, 'ENVIRONMENT_STATE_UPDATE': before['ENVIRONMENT_STATE_UPDATE'] + 1, 'PASS': 0,
                                'CONSIDERATION_SET_EXECUTION': 0},
                      'a completed run does not advance the clock by one ENVIRONMENT_STATE_UPDATE', before=before, after=after)
        T = sched.get_clock(key)
        # totals of the finished update
        u = before['ENVIRONMENT_STATE_UPDATE']
        eng.check(T.get_total_times_relative(TS.PASS, TS.ENVIRONMENT_STATE_UPDATE, u) == n, 'passes of a finished run',
                  got=T.get_total_times_relative(TS.PASS, TS.ENVIRONMENT_STATE_UPDATE, u), passes=n)
        eng.check(T.get_total_times_relative(TS.CONSIDERATION_SET_EXECUTION, TS.ENVIRONMENT_STATE_UPDATE, u) == len(mine),
                  'consideration set executions of a finished run', yielded=mine)
        eng.reach('skip' if skip else 'no skip')
        eng.reach(by)


def jobs10(tier):
    q = tier == 'quick'
    req = ('running', 'idle', 'step', 'end', 'start', 'endseq')
    out = [
        Job(records, dict(k=1, edges='', ops=6 if q else 9, eid=None), require=req, split=2 if q else 5,
            bounds='1 node, 6 (quick) or 9 operations: step, end run, abandon and restart, end environment sequence'),
        Job(records, dict(k=2, edges='', ops=5 if q else 6, eid='x'), require=req, split=3 if q else 6, weight=3,
            bounds='2 nodes in one consideration set'),
        Job(records, dict(k=2, edges='AB', ops=6 if q else 7, eid=None), require=req, split=3 if q else 6, weight=3, bounds='2 nodes, one edge'),
        Job(records, dict(k=3, edges='AB AC', ops=3 if q else 5, eid='x', order_matters=False), require=('running', 'step', 'end', 'start'),
            split=3 if q else 6, weight=3, bounds='3 nodes'),
        Job(run_result, dict(k=2, runs=1, edge=1), require=('skip', 'no skip', 'ENVIRONMENT_SEQUENCE', 'ENVIRONMENT_STATE_UPDATE'), split=2, bounds='1 run of up to 2 passes'),
        Job(run_result, dict(k=1, runs=2, edge=0), require=('skip', 'no skip', 'ENVIRONMENT_SEQUENCE', 'ENVIRONMENT_STATE_UPDATE'), split=3, bounds='2 runs of up to 2 passes'),
    ]
    if not q:
        out.append(Job(records, dict(k=3, edges='AB BC', ops=5, eid='x'), require=('running', 'step', 'end', 'start'),
                       split=7, weight=3, bounds='3 nodes in a chain'))
        out.append(Job(run_result, dict(k=2, runs=2, edge=0), require=('skip', 'no skip', 'ENVIRONMENT_SEQUENCE', 'ENVIRONMENT_STATE_UPDATE'), split=6, bounds='2 nodes, 2 runs'))
    return out


# ---------------------------------------------------------------------------
# C11
# ---------------------------------------------------------------------------

class Node:
    """nodes of different schedulers are different objects"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Lane:
    """one context of a scheduler, whose conditions ask their lane"""

    def __init__(self, key, tag):
        self.key, self.tag = key, tag
        self.n = 0
        self.stop = False
        self.gen = None
        self.fresh = True


class World:
    """a scheduler and its lanes"""

    def __init__(self, eng, gs, kind, keys, default):
        TS = gs.TimeScale
        self.eng, self.gs = eng, gs
        self.lanes = {k: Lane(k, t) for k, t in keys.items()}
        L = self.lanes

        def ask(v):
            def f(execution_id):
                l = L[execution_id]
                return eng.flag(f'c{l.tag}_{v}_{l.n}')
            return gs.Condition(f)
        n2 = 2
        A, B = Node('A'), Node('B')
        self.names = {A: 'A', B: 'B'}
        # flat: both nodes in one consideration set
        flat, kind = kind.startswith('flat:'), kind.removeprefix('flat:')
        lib = kind.startswith('lib:')
        if lib:
            A.is_finished = lambda execution_id: L[execution_id].n > 1
            cond = library(gs, A, lambda execution_id: L[execution_id].n - 1)[kind[4:]]()
        else:
            cond = {
                'adversary': lambda: ask('B'),
                'default': lambda: None,
                'EveryNCalls': lambda: gs.EveryNCalls(A, n2),
                'NWhen': lambda: gs.NWhen(gs.Always(), n2),
                'AtPass': lambda: gs.AtPass(1),
                'JustRan': lambda: gs.JustRan(A),
                'AfterNCalls': lambda: gs.AfterNCalls(A, n2, TS.ENVIRONMENT_SEQUENCE),
                'AllHaveRun': lambda: gs.AllHaveRun(A, time_scale=TS.LIFE),
                'time': lambda: gs.Any(gs.AtConsiderationSetExecution(2, TS.LIFE), gs.AfterNEnvironmentStateUpdates(1)),
                'sequence': lambda: gs.Any(gs.AfterNEnvironmentSequences(1), gs.AtPass(1)),
                'interval': lambda: gs.TimeInterval(repeat=2, start=1),
            }[kind]()
        conds = {A: gs.Always() if lib and not flat else ask('A')}
        if cond is not None:
            conds[B] = cond
        self.sched = gs.Scheduler(
            graph={A: set(), B: set() if flat else {A}}, conditions=conds, default_execution_id=default,
            termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda execution_id: L[execution_id].stop)})

    def _names(self, E):
        return frozenset(self.names[x] for x in E)

    def do(self, key, op):
        l = self.lanes[key]
        s = self.sched
        kw = {} if key == s.default_execution_id else {'execution_id': key}
        if op == 'start':
            l.stop = False
            l.gen = s.run(**kw)
            op = 'step'
        if op == 'step':
            try:
                r = self._names(next(l.gen))
                l.n += 1
            except StopIteration:
                r = 'stop'
            return r
        if op == 'end':
            l.stop = True
            try:
                r = self._names(next(l.gen))
            except StopIteration as e:
                r = [self._names(x) for x in e.value]
            l.gen = None
            return r
        if op == 'endseq':
            s.end_environment_sequence(**kw)

    def state(self, key):
        s = self.sched
        TS = self.gs.TimeScale
        return {
            'counts': {ts.name: {self.names[v]: n for v, n in c.items()} for ts, c in s.counts_total[key].items()} if key in s.counts_total else None,
            'executions': [self._names(x) for x in s.execution_list.get(key, [])],
            'clock': _clock(s, key) if key in s.clocks else None,
            'previous': [getattr(s.clocks[key].previous_time, a, None) for a in ATTR.values()] if key in s.clocks else None,
            'timestamps': [(t.absolute, [getattr(t, a) for a in ATTR.values()]) for t in s.execution_timestamps.get(key, [])],
            'total': [s.clocks[key].get_total_times_relative(ts, TS.LIFE) for ts in sorted(TS)[:-1]] if key in s.clocks else None,
        }


def _same_state(eng, shared, solo, keys, hist):
    for k in keys:
        a, b = shared.state(k), solo[k].state(k)
        eng.check(a == b, f'a context depends on what happens in another one',
                  history=hist, context=k, wrong={x: (a[x], b[x]) for x in a if a[x] != b[x]})


def isolation(eng, gs, kind, ops, keys, default):
    keys = dict(zip(keys, 'xyz'))
    if isinstance(kind, list):
        kind = eng.choose('condition', kind)
    shared = World(eng, gs, kind, keys, default)
    solo = {k: World(eng, gs, kind, {k: t}, default) for k, t in keys.items()}
    hist = []
    used = [list(keys)[0]]
    for i in range(ops):
        # contexts are used for the first time in a fixed order, except for
        # the ones that differ (the default context may be any of them)
        av = list(keys) if i else list(keys)[:1 if kind.startswith('lib:') else 2]
        k = eng.choose(f'who{i}', av)
        l = shared.lanes[k]
        op = eng.choose(f'op{i}', ['step', 'end', 'start'] if l.gen is not None else ['start', 'endseq'])
        hist.append((k, op))
        a = shared.do(k, op)
        b = solo[k].do(k, op)
        eng.check(a == b, 'a context yields something else than it would on its own', history=hist, shared=a, alone=b)
        eng.section(_same_state, eng, shared, solo, keys, list(hist))
        eng.reach(op)
    if len({h[0] for h in hist}) > 1:
        eng.reach('interleaved')


FALSY = ((0, ''), (False, None), ((), 0.0), ('', frozenset()))


KINDS = ('adversary', 'default', 'EveryNCalls', 'NWhen', 'AtPass', 'JustRan', 'AfterNCalls', 'AllHaveRun', 'time', 'sequence', 'interval')


def library_names():
    class Any:
        def __getattr__(self, name):
            return self
    return list(library(Any(), None, lambda e: 0))


def jobs11(tier):
    q = tier == 'quick'
    out = []
    req = ('step', 'end', 'start', 'endseq', 'interleaved')
    for i, kind in enumerate(KINDS if not q else ('adversary', 'default', 'EveryNCalls', 'time', 'AfterNCalls')):
        pairs = [((None, 'x') if i % 4 else ('x', None), None), (('x', 'y'), 'd')]
        if q and kind != 'adversary':
            pairs = [pairs[i % 2]]
        for keys, d in pairs:
            ops = 6 if not q else 3 if kind == 'adversary' and d else 4
            out.append(Job(isolation, dict(kind=kind, ops=ops, keys=keys, default=d), require=req if ops > 3 else req[:3],
                           split=4 if not q else 2 if kind == 'adversary' else 1, weight=2 if kind in ('interval', 'adversary') else 1,
                           bounds='two contexts (one of them the default one, or both named), 4 (quick) or 6 operations'))
    names = ['lib:' + x for x in library_names()]
    for j, i in enumerate(range(0, len(names), 6)):
        keys, d = [((None, 'x'), None), (('x', None), None), (('x', 'y'), 'd'), (('x', 'y'), 'x')][j % 4]
        out.append(Job(isolation, dict(kind=names[i:i + 6], ops=4 if q else 5, keys=keys, default=d), split=2 if q else 4, weight=2,
                       require=req,
                       bounds=f'every built-in condition class ({", ".join(x[4:] for x in names[i:i + 6])}), two contexts, 4 (quick) or 5 operations'))
    for j, i in enumerate(range(0, len(names), 6)):
        keys, d = [((None, 'x'), None), (('d', 'x'), 'd')][j % 2]
        out.append(Job(isolation, dict(kind=['flat:' + x for x in names[i:i + 6]], ops=3 if q else 4, keys=keys, default=d), split=2 if q else 4, weight=2,
                       require=req[:3],
                       bounds=f'every built-in condition class on a node in the consideration set of its dependency, 3 (quick) or 4 operations'))
    for j, keys in enumerate(FALSY):
        out.append(Job(isolation, dict(kind=['adversary', 'EveryNCalls', 'lib:NWhen', 'lib:WhenFinished', 'lib:AtPass'][j:j + 2] if q else
                                       ['adversary', 'EveryNCalls', 'lib:NWhen', 'lib:WhenFinished', 'lib:AtPass'],
                                       ops=3 if q else 4, keys=keys, default=keys[1] if j == 1 else None), split=1 if q else 4,
                       require=('start', 'step'), bounds='execution ids that are falsy'))
    if not q:
        for kind in ('adversary', 'EveryNCalls', 'NWhen', 'JustRan', 'time'):
            out.append(Job(isolation, dict(kind=kind, ops=5, keys=('x', 'y', None), default=None), require=req, split=5, bounds='three contexts'))
    return out


# ---------------------------------------------------------------------------
# C12
# ---------------------------------------------------------------------------

def new_context(eng, gs, ops_before, ops_after, base, default, kind='adversary'):
    """a context created from (or independently of) another one with history"""
    TS = gs.TimeScale
    tags = {base: 'b', 'n': 'n'}
    w = World(eng, gs, kind, tags, default)
    s = w.sched
    ns = ('A', 'B')
    rec = {base: Ctx(), 'n': Ctx()}
    ylds = {base: [], 'n': []}

    def do(k, op):
        if op == 'start' or (op == 'step' and False):
            rec[k].events.append(('run', None))
        r = w.do(k, op)
        if op in ('start', 'step'):
            eng.check(isinstance(r, frozenset), 'a run ended early')
            ylds[k].append(r)
            rec[k].events.append(('exec', tuple(sorted(r))))
        elif op == 'end':
            rec[k].events.append(('inc', 'ENVIRONMENT_STATE_UPDATE'))
        elif op == 'endseq':
            rec[k].events.append(('inc', 'ENVIRONMENT_SEQUENCE'))

    def compare(k):
        eng.check([w._names(x) for x in s.execution_list.get(k, [])] == ylds[k], 'execution_list', context=k, history=hist,
                  got=s.execution_list.get(k), expected=ylds[k])
        for ts in ('ENVIRONMENT_SEQUENCE', 'LIFE'):
            got = {w.names[v]: c for v, c in s.counts_total[k][TS[ts]].items()} if k in s.counts_total else {v: 0 for v in ns}
            exp = {v: rec[k].calls(v, ts) for v in ns}
            eng.check(got == exp, f'counts of {ts}', context=k, history=hist, got=got, expected=exp)
        if w.lanes[k].gen is not None:
            got = {w.names[v]: c for v, c in s.counts_total[k][TS.ENVIRONMENT_STATE_UPDATE].items()}
            exp = {v: rec[k].calls(v, 'ENVIRONMENT_STATE_UPDATE') for v in ns}
            eng.check(got == exp, 'counts of ENVIRONMENT_STATE_UPDATE', context=k, history=hist, got=got, expected=exp)

    hist = []

    def random_op(k, i):
        av = ['step', 'end', 'start'] if w.lanes[k].gen is not None else ['start', 'endseq']
        op = eng.choose(f'op{i}', av)
        hist.append((k, op))
        do(k, op)

    for i in range(ops_before):
        random_op(base, i)
    mode = eng.choose('mode', ['base', 'no base', 'missing', 'base, abandoned before its first step', 'base, but the context exists'])
    hist.append(mode)
    l = w.lanes['n']
    if mode == 'missing':
        for k2 in ('n', 'other'):
            before = w.state(base)
            try:
                next(s.run(execution_id='n', base_execution_id='not there'))
                ok = False
            except gs.SchedulerError:
                ok = True
            eng.check(ok, 'a base that does not exist was accepted')
            eng.check(w.state(base) == before, 'an error changed another context')
            eng.check('not there' not in s.counts_total and 'not there' not in s.execution_list and 'not there' not in s.clocks,
                      'an error created the missing context')
        mode = 'base'
    if mode == 'base, abandoned before its first step':
        # nothing happens before the first step
        s.run(execution_id='n', base_execution_id=base)
        mode = eng.choose('then', ['base', 'no base'])
    exists = mode == 'base, but the context exists'
    if exists:
        # the context exists already, although nothing was executed in it
        l.stop = True
        eng.check(list(s.run(execution_id='n')) == [], 'a run whose termination condition is satisfied executes something')
        rec['n'].events += [('run', None), ('inc', 'ENVIRONMENT_STATE_UPDATE')]
        eng.reach('exists')
    copied = mode == 'base'
    l.stop = False
    l.gen = s.run(execution_id='n', **({'base_execution_id': base} if copied or exists else {}))
    if copied and base in s.counts_total:
        rec['n'] = rec[base].copy()
        ylds['n'] = list(ylds[base])
    elif copied:
        # a context that was never used is not a base
        try:
            next(l.gen)
            eng.fail('a base that does not exist was accepted')
        except gs.SchedulerError:
            eng.reach('unused base')
            return
    rec['n'].events.append(('run', None))
    hist.append(('n', 'start'))
    do('n', 'step')
    compare('n')
    compare(base)
    eng.reach('copied' if copied else 'fresh')
    for i in range(ops_after):
        k = eng.choose(f'who{i}', [base, 'n', 'n again'])
        if k == 'n again':
            # a base has no effect on an existing context
            l.stop = False
            l.gen = s.run(execution_id='n', base_execution_id=base)
            rec['n'].events.append(('run', None))
            hist.append(k)
            do('n', 'step')
        else:
            random_op(k, f'after{i}')
        compare('n')
        compare(base)


def deleted(eng, gs, ops, ops2, kind='EveryNCalls'):
    """a deleted context is fresh when used again"""
    w = World(eng, gs, kind, {'x': 'x', 'y': 'x'}, None)
    s = w.sched
    if not hasattr(s, '_delete_counts'):
        eng.check(True, '')
        return
    # y will do what x does after it was deleted
    for i in range(ops):
        av = ['step', 'end', 'start'] if w.lanes['x'].gen is not None else ['start', 'endseq']
        w.do('x', eng.choose(f'op{i}', av))
    s._delete_counts('x')
    w.lanes['x'].gen = None
    w.lanes['x'].n = w.lanes['y'].n = 10
    for i in range(ops2):
        av = ['step', 'end', 'start'] if w.lanes['x'].gen is not None else ['start', 'endseq']
        op = eng.choose(f'op_{i}', av)
        a, b = w.do('x', op), w.do('y', op)
        eng.check(a == b, 'a deleted context is not fresh', got=a, fresh=b)
        sa, sb = w.state('x'), w.state('y')
        eng.check(sa == sb, 'a deleted context is not fresh', wrong={k: (sa[k], sb[k]) for k in sa if sa[k] != sb[k]})
    eng.reach('done')


def jobs12(tier):
    q = tier == 'quick'
    out = []
    for i, (b, d) in enumerate((('b', None), (None, None), ('b', 'b'))):
        out.append(Job(new_context, dict(ops_before=2 if q else 3, ops_after=1 if q else 2, base=b, default=d), split=2 if q else 5,
                       require=('copied', 'fresh') + (('unused base',) if b != d else ()),
                       bounds='2 (3) operations before and 1 (2) after the creation of the context'))
        out.append(Job(new_context, dict(ops_before=1, ops_after=2 if q else 3, base=b, default=d, kind='EveryNCalls'),
                       split=2 if q else 4, require=('copied', 'fresh'), bounds='1 operation before, 2 (3) after'))
    for kind in ('EveryNCalls', 'interval') if q else ('EveryNCalls', 'interval', 'time', 'default', 'AfterNCalls', 'AtPass', 'JustRan', 'AllHaveRun'):
        out.append(Job(deleted, dict(ops=2 if q else 3, ops2=2 if q else 3, kind=kind), require=('done',), split=2, bounds='2 (3) operations before and after'))
    return out


CHECKS = [
    Check('C10', jobs10, outside='longer histories, more nodes',
          assumptions=['counts of a unit at PASS and ENVIRONMENT_STATE_UPDATE scale are observed while a run is in progress']),
    Check('C11', jobs11, outside='more than 3 contexts, longer histories; conditions that share state between contexts by themselves'),
    Check('C12', jobs12, outside='longer histories'),
]
