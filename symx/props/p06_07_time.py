"""C06 (time conditions) and C07 (clock and time history)."""
from ..engine import AND, OR, NOT, IFF
from ..lib import Ctx, Machine, node_names
from ..run import Job, Check

BIG = 10 ** 6
INC = ('CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE')
ATTR = {'CONSIDERATION_SET_EXECUTION': 'consideration_set_execution', 'PASS': 'pass_',
        'ENVIRONMENT_STATE_UPDATE': 'environment_state_update', 'ENVIRONMENT_SEQUENCE': 'environment_sequence',
        'LIFE': 'life'}
ORDER = Ctx.ORDER


# ---------------------------------------------------------------------------
# C06
# ---------------------------------------------------------------------------

def _time_conditions(gs, eng, wide=False):
    n = eng.int('n', -BIG, BIG, small=(-1, 14) if wide else (-1, 4))
    k = eng.int('k', 1, BIG, small=(1, 14) if wide else (1, 4))
    TS = gs.TimeScale
    out = []

    def u(q, b):
        return lambda c: c.units(q, b)
    C, P, U, S = INC
    for b in ('ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE', None):
        # None: the default time scale
        kw = {} if b is None else {'time_scale': getattr(TS, b)}
        bb = b or 'ENVIRONMENT_STATE_UPDATE'
        for q, names in ((C, ('BeforeConsiderationSetExecution', 'AtConsiderationSetExecution',
                              'AfterConsiderationSetExecution', 'AfterNConsiderationSetExecutions')),
                         (P, ('BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses'))):
            f = u(q, bb)
            out += [
                (f'{names[0]}(n, {b})', getattr(gs, names[0])(n, **kw), lambda c, f=f: f(c) < n),
                (f'{names[1]}(n, {b})', getattr(gs, names[1])(n, **kw), lambda c, f=f: f(c) == n),
                (f'{names[2]}(n, {b})', getattr(gs, names[2])(n, **kw), lambda c, f=f: f(c) > n),
                (f'{names[3]}(n, {b})', getattr(gs, names[3])(n, **kw), lambda c, f=f: f(c) >= n),
            ]
        f = u(P, bb)
        out.append((f'EveryNPasses(k, {b})', gs.EveryNPasses(k, **kw), lambda c, f=f: f(c) % k == 0))
        if b == 'ENVIRONMENT_STATE_UPDATE':
            continue
        f = u(U, b or 'ENVIRONMENT_SEQUENCE')
        out += [
            (f'BeforeEnvironmentStateUpdate(n, {b})', gs.BeforeEnvironmentStateUpdate(n, **kw), lambda c, f=f: f(c) < n),
            (f'AtEnvironmentStateUpdate(n, {b})', gs.AtEnvironmentStateUpdate(n, **kw), lambda c, f=f: f(c) == n),
            (f'AfterEnvironmentStateUpdate(n, {b})', gs.AfterEnvironmentStateUpdate(n, **kw), lambda c, f=f: f(c) > n),
            (f'AfterNEnvironmentStateUpdates(n, {b})', gs.AfterNEnvironmentStateUpdates(n, **kw), lambda c, f=f: f(c) >= n),
            (f'AtEnvironmentStateUpdateNStart(n, {b})', gs.AtEnvironmentStateUpdateNStart(n, **kw),
             lambda c, f=f: AND(c.units(P, U) == 0, f(c) == n)),
        ]
    f = u(S, 'LIFE')
    out += [
        ('AtEnvironmentSequence(n)', gs.AtEnvironmentSequence(n), lambda c: f(c) == n),
        ('AfterEnvironmentSequence(n)', gs.AfterEnvironmentSequence(n), lambda c: f(c) > n),
        ('AfterNEnvironmentSequences(n)', gs.AfterNEnvironmentSequences(n), lambda c: f(c) >= n),
        ('AtEnvironmentStateUpdateStart()', gs.AtEnvironmentStateUpdateStart(), lambda c: c.units(P, U) == 0),
        ('AtEnvironmentSequenceStart()', gs.AtEnvironmentSequenceStart(), lambda c: c.units(U, S) == 0),
        ('AtEnvironmentSequenceNStart(n)', gs.AtEnvironmentSequenceNStart(n),
         lambda c: AND(c.units(U, S) == 0, f(c) == n)),
    ]
    return out


def _compare(eng, conds, sched, eid, ctx):
    eng.check_all([(IFF(c.is_satisfied(scheduler=sched, execution_id=eid), ref(ctx)), name) for name, c, ref in conds],
                  increments=[p for k, p in ctx.events if k == 'inc'] if isinstance(ctx, Ctx) else ctx.u)
    eng.reach('compared')


def time_conditions(eng, gs, incs, eid):
    """any sequence of time increments, then every time condition"""
    sched = gs.Scheduler(graph={'A': set()})
    eid = sched.default_execution_id if eid is None else eid
    conds = _time_conditions(gs, eng)
    clock = sched.get_clock(eid)
    ctx = Ctx()
    eng.section(_compare, eng, conds, sched, eid, ctx)
    for i in range(incs):
        s = eng.choose(f'inc{i}', INC)
        clock.history.increment_time(getattr(gs.TimeScale, s))
        ctx.events.append(('inc', s))
        eng.reach(s)
        eng.section(_compare, eng, conds, sched, eid, ctx)


def time_in_runs(eng, gs, ops, edge):
    """the same conditions evaluated in the course of runs"""
    ns = node_names(2)
    g = {'A': set(), 'B': {'A'} if edge else set()}
    conds = _time_conditions(gs, eng)

    def observe(m, ctx, X):
        eng.section(_compare, eng, conds, m.sched, m.key, ctx)

    m = Machine(eng, gs, g, eid='x' if edge else NotImplemented, observe=observe, order_matters=False)
    m.start()
    for _ in range(ops):
        m.random_op()
        m.observe()


class _Units:
    """a context of which only the completed units are known"""

    def __init__(self, u):
        self.u = u

    def units(self, query, base):
        return self.u[query, base]


def time_anystate(eng, gs, pos):
    """arbitrary totals (any integers) in the history"""
    TS = gs.TimeScale
    sched = gs.Scheduler(graph={'A': set()})
    clock = sched.get_clock('c')
    for s in pos:
        clock.history.increment_time(TS[s])
    C, P, U, S = INC
    u = {(q, b): eng.int(f'{q}_in_{b}', 0, BIG, small=(0, 3)) for q in INC for b in ORDER[2:] if ORDER.index(q) < ORDER.index(b)}
    node = clock.history
    nodes = {'LIFE': node}
    for b in (S, U):
        node = node.children[-1]
        nodes[b] = node
    for (q, b), v in u.items():
        if TS[q] not in nodes[b].total_times:
            eng.check(True, 'representation differs')
            return
        nodes[b].total_times[TS[q]] = v
    # the indices of the current units stay what they are
    k = pos.count(S)
    eng.assume(u[S, 'LIFE'] == k)
    for q in INC:
        eng.check(AND(clock.get_total_times_relative(TS[q], TS.LIFE) == u[q, 'LIFE']), f'total {q} in the lifetime')
    conds = _time_conditions(gs, eng)
    _compare(eng, conds, sched, 'c', _Units(u))


def time_long(eng, gs, reps):
    """long histories: many units of each scale"""
    sched = gs.Scheduler(graph={'A': set()})
    conds = _time_conditions(gs, eng, wide=True)
    clock = sched.get_clock('c')
    ctx = Ctx()
    for s in reversed(INC):
        for _ in range(eng.choose(f'reps_{s}', reps)):
            clock.history.increment_time(gs.TimeScale[s])
            ctx.events.append(('inc', s))
    eng.section(_compare, eng, conds, sched, 'c', ctx)


def jobs06(tier):
    q = tier == 'quick'
    return [
        Job(time_conditions, dict(incs=4 if q else 6, eid='c'), require=INC + ('compared',), weight=5, split=2 if q else 5,
            bounds='all sequences of 4 (quick) or 6 (thorough) increments; |n| <= 10^6, 1 <= k <= 10^6 symbolic'),
        Job(time_conditions, dict(incs=3 if q else 4, eid=None), require=INC + ('compared',), bounds='default context'),
        Job(time_long, dict(reps=[0, 1, 13] if q else [0, 2, 7, 40]), require=('compared',), split=2,
            bounds='up to 13 (40) units of each scale within one another'),
        Job(time_anystate, dict(pos=()), require=('compared',), bounds='any totals up to 10^6 in the first sequence'),
        Job(time_anystate, dict(pos=INC[:3] + INC[3:] + INC[2:3]), require=('compared',), bounds='any totals up to 10^6 in a later sequence'),
        Job(time_in_runs, dict(ops=4 if q else 6, edge=0), require=('step', 'end', 'start', 'endseq', 'compared'),
            split=3 if q else 6, bounds='2 nodes, operations: step, end run, abandon and restart, end environment sequence'),
        Job(time_in_runs, dict(ops=5 if q else 7, edge=1), require=('step', 'end', 'start', 'endseq', 'compared'),
            split=3 if q else 6, bounds='the same with an edge, in a named context'),
    ]


# ---------------------------------------------------------------------------
# C07
# ---------------------------------------------------------------------------

def _time_of(ctx):
    out = {}
    for s in ORDER[:-1]:
        out[s] = ctx.units(s, ORDER[ORDER.index(s) + 1])
    out['LIFE'] = 0
    return out


def _shown(t):
    return {s: getattr(t, ATTR[s]) for s in ORDER}


def _segments(events, scale):
    """events split at increments of scale (the increment belongs to neither),
    and at increments of coarser scales"""
    coarse = ORDER[ORDER.index(scale):]
    out = [[]]
    for s in events:
        if s in coarse:
            out.append([])
        else:
            out[-1].append(s)
    return out


def clock(eng, gs, incs):
    TS = gs.TimeScale
    clk = gs.Clock()
    ctx = Ctx()
    eng.check(_shown(clk.time) == {s: 0 for s in ORDER}, 'a new clock does not show zero')
    eng.check(clk.previous_time is None, 'a new clock has a previous time')
    seq = []
    reused = {(i_, j_): {k: v for k, v in ((TS.ENVIRONMENT_SEQUENCE, i_), (TS.ENVIRONMENT_STATE_UPDATE, j_)) if v is not None}
              for i_ in (None, 0, 1) for j_ in (None, 0, 1)}
    for i in range(incs):
        before = _time_of(ctx)
        s = eng.choose(f'inc{i}', INC)
        clk.history.increment_time(TS[s])
        seq.append(s)
        ctx.events.append(('inc', s))
        if eng.replaying:
            continue
        now = _time_of(ctx)
        eng.check(_shown(clk.time) == now, 'the clock does not show the completed units', increments=seq,
                  shown=_shown(clk.time), expected=now)
        eng.check(_shown(clk.previous_time) == before, 'previous_time is not the time before the last increment',
                  increments=seq, shown=_shown(clk.previous_time), expected=before)
        for s2 in ORDER:
            eng.check(clk.get_time_by_time_scale(TS[s2]) == now[s2] and clk.time[TS[s2]] == now[s2]
                      and clk.time[TS[s2].value] == now[s2] and clk.simple_time[TS[s2]] == now[s2],
                      f'the {s2} of the clock is inconsistent', increments=seq)
        # totals
        # environment sequences, and state updates within each
        seqs, cur = [[[]]], None
        for s2 in seq:
            if s2 == 'ENVIRONMENT_SEQUENCE':
                seqs.append([[]])
            elif s2 == 'ENVIRONMENT_STATE_UPDATE':
                seqs[-1].append([])
            else:
                seqs[-1][-1].append(s2)
        fine = INC[:2]
        for q in fine:
            for i_, sq in enumerate(seqs):
                for j_, up in enumerate(sq):
                    exp = up.count(q)
                    got = clk.history.get_total_times_relative(
                        TS[q], {TS.ENVIRONMENT_SEQUENCE: i_, TS.ENVIRONMENT_STATE_UPDATE: j_})
                    eng.check(got == exp, f'total {q} in state update {j_} of sequence {i_}', increments=seq, got=got, expected=exp)
                exp = sum(up.count(q) for up in sq)
                got = clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_SEQUENCE, i_)
                eng.check(got == exp, f'total {q} in sequence {i_}', increments=seq, got=got, expected=exp)
            for j_, up in enumerate(seqs[-1]):
                got = clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_STATE_UPDATE, j_)
                eng.check(got == up.count(q), f'total {q} in state update {j_} of the current sequence', increments=seq,
                          got=got, expected=up.count(q))
            got = clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_STATE_UPDATE)
            eng.check(got == seqs[-1][-1].count(q), f'total {q} in the current state update', increments=seq, got=got)
            got = clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_SEQUENCE)
            eng.check(got == sum(u.count(q) for u in seqs[-1]), f'total {q} in the current sequence', increments=seq, got=got)
            got = clk.get_total_times_relative(TS[q], TS.LIFE)
            eng.check(got == seq.count(q), f'total {q} in the lifetime', increments=seq, got=got)
        # the same dictionaries at different times
        for (i_, j_), d in reused.items():
            if i_ is not None and i_ >= len(seqs):
                continue
            sq = seqs[-1 if i_ is None else i_]
            if j_ is not None and j_ >= len(sq):
                continue
            for q in INC[:3]:
                part = ([up.count(q) for up in (sq if j_ is None else [sq[j_]])] if q in fine else [1] * (len(sq) - 1))
                if i_ is None and (j_ is None or q not in fine):
                    exp = seq.count(q)
                elif q in fine:
                    exp = sum(part)
                else:
                    exp = len(seqs[i_]) - 1
                got = clk.history.get_total_times_relative(TS[q], d)
                eng.check(got == exp, f'total {q} for {d}', increments=seq, got=got, expected=exp)
        q = INC[2]
        for i_, sq in enumerate(seqs):
            got = clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_SEQUENCE, i_)
            eng.check(got == len(sq) - 1, f'total {q} in sequence {i_}', increments=seq, got=got)
        eng.check(clk.get_total_times_relative(TS[q], TS.ENVIRONMENT_SEQUENCE) == len(seqs[-1]) - 1,
                  f'total {q} in the current sequence', increments=seq)
        eng.check(clk.get_total_times_relative(TS[q], TS.LIFE) == seq.count(q), f'total {q} in the lifetime', increments=seq)
        q = INC[3]
        eng.check(clk.get_total_times_relative(TS[q], TS.LIFE) == seq.count(q), f'total {q} in the lifetime', increments=seq)
        for bad in (('ENVIRONMENT_SEQUENCE', len(seqs)), ('ENVIRONMENT_STATE_UPDATE', len(seqs[-1]))):
            try:
                clk.get_total_times_relative(TS.PASS, TS[bad[0]], bad[1])
                ok = False
            except gs.TimeScaleError:
                ok = True
            eng.check(ok, f'a total in a unit that does not exist was given ({bad})', increments=seq)
    eng.reach('done')


def clock_anystate(eng, gs):
    """one increment from arbitrary (symbolic) times"""
    TS = gs.TimeScale
    clk = gs.Clock()
    pre = {s: eng.int('t_' + s, 0, BIG, small=(0, 2)) for s in ORDER}
    for s in ORDER:
        setattr(clk.time, ATTR[s], pre[s])
    if any(getattr(clk.time, ATTR[s]) is not pre[s] for s in ORDER):
        eng.check(True, 'representation differs')
        return
    s = eng.choose('inc', INC)
    clk.history.increment_time(TS[s])
    now = _shown(clk.time)
    items = []
    for s2 in ORDER:
        i, j = ORDER.index(s2), ORDER.index(s)
        exp = 0 if i < j else pre[s2] + 1 if i == j else pre[s2]
        items.append((now[s2] == exp, f'{s2} after an increment of {s}'))
        items.append((getattr(clk.previous_time, ATTR[s2]) == pre[s2], f'previous {s2} after an increment of {s}'))
        items.append((clk.time[TS[s2]] == exp, f'time[{s2}]'))
    eng.check_all(items, pre=pre)
    eng.reach('done')


def scales(eng, gs):
    TS = gs.TimeScale
    eng.check([t.name for t in sorted(TS)] == list(ORDER), 'order of the time scales')
    a, b = eng.choose('a', ORDER), eng.choose('b', ORDER)
    i, j = ORDER.index(a), ORDER.index(b)
    x, y = TS[a], TS[b]
    eng.check(((x < y), (x <= y), (x > y), (x >= y), (x == y), (x != y)) == (i < j, i <= j, i > j, i >= j, i == j, i != j),
              'comparison of time scales', a=a, b=b)
    if i + 1 < len(ORDER):
        eng.check(TS.get_parent(x) is TS[ORDER[i + 1]], 'parent', a=a)
    if i > 0:
        eng.check(TS.get_child(x) is TS[ORDER[i - 1]], 'child', a=a)
    eng.check(hash(x) == hash(TS[a]) and {x: 1}[TS[a]] == 1, 'time scales as keys')


def tree_depth(eng, gs, incs):
    """histories that keep less or more detail"""
    TS = gs.TimeScale
    d = eng.choose('depth', ['ENVIRONMENT_SEQUENCE', 'ENVIRONMENT_STATE_UPDATE', 'PASS'])
    t = gs.TimeHistoryTree(max_depth=TS[d])
    ctx = Ctx()
    seq = []
    for i in range(incs):
        s = eng.choose(f'inc{i}', INC)
        t.increment_time(TS[s])
        seq.append(s)
        ctx.events.append(('inc', s))
    eng.check(_shown(t.current_time) == _time_of(ctx), 'current_time', increments=seq, depth=d)
    for q in INC:
        eng.check(t.get_total_times_relative(TS[q]) == seq.count(q), f'total {q}', increments=seq, depth=d)
        for b in ORDER[ORDER.index(q) + 1:-1]:
            if TS[b] < TS[d]:
                continue
            # the current unit of b
            now = _time_of(ctx)
            idx = {TS[x]: now[x] for x in ORDER[ORDER.index(b):-1]}
            got = t.get_total_times_relative(TS[q], idx)
            eng.check(got == ctx.units(q, b), f'total {q} in the current {b}', increments=seq, depth=d, got=got)
    eng.reach('done')


def jobs07(tier):
    q = tier == 'quick'
    return [
        Job(clock, dict(incs=5 if q else 7), require=('done',), bounds='all sequences of 5 (quick) or 7 (thorough) increments'),
        Job(tree_depth, dict(incs=4 if q else 6), require=('done',), bounds='all sequences of 4 / 6 increments, every depth'),
        Job(clock_anystate, require=('done',), bounds='any times up to 10^6, one increment'),
        Job(scales, bounds='all pairs'),
    ]


CHECKS = [
    Check('C06', jobs06, outside='longer histories; a base time scale finer than ENVIRONMENT_STATE_UPDATE (not supported by the history)'),
    Check('C07', jobs07, outside='longer histories'),
]
