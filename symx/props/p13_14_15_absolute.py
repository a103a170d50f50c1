"""C13: absolute time of runs.  C14: TimeInterval and TimeTermination.
C15: exact time mode."""
import fractions
import itertools
import math
import warnings

from ..engine import AND, OR, NOT, IFF, is_sym
from ..run import Job, Check
from ..lib import node_names, dag, layering, TraceSpec, Adversary, copy_graph

F = fractions.Fraction
GRAPHS = {
    'one': {'A': set()},
    'flat': {'A': set(), 'B': set()},
    'chain': {'A': set(), 'B': {'A'}},
    'chain3': {'A': set(), 'B': {'A'}, 'C': {'B'}},
    'fork': {'A': set(), 'B': {'A'}, 'C': {'A'}},
}
GRAPHS['chain5'] = {v: ({u} if u else set()) for u, v in zip(('', *'ABCD'), 'ABCDE')}
ESU = 'ENVIRONMENT_STATE_UPDATE'


def ms(gs, v):
    return v * gs._unit_registry.ms


# ---------------------------------------------------------------------------
# the documented meaning, over numbers of milliseconds
# ---------------------------------------------------------------------------

class Spec:
    """a TimeInterval"""

    def __init__(self, repeat=None, start=None, end=None, start_inclusive=True, end_inclusive=True):
        self.repeat, self.start, self.end = repeat, start, end
        self.start_inclusive, self.end_inclusive = start_inclusive, end_inclusive

    def kwargs(self):
        k = {n: getattr(self, n) for n in ('repeat', 'start', 'end') if getattr(self, n) is not None}
        if not self.start_inclusive:
            k['start_inclusive'] = False
        if not self.end_inclusive:
            k['end_inclusive'] = False
        return k

    def holds(self, t, offset):
        """at time t; offset: what repeat is relative to"""
        c = True
        if self.start is not None:
            c = AND(c, t >= self.start if self.start_inclusive else t > self.start)
        if self.end is not None:
            c = AND(c, t <= self.end if self.end_inclusive else t < self.end)
        if self.repeat is not None:
            c = AND(c, (t - offset) % self.repeat == 0)
        return c

    @property
    def earliest(self):
        return self.start if self.start is not None and self.start_inclusive else 0

    def fixed(self):
        return ([self.start] if self.start is not None and self.start_inclusive else []) + \
               ([self.end] if self.end is not None and self.end_inclusive else [])

    def __repr__(self):
        return f'TimeInterval({self.kwargs()})'


class Term:
    """a TimeTermination"""

    def __init__(self, t, inclusive=True):
        self.t, self.inclusive = t, inclusive
        self.repeat, self.start = None, None

    def holds(self, now):
        return now >= self.t if self.inclusive else now > self.t

    @property
    def earliest(self):
        return self.t if self.inclusive else 0

    def fixed(self):
        return [self.t] if self.inclusive else []

    def __repr__(self):
        return f'TimeTermination({self.t}, {self.inclusive})'


def gcd(xs):
    g = F(0)
    for x in xs:
        x = F(x)
        # gcd of fractions
        d = g.denominator * x.denominator // math.gcd(g.denominator, x.denominator)
        g = F(math.gcd(int(g * d), int(x * d)), d)
    return g


def interval_of(specs, nlayers, exact, default=1):
    """length of a consideration set execution, and whether passes have a
    length that conditions determine"""
    req = [s.repeat for s in specs if s.repeat is not None]
    if exact:
        for s in specs:
            req += s.fixed()
    if exact or nlayers == 1:
        req += [s.start for s in specs if s.repeat is not None and s.start is not None]
    g = gcd(req)
    if g == 0:
        return F(default)
    return g / (1 if exact else nlayers)


def start_of(node_specs, specs, cur, interval, nlayers, exact):
    start = cur
    if node_specs:
        e = min([s.earliest for s in specs])
        start = max(cur, e)
    if exact or any(s.repeat is not None for s in specs):
        p = interval * nlayers
        n = math.floor(start / p)
        if n * p < cur:
            n += 1
        start = n * p
    return start


# ---------------------------------------------------------------------------
# C14: conditions at a given time
# ---------------------------------------------------------------------------

FORMS = ['r', 's', 'e', 'rs', 're', 'se', 'rse']


def _spec(eng, tag, forms, hi, repeats, flags=True, mk=None):
    form = eng.choose(f'form_{tag}', forms)
    mk = mk or (lambda n: eng.int(n, 0, hi))
    si = ei = True
    if flags and 's' in form:
        si = not eng.flag(f'start_excl_{tag}')
    if flags and 'e' in form:
        ei = not eng.flag(f'end_excl_{tag}')
    return Spec(eng.choose(f'repeat_{tag}', repeats) if 'r' in form else None,
                mk(f'start_{tag}') if 's' in form else None,
                mk(f'end_{tag}') if 'e' in form else None, si, ei)


def _order(eng, sp):
    if sp.start is not None and sp.end is not None:
        eng.assume(sp.start <= sp.end)


def interval(eng, gs, graph, exact, forms, hi, composite=False):
    """satisfaction at any time of the consideration of its owner"""
    g = GRAPHS[graph]
    layers = layering(g)
    exact_like = exact or len(layers) == 1
    sp = _spec(eng, 'A', forms, hi, [1, 2, 3, 5])
    _order(eng, sp)
    owner = eng.choose('owner', sorted(g))
    cond = gs.TimeInterval(**sp.kwargs())
    wrapped = gs.All(cond, gs.Always()) if composite else cond
    s = gs.Scheduler(graph=copy_graph(g), conditions={owner: wrapped},
                     mode=gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD)
    L = 1 if exact else len(layers)
    step = F(eng.choose('pass', [1, 2] if sp.repeat is None or sp.repeat % 2 == 0 else [1]), L)
    k = eng.int('k', 0, hi * L)
    now = k * step if step.denominator != 1 else k * int(step)
    eid = eng.choose('context', [None, 'ctx'])
    clock = s.get_clock(eid)
    clock.time.absolute_enabled = True
    clock.time.absolute = ms(gs, now)
    clock.time.absolute_interval = ms(gs, step if step.denominator != 1 else int(step))
    pos = [i for i, l in enumerate(layers) if owner in l][0]
    if exact_like:
        offset = sp.start if sp.start is not None else 0
    else:
        offset = pos * step
    got = wrapped.is_satisfied(scheduler=s, execution_id=eid)
    eng.check(IFF(got, sp.holds(now, offset)), 'TimeInterval is not satisfied exactly at its times', condition=repr(sp), owner=owner,
              now=now, interval=str(step), got=got, exact=exact, start=sp.start, end=sp.end)
    eng.reach('evaluated')


def termination(eng, gs, hi):
    t = eng.int('t', 0, hi)
    how = eng.choose('inclusive', ['default', True, False])
    cond = gs.TimeTermination(t) if how == 'default' else gs.TimeTermination(t, how) if eng.flag('positional') else gs.TimeTermination(t=t, inclusive=how)
    s = gs.Scheduler(graph={'A': set(), 'B': {'A'}})
    den = eng.choose('den', [1, 2, 3])
    k = eng.int('k', 0, hi * den)
    now = k * F(1, den) if den > 1 else k
    eid = eng.choose('context', [None, 'ctx'])
    s.get_clock(eid).time.absolute = ms(gs, now)
    got = cond.is_satisfied(scheduler=s, execution_id=eid)
    eng.check(IFF(got, Term(t, how in ('default', True)).holds(now)), 'TimeTermination is not satisfied exactly from its time on', t=t, now=now, inclusive=how, got=got)
    eng.reach('evaluated')


def start_after_end(eng, gs, hi):
    st, en = eng.int('start', 0, hi), eng.int('end', 0, hi)
    kw = {}
    if eng.flag('with_repeat'):
        kw['repeat'] = 2
    if eng.flag('exclusive'):
        kw['start_inclusive'] = False
    bad = st > en
    try:
        gs.TimeInterval(start=st, end=en, **kw)
        res = False
    except gs.ConditionError:
        res = True
    eng.check(IFF(res, bad), 'a TimeInterval is not rejected exactly if its start is later than its end', start=st, end=en)
    eng.reach('rejected' if res else 'accepted')
    try:
        gs.TimeInterval()
        res = False
    except gs.ConditionError:
        res = True
    eng.check(res, 'a TimeInterval without any specification is not rejected')


# nanoseconds per unit
UNITS = {'ns': F(1), 'us': F(1000), 'ms': F(10**6), 's': F(10**9), 'min': F(60 * 10**9)}


def _denote(eng, gs, name, values, units, forms=None):
    """(nanoseconds, argument, unit argument) in one of the ways to write it"""
    v = eng.choose(f'{name}_value', values)
    u = eng.choose(f'{name}_unit', units)
    forms = forms or ['number', 'quantity', 'string', 'string quantity']
    f = eng.choose(f'{name}_form', forms)
    ns = F(str(v)) * UNITS[u]
    ureg = gs._unit_registry
    if f == 'number':
        return ns, v, u
    if f == 'unit object':
        return ns, v, getattr(ureg, u)
    if f == 'quantity':
        return ns, v * getattr(ureg, u), None
    if f == 'string':
        return ns, str(v), u
    if f == 'string quantity':
        return ns, f'{v} {u}', None
    if f == 'string short':
        return ns, f'{v}{u}', None
    raise AssertionError(f)


def _now(eng, gs, ns, finest=None):
    """a time about ns, as an integer number of some unit (runs count time in
    the finest unit of all repeats)"""
    u = eng.choose('now_unit', ['us', 'ms', 's'])
    eng.assume(finest is None or finest % UNITS[u] == 0)
    ns = ns + eng.choose('delta', [-1, 0, 1]) * UNITS[eng.choose('delta_unit', ['us', 'ms'])]
    n = ns / UNITS[u]
    eng.assume(n >= 0 and n.denominator == 1)
    return ns, int(n) * getattr(gs._unit_registry, u)


def units(eng, gs, what, values, forms):
    """numbers, strings and quantities in any unit denote the same times"""
    us = ['us', 'ms', 's'] if what != 'order' else ['ms', 's']
    if what == 'termination':
        ns, arg, unit = _denote(eng, gs, 't', values, us + ['min'], forms)
        inc = eng.flag('inclusive')
        c = gs.TimeTermination(arg, inc, **({'unit': unit} if unit else {}))
        s = gs.Scheduler(graph={'A': set()})
        now, clk = _now(eng, gs, ns)
        s.get_clock(None).time.absolute = clk
        got = c.is_satisfied(scheduler=s, execution_id=None)
        eng.check(bool(got) == bool(Term(ns, inc).holds(now)), 'TimeTermination depends on how its time is written', t=arg, unit=str(unit), now=str(clk), got=got)
    elif what == 'interval':
        which = eng.choose('which', ['repeat', 'start', 'end'])
        ns, arg, unit = _denote(eng, gs, 'v', values, us, forms)
        if which == 'repeat':
            eng.assume(ns > 0)
        c = gs.TimeInterval(**{which: arg}, **({'unit': unit} if unit else {}))
        sp = Spec(**{which: ns})
        s = gs.Scheduler(graph={'A': set()}, conditions={'A': c})
        now, clk = _now(eng, gs, ns * eng.choose('mult', [0, 1, 2, 3]) / 2 if which == 'repeat' else ns, ns if which == 'repeat' else None)
        s.get_clock(None).time.absolute = clk
        got = c.is_satisfied(scheduler=s, execution_id=None)
        eng.check(bool(got) == bool(sp.holds(now, 0)), 'TimeInterval depends on how its times are written', **{which: arg}, unit=str(unit), now=str(clk), got=got)
    elif what == 'order':
        a, x, ux = _denote(eng, gs, 'start', values, us, forms)
        b, y, uy = _denote(eng, gs, 'end', values, us, [f for f in forms if f not in ('number', 'string', 'unit object')] or forms)
        try:
            gs.TimeInterval(start=x, end=y, **({'unit': ux} if ux else {}))
            res = False
        except gs.ConditionError:
            res = True
        eng.check(res == (a > b), 'a TimeInterval is not rejected exactly if its start is later than its end', start=x, end=y, unit=str(ux))
    eng.reach('compared')


def units_symbolic(eng, gs, what, hi):
    """any integer magnitudes, in different units"""
    us = ['us', 'ms', 's', 'min']
    ureg = gs._unit_registry

    def q(name):
        v, u = eng.int(name, 0, hi), eng.choose(f'{name}_unit', us)
        f = eng.choose(f'{name}_form', ['quantity', 'number'])
        return v * UNITS[u] / UNITS['ms'] if u != 'ms' else v, v, u, f
    s = gs.Scheduler(graph={'A': set()})
    k, ku = eng.int('now', 0, hi), eng.choose('now_unit', ['us', 'ms', 's'])
    now = k * (UNITS[ku] / UNITS['ms']) if ku != 'ms' else k
    s.get_clock(None).time.absolute = k * getattr(ureg, ku)
    t, v, u, f = q('t')
    arg = v * getattr(ureg, u) if f == 'quantity' else v
    inc = eng.flag('inclusive')
    kw = {} if f == 'quantity' else {'unit': u}
    if what == 'termination':
        c = gs.TimeTermination(arg, inc, **kw)
        want = Term(t, inc).holds(now)
    elif what in ('start', 'end'):
        c = gs.TimeInterval(**{what: arg, f'{what}_inclusive': inc}, **kw)
        want = Spec(**{what: t, f'{what}_inclusive': inc}).holds(now, 0)
    else:
        e, w, ue, fe = q('e')
        try:
            c = gs.TimeInterval(start=arg, end=w * getattr(ureg, ue), start_inclusive=inc, **kw)
        except gs.ConditionError:
            eng.check(t > e, 'a TimeInterval is rejected although its start is not later than its end', start=t, end=e, units=(u, ue))
            eng.reach('rejected')
            return
        eng.check(t <= e, 'a TimeInterval is not rejected although its start is later than its end', start=t, end=e, units=(u, ue))
        want = Spec(start=t, end=e, start_inclusive=inc).holds(now, 0)
    got = c.is_satisfied(scheduler=s, execution_id=None)
    eng.check(IFF(got, want), f'the condition ({what}) depends on the unit of its time', time=v, unit=u, form=f, now=k, now_unit=ku, got=got)
    eng.reach('compared')


# ---------------------------------------------------------------------------
# C13, C14: runs
# ---------------------------------------------------------------------------

def _q(gs, t):
    """a time of the code under test as a number of milliseconds"""
    return t.to('ms').m


def _same(eng, gs, got, want):
    d = _q(gs, got) - want
    if is_sym(d):
        return AND(d < F(1, 10**6), d > -F(1, 10**6))
    return abs(float(d)) < 1e-6


class RunSpec:
    def __init__(self, layers, exact, specs, term, adversary=None):
        self.layers = [sorted(set().union(*layers))] if exact else [sorted(l) for l in layers]
        self.flat = {v: i for i, l in enumerate(layers) for v in l}
        self.exact, self.specs, self.term = exact, specs, term
        self.exact_like = exact or len(layers) == 1
        ab = list(specs.values()) + [c for c in [term] if not isinstance(c, int)]
        self.absolute = ab
        self.L = len(self.layers)
        self.interval = interval_of(ab, self.L, exact)

    def start(self, cur):
        return start_of(list(self.specs.values()), self.absolute, cur, self.interval, self.L, self.exact)

    def offset(self, v):
        sp = self.specs[v]
        if self.exact_like:
            return sp.start if sp.start is not None else 0
        return self.flat[v] * self.interval

    def executes(self, v, t):
        return self.specs[v].holds(t, self.offset(v)) if v in self.specs else True


def _check_run(eng, gs, s, spec, cur, steps, eid, termarg, history):
    """one run from time cur; returns the time reached, or None if it was cut"""
    L = spec.L
    t = spec.start(cur)
    eng.check(t >= cur, 'harness')
    gen = s.run(termination_conds=termarg, execution_id=eid)
    clock = s.get_clock(eid)
    done = False
    n0 = len(history)
    for j in range(steps):
        if isinstance(spec.term, int):
            stop = j >= spec.term * L
        else:
            stop = spec.term.holds(t)
        try:
            E = set(next(gen))
            ended = False
        except StopIteration:
            ended = True
        eng.check(IFF(ended, stop), 'the run does not end exactly at the time of its termination condition', time=t, ended=ended,
                  termination=repr(spec.term), conditions=spec.specs, step=j, cur=cur)
        if ended:
            done = True
            break
        want = {v: spec.executes(v, t) for v in spec.layers[j % L]}
        eng.check(E <= set(want), 'nodes of another consideration set were executed', got=E, layer=want)
        items = [IFF(v in E, w) for v, w in want.items()]
        eng.check(AND(items), 'a node is not executed exactly at the times of its TimeInterval', time=t, got=E, conditions=spec.specs,
                  layer=sorted(want), step=j, cur=cur, interval=str(spec.interval))
        now = clock.time.absolute
        eng.check(_same(eng, gs, now, t), 'the clock is not at the expected absolute time', got=now, want=t, step=j, cur=cur,
                  conditions=spec.specs, termination=repr(spec.term), interval=str(spec.interval))
        history.append((t, frozenset(E), j // L, j % L))
        rec = s.execution_timestamps[eid]
        eng.check(len(rec) == len(history) == len(s.execution_list[eid]), 'not every consideration set has one timestamp', timestamps=len(rec), yielded=len(history))
        for i, (ht, hE, hp, hl) in enumerate(history):
            if i in (0, n0, len(history) - 1):
                eng.check(_same(eng, gs, rec[i].absolute, ht), 'execution_timestamps does not show the time of the set', index=i, got=rec[i].absolute, want=ht)
                eng.check(rec[i].pass_ == hp and rec[i].consideration_set_execution == hl and set(s.execution_list[eid][i]) == hE,
                          'execution_timestamps does not show the position of the set', index=i, got=rec[i])
        t = t + spec.interval
    if not done:
        return None
    eng.check(_same(eng, gs, clock.time.absolute, t), 'the absolute time after the run is not the time at which it ended', got=clock.time.absolute, want=t)
    return t


def runs(eng, gs, graph, exact, forms, hi, repeats, terms, steps, nruns=1, plain=(), flags=True, other=False):
    g = GRAPHS[graph]
    layers = layering(g)
    # gcds need values
    mk = (lambda n: eng.cint(n, 0, hi)) if exact or len(layers) == 1 else (lambda n: eng.int(n, 0, hi))
    specs = {}
    for v in sorted(g):
        if v in plain:
            continue
        specs[v] = _spec(eng, v, forms, hi, repeats, flags, mk)
        _order(eng, specs[v])
    kind = eng.choose('termination', terms)
    if kind == 'passes':
        term = 2
        targ = gs.AfterPass(1)
    elif kind in ('t', 't excl'):
        term = Term(mk('t'), kind == 't')
        targ = gs.TimeTermination(term.t, inclusive=term.inclusive)
    elif kind == 'start':
        tt = mk('t')
        term = Term(tt)
        targ = gs.TimeInterval(start=tt)
    conds = {v: gs.TimeInterval(**sp.kwargs()) for v, sp in specs.items()}
    s = gs.Scheduler(graph=copy_graph(g), conditions={**conds, **{v: gs.Always() for v in plain}},
                     mode=gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD)
    ta = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: targ}
    spec = RunSpec(layers, exact, specs, term)
    history = []
    eid = 'ctx'
    cur = 0
    for r in range(nruns):
        before = len(history)
        cur = _check_run(eng, gs, s, spec, cur, steps, eid, ta, history)
        if cur is None:
            eng.reach('cut')
            break
        eng.reach(f'ended {r}')
        if r == 0 and other:
            # a run without absolute conditions, and another context, leave it alone
            _others(eng, gs, s, ta, eid, cur, spec)
    for i in range(1, len(history)):
        eng.check(history[i - 1][0] < history[i][0], 'times are not increasing')
    if history:
        eng.reach('executed')


def _others(eng, gs, s, ta, eid, cur, spec):
    h = []
    c2 = _check_run(eng, gs, s, spec, 0, 3, 'other', ta, h)
    eng.check(_same(eng, gs, s.get_clock(eid).time.absolute, cur), 'a run in another context changed the absolute time')


def second_run(eng, gs, graph, exact, hi, repeats, steps):
    """runs with different conditions follow one another: the second one
    starts at the time reached, possibly within a pass"""
    g = GRAPHS[graph]
    layers = layering(g)
    mk = (lambda n: eng.cint(n, 0, hi)) if exact or len(layers) == 1 else (lambda n: eng.int(n, 0, hi))
    last = sorted(g)[-1]
    r1 = eng.choose('repeat1', repeats)
    n1 = eng.choose('nsteps', [1, 2, 3] if len(layers) > 1 or exact else [1, 2])
    mode = gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD
    s = gs.Scheduler(graph=copy_graph(g), conditions={v: gs.TimeInterval(repeat=r1) if v == last else gs.Always() for v in g}, mode=mode)
    count = [0]
    gen = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: count[0] >= n1)}, execution_id='ctx')
    sp1 = RunSpec(layers, exact, {last: Spec(repeat=r1)}, 1)
    history = []
    t = sp1.start(0)
    for E in gen:
        history.append((t, frozenset(E), count[0] // sp1.L, count[0] % sp1.L))
        t = t + sp1.interval
        count[0] += 1
    eng.check(len(history) == n1, 'a run does not end when its termination condition is satisfied', got=len(history), want=n1)
    eng.check(_same(eng, gs, s.get_clock('ctx').time.absolute, t), 'the absolute time after the run is not the time at which it ended', want=t)
    # a run without absolute conditions
    if eng.flag('between'):
        for v in g:
            s.add_condition(v, gs.Always())
        list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(0)}, execution_id='ctx'))
        n = len(s.execution_list['ctx']) - len(history)
        eng.check(_same(eng, gs, s.get_clock('ctx').time.absolute, t), 'a run without absolute conditions changed the absolute time', want=t)
        eng.check(len(s.execution_timestamps['ctx']) == len(history), 'a run without absolute conditions recorded absolute times')
        eng.reach('between')
        return
    specs = {v: _spec(eng, v, ['r', 'rs', 's'] if v != last else ['r', 'rs'], hi, repeats, False, mk) for v in sorted(g)}
    for v in sorted(g):
        s.add_condition(v, gs.TimeInterval(**specs[v].kwargs()))
    spec = RunSpec(layers, exact, specs, 2)
    _check_run(eng, gs, s, spec, t, steps, 'ctx', {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(1)}, history)
    # every node with a repeat is executed within a repeat of its start
    eng.reach('second')


def every_repeat(eng, gs, graph, exact, hi, repeats, nruns):
    """whatever the times: each node with a repeat is executed once per repeat
    from its start on (from the start exactly, if all are considered together)"""
    g = GRAPHS[graph]
    layers = layering(g)
    mk = (lambda n: eng.cint(n, 0, hi)) if exact or len(layers) == 1 else (lambda n: eng.int(n, 0, hi))
    nodes = sorted(g)
    specs = {v: _spec(eng, v, ['r', 'rs'], hi, repeats, len(nodes) < 3, mk) for v in nodes}
    s = gs.Scheduler(graph=copy_graph(g), conditions={v: gs.TimeInterval(**specs[v].kwargs()) for v in nodes},
                     mode=gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD)
    horizon = hi + (2 if nruns == 1 else 4) * max(sp.repeat for sp in specs.values())
    cut = eng.choose('cut', [1, 2, 3]) if nruns == 2 else None
    ex = {v: [] for v in nodes}
    times = []
    for r in range(nruns):
        count = 0
        stop = [False]
        for E in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Condition(lambda: stop[0])}):
            now = s.get_clock().time.absolute
            times.append(now)
            for v in E:
                ex[v].append(_q(gs, now))
            count += 1
            if r == 0 and cut is not None and count >= cut:
                # the run ends, possibly within a pass
                stop[0] = True
                continue
            if _q(gs, now) >= horizon:
                break
            if count > 20 * horizon:
                eng.fail('time does not advance', times=times[-3:])
    for v in nodes:
        sp = specs[v]
        e = ex[v]
        for a, b in zip(e, e[1:]):
            d = b - a
            if cut is None:
                eng.check(AND(d < sp.repeat + F(1, 10**6), d > sp.repeat - F(1, 10**6)), 'a node is not executed every repeat', node=v, spec=sp, times=e)
            else:
                eng.check(d > sp.repeat - F(1, 10**6), 'a node is executed more than once per repeat', node=v, spec=sp, times=e)
        st = sp.start if sp.start is not None else 0
        # the last execution is no more than a repeat before the end
        eng.check(len(e) > 0, 'a node with a repeat is never executed', node=v, spec=sp, specs=specs, times=len(times))
        eng.check(horizon - e[-1] <= sp.repeat, 'a node stops being executed every repeat', node=v, spec=sp, times=e, horizon=horizon)
        eng.check(e[0] >= st if sp.start_inclusive or sp.start is None else e[0] > st, 'a node is executed before its start', node=v, spec=sp, times=e)
        if cut is None:
            eng.check(e[0] <= st + sp.repeat + (0 if exact or len(layers) == 1 else sp.repeat), 'a node is executed too late', node=v, spec=sp, times=e)
            if exact or len(layers) == 1:
                want = st if sp.start_inclusive or sp.start is None else st + sp.repeat
                eng.check(e[0] == want, 'a node is not executed at its first time', node=v, spec=sp, times=e, want=want)
    eng.reach('repeats')


def run_units(eng, gs, graph, exact, values, starts=()):
    """repeats (and starts) written in different units"""
    g = GRAPHS[graph]
    layers = layering(g)
    nodes = sorted(g)
    specs, conds = {}, {}
    for v in nodes:
        u = eng.choose(f'unit_{v}', ['us', 'ms', 's'])
        x = eng.choose(f'value_{v}_{u}', values[u])
        f = eng.choose(f'form_{v}', ['number', 'quantity', 'string']) if not starts or v != nodes[0] else None
        specs[v] = Spec(repeat=F(str(x)) * UNITS[u] / UNITS['ms'])
        if starts and v == nodes[0]:
            y, w = eng.choose('start', starts)
            f = eng.choose('start_form', ['quantity', 'string'])
            specs[v].start = F(str(y)) * UNITS[w] / UNITS['ms']
            conds[v] = gs.TimeInterval(start=y * getattr(gs._unit_registry, w) if f == 'quantity' else f'{y} {w}', repeat=f'{x} {u}')
            continue
        conds[v] = gs.TimeInterval(repeat=x, unit=u) if f == 'number' else gs.TimeInterval(repeat=x * getattr(gs._unit_registry, u)) if f == 'quantity' else gs.TimeInterval(repeat=f'{x}{u}')
    s = gs.Scheduler(graph=copy_graph(g), conditions=conds, mode=gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD)
    spec = RunSpec(layers, exact, specs, 2)
    _check_run(eng, gs, s, spec, 0, 2 * spec.L + 1, 'ctx', {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(1)}, [])
    eng.reach('units')


def components(eng, gs, graph, exact, hi):
    """conditions on absolute time within composites, and as termination
    conditions: the interval takes all of them into account"""
    g = GRAPHS[graph]
    layers = layering(g)
    L = 1 if exact else len(layers)
    mk = eng.choose('shape', ['Any', 'All of Any', 'NWhen', 'Not Not', 'two nodes', 'nested', 'termination'])
    specs = []
    forms = ['se', 's'] if exact else ['r', 'rse']
    for i in range(3 if mk != 'NWhen' else 1):
        f = eng.choose(f'form{i}', forms) if i < 2 else forms[0]
        sp = Spec(eng.choose(f'repeat{i}', [4, 6] if i < 2 else [10]) if 'r' in f else None)
        if 's' in f:
            sp.start = eng.choose(f'start{i}', list(range(1, hi + 1))) if i == 0 else (3, 4)[i - 1] * 2
        if 'e' in f:
            sp.end = sp.start + eng.choose(f'length{i}', [0, 3]) if i < 2 else sp.start + 1
        specs.append(sp)
    cs = [gs.TimeInterval(**sp.kwargs()) for sp in specs]
    A, B = sorted(g)[0], sorted(g)[-1]
    conds = {v: gs.Never() for v in g}
    term = gs.Never()
    if mk == 'Any':
        conds[B] = gs.Any(*cs)
    elif mk == 'All of Any':
        conds[B] = gs.All(gs.Any(cs[0], gs.Never(), cs[1]), gs.Not(gs.Not(cs[2])))
    elif mk == 'NWhen':
        conds[B] = gs.NWhen(cs[0], 50)
    elif mk == 'Not Not':
        conds[B] = gs.Not(gs.All(gs.Not(cs[0]), gs.Not(cs[1]), gs.Not(cs[2])))
    elif mk == 'two nodes':
        conds[A], conds[B] = gs.Any(cs[0], cs[2]), gs.Not(cs[1])
    elif mk == 'nested':
        conds[B] = gs.Any(gs.Never(), gs.Any(gs.All(cs[0], cs[1]), gs.NWhen(gs.Any(cs[2]), 9)))
    else:
        conds[A], conds[B] = cs[0], cs[1]
        term = gs.All(cs[2], gs.Never())
    want = interval_of(specs, L, exact)
    s = gs.Scheduler(graph=copy_graph(g), conditions=conds, mode=gs.SchedulingMode.EXACT_TIME if exact else gs.SchedulingMode.STANDARD)
    gen = s.run(termination_conds={gs.TimeScale[ESU]: term, gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()}, execution_id='ctx')
    clock = s.get_clock('ctx')
    times = []
    for i in range(2 * L + 2):
        next(gen)
        times.append(_q(gs, clock.time.absolute))
        if i:
            eng.check(_same(eng, gs, clock.time.absolute - ms(gs, times[-2]), want),
                      'the interval is not determined by all conditions on absolute time', specs=specs, shape=mk, times=times, want=str(want))
    eng.check(len(s.execution_timestamps['ctx']) == len(times), 'a yielded set has no timestamp')
    # every required time is a multiple of the interval from the start on
    eng.reach(mk)


def default_unit(eng, gs, graph):
    """without repeats every consideration set lasts the default unit"""
    g = GRAPHS[graph]
    u = eng.choose('default', [None, '1 ms', '3 us', '2 s', 'quantity'])
    ureg = gs._unit_registry
    kw = {} if u is None else {'default_absolute_time_unit': 5 * ureg.us if u == 'quantity' else u}
    d = {None: F(1), '1 ms': F(1), '3 us': F(3, 1000), '2 s': F(2000), 'quantity': F(5, 1000)}[u]
    s = gs.Scheduler(graph=copy_graph(g), conditions={v: gs.Always() for v in g}, **kw)
    k = eng.choose('n', [1, 2, 4])
    inc = eng.flag('inclusive')
    n = 0
    for E in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination(k * (1 * ureg.ms if u is None else 5 * ureg.us if u == 'quantity' else ureg.Quantity(u)), inc)}):
        eng.check(_same(eng, gs, s.get_clock().time.absolute, n * d), 'a consideration set does not last the default unit', step=n, default=u,
                  got=s.get_clock().time.absolute, want=str(n * d))
        n += 1
        if n > 20:
            break
    eng.check(n == (k if inc else k + 1), 'TimeTermination does not end the run at its time', got=n, t=k, inclusive=inc, default=u)
    eng.reach('default')


# ---------------------------------------------------------------------------
# C15
# ---------------------------------------------------------------------------

def exact_queue(eng, gs, k, how):
    ns = node_names(k)
    g = dag(eng, ns)
    layers = layering(g)
    if how == 'given':
        s = gs.Scheduler(graph=copy_graph(g), mode=gs.SchedulingMode.EXACT_TIME)
    else:
        s = gs.Scheduler(graph=copy_graph(g))
        s.mode = gs.SchedulingMode.EXACT_TIME
    eng.check([set(x) for x in s.consideration_queue] == [set(ns)], 'the consideration queue is not the single set of all nodes', got=s.consideration_queue, graph=g)
    want = {v: i for i, l in enumerate(layers) for v in l}
    eng.check(dict(s.consideration_queue_indices) == want, 'the indices of the original queue are not available', got=s.consideration_queue_indices, want=want)
    if how == 'switched':
        s.mode = gs.SchedulingMode.STANDARD
        eng.check([set(x) for x in s.consideration_queue] == layers, 'the original queue is not back in standard mode', got=s.consideration_queue, graph=g)
    eng.check({v: set(x) for v, x in s.graph.items()} == g, 'the graph is changed by exact time mode')
    eng.reach('queue')


def exact_runs(eng, gs, k, npasses, graph=None):
    """any combination of nodes may execute together, as conditions decide"""
    if graph:
        g = GRAPHS[graph]
    else:
        g = dag(eng, node_names(k))
    ns = sorted(g)
    adv = Adversary(eng)
    s = gs.Scheduler(graph=copy_graph(g), conditions={v: adv.condition(gs, v) for v in ns}, mode=gs.SchedulingMode.EXACT_TIME)
    spec = TraceSpec(eng, [set(ns)], lambda v, ctx, X: adv.out(v, adv.n, X))
    n = 0
    spec.start_run()
    # the passes are counted by the yielded sets: one consideration set each
    for E in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(npasses - 1)}):
        E = set(E)
        spec.resumed()
        spec.on_yield(E)
        n += 1
        eng.check(n <= npasses, 'a pass has more than one consideration set', yielded=n)
        tm = s.get_clock().time
        eng.check(tm.pass_ == n - 1 and tm.consideration_set_execution == 0, 'the clock does not show one consideration set per pass', time=str(tm), yielded=n)
        if any(u in E and v in E for v in ns for u in g[v]):
            eng.reach('together')
        adv.yielded()
    eng.check(n == npasses, 'not one set per pass', yielded=n, passes=npasses)
    eng.reach('ran')


def exact_structural(eng, gs, k):
    """structural conditions have no effect on the executions, but a warning"""
    ns = node_names(k)
    g = dag(eng, ns)
    s = gs.Scheduler(graph=copy_graph(g), conditions={v: gs.Always() for v in ns}, mode=gs.SchedulingMode.EXACT_TIME)
    u = eng.choose('u', ns)
    v = eng.choose('v', [x for x in ns if x != u])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        s.add_condition(u, gs.AddEdgeTo(v))
        got = None
        try:
            got = [set(E) for E in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(1)})]
        except gs.SchedulerError:
            eng.reach('cycle')
    if got is not None:
        eng.check(got == [set(ns)] * 2, 'structural conditions affect the executions in exact time mode', got=got)
        eng.check(any('exact time mode' in str(x.message).lower() for x in w), 'no warning about structural conditions in exact time mode')
        eng.reach('ran')


def jobs13(tier):
    quick = tier == 'quick'
    inj = ('float', 'int', 'np')
    js = []

    def j(fn, kw, **k):
        js.append(Job(fn, kw, inject=inj, **k))
    hi = 5 if quick else 8
    for graph in ('chain', 'chain3') if quick else ('chain', 'chain3', 'fork'):
        n = len(GRAPHS[graph])
        pl = () if n == 2 else tuple(sorted(GRAPHS[graph])[1:n - 1])
        for terms in (['t', 't excl'], ['passes', 'start']):
            j(runs, dict(graph=graph, exact=False, forms=['r', 'rs'] if quick else ['r', 's', 'rs', 'rse'], hi=hi, repeats=[2, 3] if quick else [1, 2, 3], terms=terms,
                         steps=8 if quick else 12, nruns=1, plain=pl, flags=True),
              require=('executed', 'ended 0'), split=4 if quick else 6, bounds=f'standard mode, graph {graph}, symbolic start/end/t up to {hi} ms')
    j(runs, dict(graph='chain', exact=False, forms=['r', 'rs'], hi=3, repeats=[2], terms=['t excl', 'passes'], steps=8, nruns=2, flags=False, other=True),
      require=('executed', 'ended 1'), split=4, bounds='two runs and another context')
    j(runs, dict(graph='chain', exact=True, forms=['e', 're', 'se', 'rse'], hi=3 if quick else 4, repeats=[2, 3],
                 terms=['passes', 't excl'], steps=5, nruns=1, flags=True, plain=('B',)),
      require=('executed', 'ended 0'), split=3 if quick else 5, bounds='inclusive and exclusive ends in exact time mode')
    j(runs, dict(graph='chain', exact=False, forms=['s', 'se'], hi=4, repeats=[2], terms=['t', 'passes'], steps=8, nruns=1, flags=True, plain=('B',)),
      require=('executed', 'ended 0'), split=4, bounds='no repeats')
    for graph in ('flat', 'chain') if quick else ('flat', 'chain', 'fork'):
        j(runs, dict(graph=graph, exact=graph != 'flat', forms=['r', 's', 'rs'], hi=2 if quick else 5, repeats=[2, 3], terms=['t', 'passes'] if quick else ['t', 't excl', 'start', 'passes'],
                     steps=6, nruns=1, flags=not quick, plain=() if graph != 'fork' else ('B',)),
          require=('executed', 'ended 0'), split=4 if quick else 6, bounds=f'all considered together, graph {graph}')
    for graph, exact in (('chain', False), ('chain', True), ('flat', False)):
        j(second_run, dict(graph=graph, exact=exact, hi=3 if quick else 5, repeats=[2, 3] if quick else [1, 2, 3, 4], steps=6), require=('second', 'between'), split=4,
          bounds='a second run with other conditions, started at any point')
        j(every_repeat, dict(graph=graph, exact=exact, hi=3 if quick else 5, repeats=[2, 3], nruns=1), require=('repeats',), split=3, bounds='every repeat')
        j(every_repeat, dict(graph=graph, exact=exact, hi=2, repeats=[2] if quick else [2, 3], nruns=2), require=('repeats',), split=3, bounds='every repeat, after a run that ended anywhere')
    for graph, exact in (('chain', False), ('chain', True), ('one', False)) if quick else (('chain', False), ('chain', True), ('flat', False), ('chain3', False)):
        j(run_units, dict(graph=graph, exact=exact, values={'us': [500, 1500], 'ms': [0.5] if exact else [1], 's': [0.002]} if quick else {'us': [1, 500, 1500], 'ms': [1, 2, 0.5], 's': [1, 0.002]}), require=('units',), split=4, bounds='repeats in different units')
    for graph, exact in (('chain', True), ('one', False)):
        j(run_units, dict(graph=graph, exact=exact, values={'us': [1500], 'ms': [1], 's': [0.002]} if quick else {'us': [1, 1500], 'ms': [1, 2], 's': [0.002]},
                          starts=((1, 'ms'), (500, 'us')) if quick else ((1, 'ms'), (500, 'us'), (0.001, 's'), (2500, 'us'))),
          require=('units',), split=3, bounds='repeats and starts in different units')
    for graph, exact in (('chain', True), ('chain', False), ('flat', True), ('chain3', False)):
        j(components, dict(graph=graph, exact=exact, hi=4 if quick else 8), require=('Any', 'NWhen', 'nested', 'termination'), split=3,
          bounds='up to three conditions on absolute time in composites')
    for graph in ('one', 'chain'):
        j(default_unit, dict(graph=graph), require=('default',), split=2, bounds='default units')
    return js


def jobs14(tier):
    quick = tier == 'quick'
    inj = ('float', 'int', 'np')
    js = []

    def j(fn, kw, **k):
        js.append(Job(fn, kw, inject=inj, **k))
    hi = 12 if quick else 30
    for graph, exact in (('one', False), ('flat', False), ('chain', False), ('chain', True), ('chain3', False)):
        j(interval, dict(graph=graph, exact=exact, forms=FORMS, hi=hi), require=('evaluated',), split=4, bounds=f'all times up to {hi} ms at steps of 1, 1/2, 1/3')
    j(interval, dict(graph='chain5', exact=False, forms=['r', 's', 'rs'], hi=6 if quick else 12), require=('evaluated',), split=4, bounds='five consideration sets, times up to 6 (12) ms')
    j(interval, dict(graph='chain', exact=False, forms=['rs', 're'], hi=hi, composite=True), require=('evaluated',), split=4, bounds='as a component')
    j(termination, dict(hi=hi), require=('evaluated',), split=2, bounds=f'all times up to {hi} ms')
    j(start_after_end, dict(hi=hi), require=('rejected', 'accepted'), bounds=f'all times up to {hi} ms')
    fm = ['number', 'quantity', 'string', 'string quantity', 'string short', 'unit object']
    vals = {'interval': [3, 0.5], 'termination': [3, 0.5], 'order': [1, 1500]} if quick else dict.fromkeys(('interval', 'termination', 'order'), [0, 1, 7, 0.5, 0.001, 1500, 86400])
    for what in vals:
        j(units, dict(what=what, values=vals[what], forms=fm), require=('compared',), split=4 if quick else 6, bounds=f'values {vals[what]} in us, ms, s, in every notation')
    for what in ('termination', 'start', 'end', 'both'):
        j(units_symbolic, dict(what=what, hi=10**4), require=('compared',) + (('rejected',) if what == 'both' else ()), split=4, bounds='all magnitudes up to 10^4, in us, ms, s, min')
    j(runs, dict(graph='chain', exact=False, forms=['re', 'rse'], hi=4 if quick else 6, repeats=[2, 3], terms=['passes'], steps=6, nruns=1, flags=True, plain=('A',)),
      require=('executed', 'ended 0'), split=4, bounds='in runs, standard mode')
    j(runs, dict(graph='chain', exact=True, forms=['se', 're'] if quick else ['se', 're', 'rse'], hi=3 if quick else 4, repeats=[2, 3], terms=['t excl'], steps=6, nruns=1, flags=True, plain=('B',)),
      require=('executed', 'ended 0'), split=4, bounds='in runs, exact time mode')
    j(runs, dict(graph='flat', exact=False, forms=['rse', 'se'], hi=3, repeats=[2], terms=['passes'], steps=6, nruns=1, flags=True, plain=('B',)),
      require=('executed', 'ended 0'), split=4, bounds='in runs, single consideration set')
    return js


def jobs15(tier):
    quick = tier == 'quick'
    js = []
    for how in ('given', 'switched'):
        js.append(Job(exact_queue, dict(k=4 if quick else 5, how=how), require=('queue',), split=4, bounds=f'all acyclic graphs of {4 if quick else 5} nodes'))
    js.append(Job(exact_runs, dict(k=2, npasses=3 if quick else 4), require=('ran', 'together'), split=4, bounds='2 nodes'))
    js.append(Job(exact_runs, dict(k=3, npasses=1), require=('ran', 'together'), split=4, bounds='all acyclic graphs of 3 nodes, 1 pass'))
    js.append(Job(exact_runs, dict(k=3, npasses=2, graph='chain3'), require=('ran', 'together'), split=5, bounds='chain of 3 nodes, 2 passes'))
    if not quick:
        js.append(Job(exact_runs, dict(k=3, npasses=2), require=('ran', 'together'), split=6, bounds='all acyclic graphs of 3 nodes, 2 passes'))
    js.append(Job(exact_structural, dict(k=3), require=('ran', 'cycle'), split=3, bounds='3 nodes, one added edge'))
    js.append(Job(runs, dict(graph='chain', exact=True, forms=['r', 's', 'rs'], hi=2 if quick else 4, repeats=[2, 3], terms=['passes'], steps=4, nruns=1, flags=False),
                  inject=('float', 'int', 'np'), require=('executed', 'ended 0'), split=4, bounds='with time conditions'))
    return js


_ASSUME = ['arithmetic of times is exact (times are multiples of 1/6 ms)']
CHECKS = [
    Check('C13', jobs13, assumptions=_ASSUME, outside='more than 3 nodes; times above the stated bounds; units other than us, ms, s'),
    Check('C14', jobs14, assumptions=_ASSUME, outside='more than 3 nodes; units other than us, ms, s, min'),
    Check('C15', jobs15, assumptions=_ASSUME, outside='more than 5 nodes (queue) or 3 nodes (runs)'),
]
