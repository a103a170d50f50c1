"""C25: TimeScale aliases."""
import warnings

from ..run import Job, Check

SCALES = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']
SEGMENT = {s: ''.join(x[0] + x[1:].lower() for x in s.split('_')) for s in SCALES}
ATTR = {s: ('pass' if s == 'PASS' else s.lower()) for s in SCALES}

# RUN, TIME and SET are contained in names of unrelated classes; CALL makes
# AfterPass collide with AfterCall
ALIASES = ['TRIAL', 'RUN', 'TIME_STEP', 'TIME', 'SET', 'CALL', 'MY_LONG_ALIAS', 'N']


def _segment(name):
    return ''.join(x[0].upper() + x[1:].lower() for x in name.split('_'))


def _public(ns):
    return {k: v for k, v in ns.items() if not k.startswith('_')}


def _state(gs):
    """everything that a user can see under a name"""
    return {
        'graph_scheduler': {k: id(v) for k, v in _public(vars(gs)).items()},
        'condition': {k: id(v) for k, v in _public(vars(gs.condition)).items()},
        'all': sorted(gs.__all__),
        'condition.all': sorted(gs.condition.__all__),
        'TimeScale': {k: id(getattr(gs.TimeScale, k)) for k in dir(gs.TimeScale) if not k.startswith('_') and isinstance(getattr(gs.TimeScale, k), gs.TimeScale)},
        'Time': sorted(k for k in vars(gs.Time) if not k.startswith('_')),
        'SimpleTime': sorted(k for k in vars(gs.SimpleTime) if not k.startswith('_')),
    }


class Saved:
    """restores what aliases change, whatever the code under test did"""

    def __init__(self, gs):
        self.gs = gs
        t = gs.time
        self.ns = [(o, dict(vars(o))) for o in (gs, gs.condition)]
        self.cls = [(c, dict(vars(c))) for c in (gs.Time, gs.SimpleTime)]
        self.ts = set(vars(gs.TimeScale))
        self.lists = [(l, list(l)) for l in (gs.__all__, gs.condition.__all__)]
        self.docs = [(c, c.__doc__) for c in vars(gs).values() if isinstance(c, type) and c.__module__.startswith('graph_scheduler')]
        self.dicts = [(d, dict(d)) for k, d in vars(t).items() if isinstance(d, dict) and not k.startswith('__')]
        self.sets = [(d, type(d)(d)) for k, d in vars(t).items() if isinstance(d, (list, set)) and not k.startswith('__')]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for o, d in self.ns:
            for k in list(vars(o)):
                if k not in d:
                    del vars(o)[k]
            vars(o).update(d)
        for c, d in self.cls:
            for k in list(vars(c)):
                if k not in d:
                    delattr(c, k)
            for k, v in d.items():
                if not k.startswith('__') and vars(c).get(k) is not v:
                    setattr(c, k, v)
        for k in set(vars(self.gs.TimeScale)) - self.ts:
            delattr(self.gs.TimeScale, k)
        for l, v in self.lists:
            l[:] = v
        for c, v in self.docs:
            c.__doc__ = v
            if '_old_docstring' in vars(c):
                del c._old_docstring
        for d, v in self.dicts:
            d.clear()
            d.update(v)
        for d, v in self.sets:
            d.clear()
            (d.extend if isinstance(d, list) else d.update)(v)


def _attr(s):
    import keyword
    a = s.lower()
    return a + '_' if keyword.iskeyword(a) else a


def check_alias(eng, gs, name, target, base, what):
    """the alias denotes the same things as the original name"""
    T = gs.TimeScale
    ts = getattr(T, target)
    ctx = dict(alias=name, target=target, after=what)
    eng.check(getattr(T, name, None) is ts, 'the alias is not the same TimeScale', **ctx)
    eng.check(T[target] is ts and ts.name == target, 'the original TimeScale name has changed', **ctx)
    t = gs.Time()
    low = name.lower()
    v = eng.int('v', 0, 10)
    w = eng.int('w', 0, 10)
    setattr(t, _attr(target), v)
    eng.check(getattr(t, low) == v, 'the alias attribute of Time does not show the value', **ctx)
    setattr(t, low, w)
    eng.check_all([(getattr(t, _attr(target)) == w, 'the alias attribute of Time does not set the value'),
                   (t[ts] == w, 'the alias attribute of Time does not set the value'),
                   (t[getattr(T, name)] == w, 'the alias item of Time does not show the value')]
                  + [(t[getattr(T, s)] == 0, 'the alias attribute of Time sets another TimeScale') for s in SCALES if s != target], **ctx)
    s = gs.SimpleTime(t)
    if target not in ('LIFE', 'PASS'):
        eng.check(getattr(s, low) == w, 'the alias attribute of SimpleTime does not show the value', **ctx)
    # condition classes
    for cname, cls in base.items():
        if isinstance(cls, type) and SEGMENT[target] in cname:
            new = cname.replace(SEGMENT[target], _segment(name))
            if new in base:
                continue          # the name of another class
            eng.check(getattr(gs, new, None) is cls and getattr(gs.condition, new, None) is cls and new in gs.__all__,
                      'no condition class under the alias', cls=new, **ctx)


def check_originals(eng, gs, base, what):
    for k, v in base.items():
        eng.check(getattr(gs, k, None) is v, 'an original name has changed its meaning', name=k, after=what)
    eng.check(all(hasattr(gs, k) for k in gs.__all__) and all(hasattr(gs.condition, k) for k in gs.condition.__all__),
              '__all__ lists a name that does not exist', after=what)
    T = gs.TimeScale
    eng.check([x.name for x in sorted(T)] == SCALES and [x.value for x in sorted(T)] == list(range(5)), 'the TimeScales have changed', after=what)
    t = gs.Time(*range(5, 10))
    eng.check([t[getattr(T, s)] for s in SCALES] == list(range(5, 10)) and [getattr(t, _attr(s)) for s in SCALES] == list(range(5, 10)),
              'Time has changed under the original names', after=what)


def aliases(eng, gs, nops, names, targets, ops):
    with Saved(gs), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = {k: v for k, v in _public(vars(gs)).items()}
        initial = _state(gs)
        states = [(initial, None)]
        active = {}
        order = []
        hist = []
        for i in range(nops):
            op = eng.choose(f'op{i}', ops)
            if op == 'set':
                name = eng.choose(f'name{i}', names)
                target = eng.choose(f'target{i}', targets)
                arg = target if eng.flag(f'str{i}') else getattr(gs.TimeScale, target)
                before = _state(gs)
                try:
                    gs.set_time_scale_alias(name, arg)
                    err = None
                except ValueError as e:
                    err = e
                hist.append(('set', name, target))
                eng.check((err is not None) == (name in active or name in SCALES), 'a name that is in use must be rejected, exactly then', history=hist, error=err)
                if err is not None:
                    eng.check(_state(gs) == before, 'a rejected alias left traces', history=hist)
                    eng.reach('rejected')
                else:
                    active[name] = target
                    order.append(name)
                    states.append((before, name))
                    eng.reach('set')
            elif op == 'remove':
                name = eng.choose(f'name{i}', names)
                before = _state(gs)
                gs.remove_time_scale_alias(name)
                hist.append(('remove', name))
                if name not in active:
                    eng.check(_state(gs) == before, 'removing an unknown alias has an effect', history=hist)
                    eng.reach('unknown')
                else:
                    del active[name]
                    prev, last = states[-1]
                    if last == name:
                        # as if it had never been set
                        states.pop()
                        eng.check(_state(gs) == prev, 'removing the alias does not restore the previous state', history=hist,
                                  difference=_diff(prev, _state(gs)))
                    else:
                        states = [(None, None)]
                    eng.reach('removed')
            elif op == 'invalid':
                before = _state(gs)
                try:
                    gs.set_time_scale_alias('OTHER', 'NO_SUCH_SCALE')
                except ValueError:
                    pass
                else:
                    eng.fail('an alias of an unknown TimeScale was accepted', history=hist)
                eng.check(_state(gs) == before, 'a rejected alias left traces', history=hist)
            if not active:
                now = _state(gs)
                eng.check(now == initial, 'names of removed aliases are left', history=hist, difference=_diff(initial, now))
            check_originals(eng, gs, base, hist)
            for name, target in active.items():
                check_alias(eng, gs, name, target, base, hist)
            gone = set(names) - set(active)
            eng.check(not any(hasattr(gs.TimeScale, n) or hasattr(gs.Time, n.lower()) or hasattr(gs.SimpleTime, n.lower()) for n in gone if n not in SCALES),
                      'a removed alias is still there', history=hist)


def _diff(a, b):
    out = {}
    for k in a:
        if a[k] != b[k]:
            x, y = (set(a[k]), set(b[k]))
            out[k] = (sorted(map(str, x - y)), sorted(map(str, y - x))) if x != y else 'values'
    return out


def behaviour(eng, gs, name, target):
    """runs under the alias and under the original names agree"""
    with Saved(gs), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n = eng.cint('n', 0, 3)
        T = gs.TimeScale

        def go(tname, key):
            ts = getattr(T, tname)
            s = gs.Scheduler(graph={'A': set(), 'B': {'A'}},
                             conditions={'B': gs.AfterNCalls('A', n, time_scale=ts), 'A': gs.Not(gs.AtPass(1))})
            out = [sorted(x) for x in s.run(termination_conds={key: gs.AfterPass(2)})]
            out += [sorted(x) for x in s.run(termination_conds={key: gs.AfterPass(1)})]
            clock = s.get_clock()
            out.append(clock.get_time_by_time_scale(ts))
            if target in SCALES[2:]:
                out.append(clock.get_total_times_relative(T.PASS, ts, 0))
            if target in SCALES[:4]:
                out.append(clock.get_total_times_relative(ts, T.LIFE))
            return out
        key = 'environment_state_update'
        want = go(target, T.ENVIRONMENT_STATE_UPDATE)
        gs.set_time_scale_alias(name, getattr(T, target))
        eng.check(go(target, T.ENVIRONMENT_STATE_UPDATE) == want, 'setting an alias changed the behaviour under the original names', alias=name, target=target)
        akey = name if target == 'ENVIRONMENT_STATE_UPDATE' else key
        for k in (akey, akey.lower(), akey.upper()):
            eng.check(go(name, k) == want, 'the behaviour under the alias differs', alias=name, target=target, n=n)
        gs.remove_time_scale_alias(name)
        eng.check(go(target, T.ENVIRONMENT_STATE_UPDATE) == want, 'removing an alias changed the behaviour under the original names', alias=name, target=target)
        eng.reach('ran')


def jobs25(tier):
    quick = tier == 'quick'
    js = []
    for names in (['TRIAL', 'RUN'], ['TIME', 'CALL'], ['SET', 'TIME_STEP'], ['PASS', 'N']):
        js.append(Job(aliases, dict(nops=2 if quick else 3, names=names, targets=SCALES, ops=['set', 'remove', 'invalid']),
                      require=('set', 'removed', 'unknown', 'rejected'), split=3 if quick else 6,
                      bounds=f'histories of {2 if quick else 3} operations on 2 names'))
    js.append(Job(aliases, dict(nops=4, names=['TRIAL', 'RUN'], targets=['PASS', 'ENVIRONMENT_SEQUENCE'][:1 if quick else 2], ops=['set', 'remove']),
                  require=('set', 'removed', 'unknown', 'rejected'), split=3, bounds='histories of 4 operations on 2 names, one target'))
    js.append(Job(aliases, dict(nops=2, names=ALIASES, targets=SCALES, ops=['set', 'remove']), split=3, bounds='histories of 2 operations on 8 names'))
    for name in ('TRIAL', 'RUN', 'CALL'):
        for target in SCALES:
            js.append(Job(behaviour, dict(name=name, target=target), require=('ran',), bounds='2 nodes, n up to 3'))
    return js


CHECKS = [
    Check('C25', jobs25, outside='alias names that contain the name of a TimeScale or of an attribute of Time; documentation strings'),
]
