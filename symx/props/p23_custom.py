"""C23: arguments of custom condition functions."""
import functools

from ..engine import AND, OR, NOT, IFF
from ..run import Job, Check

NAMES = ['scheduler', 'execution_id', 'x', 'y']


def _signature(eng, npos, forms, varargs, varkw, order):
    """source of the parameter list and names by kind"""
    pk, ko = [], []
    for n in (NAMES if order else NAMES[::-1]):
        f = forms[n]
        if f == 'pk':
            pk.append(n)
        elif f in ('ko', 'ko_req'):
            ko.append(n)
    parts = [f'p{i}=MISSING' for i in range(npos)]
    parts += [f'{n}=MISSING' for n in pk]
    if varargs:
        parts.append('*rest')
    elif ko:
        parts.append('*')
    parts += [f'{n}=MISSING' if forms[n] == 'ko' else n for n in ko]
    if varkw:
        parts.append('**others')
    return ', '.join(parts)


class Missing:
    def __repr__(self):
        return '<not passed>'


MISSING = Missing()


def _function(sig, callee, rec, names, kind):
    body = '{' + ', '.join(f'{n!r}: {n}' for n in names) + '}'
    ns = {'MISSING': MISSING, 'callee': callee}
    if kind == 'function':
        exec(f'def f({sig}):\n    return callee({body})', ns)
        return ns['f']
    if kind == 'lambda':
        exec(f'f = lambda {sig}: callee({body})', ns)
        return ns['f']
    if kind == 'method':
        exec(f'class C:\n    def f(self, {sig}):\n        return callee({body})', ns)
        return ns['C']().f
    if kind == 'callable':
        exec(f'class C:\n    def __call__(self, {sig}):\n        return callee({body})', ns)
        return ns['C']()
    if kind == 'static':
        exec(f'class C:\n    @staticmethod\n    def f({sig}):\n        return callee({body})', ns)
        return ns['C'].f
    raise AssertionError(kind)


def _expected(npos, forms, varargs, varkw, args, kwargs):
    """what the function must receive"""
    e = {}
    for i in range(npos):
        e[f'p{i}'] = args[i] if i < len(args) else MISSING
    for n in NAMES:
        if forms[n] != 'absent':
            e[n] = kwargs.get(n, MISSING)
    if varargs:
        e['rest'] = tuple(args[npos:])
    if varkw:
        e['others'] = {k: v for k, v in kwargs.items() if forms.get(k, 'absent') == 'absent'}
    return e


def _matches(got, exp):
    if set(got) != set(exp):
        return False
    for k, v in exp.items():
        if k == 'rest':
            if len(got[k]) != len(v) or any(a is not b for a, b in zip(got[k], v)):
                return False
        elif k == 'others':
            if set(got[k]) != set(v) or any(got[k][n] is not v[n] for n in v):
                return False
        elif got[k] is not v:
            return False
    return True


class Val:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<{self.n}>'


def _shape(eng, npos_max, kinds, allforms, extra=1):
    kind = eng.choose('kind', kinds)
    npos_max = int(npos_max)
    npos = eng.choose('npos', list(range(npos_max + 1)))
    given = {n: True for n in ('scheduler', 'execution_id')}
    own_y = eng.flag('own_y')
    run_x = eng.flag('run_x')
    run_y = eng.flag('run_y')
    given['x'] = run_x
    given['y'] = own_y or run_y
    forms = {}
    for n in NAMES:
        fs = ['absent', 'pk', 'ko'] + (['ko_req'] if given[n] and allforms else [])
        forms[n] = eng.choose(f'form_{n}_{len(fs)}', fs)
    varargs = eng.flag('varargs')
    varkw = eng.flag('varkw')
    order = eng.flag('order') if sum(f == 'pk' for f in forms.values()) > 1 else True
    # how many positional arguments: parameters that are given by name must
    # not be reached by positional arguments
    pks = [n for n in (NAMES if order else NAMES[::-1]) if forms[n] == 'pk']
    if varargs and pks:
        most = npos
    else:
        most = npos + extra
    nargs = eng.choose(f'nargs_{most}', list(range(most + 1)))
    # arguments too many are dropped, unless there is a parameter for them
    always = {'scheduler', 'execution_id'} | ({'x'} if run_x else set()) | ({'y'} if own_y else set())
    if not varargs:
        for i, n in enumerate(pks):
            if n not in always:
                nargs = min(nargs, npos + i)
    sig = _signature(eng, npos, forms, varargs, varkw, order)
    return kind, npos, forms, varargs, varkw, nargs, sig, own_y, run_x, run_y


def custom(eng, gs, cls, kinds, npos_max=2, allforms=False, times=2, evalargs=False, extra=1):
    kind, npos, forms, varargs, varkw, nargs, sig, own_y, run_x, run_y = _shape(eng, npos_max, kinds, allforms, extra)
    args = [Val(f'arg{i}') for i in range(nargs)]
    results = [eng.bool(f'result{i}') for i in range(times)]
    calls = []

    def callee(loc):
        calls.append(loc)
        return results[len(calls) - 1]
    names = [f'p{i}' for i in range(npos)] + [n for n in NAMES if forms[n] != 'absent'] + (['rest'] if varargs else []) + (['others'] if varkw else [])
    f = _function(sig, callee, None, names, kind)
    own = {'y': Val('own y')} if own_y else {}
    n_eval = eng.choose('neval', [0, min(1, nargs)]) if evalargs and nargs else 0
    cond = getattr(gs, cls)(f, *args[:nargs - n_eval], **own)
    sch, eid = Val('scheduler'), Val('execution_id')
    for t in range(times):
        kw = {}
        if run_x:
            kw['x'] = Val(f'x{t}')
        if run_y and t == 0:
            kw['y'] = Val('run y')
        if t and run_y and not own_y and forms['y'] == 'ko_req':
            kw['y'] = Val('run y')
        merged = {**own, **kw, 'scheduler': sch, 'execution_id': eid}
        exp = _expected(npos, forms, varargs, varkw, args, merged)
        r = cond.is_satisfied(*args[nargs - n_eval:], scheduler=sch, execution_id=eid, **kw)
        eng.check(len(calls) == t + 1, 'the function was not called exactly once per evaluation', signature=sig, kind=kind)
        eng.check(_matches(calls[-1], exp), 'the function did not receive the arguments it can accept', signature=sig, kind=kind,
                  got=calls[-1], expected=exp, created_with=(args, own), evaluated_with=kw, evaluation=t)
        want = NOT(results[t]) if cls == 'WhileNot' else results[t]
        eng.check(IFF(r, want), 'the result of the function is not the value of the condition', signature=sig)
    if run_y and own_y:
        eng.reach('override')
    eng.reach('called')


class Hostile(Val):
    """a value that can neither be compared nor tested nor hashed"""
    __hash__ = None

    def __eq__(self, other):
        raise AssertionError('compared')

    def __ne__(self, other):
        raise AssertionError('compared')

    def __bool__(self):
        raise AssertionError('tested')

    def __len__(self):
        raise AssertionError('tested')

    def __copy__(self):
        raise AssertionError('copied')

    def __deepcopy__(self, memo):
        raise AssertionError('copied')


VALUES = {'None': lambda: None, '0': lambda: 0, 'False': lambda: False, "''": lambda: '', '[]': lambda: [], '{}': lambda: {}, '()': lambda: (),
          'condition': lambda: 'a', 'hostile': lambda: Hostile('hostile'), 'function': lambda: print, 'class': lambda: Val}


def values(eng, gs, cls, names):
    """unusual values of arguments, given at creation and at evaluations"""
    form = eng.choose('form', ['x', '*, x', '**others', 'x, **others', '*, x, **others'])
    src = 'p0' + ', ' + form.replace('x', 'x=MISSING', 1)
    rec = []
    got = ['p0'] + (['x'] if 'x' in form else []) + (['others'] if 'others' in form else [])
    f = _function(src, lambda loc: rec.append(loc) or True, None, got, 'function')
    arg = VALUES[eng.choose('positional', names)]()
    own = VALUES[n]() if (n := eng.choose('own', ['not given'] + names)) != 'not given' else MISSING
    cond = getattr(gs, cls)(f, arg, **({} if own is MISSING else {'x': own}))
    if eng.flag('nested'):
        outer = gs.All(cond) if cls != 'WhileNot' else gs.Any(cond)
    else:
        outer = cond
    sch, eid = Val('scheduler'), VALUES[eng.choose('execution_id', names[:2])]()
    for t in range(2):
        run = MISSING
        if (n := eng.choose(f'run{t}', ['not given'] + names)) != 'not given':
            run = VALUES[n]()
        del rec[:]
        r = outer.is_satisfied(scheduler=sch, execution_id=eid, **({} if run is MISSING else {'x': run}))
        eng.check(len(rec) == 1, 'the function was not called exactly once')
        x = run if run is not MISSING else own
        eng.check(rec[0]['p0'] is arg, 'the function did not receive its positional argument', got=rec[0])
        if 'x' in got:
            eng.check(rec[0]['x'] is x, 'the function did not receive its keyword argument', signature=src, evaluation=t)
        if 'others' in got:
            others = {**({'x': x} if 'x' not in got and x is not MISSING else {}), 'scheduler': sch, 'execution_id': eid}
            eng.check(_matches({'others': rec[0]['others']}, {'others': others}), 'the function did not receive its keyword arguments', signature=src,
                      evaluation=t, names=sorted(rec[0]['others']))
        eng.check(bool(r) == (cls != 'WhileNot'), 'the result of the function is not the value of the condition')
    eng.reach('values')


def in_run(eng, gs, where, npasses):
    """the same, through run(**kwargs)"""
    forms = {n: eng.choose(f'form_{n}', ['absent', 'pk', 'ko']) for n in NAMES}
    varkw = eng.flag('varkw')
    own_y, run_x, run_y = eng.flag('own_y'), eng.flag('run_x'), eng.flag('run_y')
    sig = _signature(eng, 1, forms, False, varkw, True)
    names = ['p0'] + [n for n in NAMES if forms[n] != 'absent'] + (['others'] if varkw else [])
    calls = []
    outs = []

    def callee(loc):
        calls.append(loc)
        r = bool(eng.known(eng.bool(f'r{len(calls)}')))
        outs.append(r)
        return r
    f = _function(sig, callee, None, names, 'function')
    arg, eid = Val('arg'), 'ctx'
    own = {'y': Val('own y')} if own_y else {}
    cond = gs.Condition(f, arg, **own)
    kw = {**({'x': Val('x')} if run_x else {}), **({'y': Val('run y')} if run_y else {})}
    if where == 'node':
        s = gs.Scheduler(graph={'A': set()}, conditions={'A': cond})
        run = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterPass(npasses - 1)}, execution_id=eid, **kw)
        got = [set(x) for x in run]
        want = []
        i = 0
        # considered again in the same set as long as something was added
        for p in range(npasses):
            if i < len(outs) and outs[i]:
                want.append({'A'})
            else:
                want.append(set())
            i += 1
        eng.check(got == want and len(outs) == npasses, 'the results of the function do not decide the executions', got=got, results=outs)
    else:
        s = gs.Scheduler(graph={'A': set()}, conditions={'A': gs.Always()})
        stop = gs.Any(cond, gs.AfterPass(npasses - 1))
        scale = gs.TimeScale.ENVIRONMENT_STATE_UPDATE if where == 'update' else gs.TimeScale.ENVIRONMENT_SEQUENCE
        run = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never(), scale: stop}, execution_id=eid, **kw)
        list(run)
    merged = {**own, **kw, 'scheduler': s, 'execution_id': eid}
    exp = _expected(1, forms, False, varkw, [arg], merged)
    eng.check(len(calls) > 0, 'the function was never called')
    for c in calls:
        eng.check(_matches(c, exp), 'the function did not receive the arguments it can accept', signature=sig, got=c, expected=exp)
    eng.reach('called')


def _callables():
    """(name, function, positional arguments, accepts) where accepts(args, kw)
    is what the function must report; all of them record into `log`"""
    import dataclasses
    log = []
    M = MISSING

    class C:
        def m(self, x=M, scheduler=M):
            log.append((self, dict(x=x, scheduler=scheduler)))
            return self.result

        def n(self, p0=M, *, execution_id=M):
            log.append((self, dict(p0=p0, execution_id=execution_id)))
            return self.result

        def __call__(self, y=M, **others):
            log.append((self, dict(y=y, others=others)))
            return self.result

    class D(C):
        def m(self, y=M):
            log.append((self, dict(y=y)))
            return self.result

    class S:
        __slots__ = ('result',)

        def __call__(self, x=M, execution_id=M):
            log.append((self, dict(x=x, execution_id=execution_id)))
            return self.result

    @dataclasses.dataclass
    class U:
        result: object = None

        def __call__(self, scheduler=M, y=M):
            log.append((self, dict(scheduler=scheduler, y=y)))
            return self.result

    class E:
        """all of them are equal"""
        def __eq__(self, other):
            return isinstance(other, E)

        def __hash__(self):
            return 1

        def __call__(self, p0=M, x=M):
            log.append((self, dict(p0=p0, x=x)))
            return self.result

    def closure(o):
        def f(p0=o, *, x=M):
            log.append((p0, dict(x=x)))
            return p0.result
        return f

    def same_name(o):
        def f(y=M, p1=M):
            log.append((o, dict(y=y, p1=p1)))
            return o.result
        return f

    def with_self(self, x=M, y=M):
        log.append((self, dict(x=x, y=y)))
        return self.result

    def wrapped(o):
        def inner(x=M, scheduler=M):
            log.append((o, dict(x=x, scheduler=scheduler)))
            return o.result

        @functools.wraps(inner)
        def f(*args, **kw):
            return inner(*args, **kw)
        return f

    # name -> (object, function, positional arguments, names it accepts, positional parameters)
    mk = {
        'method': lambda: (o := C(), o.m, (), ('x', 'scheduler')),
        'unbound': lambda: (o := C(), C.m, (o,), ('x', 'scheduler')),
        'other method': lambda: (o := C(), o.n, (A0,), ('p0', 'execution_id')),
        'overridden': lambda: (o := D(), o.m, (), ('y',)),
        'super': lambda: (o := D(), super(D, o).m, (), ('x', 'scheduler')),
        'callable': lambda: (o := C(), o, (), ('y', 'others')),
        'slots': lambda: (o := S(), o, (), ('x', 'execution_id')),
        'unhashable': lambda: (o := U(), o, (), ('scheduler', 'y')),
        'equal': lambda: (o := E(), o, (A0,), ('p0', 'x')),
        'closure': lambda: (o := C(), closure(o), (), ('x',)),
        'same name': lambda: (o := C(), same_name(o), (), ('y', 'p1')),
        'function': lambda: (o := C(), with_self, (o,), ('x', 'y')),
        'partial': lambda: (o := C(), functools.partial(with_self, o), (), ('x', 'y')),
        'partial of method': lambda: (o := C(), functools.partial(o.m, x=A0), (), ('x', 'scheduler')),
        'wrapped': lambda: (o := C(), wrapped(o), (), ('x', 'scheduler')),
    }
    return mk, log


A0 = Val('arg')
_KINDS = ('method', 'unbound', 'other method', 'overridden', 'super', 'callable', 'slots', 'unhashable', 'equal', 'closure', 'same name', 'function',
          'partial', 'partial of method', 'wrapped')


def several(eng, gs, firsts, cls, times=2):
    """two conditions, evaluated in turn, whose functions have something in
    common (code, name, class, or being equal)"""
    mk, log = _callables()
    cs = []
    for i, kinds in enumerate((firsts, list(_KINDS))):
        kind = eng.choose(f'kind{i}', kinds)
        o, f, args, accepts = mk[kind]()
        own = {'y': Val('own y')} if eng.flag(f'own_y{i}') else {}
        cs.append((kind, o, accepts, args, own, getattr(gs, cls)(f, *args, **own)))
    run_x = eng.flag('run_x')
    for t in range(times):
        for i in ((0, 1), (1, 0))[eng.flag('swap') if t == 0 else 1]:
            kind, o, accepts, args, own, cond = cs[i]
            o.result = eng.bool(f'r{i}_{t}')
            kw = {'scheduler': Val('scheduler'), 'execution_id': Val('execution_id'), **({'x': Val('x')} if run_x else {})}
            merged = {**own, **kw}
            exp = {}
            for n in accepts:
                if n == 'others':
                    exp[n] = {k: v for k, v in merged.items() if k not in accepts}
                elif n == 'p0':
                    exp[n] = args[0]
                else:
                    exp[n] = merged.get(n, A0 if kind == 'partial of method' and n == 'x' else MISSING)
            del log[:]
            r = cond.is_satisfied(**kw)
            eng.check(len(log) == 1, 'the function was not called exactly once', kind=kind, other=cs[1 - i][0])
            eng.check(log[0][0] is o and _matches(log[0][1], exp), 'the function did not receive the arguments it can accept', kind=kind,
                      other=cs[1 - i][0], got=log[0][1], expected=exp)
            eng.check(IFF(r, NOT(o.result) if cls == 'WhileNot' else o.result), 'the result of the function is not the value of the condition', kind=kind)
    eng.reach('called')


def jobs23(tier):
    quick = tier == 'quick'
    js = []
    for cls in ('Condition', 'WhileNot') if quick else ('Condition', 'While', 'WhileNot'):
        js.append(Job(custom, dict(cls=cls, kinds=['function'], npos_max=(cls == 'Condition') if quick else 2), require=('called', 'override'), split=3 if quick else 5,
                      bounds='all signatures over 1 (quick) or 2 positional parameters, 4 names, *args and **kwargs; 2 evaluations'))
    js.append(Job(custom, dict(cls='Condition', kinds=['lambda', 'method', 'callable', 'static'], npos_max=0 if quick else 1, allforms=not quick, times=1),
                  require=('called',), split=3 if quick else 5, bounds='other callables'))
    js.append(Job(custom, dict(cls='Condition', kinds=['function'], npos_max=1 if quick else 2, evalargs=True, times=1, extra=2), require=('called',), split=3 if quick else 5,
                  bounds='positional arguments at evaluation'))
    for j in range(0, len(_KINDS), 5):
        for cls in ('Condition',) if quick else ('Condition', 'While', 'WhileNot'):
            js.append(Job(several, dict(firsts=list(_KINDS[j:j + 5]), cls=cls, times=1 if quick else 2), require=('called',), split=2,
                          bounds='two conditions with any pair of ' + ', '.join(_KINDS)))
    names = list(VALUES)
    for j, cls in enumerate(('Condition', 'While', 'WhileNot')):
        for ns in ([names[:3], ['hostile', "''", '[]'], ['None', 'function', '()']][j:j + 1] if quick else
                   [names[:4], ['None', '[]', '{}', '()'], ['0', 'condition', 'hostile', 'function', 'class']]):
            js.append(Job(values, dict(cls=cls, names=ns), require=('values',), split=2, bounds='argument values that are falsy, None, or can not be compared'))
    for where in ('node', 'update', 'sequence'):
        js.append(Job(in_run, dict(where=where, npasses=2 if where == 'node' else 1), require=('called',), split=3, bounds='keyword arguments of run'))
    return js


CHECKS = [
    Check('C23', jobs23, outside='positional-only parameters, functions that cannot be called with the given arguments or have no signature; different callables that compare equal but accept other arguments'),
]
