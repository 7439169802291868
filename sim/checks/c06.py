"""C06: nothing user code or hostile data does makes the library panic, crash, hang or corrupt the interpreter."""
import gc
import json
import os
import pickle
import re

import core
import driver
import gen
import ops

pc = core.pc
EXCS = ('value_error', 'assertion_error', 'custom_error', 'type_error', 'runtime_error', 'key_error', 'attribute_error',
        'keyboard_interrupt', 'memory_error', 'stop_iteration', 'recursion_error', 'base_exc', 'omit', 'use_default',
        'unexpected_value', 'ser_error', 'validation_error') + core.ODD_EXCS
DUNDERS = ('__eq__', '__hash__', '__len__', '__iter__', '__getitem__', '__contains__', '__str__', '__repr__', '__bool__',
           '__int__', '__float__', '__index__', '__class__', 'keys', 'items', 'values', '__length_hint__', '__getattribute__',
           '__getattr__', '__lt__', '__deepcopy__', '__dict__', '__call__', '__next__', 'utcoffset', 'value', 'as_tuple',
           '__pydantic_serializer__', '__pydantic_fields_set__', '__pydantic_extra__', '__dataclass_fields__', 'get',
           '__format__', 'total_seconds', 'isoformat', '__round__', '__mod__', '__trunc__', 'strftime', 'year', 'hex',
           'is_integer', 'real', 'imag', 'days', 'start', 'args', '__fspath__', 'name', 'decode', 'is_nan', '__neg__')
ODD = (None, True, 0, -1, 1.5, 'x', [], {}, [1], {'$': 'tuple', 'v': []}, {'$': 'tuple', 'v': [1, 2]}, {'$': 'bytes', 'v': '\xff'},
       {'$': 'big', 'v': '99999999999999999999999'}, {'$': 'big', 'v': '4611686018427387904'},
       {'$': 'big', 'v': '2000000000000'}, {'$': 'big', 'v': '-9223372036854775808'}, {'$': 'undefined'}, {'$': 'f', 'v': 'nan'}, {'$': 'dict', 'v': [[1, 2]]},
       {'$': 'gen', 'v': [1]}, '\ud800', '', {'$': 'set', 'v': [1]}, {'$': 'cls', 'v': 'Plain'}, {'$': 'self'},
       {'$': 'argskwargs', 'a': [1], 'k': {}}, {'$': 'some', 'v': 1}, {'$': 'strsub', 'v': 's'}, {'$': 'td', 'v': 10**9},
       '\U0001f600' * 40, 'ab' + '\U0001f600\xe9' * 40, 'a' + '\U0001f600' * 40)
LENS = (0, 1, -1, 70000, {'$': 'big', 'v': '4611686018427387904'}, {'$': 'big', 'v': '2000000000000'}, 'x', None, 1.5, True)
MUT = ('clear', 'grow', 'shrink', 'replace', 'swap')


class C06(driver.Check):
    pid = 'C06'
    runs = {'quick': 16000, 'thorough': 1500000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = 1-2 schemas of any type, 1-4 operations of any kind, hostile objects planted in the inputs (special '
            'methods and attributes that raise, return nonsense or act only on the k-th use), and faults at user '
            'callbacks: exceptions, nonsense return values, mutation of any container of the input while the library '
            'is in it, collections, nested calls; results and errors are then inspected (repr, str, errors(), json(), '
            'pickle, iteration). Violation: a rust panic, a signal, a SystemError, or 40 s of CPU; distinct = distinct '
            '(schema types, operation outcomes, traps and faults that fired)')
    assumptions = ['stack overflow through unbounded recursion of hostile code itself is excluded (call depth is capped)']

    def gen(self, rng, i, tier):
        if rng.random() < 0.2:
            return self.changing(rng)
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.4]), fn_rate=rng.choice([0.1, 0.25, 0.5]),
                    max_depth=rng.choice([1, 2, 3]))
        g.classes['Plain'] = {'kind': 'plain'}
        entries = [g.entry() for _ in range(rng.choice([1, 1, 2]))]
        og = ops.OpGen(g, entries, share=0.2)
        hrate = rng.choice([0, 0.1, 0.3, 0.6])
        th = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            sp = ops.add_faults(g, og.op(), rng.choice([0, 0.3, 0.5]))
            f = sp.setdefault('faults', {})
            while g.p(0.35):
                n = str(min(10, int(rng.expovariate(0.4))))
                r = rng.random()
                if r < 0.4:
                    f[n] = {'k': 'return', 'v': g.one(ODD)}
                elif r < 0.75:
                    f[n] = {'k': 'mutate', 'i': rng.randrange(12), 'a': g.one(MUT)}
                elif r < 0.85:
                    f[n] = {'k': 'nested', 'op': og.op()}
                elif r < 0.9:
                    f[n] = {'k': 'drop'}
                else:
                    f[n] = {'k': 'raise', 'e': g.one(EXCS)}
            if 'in' in sp:
                sp['in'] = self.hostile(g, sp['in'], hrate)
            if 'val' in sp:
                sp['val'] = self.hostile(g, sp['val'], hrate)
            kw = sp.get('kw') or {}
            for a in ('include', 'exclude', 'context'):
                if a in kw:
                    kw[a] = self.hostile(g, kw[a], hrate / 2)
            th.append(sp)
        inputs = [self.hostile(g, x, hrate) for x in og.inputs]
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': inputs, 'threads': [th]}

    def changing(self, rng):
        """User code changes the containers the library is working on, and nothing else is odd."""
        g = gen.Gen(rng, ser_rate=0.6, fn_rate=0.6, max_depth=rng.choice([1, 2]), reject_rate=0)
        g.classes['Plain'] = {'kind': 'plain'}
        infer = g.p(0.3)
        entries = [{'s': {'type': 'any'}} if infer else g.entry()]
        og = ops.OpGen(g, entries, share=0)
        if infer:
            sp = g.one([{'k': 'to_json', 'kw': {}}, {'k': 'to_jsonable', 'kw': {}},
                        {'k': 'ser', 'v': 0, 'm': 'json', 'kw': {}}, {'k': 'ser', 'v': 0, 'm': 'python', 'kw': {'mode': 'json'}}])
            sp['in'] = self.unknown(g, 0)
            sp['kw']['fallback'] = g.fn('fallback', beh=['str'])['$fn']
        else:
            sp = og.op(0, kinds=[g.one(['python', 'strings', 'ser', 'serjson', 'init', 'assign'])])
        sp['faults'] = {str(g.one([0, 0, 1, 1, 2, 3, 4])): {'k': 'mutate', 'i': rng.randrange(5), 'a': g.one(MUT)}
                        for _ in range(g.one([1, 1, 2]))}
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [[sp]]}

    def unknown(self, g, depth):
        if depth and (depth > 2 or g.p(0.5)):
            return {'$': 'obj', 'v': {}}
        n = g.rng.randint(1, 3)
        xs = [self.unknown(g, depth + 1) for _ in range(n)]
        r = g.rng.random()
        if r < 0.35:
            return xs
        if r < 0.8:
            return {'k%d' % i: x for i, x in enumerate(xs)}
        if r < 0.9:
            return {'$': 'set', 'v': [{'$': 'obj', 'v': {}} for _ in xs]}
        return {'$': 'dict', 'v': [[{'$': 'obj', 'v': {}}, x] for x in xs]}

    def hostile(self, g, v, rate):
        if isinstance(v, dict) and set(v) == {'shared'}:
            return v
        if isinstance(v, list):
            v = [self.hostile(g, x, rate) for x in v]
        elif isinstance(v, dict):
            t = v.get('$')
            if t is None:
                v = {k: self.hostile(g, x, rate) for k, x in v.items()}
            elif t in ('tuple', 'set', 'frozenset', 'gen', 'iter', 'deque') and isinstance(v.get('v'), list):
                v = {**v, 'v': [self.hostile(g, x, rate) for x in v['v']]}
            elif t in ('dict', 'mapping'):
                v = {**v, 'v': [[self.hostile(g, k, rate / 2), self.hostile(g, x, rate)] for k, x in v['v']]}
            elif t in ('obj', 'inst'):
                v = {**v, 'v': {k: self.hostile(g, x, rate) for k, x in v['v'].items()}}
                if t == 'inst' and g.p(rate / 3):
                    v['fs'] = g.one([[], ['zz'], ['a', 'b']])
                    v['x'] = g.one([None, {}, {'q': 1}, 5, []])
                if t == 'inst' and g.p(rate / 4):
                    v['raw'] = g.one(['nofs', 'noextra', 'badfs', 'nodict'])
        if g.p(rate * 0.5):
            return {'$': 'hostile', 'v': v, 'plain': g.p(0.2), 'traps': self.traps(g)}
        if g.p(rate * 0.1):
            return g.one(ODD)
        return v

    def traps(self, g):
        out = []
        if g.p(0.2):
            # an iterator or container whose protocol is complete but lies
            n = g.one([0, 0, 1, 3])
            out = [{'d': '__iter__', 'a': ['ret', {'$': 'self'}], 'n': 0},
                   {'d': '__next__', 'a': g.one([['raise', 'stop_iteration'], ['raise', g.one(EXCS)], ['ret', g.one(ODD)]]), 'n': n},
                   {'d': g.one(['__len__', '__length_hint__']), 'a': ['ret', g.one(LENS)], 'n': g.one([0, 0, 1])}]
            for d in ('__getitem__', '__contains__', 'keys', 'items'):
                if g.p(0.3):
                    out.append({'d': d, 'a': g.one([['raise', g.one(EXCS)], ['ret', g.one(ODD)]]), 'n': g.one([0, 1])})
            return out
        for d in g.rng.sample(DUNDERS, g.rng.choice([1, 1, 2, 4, 8])):
            r = g.rng.random()
            a = (['raise', g.one(EXCS)] if r < 0.45 else ['ret', g.one(ODD)] if r < 0.8 else
                 ['mutate', g.rng.randrange(12), g.one(MUT)] if r < 0.9 else ['gc'] if r < 0.93 else ['nested'])
            out.append({'d': d, 'a': a, 'n': g.one([0, 0, 0, 1, 2, 5])})
        return out

    def run(self, case):
        fd = os.memfd_create('stderr')
        try:
            st, v = core.forked(lambda: run_case(case, fd))
            os.lseek(fd, 0, 0)
            text = os.read(fd, 1 << 16).decode('utf-8', 'replace')
        finally:
            os.close(fd)
        if st == 'error':
            raise core.HarnessError(v)
        panic = re.search(r'panicked at ([^\n]*)\n([^\n]*)', text)
        if panic:
            return {'viol': ['panic', '%s %s' % (panic.group(1), panic.group(2)[:300]), None], 'stats': {}, 'trace': ['panic']}
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


class Hostile(core.World):
    depth = 0

    def __init__(self, case):
        super().__init__(case)
        self.live = []
        self.trapped = []

    def call_fn(self, fid, role, v, handler, info):
        return super().call_fn(fid, role, v, handler, info)

    def mutate(self, i, a):
        if not self.live:
            return
        x = self.live[i % len(self.live)]
        try:
            if isinstance(x, list):
                {'clear': x.clear, 'grow': lambda: x.extend([1, 'm', None] * 40), 'shrink': lambda: x.pop(),
                 'replace': lambda: x.__setitem__(0, object()), 'swap': lambda: x.reverse()}[a]()
            elif isinstance(x, dict):
                {'clear': x.clear, 'grow': lambda: x.update({'m%d' % k: k for k in range(60)}),
                 'shrink': lambda: x.popitem(), 'replace': lambda: x.update({k: object() for k in list(x)}),
                 'swap': lambda: x.update({list(x)[0]: x.pop(list(x)[0])})}[a]()
            elif isinstance(x, set):
                {'clear': x.clear, 'grow': lambda: x.update(range(1000, 1100)), 'shrink': lambda: x.pop(),
                 'replace': lambda: (x.clear(), x.add(77)), 'swap': lambda: x.add('zz')}[a]()
            else:
                d = object.__getattribute__(x, '__dict__')
                {'clear': d.clear, 'grow': lambda: d.update({'m%d' % k: k for k in range(60)}),
                 'shrink': lambda: d.popitem(), 'replace': lambda: d.update({k: object() for k in list(d)}),
                 'swap': lambda: object.__setattr__(x, '__pydantic_fields_set__', None)}[a]()
        except Exception:  # noqa: BLE001
            pass

    def hostile(self, s, defs):
        w = self
        x = core.mat(s['v'], w, defs)
        base = type(x)
        ns = {'_sim_opaque': True}
        counts = {}
        for t in s.get('traps') or []:
            if 'd' not in t or not t.get('a'):
                continue
            ns[t['d']] = self.trap(t, base, counts)
        if s.get('plain'):
            base = object
        try:
            if base in (bool, type(None), type(Ellipsis)) or base is object:
                c = type('Hostile', (object,), ns)
                return self.register(c())
            c = type('Hostile', (base,), {k: v for k, v in ns.items() if not (k == '__dict__' and base is object)})
            if getattr(base, '_sim_obj', False) or getattr(base, '_sim_model', False) or getattr(base, '_sim_dc', False):
                o = c.__new__(c)
                for k, v in object.__getattribute__(x, '__dict__').items():
                    try:
                        object.__setattr__(o, k, v)
                    except Exception:  # noqa: BLE001
                        pass
                for k in ('__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'):
                    try:
                        object.__setattr__(o, k, getattr(x, k))
                    except Exception:  # noqa: BLE001
                        pass
                return self.register(o)
            if base.__name__ in ('datetime', 'date', 'time'):
                o = c.fromisoformat(x.isoformat())
            elif base.__name__ == 'timedelta':
                o = c(seconds=x.total_seconds())
            elif base.__name__ == 'UUID':
                o = c(str(x))
            else:
                o = c(x)
            return self.register(o)
        except core.HarnessError:
            raise
        except BaseException:  # noqa: BLE001
            return x

    def register(self, o):
        self.live.append(o)
        self.keep.append(o)
        return o

    def trap(self, t, base, counts):
        w = self
        d = t['d']

        def act(self_, *a, **k):
            n = counts[d] = counts.get(d, 0) + 1
            if n <= t.get('n', 0) or w.depth > 3:
                f = getattr(base, d, None)
                if f is None:
                    raise AttributeError(d)
                if not callable(f):
                    return f.__get__(self_)
                return f(self_, *a, **k)
            if len(w.trapped) < 200:
                w.trapped.append([d, t['a'][0]])
            if len(w.trapped) == 200:
                w.overflow = True
                raise core.SimLimit('traps')
            w.stat('fault:trap:' + t['a'][0])
            kind = t['a'][0]
            if kind == 'raise':
                raise core.make_exc(t['a'][1], 'trap')
            if kind == 'ret':
                v = t['a'][1]
                return self_ if isinstance(v, dict) and v.get('$') == 'self' else core.mat(v, w)
            w.depth += 1
            try:
                if kind == 'mutate':
                    w.mutate(t['a'][1], t['a'][2])
                elif kind == 'gc':
                    gc.collect()
                elif kind == 'nested':
                    w.nested(self_)
            finally:
                w.depth -= 1
            f = getattr(base, d, None)
            if f is None:
                raise AttributeError(d)
            return f(self_, *a, **k) if callable(f) else f.__get__(self_)

        if d in ('__class__', '__dict__', 'value', '__pydantic_serializer__', '__pydantic_fields_set__', '__pydantic_extra__',
                 '__dataclass_fields__', 'year', 'real', 'imag', 'days', 'start', 'args', 'name'):
            return property(act)
        return act

    def nested(self, x):
        for v in list(self.validators.values())[:2]:
            try:
                v.validate_python(x)
            except core.SimLimit:
                raise
            except BaseException as e:  # noqa: BLE001
                if core.is_panic(e):
                    raise
        try:
            pc.to_json(x)
        except core.SimLimit:
            raise
        except BaseException as e:  # noqa: BLE001
            if core.is_panic(e):
                raise


def poke(w, x, depth=0):
    """Everything a caller does with what it got."""
    def t(f):
        try:
            return f()
        except core.SimLimit:
            raise
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, SystemError):
                w.system.append(str(e))
            return None

    if isinstance(x, pc.ValidationError):
        for f in (str, repr, lambda e: e.errors(), lambda e: e.errors(include_url=False, include_context=False, include_input=False),
                  lambda e: e.json(), lambda e: e.json(include_input=False, indent=1), lambda e: e.error_count(),
                  lambda e: e.title, pickle.dumps, lambda e: e.__cause__):
            t(lambda: f(x))
    elif isinstance(x, BaseException):
        t(lambda: str(x))
        t(lambda: repr(x))
    else:
        t(lambda: repr(x))
        if type(x).__name__ in ('Url', 'MultiHostUrl', 'ArgsKwargs', 'Some'):
            t(lambda: hash(x))
            t(lambda: x == x)
        if depth < 3 and type(x) in (list, tuple, dict):
            for y in (x.values() if type(x) is dict else x):
                poke(w, y, depth + 1)


def run_case(case, fd):
    os.dup2(fd, 2)
    w = Hostile(case)
    w.system = []
    core.install_warnings(w)
    core.Mat.norm_off = True
    core.Mat.hook = w.register
    try:
        ops.prebuild(w, ops.used_schemas(case))
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    w.hooks['mutate'] = lambda op, n, f, fid, point, ctl: w.mutate(f['i'], f['a'])

    def drop(op, n, f, fid, point, ctl):
        w.validators.clear()
        w.serializers.clear()
        gc.collect()

    w.hooks['drop'] = drop
    sig = []
    for j, spec in enumerate(case['threads'][0]):
        op = core.Op(spec, '#%d#' % j)
        op.limit = 400
        w.stack().append(op)
        w.stat('op:' + spec['k'] + ':' + str(spec.get('m', '')))
        r = None
        try:
            r = core.drain(w, op, core.run_call(w, op, spec))
            out = 'ok'
        except (core.HarnessError, core.SimLimit) as e:
            if isinstance(e, core.HarnessError):
                raise
            out = 'limit'
        except BaseException as e:  # noqa: BLE001
            out = type(e).__name__
            if isinstance(e, SystemError):
                w.system.append(str(e))
            e.__traceback__ = None
            r = e
        try:
            poke(w, r)
        except core.SimLimit:
            pass
        finally:
            w.stack().pop()
        sig.append([spec['k'], spec.get('m'), out, op.n, op.fired])
        w.stat('outcome:' + ('ok' if out == 'ok' else 'raise'))
    r = e = op = None
    gc.collect()
    viol = None
    if w.system:
        viol = ['system-error', w.system[0][:300], None]
    return {'viol': viol, 'stats': w.stats, 'trace': [sig, w.trapped],
            'state': [core.digest([sorted(ops.types_in(case['schemas'])), sig, w.trapped])]}


CHECK = C06()
