"""Simulator core: worlds (schemas, classes and callbacks built from plain JSON), operations, the seeded baton
scheduler, fault points, outcome normalisation and forked executions.

Everything a run does is a function of one JSON `case`: schedules and faults are part of it, so a case *is* the replay
file.  Real pydantic-core code runs on real threads, but only one thread is ever runnable: control changes hands only
at `World.fire` (the callbacks, iterators and attribute accesses through which the library reaches user code), and who
continues is read from the case's schedule.
"""
import collections.abc
import contextlib
import dataclasses
import datetime
import decimal
import enum
import gc
import json
import os
import pathlib
import pickle
import re
import resource
import select
import signal
import sys
import threading
import traceback
import uuid
import warnings

import pydantic_core as pc
from pydantic_core import core_schema  # noqa: F401

FAULTS_VALUE = ('value_error', 'assertion_error', 'custom_error', 'known_error', 'validation_error')
FAULTS_FATAL = (
    'type_error',
    'runtime_error',
    'key_error',
    'attribute_error',
    'os_error',
    'keyboard_interrupt',
    'system_exit',
    'memory_error',
    'stop_iteration',
    'generator_exit',
    'recursion_error',
    'base_exc',
)
FAULTS_SIGNAL = ('omit', 'use_default')


ADDR = re.compile(r'0x[0-9a-f]*|(?<=\.\.\.)[0-9a-f]+(?=>)')


class SimBase(BaseException):
    pass


class SimError(Exception):
    pass


class SimLimit(BaseException):
    """A run left its step budget: the case is discarded."""


class HarnessError(Exception):
    """The simulator itself is wrong."""


ODD_EXCS = ('surrogate_text', 'assert_surrogate', 'unprintable', 'long_text', 'empty', 'odd_custom', 'odd_name')


def odd_exc(kind):
    if kind == 'surrogate_text':
        return ValueError('sim \ud800 text')
    if kind == 'assert_surrogate':
        return AssertionError('\udfff')
    if kind == 'long_text':
        return ValueError('a' + '\U0001f600\xe9' * 3000)
    if kind == 'empty':
        return ValueError()
    if kind == 'odd_custom':
        return pc.PydanticCustomError('sim {a', '{a} {b} } { {c}', {'a': object(), 'b': 10**30, 'c': '\ud800'})
    if kind == 'odd_name':
        return type('\xe9' * 60, (AssertionError,), {'__module__': 5})('x')

    class Unprintable(ValueError):
        def __str__(self):
            raise KeyError('sim')

        __repr__ = __str__

    return Unprintable('x')


def make_exc(kind, tag):
    if kind == 'value_error':
        return ValueError('sim %s' % tag)
    if kind == 'assertion_error':
        return AssertionError('sim %s' % tag)
    if kind == 'custom_error':
        return pc.PydanticCustomError('sim_custom', 'sim {tag}', {'tag': tag})
    if kind == 'known_error':
        return pc.PydanticKnownError('greater_than', {'gt': 42})
    if kind == 'validation_error':
        try:
            pc.SchemaValidator({'type': 'tuple', 'items_schema': [{'type': 'int'}, {'type': 'int'}]}).validate_python(
                ('xx', 'yy')
            )
        except pc.ValidationError as e:
            return e.with_traceback(None)
    if kind == 'omit':
        return pc.PydanticOmit()
    if kind == 'use_default':
        return pc.PydanticUseDefault()
    if kind in ODD_EXCS:
        return odd_exc(kind)
    cls = {
        'type_error': TypeError,
        'runtime_error': RuntimeError,
        'key_error': KeyError,
        'attribute_error': AttributeError,
        'os_error': OSError,
        'keyboard_interrupt': KeyboardInterrupt,
        'system_exit': SystemExit,
        'memory_error': MemoryError,
        'stop_iteration': StopIteration,
        'generator_exit': GeneratorExit,
        'recursion_error': RecursionError,
        'base_exc': SimBase,
        'sim_error': SimError,
        'unexpected_value': pc.PydanticSerializationUnexpectedValue,
        'ser_error': pc.PydanticSerializationError,
        'unicode_error': None,
    }[kind]
    return cls('sim %s' % tag)


# ------------------------------------------------------------------------------------------------ normalisation

_ATOM = (type(None), bool, int, str)


def is_panic(e):
    return type(e).__name__ == 'PanicException'


def scrub(v):
    """Debugging reprs carry addresses and hash-map orders."""
    if 'Iterator(' in v or 'Iter...' in v:
        return '<iterator repr>'
    if '0x' in v or '...' in v:
        return ADDR.sub('0x', v)
    return v


def norm(v, w=None, stack=(), depth=0):
    """A JSON-able, address-free, exact-type description of a value."""
    if Mat.norm_off:
        return None
    if w is not None:
        lab = w.labels.get(id(v))
        if lab is not None:
            return ['@', lab]
    t = type(v)
    if t in _ATOM:
        if t is int and (v > 10**15 or v < -(10**15)):
            return ['bigint', hex(v)]
        return scrub(v) if t is str else v
    if t is float:
        return ['f', repr(v)]
    if v is pc.PydanticUndefined:
        return ['Undefined']
    if id(v) in stack:
        return ['cycle', len(stack) - stack.index(id(v))]
    if depth > 80:
        return ['deep']
    st = stack + (id(v),)
    d = depth + 1
    if t is list:
        return ['list', [norm(x, w, st, d) for x in v]]
    if t is tuple:
        return ['tuple', [norm(x, w, st, d) for x in v]]
    if t is dict:
        return ['dict', [[norm(k, w, st, d), norm(x, w, st, d)] for k, x in v.items()]]
    if t in (set, frozenset):
        return [t.__name__, sorted((norm(x, w, st, d) for x in v), key=lambda x: json.dumps(x))]
    if t in (bytes, bytearray):
        r = bytes(v).decode('latin-1')
        return [t.__name__, scrub(r)]
    if t in (datetime.datetime, datetime.date, datetime.time, datetime.timedelta, decimal.Decimal, uuid.UUID, complex):
        return [t.__name__, repr(v)]
    if isinstance(v, pc.ValidationError):
        try:
            errs = v.errors(include_url=False)
        except BaseException as e:  # noqa: BLE001
            return ['ValidationError', v.title, 'errors() raised', norm_exc(e, w, depth=d)]
        return [
            'ValidationError',
            v.title,
            [
                [e['type'], norm(e['loc'], w, st, d), e['msg'], norm(e['input'], w, st, d), norm(e.get('ctx'), w, st, d)]
                for e in errs
            ],
        ]
    if isinstance(v, BaseException):
        return norm_exc(v, w, st, d)
    if isinstance(v, type):
        return ['type', v.__name__]
    if t is pc.ArgsKwargs:
        return ['ArgsKwargs', norm(v.args, w, st, d), norm(v.kwargs, w, st, d)]
    if t in (pc.Url, pc.MultiHostUrl):
        return [t.__name__, str(v)]
    if t is pc.Some:
        return ['Some', norm(v.value, w, st, d)]
    if isinstance(v, enum.Enum):
        return ['enum', t.__name__, v.name]
    tn = t.__name__
    if tn in ('ValidatorIterator', 'SerializationIterator', 'SerializationCallable', 'ValidatorCallable'):
        return ['opaque', tn]
    if getattr(t, '_sim_model', False):
        out = [tn]
        for a in (
            '__dict__',
            '__pydantic_fields_set__',
            '__pydantic_extra__',
            '__pydantic_private__',
        ):
            try:
                out.append(norm(getattr(v, a), w, st, d))
            except AttributeError:
                out.append(['unset'])
        return out
    if getattr(t, '_sim_dc', False):
        if hasattr(v, '__dict__'):
            return [tn, norm(v.__dict__, w, st, d)]
        return [tn, [[f, norm(getattr(v, f), w, st, d) if hasattr(v, f) else ['unset']] for f in t._sim_dc]]
    if getattr(t, '_sim_obj', False):
        return [tn, norm(object.__getattribute__(v, '__dict__'), w, st, d)]
    if getattr(t, '_sim_opaque', False):
        return ['opaque', tn]
    for b in (str, int, float, bytes, list, tuple, dict):
        if isinstance(v, b):
            return ['sub', tn, norm(b(v) if b is not dict else dict(v), w, st, d)]
    if callable(v) and hasattr(v, '__name__'):
        return ['callable', v.__name__]
    r = repr(v)
    if ' at 0x' in r or '0x' in r:
        return ['opaque', tn]
    return [tn, r[:300]]


def norm_exc(e, w=None, st=(), depth=0):
    if w is not None:
        lab = w.labels.get(id(e))
        if lab is not None:
            return ['@', lab]
    if isinstance(e, pc.ValidationError):
        return norm(e, w, st, depth)
    if is_panic(e):
        return ['PANIC', str(e)[:300]]
    try:
        args = norm(e.args, w, st, depth + 1)
    except Exception as x:  # noqa: BLE001
        args = ['args?', type(x).__name__]
    if isinstance(e, (pc.PydanticSerializationError, pc.SchemaError, pc.PydanticSerializationUnexpectedValue)):
        args = norm(str(e))[:600]
    out = ['exc', type(e).__name__, args]
    if e.__cause__ is not None:
        out.append(['cause', norm_exc(e.__cause__, w, st, depth + 1) if depth < 6 else '...'])
    return out


# ------------------------------------------------------------------------------------------------ scheduler


def _plain_repr(self):
    return '<%s instance>' % type(self).__name__


class Sched:
    """Baton passing over real threads.  `choices[i]` decides the i-th scheduling point: 0 = carry on, k = the k-th
    other runnable thread (in cyclic order)."""

    def __init__(self, choices=(), max_points=20000):
        self.choices = list(choices)
        self.pos = 0
        self.points = 0
        self.max_points = max_points
        self.locks = []
        self.alive = []
        self.cur = 0
        self.trace = []
        self.switches = 0
        self.done = threading.Lock()
        self.done.acquire()
        self.active = False

    def run(self, fns):
        n = len(fns)
        if n == 1:
            fns[0]()
            return
        self.active = True
        self.alive = list(range(n))
        self.locks = [threading.Lock() for _ in range(n)]
        for lk in self.locks:
            lk.acquire()
        errs = []

        def body(i, fn):
            self.locks[i].acquire()
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                errs.append((i, e, traceback.format_exc()))
            finally:
                self._finish(i)

        ths = [threading.Thread(target=body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in ths:
            t.start()
        self.cur = self._pick([*self.alive])
        self.locks[self.cur].release()
        self.done.acquire()
        for t in ths:
            t.join()
        self.active = False
        if errs:
            raise HarnessError('thread %d: %s' % (errs[0][0], errs[0][2]))

    def _pick(self, order):
        c = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        return order[c % len(order)]

    def _finish(self, i):
        self.alive.remove(i)
        if not self.alive:
            self.done.release()
            return
        order = [a for a in self.alive if a > i] + [a for a in self.alive if a < i]
        self.cur = self._pick(order)
        self.locks[self.cur].release()

    def point(self, tag=None):
        if not self.active:
            return
        self.points += 1
        if self.points > self.max_points:
            return
        me = self.cur
        if tag is not None:
            self.trace.append((me, tag))
        if len(self.alive) == 1:
            return
        order = [me] + [a for a in self.alive if a > me] + [a for a in self.alive if a < me]
        nxt = self._pick(order)
        if nxt != me:
            self.switches += 1
            self.cur = nxt
            self.locks[nxt].release()
            self.locks[me].acquire()
            self.cur = me


# ------------------------------------------------------------------------------------------------ world


class Op:
    """One call into the library: its own callback ordinal counter, faults and log."""

    def __init__(self, spec, key):
        self.spec = spec
        self.key = key
        self.n = 0
        self.faults = spec.get('faults') or {}
        self.log = []
        self.raised = []
        self.fired = []
        self.warnings = []
        self.result = None
        self.nested = []
        self.limit = 3000


class SimObj:
    """An attribute object whose attribute reads are fault points."""

    _sim_obj = True

    def __init__(self, w, d, watch):
        self.__dict__.update(d)
        object.__setattr__(self, '_sim', None)
        del self.__dict__['_sim']
        if watch:
            type(self)._w = w


def _attr_class(w):
    class Obj:
        _sim_obj = True

        def __getattribute__(self, name):
            if name[:2] == '__' or name in ('_sim_obj',):
                return object.__getattribute__(self, name)
            w.fire('obj', 'getattr:' + name)
            return object.__getattribute__(self, name)

    return Obj


class SimMapping(collections.abc.Mapping):
    _sim_opaque = True

    def __init__(self, w, items):
        self._w = w
        self._d = dict(items)

    def __getitem__(self, k):
        self._w.fire('map', 'getitem')
        return self._d[k]

    def __iter__(self):
        for k in list(self._d):
            self._w.fire('map', 'iter')
            yield k

    def __len__(self):
        return len(self._d)


def sim_gen(w, items, tail=None):
    for i, x in enumerate(items):
        w.fire('gen', 'next:%d' % i)
        yield x
    w.fire('gen', 'end')
    if tail is not None:
        raise make_exc(tail, 'gen-tail')


class GenIter:
    """A re-usable iterator object with fault points and no generator semantics (it can be called after failing)."""

    _sim_opaque = True

    def __init__(self, w, items):
        self.w = w
        self.items = items
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.w.fire('gen', 'next:%d' % self.i)
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]


class SimCallable:
    _sim_opaque = True

    def __init__(self, w, fid):
        self.w, self.fid = w, fid

    def __call__(self, *a, **k):
        return self.w.call_fn(self.fid, 'iterfn', a[0] if a else None, None, None)

    def __repr__(self):
        return '<callable %s>' % self.fid


class StrSub(str):
    pass


class IntSub(int):
    pass


class World:
    def __init__(self, case, sched=None):
        self.case = case
        self.sched = sched or Sched()
        self.labels = {}
        self.keep = []
        self.ops = threading.local()
        self.classes = {}
        self.fns = {}
        self.validators = {}
        self.serializers = {}
        self.shared_inputs = {}
        self.sentinels = {}
        self.stats = {}
        self.hooks = {}
        self.probe = None
        self.global_log = []
        self.mutables = {}
        self.overflow = False
        self.reference = False
        self._obj_cls = _attr_class(self)
        for name in case.get('classes') or {}:
            self.cls(name)

    # -- labels ------------------------------------------------------------------------------------------------
    def label(self, obj, lab):
        self.labels[id(obj)] = lab
        self.keep.append(obj)
        return obj

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- operations stack --------------------------------------------------------------------------------------
    def stack(self):
        s = getattr(self.ops, 's', None)
        if s is None:
            s = self.ops.s = []
        return s

    def cur(self):
        s = self.stack()
        return s[-1] if s else None

    # -- fault point -------------------------------------------------------------------------------------------
    def fire(self, fid, point, payload=None, ctl=None):
        op = self.cur()
        if op is None:
            return None
        n = op.n
        op.n += 1
        if op.n > op.limit:
            self.overflow = True
            raise SimLimit('callback limit')
        op.log.append([fid, point, payload] if self.probe is None else [fid, point, payload, self.probe()])
        self.sched.point((op.key, n))
        f = op.faults.get(str(n))
        if f is None:
            return None
        return self.do_fault(op, n, f, fid, point, ctl)

    def do_fault(self, op, n, f, fid, point, ctl):
        kind = f['k']
        self.stat('fault:' + (kind if kind != 'raise' else f['e']))
        op.fired.append([n, kind, f.get('e')])
        if kind == 'raise':
            e = make_exc(f['e'], '%s|%d' % (op.key, n))
            self.label(e, 'raised|%s|%d|%s' % (op.key, n, f['e']))
            op.raised.append((n, f['e'], e, fid, point))
            raise e
        if kind == 'gc':
            if not self.reference:
                gc.collect(f.get('g', 2))
            return None
        if kind == 'nested':
            if self.reference:
                return None
            do_op(self, f['op'], '#%s.%d#' % (op.key.strip('#'), n), parent=op)
            return None
        if kind == 'return':
            return ('return', mat(f['v'], self))
        h = self.hooks.get(kind)
        if h is None:
            raise HarnessError('fault kind %r' % kind)
        return h(op, n, f, fid, point, ctl)

    # -- classes -----------------------------------------------------------------------------------------------
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            c = self.classes[name] = self._make_cls(name, self.case['classes'][name])
            self.keep.append(c)
        return c

    def _make_cls(self, name, spec):
        w = self
        k = spec['kind']
        base = self.cls(spec['base']) if spec.get('base') else None
        if k == 'model':
            ns = {'_sim_model': True, '__module__': 'sim', '__qualname__': name, '__repr__': _plain_repr}
            if base is None:
                ns['__slots__'] = (
                    '__dict__',
                    '__pydantic_fields_set__',
                    '__pydantic_extra__',
                    '__pydantic_private__',
                    '__weakref__',
                )
            if spec.get('post_init') is not None:
                fid = spec['post_init']

                def model_post_init(self_, ctx, fid=fid):
                    w.call_fn(fid, 'post_init', self_ if ctx is None else (self_, ctx), None, None)

                ns['model_post_init'] = model_post_init
            if spec.get('custom_init'):

                def __init__(self_, **data):
                    w.fire('init', 'custom_init')
                    self_.__pydantic_validator__.validate_python(data, self_instance=self_)

                ns['__init__'] = __init__
            for pn, fid in (spec.get('props') or {}).items():
                ns[pn] = property(lambda self_, fid=fid, pn=pn: w.call_fn(fid, 'prop', self_, None, None))
            if spec.get('methods'):
                for mn, fid in spec['methods'].items():
                    ns[mn] = self.fn(fid)
            return type(name, (base or object,), ns)
        if k == 'dataclass':
            ns = {'_sim_dc': tuple(spec['fields']), '__module__': 'sim', '__qualname__': name}
            if spec.get('post_init') is not None:
                fid = spec['post_init']

                def __post_init__(self_, *a, fid=fid):
                    w.call_fn(fid, 'post_init', (self_, a) if a else self_, None, None)

                ns['__post_init__'] = __post_init__
            for pn, fid in (spec.get('props') or {}).items():
                ns[pn] = property(lambda self_, fid=fid, pn=pn: w.call_fn(fid, 'prop', self_, None, None))
            c = dataclasses.make_dataclass(
                name,
                [(f, object) for f in spec['fields']],
                bases=(base,) if base else (),
                namespace=ns,
                slots=bool(spec.get('slots')),
                frozen=bool(spec.get('frozen')),
                eq=False,
            )
            return c
        if k == 'enum':
            bases = {'str': (str, enum.Enum), 'int': (enum.IntEnum,), 'flag': (enum.Flag,)}.get(
                spec.get('mix'), (enum.Enum,)
            )
            mem = [(a, mat(b, self)) for a, b in spec['members']]
            if len(bases) == 2:
                c = enum.Enum(name, mem, type=str, module='sim')
            else:
                c = bases[0](name, mem, module='sim')
            return c
        if k == 'plain':
            return type(name, (base or object,), {'_sim_obj': True, '__module__': 'sim', '__repr__': _plain_repr})
        raise HarnessError(k)

    # -- functions ---------------------------------------------------------------------------------------------
    def fn(self, fid):
        f = self.fns.get(fid)
        if f is None:
            f = self.fns[fid] = self._make_fn(fid, self.case['fns'][str(fid)])
        return f

    def callable_obj(self, fid):
        k = ('callable', fid)
        if k not in self.fns:
            self.fns[k] = SimCallable(self, fid)
        return self.fns[k]

    def _make_fn(self, fid, spec):
        w = self
        role = spec['role']
        if role in ('before', 'after', 'plain', 'ser'):
            if spec.get('method'):
                if spec.get('info'):

                    def f(self_, v, info):
                        return w.call_fn(fid, role, v, None, info)
                else:

                    def f(self_, v):
                        return w.call_fn(fid, role, v, None, None)
            elif spec.get('info'):

                def f(v, info):
                    return w.call_fn(fid, role, v, None, info)
            else:

                def f(v):
                    return w.call_fn(fid, role, v, None, None)
        elif role in ('wrap', 'serwrap'):
            if spec.get('method'):
                if spec.get('info'):

                    def f(self_, v, h, info):
                        return w.call_fn(fid, role, v, h, info)
                else:

                    def f(self_, v, h):
                        return w.call_fn(fid, role, v, h, None)
            elif spec.get('info'):

                def f(v, h, info):
                    return w.call_fn(fid, role, v, h, info)
            else:

                def f(v, h):
                    return w.call_fn(fid, role, v, h, None)
        elif role == 'factory':
            if spec.get('data'):

                def f(data):
                    return w.call_fn(fid, role, dict(data), None, None)
            else:

                def f():
                    return w.call_fn(fid, role, None, None, None)
        elif role in ('disc', 'fallback', 'call', 'iterfn'):

            def f(*a, **k):
                return w.call_fn(fid, role, (a[0] if a else None) if role != 'call' else (a, k), None, None)
        else:
            raise HarnessError(role)
        f.__name__ = f.__qualname__ = 'fn%s' % fid
        f.__module__ = 'sim'
        return f

    def info_norm(self, info):
        out = []
        for a in ('mode', 'field_name', 'context', 'include', 'exclude', 'by_alias', 'exclude_unset', 'round_trip'):
            try:
                x = getattr(info, a)
            except AttributeError:
                continue
            out.append([a, norm(x, self)])
        try:
            out.append(['data', norm(info.data, self)])
        except AttributeError:
            pass
        try:
            c = info.config
            out.append(['config', norm(c.get('title') if isinstance(c, dict) else None)])
        except AttributeError:
            pass
        return out

    def call_fn(self, fid, role, v, handler, info):
        spec = self.case['fns'][str(fid)]
        payload = [norm(v, self)]
        if info is not None:
            payload.append(self.info_norm(info))
        r = self.fire(fid, role, payload, ctl=(v, handler, info))
        if r is not None and r[0] == 'return':
            return r[1]
        beh = spec.get('beh') or ['id']
        b = beh[0]
        if role in ('wrap', 'serwrap'):
            if b in ('call', 'id'):
                out = handler(v)
            elif b == 'tag':
                out = ('W%s' % fid, handler(v))
            elif b == 'twice':
                handler(v)
                out = handler(v)
            elif b == 'catch':
                try:
                    out = handler(v)
                except pc.ValidationError as e:
                    out = ('caught', e.error_count())
            elif b == 'catch_any':
                try:
                    out = handler(v)
                except Exception as e:  # noqa: BLE001
                    out = ('caught', type(e).__name__)
            elif b == 'loc':
                out = handler(v, beh[1])
            elif b == 'skip':
                out = v
            elif b == 'const':
                out = mat(beh[1], self)
            else:
                raise HarnessError(b)
            r = self.fire(fid, role + ':exit', [norm(out, self)], ctl=(out, handler, info))
            if r is not None and r[0] == 'return':
                return r[1]
            return out
        if b == 'id':
            return v
        if b == 'tag':
            return ('T%s' % fid, v)
        if b == 'const':
            return mat(beh[1], self)
        if b == 'reject':
            if _rejects(v):
                e = make_exc(beh[1], 'reject%s' % fid)
                self.label(e, 'reject:%s:%s' % (fid, beh[1]))
                raise e
            return v
        if b == 'add':
            return v + beh[1] if type(v) is int else v
        if b == 'disc':
            if isinstance(v, dict):
                return v.get(beh[1])
            try:
                return getattr(v, beh[1], None)
            except Exception:
                return None
        if b == 'str':
            return 'S' + str(fid)
        if b == 'items':
            return [v]
        if b == 'call':
            return norm(v, self)
        if b == 'data':
            return sorted(v)
        if b == 'undef':
            return pc.PydanticUndefined
        raise HarnessError(b)

    # -- schemas -----------------------------------------------------------------------------------------------
    def schema(self, s):
        if isinstance(s, dict):
            if '$fn' in s:
                return self.fn(s['$fn'])
            if '$cls' in s:
                return self.cls(s['$cls'])
            if '$val' in s:
                return mat(s['$val'], self)
            if '$tuple' in s:
                return tuple(self.schema(x) for x in s['$tuple'])
            if '$set' in s:
                return set(s['$set'])
            if '$pairs' in s:
                return {mat(k, self): self.schema(x) for k, x in s['$pairs']}
            if '$members' in s:
                return list(self.cls(s['$members']).__members__.values())
            return {k: self.schema(x) for k, x in s.items()}
        if isinstance(s, list):
            return [self.schema(x) for x in s]
        return s

    def validator(self, i):
        v = self.validators.get(i)
        if v is None:
            ent = self.case['schemas'][i]
            v = pc.SchemaValidator(self.schema(ent['s']), self.schema(ent.get('config') or None))
            self.validators[i] = v
            if ent.get('attach'):
                self.cls(ent['attach']).__pydantic_validator__ = v
        return v

    def serializer(self, i):
        v = self.serializers.get(i)
        if v is None:
            ent = self.case['schemas'][i]
            v = pc.SchemaSerializer(self.schema(ent['s']), self.schema(ent.get('config') or None))
            self.serializers[i] = v
            if ent.get('attach'):
                self.cls(ent['attach']).__pydantic_serializer__ = v
        return v

    def sentinel(self, n):
        s = self.sentinels.get(n)
        if s is None:
            s = self.sentinels[n] = type('Sentinel', (), {'_sim_opaque': True})()
            self.label(s, 'sentinel%s' % n)
        return s

    def input(self, ref):
        """An input: {'shared': i} is materialised once per world, anything else freshly."""
        if isinstance(ref, dict) and set(ref) == {'shared'}:
            i = ref['shared']
            if i not in self.shared_inputs:
                self.shared_inputs[i] = mat(self.case['inputs'][i], self)
            return self.shared_inputs[i]
        return mat(ref, self)


def _rejects(v):
    if type(v) is int:
        return v < 0
    if isinstance(v, str):
        return v.startswith('bad')
    if isinstance(v, (list, tuple, dict, set, frozenset)):
        return len(v) == 1
    return False


class Mat:
    """`hook` sees every mutable container made; `norm_off` keeps the simulator from touching hostile values."""

    hook = None
    norm_off = False


def swap(x, old, new):
    """Replaces one object inside of another."""
    if isinstance(x, list):
        for i, y in enumerate(x):
            if y is old:
                x[i] = new
            else:
                swap(y, old, new)
    else:
        for k, y in list((x if isinstance(x, dict) else getattr(x, '__dict__', {})).items()):
            if y is old:
                (x if isinstance(x, dict) else x.__dict__)[k] = new
            elif isinstance(y, (list, dict)):
                swap(y, old, new)


class Endless:
    """Every attribute read makes another one, some hundred times in all."""

    _sim_obj = True

    def __init__(self, leaf=None, left=None):
        self.__dict__['_leaf'] = leaf
        self.__dict__['_left'] = left or [600]

    def __getattr__(self, name):
        if name[:1] == '_':
            raise AttributeError(name)
        self._left[0] -= 1
        return self._leaf if name in ('v', 'tag') or self._left[0] < 0 else Endless(self._leaf, self._left)

    __repr__ = _plain_repr


def mat(s, w, defs=None):
    """Materialise a value spec."""
    if not isinstance(s, (dict, list)):
        return s
    if defs is None:
        defs = {}
    if Mat.hook is not None:
        if isinstance(s, list) or s.get('$') in (None, 'dict', 'set', 'obj', 'inst'):
            return Mat.hook(_mat(s, w, defs))
        if s['$'] == 'hostile':
            return w.hostile(s, defs)
    return _mat(s, w, defs)


SUBS = {t: type(t.__name__.title() + 'Sub', (t,), {}) for t in (list, tuple, dict, set, frozenset, float, bytes, bytearray)}


def _mat(s, w, defs):
    if isinstance(s, list):
        return [mat(x, w, defs) for x in s]
    t = s.get('$')
    if t is None:
        return {k: mat(x, w, defs) for k, x in s.items()}
    if t == 'tuple':
        return tuple(mat(x, w, defs) for x in s['v'])
    if t == 'set':
        return {mat(x, w, defs) for x in s['v']}
    if t == 'ellipsis':
        return ...
    if t == 'frozenset':
        return frozenset(mat(x, w, defs) for x in s['v'])
    if t == 'dict':
        return {mat(k, w, defs): mat(x, w, defs) for k, x in s['v']}
    if t == 'bytes':
        return s['v'].encode('latin-1')
    if t == 'f':
        return float(s['v'])
    if t == 'big':
        return int(s['v'])
    if t == 'dt':
        return datetime.datetime.fromisoformat(s['v'])
    if t == 'date':
        return datetime.date.fromisoformat(s['v'])
    if t == 'time':
        return datetime.time.fromisoformat(s['v'])
    if t == 'td':
        return datetime.timedelta(seconds=s['v'])
    if t == 'dec':
        return decimal.Decimal(s['v'])
    if t == 'uuid':
        return uuid.UUID(s['v'])
    if t == 'complex':
        return complex(s['v'])
    if t == 'sentinel':
        return w.sentinel(s['v'])
    if t == 'undefined':
        return pc.PydanticUndefined
    if t == 'strsub':
        return StrSub(s['v'])
    if t == 'intsub':
        return IntSub(s['v'])
    if t == 'fn':
        return w.callable_obj(s['v'])
    if t == 'cls':
        return w.cls(s['v'])
    if t == 'enum':
        return w.cls(s['c'])[s['m']]
    if t == 'argskwargs':
        return pc.ArgsKwargs(tuple(mat(x, w, defs) for x in s['a']), mat(s.get('k') or {}, w, defs))
    if t == 'url':
        return pc.Url(s['v'])
    if t == 'murl':
        return pc.MultiHostUrl(s['v'])
    if t == 'path':
        return pathlib.PurePosixPath(s['v'])
    if t == 'pattern':
        return re.compile(s['v'])
    if t == 'bytearray':
        return bytearray(s['v'].encode('latin-1'))
    if t == 'sub':  # an instance of a subclass of a builtin type
        v = mat(s['v'], w, defs)
        return SUBS[type(v)](v)
    if t == 'some':
        return pc.Some(mat(s['v'], w, defs))
    if t == 'gen':
        return sim_gen(w, [mat(x, w, defs) for x in s['v']], s.get('tail'))
    if t == 'lazygen':  # items made when they are asked for, so that their addresses are reused
        return sim_gen(w, (mat(x, w) for x in s['v']), s.get('tail'))
    if t == 'iter':
        return GenIter(w, [mat(x, w, defs) for x in s['v']])
    if t == 'deque':
        import collections

        return collections.deque(mat(x, w, defs) for x in s['v'])
    if t == 'mapping':
        return SimMapping(w, [(mat(k, w, defs), mat(x, w, defs)) for k, x in s['v']])
    if t == 'obj':
        o = w._obj_cls()
        if 'id' in s:
            defs[s['id']] = o
        for k, x in s['v'].items():
            o.__dict__[k] = mat(x, w, defs)
        return o
    if t == 'inst':
        c = w.cls(s['c'])
        o = c.__new__(c)
        if 'id' in s:
            defs[s['id']] = o
        d = {k: mat(x, w, defs) for k, x in s['v'].items()}
        if getattr(c, '_sim_model', False):
            object.__setattr__(o, '__dict__', d)
            fs = s.get('fs')
            object.__setattr__(o, '__pydantic_fields_set__', set(d) if fs is None else set(fs))
            object.__setattr__(o, '__pydantic_extra__', mat(s.get('x'), w, defs))
            object.__setattr__(o, '__pydantic_private__', mat(s.get('p'), w, defs))
            raw = s.get('raw')
            if raw == 'nofs':
                object.__delattr__(o, '__pydantic_fields_set__')
            elif raw == 'noextra':
                object.__delattr__(o, '__pydantic_extra__')
            elif raw == 'badfs':
                object.__setattr__(o, '__pydantic_fields_set__', 5)
            elif raw == 'nodict':
                o.__dict__.clear()
        else:
            for k, x in d.items():
                object.__setattr__(o, k, x)
        return o
    if t == 'def':
        x = s['v']
        if isinstance(x, list):
            o = defs[s['id']] = []
            o.extend(mat(y, w, defs) for y in x)
            return o
        if isinstance(x, dict) and '$' not in x:
            o = defs[s['id']] = {}
            for k, y in x.items():
                o[k] = mat(y, w, defs)
            return o
        o = mat(x, w, defs)
        defs[s['id']] = o
        return o
    if t == 'ref':
        return defs.get(s['id'])
    if t == 'deep':  # many layers of one shape
        o = mat(s.get('v'), w, defs)
        for _ in range(s['n']):
            o = mat(s['t'], w, {**defs, 'HOLE': o})
        return o
    if t == 'ring':  # many layers of one shape, the innermost of which refers to the outermost
        end = [None]
        o = inner = mat(s['t'], w, {**defs, 'HOLE': end})
        for _ in range(s['n'] - 1):
            o = mat(s['t'], w, {**defs, 'HOLE': o})
        if isinstance(o, (list, dict)) or hasattr(o, '__dict__'):
            swap(inner, end, o)
        return o
    if t == 'endless':  # every attribute is another such object
        return Endless(s.get('v'))
    raise HarnessError('value %r' % (s,))


# ------------------------------------------------------------------------------------------------ operations

VKW = ('strict', 'from_attributes', 'allow_partial', 'by_alias', 'by_name')
SKW = (
    'mode',
    'by_alias',
    'exclude_unset',
    'exclude_defaults',
    'exclude_none',
    'round_trip',
    'warnings',
    'serialize_as_any',
    'indent',
)


def run_call(w, op, spec):
    """The library call an op stands for; returns its Python result."""
    k = spec['k']
    kw = dict(spec.get('kw') or {})
    call_kw = {a: kw[a] for a in VKW if a in kw}
    if 'context' in kw:
        call_kw['context'] = mat(kw['context'], w)
    if k == 'validate':
        v = w.validator(spec['v'])
        m = spec.get('m', 'python')
        if m == 'json':
            data = spec['json']
            return v.validate_json(data.encode('utf-8') if spec.get('bytes') else data, **call_kw)
        if m == 'strings':
            return v.validate_strings(w.input(spec['in']), **call_kw)
        if m == 'isinstance':
            call_kw.pop('allow_partial', None)
            return v.isinstance_python(w.input(spec['in']), **call_kw)
        if m == 'default':
            return v.get_default_value(
                **{a: b for a, b in call_kw.items() if a in ('strict', 'context')}
            )
        if m == 'python':
            return v.validate_python(w.input(spec['in']), **call_kw)
        if m == 'init':
            c = w.cls(spec['c'])
            o = c.__new__(c)
            w.keep.append(o)
            op.target = o
            r = v.validate_python(w.input(spec['in']), self_instance=o, **call_kw)
            return [r is o, o]
        if m == 'assign':
            o = w.input(spec['in'])
            op.target = o
            call_kw.pop('allow_partial', None)
            r = v.validate_assignment(o, spec['f'], mat(spec['val'], w), **call_kw)
            return [r is o, r]
        raise HarnessError(m)
    if k == 'ser':
        s = w.serializer(spec['v'])
        skw = {a: kw[a] for a in SKW if a in kw}
        for a in ('include', 'exclude'):
            if a in kw:
                skw[a] = mat(kw[a], w)
        if 'context' in kw:
            skw['context'] = mat(kw['context'], w)
        if 'fallback' in kw:
            skw['fallback'] = w.fn(kw['fallback'])
        val = w.input(spec['in'])
        if spec.get('m', 'python') == 'json':
            skw.pop('mode', None)
            return s.to_json(val, **skw)
        skw.pop('indent', None)
        return s.to_python(val, **skw)
    if k == 'from_json':
        return pc.from_json(spec['json'], **{a: b for a, b in kw.items()})
    if k == 'to_json':
        kk = dict(kw)
        if 'fallback' in kk:
            kk['fallback'] = w.fn(kk['fallback'])
        return pc.to_json(w.input(spec['in']), **kk)
    if k == 'to_jsonable':
        kk = dict(kw)
        if 'fallback' in kk:
            kk['fallback'] = w.fn(kk['fallback'])
        return pc.to_jsonable_python(w.input(spec['in']), **kk)
    if k == 'vs':  # validate then serialize the outcome
        out = w.validator(spec['v']).validate_python(w.input(spec['in']), **call_kw)
        s = w.serializer(spec['v'])
        if spec.get('m') == 'json':
            return s.to_json(out, warnings='none')
        return s.to_python(out, warnings='none')
    if k == 'build':
        ent = w.case['schemas'][spec['v']]
        v = pc.SchemaValidator(w.schema(ent['s']), w.schema(ent.get('config') or None))
        return v.title
    if k == 'warm_strings':
        pc.from_json(json.dumps(['%s%x' % (spec['p'], i * 2654435761 % 4294967296) for i in range(spec['n'])]))
        return None
    if k == 'warm_types':
        pc.to_jsonable_python([mat(x, w) for x in spec['vals']], fallback=lambda x: 'fb')
        return None
    if k == 'deep':
        x = w.validator(spec['v'])
        data = None
        for _ in range(spec['n']):
            data = {'v': 1, 'kids': [data] if data else []} if spec.get('shape') else [data] if data else []
        try:
            if spec.get('json'):
                x.validate_json(json.dumps(data))
            else:
                x.validate_python(data)
        except (pc.ValidationError, RecursionError):
            pass
        return None
    if k == 'cyclic':
        data = []
        data.append(data)
        d = {'v': 1}
        d['kids'] = [d]
        for y in (data, d):
            for fn in (w.validator(spec['v']).validate_python, w.serializer(spec['v']).to_python, pc.to_jsonable_python):
                try:
                    fn(y)
                except (pc.ValidationError, ValueError, RecursionError):
                    pass
        return None
    if k == 'repr':
        x = w.serializer(spec['v']) if spec.get('ser') else w.validator(spec['v'])
        repr(x)  # a debugging aid which shows internals: exercised, not compared
        return None if spec.get('ser') else x.title
    raise HarnessError(k)


def lazy(r):
    """Whether there are iterators in a result."""
    todo, seen = [r], set()
    while todo:
        x = todo.pop()
        t = type(x)
        if t is list or t is tuple or t is dict:
            if id(x) not in seen:
                seen.add(id(x))
                todo.extend(x.values() if t is dict else x)
        elif t.__name__ in ('ValidatorIterator', 'SerializationIterator'):
            return True
    return False


def drain(w, op, r):
    """Lazy results are consumed inside the operation."""
    tn = type(r).__name__
    if tn in ('ValidatorIterator', 'SerializationIterator'):
        out = []
        for _ in range(40):
            try:
                x = next(r)
            except StopIteration:
                return [tn, out]
            out.append(drain(w, op, x))
        return [tn, out, 'unfinished']
    if type(r) is list:
        return [drain(w, op, x) for x in r]
    if type(r) is dict:
        return {k: drain(w, op, x) for k, x in r.items()}
    if type(r) is tuple:
        return tuple(drain(w, op, x) for x in r)
    return r


@contextlib.contextmanager
def import_fault(w, spec, op):
    """The library's first use of a module goes through builtins.__import__: a failing or re-entrant import."""
    import builtins

    real = builtins.__import__
    spec = {'mod': spec['mod'], 'e': spec['e']}

    def imp(name, *a, **k):
        if name == spec['mod']:
            w.stat('fault:import')
            raise make_exc(spec['e'], 'import')
        return real(name, *a, **k)

    builtins.__import__ = imp
    try:
        yield
    finally:
        builtins.__import__ = real


def do_op(w, spec, key, parent=None):
    op = Op(spec, key)
    if parent is not None:
        parent.nested.append(op)
    st = w.stack()
    st.append(op)
    w.stat('op:' + spec['k'] + ':' + str(spec.get('m', '')))
    try:
        try:
            if 'impf' in spec:
                with import_fault(w, spec['impf'], op):
                    r = run_call(w, op, spec)
            else:
                r = run_call(w, op, spec)
            if not spec.get('nodrain') and lazy(r):
                r = drain(w, op, r)
        finally:
            st.pop()
        op.raw = r
        op.result = ['ok', norm(r, w)]
    except HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        op.raw = None
        op.exc = e
        op.result = ['raise', norm_exc(e, w)]
        e.__traceback__ = None
    return op


def op_report(op, quiet=('gc', 'nested')):
    """What an observer of this one call sees, with the call's own key made anonymous: anything that carries another
    call's key stays visible as foreign."""
    fired = [f for f in op.fired if f[1] not in quiet]
    rep = {'result': op.result, 'log': op.log, 'fired': fired, 'warnings': op.warnings}
    return json.loads(json.dumps(rep).replace(op.key, '#self#'))


# ------------------------------------------------------------------------------------------------ process set-up


class _Warn:
    world = None


def install_warnings(w):
    _Warn.world = w

    def show(message, category, filename, lineno, file=None, line=None):
        op = _Warn.world.cur()
        if op is not None:
            op.warnings.append([category.__name__, scrub(str(message))])

    warnings.showwarning = show
    warnings.resetwarnings()
    warnings.simplefilter('always')


def setup_process():
    gc.disable()
    sys.setswitchinterval(1000.0)
    threading.stack_size(64 * 1024 * 1024)
    sys.setrecursionlimit(2000)


def forked(fn, timeout=300.0, cpu=40):
    """Run fn() in a forked child.  -> ('ok', value) | ('died', description) | ('timeout', None) | ('error', text)
    A hang is measured in CPU seconds of the child, so a busy machine cannot turn into one."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            try:
                out = ('ok', fn())
            except BaseException:  # noqa: BLE001
                out = ('error', traceback.format_exc())
            data = pickle.dumps(out)
            mv = memoryview(data)
            while mv:
                n = os.write(wfd, mv)
                mv = mv[n:]
        except BaseException:  # noqa: BLE001
            code = 77
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    import time

    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ('timeout', None)
            rd, _, _ = select.select([r], [], [], min(left, 5.0))
            if rd:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return ('timeout', None)
        return ('died', 'signal %d' % os.WTERMSIG(st))
    if os.WEXITSTATUS(st) != 0 or not data:
        return ('died', 'exit %d' % os.WEXITSTATUS(st))
    return pickle.loads(data)


def mix(*parts):
    import hashlib

    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def digest(x):
    import hashlib

    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]
