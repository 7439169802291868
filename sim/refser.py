"""An independent reference interpreter of SchemaSerializer.to_python without include/exclude: composite schemas, function
serializers and their handlers, unions, models, computed fields, inference, fallbacks, warnings, recursion tracking.
Leaves (int, str, date, ...) are decided by a stand-alone serializer of that leaf alone.

It runs in a World of its own built from the same case and calls the same simulated user functions, so faults, logs and
payloads come from the same machinery."""
import collections.abc
import dataclasses
import enum
import re
import types

import core
import pydantic_core as pc
from refval import MAX_STEPS, Unsupported

ANY = {'any', 'is-instance', 'is-subclass', 'callable', 'function-plain'}
LEAF = {
    'none', 'bool', 'int', 'float', 'decimal', 'str', 'bytes', 'date', 'time', 'datetime', 'timedelta', 'literal', 'enum',
    'url', 'multi-host-url', 'uuid', 'complex',
}
EXACT = {
    'none': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes,
}
EXACTISH = ('bool', 'int', 'float', 'str', 'bytes')
Unexpected = pc.PydanticSerializationUnexpectedValue
SerError = pc.PydanticSerializationError
NONE, STRICT, LAX = 0, 1, 2
SCALARS = (type(None), bool, int, float, str, bytes, bytearray, complex)


MISS = '$does not fit$'


class Never:
    pass


class Extra:
    __slots__ = ('mode', 'check', 'model', 'field_name', 'kw', 'warnings', 'guard', 'fallback', 'context',
                 'inc', 'exc')

    def but(self, **k):
        e = Extra()
        for a in Extra.__slots__:
            setattr(e, a, k[a] if a in k else getattr(self, a))
        return e

    def bare(self):
        return self if self.inc is None and self.exc is None else self.but(inc=None, exc=None)

    @property
    def json(self):
        return self.mode == 'json'


# -- include and exclude ---------------------------------------------------------------------------------------
def whole(f):
    return f is Ellipsis or f is True


def as_dict(f):
    if isinstance(f, dict):
        return dict(f)
    if isinstance(f, set):
        return {k: Ellipsis for k in f}
    raise TypeError('`include` and `exclude` must be of type `dict[str | int, <recursive> | ...] | set[str | int | ...]`')


def merge(a, b):
    a = dict(a)
    if isinstance(b, dict):
        for k, v in b.items():
            if k not in a:
                a[k] = v
            elif not whole(a[k]):
                d = as_dict(a[k])
                if not whole(v):
                    a[k] = merge(d, v)
    elif isinstance(b, set):
        for k in b:
            a.setdefault(k, Ellipsis)
    else:
        raise TypeError("'__all__' key of `include` and `exclude` must be of type `dict[str | int, <recursive> | ...] | "
                        'set[str | int | ...]`')
    return a


def lookup(d, key):
    if key in d and '__all__' in d:
        a, b = d[key], d['__all__']
        return a if whole(a) or whole(b) else merge(as_dict(a), b)
    return d.get(key, d.get('__all__'))


def has(f, key, what):
    if isinstance(f, set):
        return key in f or '__all__' in f
    try:
        c = f.__contains__
        r = c(key)
    except Exception:  # noqa: BLE001
        raise TypeError('`%s` argument must be a set or dict.' % what) from None
    return bool(r) or bool(c('__all__'))


def position(k, n):
    if n is None:
        if isinstance(k, int) and k < 0:
            raise ValueError('Negative indices cannot be used to exclude items on unsized iterables')
        return k
    try:
        return k.__mod__(n)
    except Exception:  # noqa: BLE001
        return k


def positions(f, n):
    if isinstance(f, dict):
        return {position(k, n): v for k, v in f.items()}
    if isinstance(f, set):
        return {position(k, n) for k in f}
    return f


def pick(x, key, sinc=None, sexc=None, skey=None):
    """None when the part with this key is left out, otherwise the Extra it is serialized with."""
    skey = key if skey is None else skey
    inc, exc, nexc = x.inc, x.exc, None
    if exc is not None:
        if isinstance(exc, dict):
            nexc = lookup(exc, key)
            if nexc is not None and whole(nexc):
                return None
        elif has(exc, key, 'exclude'):
            return None
    if inc is not None:
        if isinstance(inc, dict):
            ninc = lookup(inc, key)
            if ninc is not None:
                return x.but(inc=None if whole(ninc) else ninc, exc=nexc)
            found = False
        else:
            found = has(inc, key, 'include')
        if found:
            return x.but(inc=None, exc=nexc)
        if sinc is None or skey not in sinc:
            return None
    if nexc is None and (sinc is not None and skey not in sinc or sexc is not None and skey in sexc):
        return None
    return x.but(inc=None, exc=nexc) if inc is not None or exc is not None else x


def pick_index(x, i, n, sinc=None, sexc=None):
    if x.inc is None and x.exc is None:
        return pick(x, i, sinc, sexc)
    r = pick(x.but(inc=positions(x.inc, n), exc=positions(x.exc, n)), i, sinc, sexc)
    return r


class Guard:
    def __init__(self, keys=()):
        self.keys = set(keys)


class Info:
    def __init__(self, x, is_field):
        self.mode = x.mode
        self.context = x.context
        self.include, self.exclude = x.inc, x.exc
        self.by_alias = x.kw.get('by_alias')
        self.exclude_unset = bool(x.kw.get('exclude_unset'))
        self.round_trip = bool(x.kw.get('round_trip'))
        if is_field:
            self.field_name = x.field_name


def show(e):
    """pyo3's Display of an exception."""
    try:
        return '%s: %s' % (type(e).__qualname__, e)
    except Exception:  # noqa: BLE001
        return '%s: <exception str() failed>' % type(e).__qualname__


def is_scalar(v):
    t = type(v)
    return t in SCALARS or isinstance(v, (str, int, float, bytes, pc.Url, pc.MultiHostUrl)) or t.__module__ in (
        'datetime', 'decimal', 'uuid', 'fractions')


class Ref:
    def __init__(self, w, kw, limit=10**6):
        self.w = w
        self.kw = kw
        self.limit = limit
        self.defs = {}
        self.leafs = {}
        self.reported = []
        self.mode_warn = {True: 'warn', False: 'none'}.get(kw.get('warnings', True), kw.get('warnings'))
        self.lax_cache = {}
        self.steps = 0

    def run(self, ent, value):
        self.root_cfg = ent.get('config') or None
        x = Extra()
        x.mode = self.kw.get('mode', 'python')
        x.check = NONE
        x.model = x.field_name = None
        x.kw = self.kw
        x.warnings = []
        x.guard = Guard()
        x.inc = core.mat(self.kw['include'], self.w) if 'include' in self.kw else None
        x.exc = core.mat(self.kw['exclude'], self.w) if 'exclude' in self.kw else None
        x.fallback = self.w.fn(self.kw['fallback']) if 'fallback' in self.kw else None
        x.context = core.mat(self.kw['context'], self.w) if 'context' in self.kw else None
        try:
            v = self.ser(ent['s'], self.root_cfg, value, x)
            self.final(x)
            return ('ok', v)
        except (core.HarnessError, Unsupported, core.SimLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            return ('raise', e)

    # -- warnings ----------------------------------------------------------------------------------------------
    def final(self, x):
        if self.mode_warn == 'none' or not x.warnings:
            return
        msg = 'Pydantic serializer warnings:\n  ' + '\n  '.join(
            'PydanticSerializationUnexpectedValue(%s)' % (m if isinstance(m, str) else self.quiet(str, m)) for m in x.warnings)
        if self.mode_warn == 'error':
            raise SerError(msg)
        self.reported.append(msg)

    def quiet(self, f, *a):
        return f(*a)

    def mismatch(self, v, x):
        """A value which does not fit its schema."""
        if v is None:
            return
        e = Unexpected(None, 'T', v)
        if x.check:
            raise e
        x.warnings.append(e)

    # -- recursion ---------------------------------------------------------------------------------------------
    def enter(self, key, x):
        if key in x.guard.keys:
            raise ValueError('Circular reference detected (id repeated)')
        if len(x.guard.keys) >= self.limit:
            raise ValueError('Circular reference detected (depth exceeded)')
        x.guard.keys.add(key)

    # -- inference ---------------------------------------------------------------------------------------------
    def infer(self, v, x):
        key = (id(v), 'infer')
        try:
            self.enter(key, x)
        except ValueError:
            if x.json:
                raise
            return v
        try:
            return self._infer(v, x)
        finally:
            x.guard.keys.discard(key)

    def scalar(self, v, x):
        s = self.leafs.get('infer')
        if s is None:
            s = self.leafs['infer'] = pc.SchemaSerializer({'type': 'any'}, self.w.schema(self.root_cfg))
        return s.to_python(v, mode=x.mode)

    def _infer(self, v, x):
        self.step()
        t = type(v)
        if t in (list, tuple):
            r = []
            for i, y in enumerate(list(v)):
                z = pick_index(x, i, len(v))
                if z is not None:
                    r.append(self.infer(y, z))
            return r if x.json else t(r)
        if t in (set, frozenset):
            z = x.bare()
            r = [self.infer(y, z) for y in v]
            return r if x.json else t(r)
        if t is dict:
            out = {}
            for k, y in list(v.items()):
                z = pick(x, k)
                if z is None:
                    continue
                if x.json:
                    k = self.infer_key(k, x)
                y = self.infer(y, z)
                out[k] = y
            return out
        if hasattr(t, '__pydantic_serializer__'):
            raise Unsupported
        if isinstance(v, enum.Enum):
            return self.infer(v.value, x) if x.json else v
        if is_scalar(v):
            return self.scalar(v, x)
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            out = {}
            for f in v.__dataclass_fields__.values():
                if f._field_type is dataclasses._FIELD:
                    y = getattr(v, f.name)
                    z = pick(x, f.name)
                    if z is None:
                        continue
                    k = self.infer_key(f.name, x) if x.json else f.name
                    out[k] = self.infer(y, z)
            return out
        if isinstance(v, collections.abc.Iterator):
            if not x.json:
                raise Unsupported
            r = []
            for i, y in enumerate(v):
                z = pick_index(x, i, None)
                if z is not None:
                    r.append(self.infer(y, z))
            return r
        if isinstance(v, (list, tuple, dict, set, frozenset, re.Pattern, types.FunctionType)):
            raise Unsupported
        if x.fallback is not None:
            return self.infer(x.fallback(v), x)
        if x.json:
            raise SerError('Unable to serialize unknown type: %r' % t)
        return v

    def infer_key(self, k, x):
        t = type(k)
        if t is tuple:
            return ','.join([self.infer_key(y, x) for y in k])
        if t in (list, set, frozenset, dict):
            raise TypeError('`%s` not valid as object key' % t.__name__)
        if isinstance(k, enum.Enum):
            return self.infer_key(k.value, x)
        if is_scalar(k):
            return next(iter(self.scalar({k: None}, x)))
        if dataclasses.is_dataclass(k) or isinstance(k, (collections.abc.Iterator, re.Pattern, tuple)):
            raise Unsupported
        if hasattr(t, '__pydantic_serializer__'):
            raise Unsupported
        if x.fallback is not None:
            return self.infer_key(x.fallback(k), x)
        raise SerError('Unable to serialize unknown type: %r' % t)

    # -- leaves ------------------------------------------------------------------------------------------------
    def leaf(self, s, cfg, v, x, key=False):
        """-> (fits, result): the same leaf alone, checked as it would be here."""
        t = type(v)
        whole = None
        if not is_scalar(v) and not isinstance(v, enum.Enum):
            if not core_like(v):
                raise Unsupported
            whole = v
            # what it contains cannot matter
            v = t() if t in (list, dict, tuple, set, frozenset) else object()
        ck = (id(s), id(cfg), key, x.check)
        z = self.leafs.get(ck)
        if z is None:
            sch = self.w.schema(s)
            if x.check:
                other = {'type': 'any', 'serialization': {'type': 'function-plain', 'function': self.no_fit}}
                sch = {'type': 'union', 'choices': [sch, other]}
                if x.check == LAX:
                    sch['choices'].append({'type': 'model', 'cls': Never, 'schema': {'type': 'any'}})
            if key:
                sch = {'type': 'dict', 'keys_schema': sch}
            z = (pc.SchemaSerializer(sch, self.w.schema(cfg)), s, cfg)
            self.leafs[ck] = z
        self.misses = 1 if x.check == LAX else 0
        try:
            r = z[0].to_python({v: None} if key else v, mode=x.mode, warnings='error', fallback=lambda q: None)
        except SerError as e:
            if str(e).startswith('Pydantic serializer warnings:'):
                return False, None
            raise
        except UnicodeDecodeError:
            # inferred with the leaf's config, not with that of the root
            if s['type'] == 'literal' and not x.check:
                return True, self.infer_key(v, x) if key else self.infer(v, x)
            if s['type'] == 'bytes':
                raise
            return False, None
        if key:
            r = next(iter(r))
        if type(r) is str and r == MISS:
            if s['type'] == 'bytes' and isinstance(v, bytes):
                self.leaf(s, cfg, v, x.but(check=NONE), key)  # raises if they are not UTF-8
            return False, None
        if whole is not None:
            return True, self.infer_key(whole, x) if key else self.infer(whole, x)
        return True, r

    def no_fit(self, v):
        if self.misses:
            self.misses -= 1
            raise ValueError
        return MISS

    # -- dispatch ----------------------------------------------------------------------------------------------
    def step(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported

    def ser(self, s, cfg, v, x):
        self.step()
        z = s.get('serialization')
        if z is not None:
            t = z['type']
            if t in ('function-plain', 'function-wrap'):
                return self.function(s, z, cfg, v, x)
            if t == 'to-string':
                use = self.when(z, v, x, 'json-unless-none')
                return str(v) if use else v
            if t == 'format':
                if not self.when(z, v, x, 'json-unless-none'):
                    return v
                f = z['formatting_string']
                if not f:
                    return str(v)
                try:
                    return format(v, f)
                except (core.HarnessError, Unsupported, core.SimLimit):
                    raise
                except BaseException as e:  # noqa: BLE001
                    raise SerError('Error calling `format(value, %r)`: %s' % (f, show(e))) from None
            if t == 'base64':
                raise Unsupported
            if t not in ('include-exclude-sequence', 'include-exclude-dict'):
                return self.ser(z, cfg, v, x)
        t = s['type']
        if t in ANY:
            return self.infer(v, x)
        if t in LEAF:
            ok, r = self.leaf(s, cfg, v, x)
            if ok:
                return r
            if x.check == STRICT and t in EXACTISH and self.leaf(s, cfg, v, x.but(check=NONE))[0]:
                raise Unexpected  # an instance of a subclass
            self.mismatch(v, x)
            return self.infer(v, x)
        f = getattr(self, 's_' + t.replace('-', '_'), None)
        if f is None:
            raise Unsupported
        return f(s, cfg, v, x)

    def inner(self, s, cfg, v, x):
        return self.ser(s['schema'], cfg, v, x)

    s_default = s_custom_error = s_function_before = s_function_after = s_function_wrap = inner

    def s_chain(self, s, cfg, v, x):
        return self.ser(s['steps'][-1], cfg, v, x)

    def s_lax_or_strict(self, s, cfg, v, x):
        return self.ser(s['strict_schema'], cfg, v, x)

    def s_json_or_python(self, s, cfg, v, x):
        return self.ser(s['python_schema'], cfg, v, x)

    def s_nullable(self, s, cfg, v, x):
        return None if v is None else self.inner(s, cfg, v, x)

    def no(self, v, x):
        self.mismatch(v, x)
        return self.infer(v, x)

    def s_list(self, s, cfg, v, x):
        if not isinstance(v, list):
            return self.no(v, x)
        i = s.get('items_schema') or {'type': 'any'}
        out = []
        own = self.own(s)
        for j, y in enumerate(list(v)):
            z = pick_index(x, j, len(v), *own)
            if z is not None:
                out.append(self.ser(i, cfg, y, z))
        return out

    def own(self, s):
        z = s.get('serialization') or {}
        if not z.get('type', '').startswith('include-exclude'):
            return None, None
        r = [self.w.schema(z[k]) if z.get(k) is not None else None for k in ('include', 'exclude')]
        return [{hash(y) for y in q} if q is not None and s['type'] == 'dict' else q for q in r]

    def s_set(self, s, cfg, v, x):
        ty = {'set': set, 'frozenset': frozenset}[s['type']]
        if not isinstance(v, ty):
            return self.no(v, x)
        i = s.get('items_schema') or {'type': 'any'}
        r = [self.ser(i, cfg, y, x) for y in v]
        return r if x.json else ty(r)

    s_frozenset = s_set

    def s_tuple(self, s, cfg, v, x):
        if not isinstance(v, tuple):
            return self.no(v, x)
        items = s['items_schema']
        own = self.own(s)
        vi = s.get('variadic_item_index')
        out = []
        if vi is not None:
            n = max(0, len(v) + 1 - len(items))
            sers = items[:vi] + [items[vi]] * n + items[vi + 1:]
            for j, (y, i) in enumerate(zip(v, sers)):
                z = pick_index(x, j, len(v), *own)
                if z is not None:
                    out.append(self.ser(i, cfg, y, z))
        elif x.check == STRICT and len(v) != len(items):
            raise Unexpected('Expected %d items, but got %d' % (len(items), len(v)))
        else:
            for j, (y, i) in enumerate(zip(v, items)):
                z = pick_index(x, j, len(v), *own)
                if z is not None:
                    out.append(self.ser(i, cfg, y, z))
            if len(v) > len(items):
                x.warnings.append(Unexpected('Unexpected extra items present in tuple'))
                for j, y in enumerate(v[len(items):]):
                    z = pick_index(x, j + len(items), len(v), *own)
                    if z is not None:
                        out.append(self.infer(y, z))
        return out if x.json else tuple(out)

    def s_dict(self, s, cfg, v, x):
        if not isinstance(v, dict):
            return self.no(v, x)
        ks, vs = s.get('keys_schema') or {'type': 'any'}, s.get('values_schema') or {'type': 'any'}
        out = {}
        own = self.own(s)
        for k, y in list(v.items()):
            z = pick(x, k, *own, skey=hash(k))
            if z is None:
                continue
            k = self.key(ks, cfg, k, x) if x.json else self.ser(ks, cfg, k, x.bare())
            out[k] = self.ser(vs, cfg, y, z)
        return out

    def key(self, s, cfg, k, x):
        z = s.get('serialization')
        if z is not None:
            raise Unsupported
        t = s['type']
        if t in ANY:
            return self.infer_key(k, x)
        if t in ('function-before', 'function-after', 'function-wrap', 'default', 'custom-error'):
            return self.key(s['schema'], cfg, k, x)
        if t == 'nullable':
            return 'None' if k is None else self.key(s['schema'], cfg, k, x)
        if t == 'definition-ref':
            d, dcfg = self.defs[s['schema_ref']]
            q = (id(k), s['schema_ref'])
            self.enter(q, x)
            try:
                return self.key(d, dcfg, k, x)
            finally:
                x.guard.keys.discard(q)
        if t in LEAF:
            ok, r = self.leaf(s, cfg, k, x, key=True)
            if ok:
                return r
            self.mismatch(k, x)
            return self.infer_key(k, x)
        raise Unsupported

    # -- unions ------------------------------------------------------------------------------------------------
    def lax(self, s, seen=()):
        """Whether a type has a laxer way to fit a union choice."""
        z = s.get('serialization')
        if z is not None:
            if z['type'] == 'function-plain':
                r = bool(z.get('return_schema')) and self.lax(z['return_schema'], seen)
                if z.get('when_used', 'always') != 'always':
                    r = r or self.lax({k: q for k, q in s.items() if k != 'serialization'}, seen)
                return r
            if z['type'] == 'function-wrap':
                i = z.get('schema') or {k: q for k, q in s.items() if k != 'serialization'}
                return self.lax(i, seen) or bool(z.get('return_schema')) and self.lax(z['return_schema'], seen)
            if not z['type'].startswith('include-exclude'):
                return self.lax(z, seen)
        t = s['type']
        if t in ('model', 'dataclass', 'tuple', 'int'):
            return True
        if t in ('enum', 'str', 'bool', 'none', 'float'):
            if t == 'enum' and s.get('sub_type') == 'int':
                return True
            return False
        if t == 'list':
            return 'items_schema' in s and self.lax(s['items_schema'], seen)
        if t in ('nullable', 'default', 'function-before', 'function-after', 'function-wrap', 'custom-error'):
            return self.lax(s['schema'], seen)
        if t == 'chain':
            return self.lax(s['steps'][-1], seen)
        if t == 'lax-or-strict':
            return self.lax(s['strict_schema'], seen)
        if t == 'json-or-python':
            raise Unsupported
        if t == 'union':
            return any([self.lax(c, seen) for c in self.choices(s)])
        if t == 'tagged-union':
            return any([self.lax(c, seen) for c in s['choices'].values()])
        if t == 'definition-ref':
            raise Unsupported if s['schema_ref'] in seen else None
        return False

    def choices(self, s):
        out = []
        for c in s['choices']:
            out.append(c['$tuple'][0] if isinstance(c, dict) and '$tuple' in c else c)
        return out

    def s_union(self, s, cfg, v, x):
        ch = self.choices(s)
        if len(ch) == 1:
            return self.ser(ch[0], cfg, v, x)
        return self.union(ch, cfg, v, x, s)

    def union(self, ch, cfg, v, x, s):
        errors = []
        y = x.but(check=STRICT)
        for c in ch:
            try:
                return self.ser(c, cfg, v, y)
            except (core.HarnessError, Unsupported, core.SimLimit):
                raise
            except BaseException as e:  # noqa: BLE001
                errors.append(e)
        if x.check != STRICT and any([self.lax_top(c) for c in ch]):
            y = x.but(check=LAX)
            for c in ch:
                try:
                    return self.ser(c, cfg, v, y)
                except (core.HarnessError, Unsupported, core.SimLimit):
                    raise
                except BaseException:  # noqa: BLE001
                    pass
        if x.check == NONE:
            for e in errors:
                x.warnings.append(e if isinstance(e, Unexpected) else Unexpected(show(e)))
        else:
            raise Unexpected('\n'.join(show(e) for e in errors))
        return self.infer(v, x)

    def lax_top(self, s):
        if '"definition-ref"' in core_dumps(s):
            raise Unsupported
        return self.lax(s)

    def s_tagged_union(self, s, cfg, v, x):
        d = s['discriminator']
        tag = None
        ch = s['choices']
        if isinstance(d, str):
            if isinstance(v, dict):
                found = d in v
                tag = v.get(d)
            elif core_like(v):
                found = hasattr(v, d)
                tag = getattr(v, d, None)
            else:
                found = False
                if hasattr(v, d):
                    raise Unsupported
        elif isinstance(d, dict) and '$fn' in d:
            try:
                tag = self.w.fn(d['$fn'])(v)
                found = True
            except (core.HarnessError, Unsupported, core.SimLimit):
                raise
            except BaseException:  # noqa: BLE001
                found = False
        else:
            raise Unsupported
        if found:
            c = ch.get(str(tag))
            if c is not None:
                try:
                    return self.ser(c, cfg, v, x.but(check=STRICT))
                except (core.HarnessError, Unsupported, core.SimLimit):
                    raise
                except BaseException:  # noqa: BLE001
                    if any([self.lax_top(y) for y in ch.values()]):
                        try:
                            return self.ser(c, cfg, v, x.but(check=LAX))
                        except (core.HarnessError, Unsupported, core.SimLimit):
                            raise
                        except BaseException:  # noqa: BLE001
                            pass
        elif x.check == NONE:
            text = ('Defaulting to left to right union serialization - failed to get discriminator value for tagged union '
                    'serialization')
            # None cannot be given as the input value from Python
            x.warnings.append(text + ' [input_value=None, input_type=NoneType]' if v is None else Unexpected(text, None, v))
        return self.union(list(ch.values()), cfg, v, x, s)

    # -- definitions -------------------------------------------------------------------------------------------
    def s_definitions(self, s, cfg, v, x):
        for d in s['definitions']:
            self.defs[d['ref']] = (d, cfg)
        return self.ser(s['schema'], cfg, v, x)

    def s_definition_ref(self, s, cfg, v, x):
        n = s['schema_ref']
        d, dcfg = self.defs[n]
        key = (id(v), n)
        self.enter(key, x)
        try:
            return self.ser(d, dcfg, v, x)
        finally:
            x.guard.keys.discard(key)

    # -- fields ------------------------------------------------------------------------------------------------
    def alias(self, f, name, cfg, x):
        by = x.kw.get('by_alias')
        if by is None:
            by = (cfg or {}).get('serialize_by_alias')
        return f.get('serialization_alias', name) if by else name

    def default_of(self, s):
        if s.get('serialization'):
            return False, None
        if s['type'] in ('function-before', 'function-after', 'function-wrap', 'custom-error'):
            return self.default_of(s['schema'])
        if s['type'] != 'default':
            return False, None
        if 'default' in s:
            return True, self.w.schema(s['default'])
        if 'default_factory' not in s or s.get('default_factory_takes_data'):
            return False, None
        return True, self.w.schema(s['default_factory'])()

    def main(self, fields, total, cfg, items, x, allow, extras, has_exclude=False):
        out = {}
        used = 0
        kw = x.kw
        for k, v in items:
            if not isinstance(k, str):
                raise Unsupported
            f = fields.get(k)
            if kw.get('exclude_none') and v is None:
                if f is not None and f.get('required', total):
                    used += 1
                continue
            y = pick(x, k)
            if y is None:
                continue
            y = y.but(field_name=k)
            if f is not None:
                if not f.get('serialization_exclude'):
                    skip = False
                    if kw.get('exclude_defaults'):
                        has, d = self.default_of(f['schema'])
                        skip = has and v == d
                    if not skip:
                        r = self.ser(f['schema'], cfg, v, y)
                        out[self.alias(f, k, cfg, x)] = r
                if f.get('required', total):
                    used += 1
            elif allow:
                out[k] = self.ser(extras, cfg, v, y) if extras else self.infer(v, y)
            elif y.check == STRICT:
                raise Unexpected('Unexpected field `%s`' % k, type(y.model).__name__ if y.model is not None else None)
        req = sum(1 for f in fields.values() if f.get('required', total))
        if x.check and x.inc is None and x.exc is None and not (kw.get('exclude_defaults') or kw.get('exclude_unset') or kw.get('exclude_none')) and req > used:
            raise Unexpected('Expected %d fields but got %d' % (req, used),
                             type(x.model).__name__ if x.model is not None else None, x.model)
        return out

    def computed(self, s, cfg, model, out, x):
        if x.kw.get('round_trip'):
            return
        for c in s.get('computed_fields') or ():
            name = c['property_name']
            z = pick(x, name)
            if z is None:
                continue
            v = getattr(model, name)
            r = self.ser(c['return_schema'], cfg, v, z.but(model=model, field_name=name))
            if x.kw.get('exclude_none') and r is None:
                continue
            by = x.kw.get('by_alias')
            if by is None:
                by = (cfg or {}).get('serialize_by_alias')
            out[c.get('alias', name) if by else name] = r

    def allow_extra(self, s, cfg):
        e = s.get('extra_behavior') or (cfg or {}).get('extra_fields_behavior')
        return e == 'allow'

    def s_typed_dict(self, s, cfg, v, x):
        if s.get('config'):
            cfg = s['config']
        if not isinstance(v, dict):
            return self.no(v, x)
        model = x.model if x.model is not None else v
        y = x.but(model=model)
        out = self.main(s['fields'], s.get('total', True), cfg, list(v.items()), y, self.allow_extra(s, cfg),
                        s.get('extras_schema'))
        self.computed(s, cfg, model, out, x)
        return out

    def s_model(self, s, cfg, v, x):
        cfg = s.get('config') or None
        cls = self.w.schema(s['cls'])
        y = x.but(model=v)
        if s.get('root_model'):
            try:
                root = v.root
            except (core.HarnessError, Unsupported, core.SimLimit):
                raise
            except BaseException:  # noqa: BLE001
                if y.check:
                    raise Unexpected()
                raise
            return self.ser(s['schema'], cfg, root, y.but(field_name='root'))
        ok = (type(v) is cls if x.check == STRICT else isinstance(v, cls) if x.check == LAX else hasattr(v, '__dict__'))
        if not ok:
            self.mismatch(v, y)
            return self.infer(v, y)
        attrs = v.__dict__
        if type(attrs) is not dict:
            raise Unsupported
        if x.kw.get('exclude_unset'):
            fs = v.__pydantic_fields_set__
            if not isinstance(fs, set):
                raise Unsupported
            attrs = {k: q for k, q in attrs.items() if k in fs}
        extra = None
        has = self.allow_extra(s, cfg)
        if has:
            extra = v.__pydantic_extra__
        return self.fields_of(s['schema'], cfg, attrs, extra, has, y)

    def fields_of(self, s, cfg, attrs, extra, has, x):
        if s.get('serialization'):
            raise Unsupported
        t = s['type']
        if t in ('function-before', 'function-after', 'function-wrap'):
            return self.fields_of(s['schema'], cfg, attrs, extra, has, x)
        if t != 'model-fields':
            raise Unsupported
        if has != self.allow_extra(s, cfg):
            raise Unsupported  # the serializer of the fields expects another shape
        if has and not isinstance(extra, dict) and extra is not None:
            raise Unsupported
        out = self.main(s['fields'], True, cfg, list(attrs.items()), x, False, None)
        for k, v in list((extra or {}).items()):
            if x.kw.get('exclude_none') and v is None:
                continue
            z = pick(x, k)
            if z is not None:
                out[k] = self.ser(s['extras_schema'], cfg, v, z) if s.get('extras_schema') else self.infer(v, z)
        self.computed(s, cfg, x.model, out, x)
        return out

    def s_dataclass(self, s, cfg, v, x):
        cfg = s.get('config') or None
        cls = self.w.schema(s['cls'])
        y = x.but(model=v)
        ok = (type(v) is cls if x.check == STRICT else isinstance(v, cls) if x.check == LAX
              else hasattr(v, '__dataclass_fields__'))
        if not ok:
            self.mismatch(v, y)
            return self.infer(v, y)
        i = s['schema']
        while i['type'] in ('function-before', 'function-after', 'function-wrap') and not i.get('serialization'):
            i = i['schema']
        if i['type'] != 'dataclass-args' or i.get('serialization'):
            raise Unsupported

        def items():
            for n in s['fields']:
                yield n, getattr(v, n)
        fields = {f['name']: f for f in i['fields'] if not f.get('init_only')}
        out = self.main(fields, True, cfg, items(), y, self.allow_extra(i, cfg), None)
        self.computed(i, cfg, v, out, x)
        return out

    # -- functions ---------------------------------------------------------------------------------------------
    def when(self, z, v, x, default='always'):
        w = z.get('when_used', default)
        return {'always': True, 'unless-none': v is not None, 'json': x.json,
                'json-unless-none': x.json and v is not None}[w]

    def function(self, s, z, cfg, v, x):
        wrap = z['type'] == 'function-wrap'
        bare = {k: q for k, q in s.items() if k != 'serialization'}
        inner = z.get('schema') or bare if wrap else bare
        ret = z.get('return_schema') or {'type': 'any'}
        if not self.when(z, v, x):
            return self.ser(inner, cfg, v, x)
        try:
            r = self.call(z, inner, cfg, v, x, wrap)
        except (core.HarnessError, Unsupported, core.SimLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            name = 'fn%s' % z['function']['$fn']
            if isinstance(e, Unexpected):
                if x.check:
                    raise
                x.warnings.append(e)
                return self.infer(v, x)
            if isinstance(e, SerError):
                raise SerError(str(e)) from None
            if isinstance(e, RecursionError):
                raise SerError('Error calling function `%s`: RecursionError' % name) from None
            raise SerError('Error calling function `%s`: %s' % (name, show(e))) from e
        return self.ser(ret, cfg, r, x.bare())

    def call(self, z, inner, cfg, v, x, wrap):
        f = self.w.fn(z['function']['$fn'])
        args = [v]
        if wrap:
            args.append(self.handler(inner, cfg, x))
        isf = z.get('is_field_serializer')
        if isf and x.model is None:
            raise RuntimeError('Function %s serializer expected to be run inside the context of a model field but no '
                               'model was found' % ('wrap' if wrap else 'plain'))
        if z.get('info_arg'):
            if isf and x.field_name is None:
                raise RuntimeError('Model field context expected for field serialization info but no model field was found')
            args.append(Info(x, isf))
        return f(x.model, *args) if isf else f(*args)

    def handler(self, s, cfg, x):
        keys = frozenset(x.guard.keys)

        def h(v, index_key=None):
            y = x.but(warnings=[], guard=Guard(keys))
            if index_key is not None:
                y = pick_index(y, index_key, None) if type(index_key) is int and index_key >= 0 else pick(y, index_key)
                if y is None:
                    raise pc.PydanticOmit()
            r = self.ser(s, cfg, v, y)
            self.final(y)
            return r
        return h


def core_like(v):
    t = type(v)
    return getattr(t, '_sim_model', False) or getattr(t, '_sim_dc', False) or getattr(t, '_sim_obj', False) or isinstance(
        v, (list, dict, tuple, set, frozenset)) or isinstance(v, collections.abc.Iterator)


def core_dumps(s):
    import json

    return json.dumps(s)
