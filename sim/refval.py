"""An independent reference interpreter of validation from Python values: composite schemas, user functions, defaults,
signals, unions, models.  Leaves (int, str, date, ...) are decided by a stand-alone validator of that leaf alone.

It runs in a World of its own built from the same case, calls the same simulated user functions (so faults, logs and
payloads come from the same machinery), and shares no code with the library's composition of validators."""
import collections.abc
import copy
import json

import core
import pydantic_core as pc

LEAF = {
    'any', 'none', 'bool', 'int', 'float', 'decimal', 'str', 'bytes', 'date', 'time', 'datetime', 'timedelta',
    'literal', 'enum', 'is-instance', 'is-subclass', 'callable', 'url', 'multi-host-url', 'uuid', 'complex',
}
SUPPORTED = LEAF | {
    'list', 'tuple', 'set', 'frozenset', 'dict', 'default', 'nullable', 'union', 'tagged-union', 'chain',
    'lax-or-strict', 'json-or-python', 'typed-dict', 'model', 'model-fields', 'dataclass', 'dataclass-args',
    'custom-error', 'definitions', 'definition-ref', 'function-after', 'function-before', 'function-wrap',
    'function-plain', 'arguments', 'arguments-v3', 'call', 'typed-dict-field', 'model-field', 'dataclass-field', 'with-info', 'no-info',
}
LAX, STRICT, EXACT = 0, 1, 2


MAX_STEPS = 6000


class Unsupported(BaseException):
    """The reference does not cover this input: the case is discarded."""


class LE(Exception):
    """Line errors: [type, loc, input, error object or None]."""

    def __init__(self, errs):
        self.errs = errs

    def outer(self, item):
        return LE([[t, (item,) + loc, i, e] for t, loc, i, e in self.errs])


class Omit(Exception):
    pass


class UseDefault(Exception):
    pass


class Internal(BaseException):
    """Carries an exception which is not about validation through the interpreter."""

    def __init__(self, e):
        self.e = e


# schemas whose parts are never taken for the last part of an incomplete input
COMPLETE = ('tuple', 'model-fields', 'dataclass-args', 'definition-ref', 'arguments', 'arguments-v3')


class State:
    __slots__ = ('exactness', 'count', 'data', 'field_name', 'guard', 'self_instance', 'partial')

    def __init__(self):
        self.exactness = None
        self.count = None
        self.data = None
        self.field_name = None
        self.guard = frozenset()
        self.self_instance = None
        self.partial = False  # is this the last part of an incomplete input?

    def floor(self, x):
        if self.exactness == '?':
            if x == LAX:
                self.exactness = LAX
        elif self.exactness is not None and x < self.exactness:
            self.exactness = x

    def failed(self):
        """A failure was recovered from: how exact the failed part was is not specified."""
        if self.exactness in (STRICT, EXACT):
            self.exactness = '?'

    def add(self, n):
        self.count = (self.count or 0) + n


class Info:
    def __init__(self, ref, st, config, schema_field):
        self.mode = 'python'
        self.field_name = st.field_name if st.field_name is not None else schema_field
        self.context = ref.context
        self.data = st.data
        self.config = config


def err(t, inp, loc=(), e=None):
    return LE([[t, loc, inp, e]])


def line(d):
    """One entry of ValidationError.errors()."""
    e = (d.get('ctx') or {}).get('error') if d['type'] in ('value_error', 'assertion_error') else None
    return [d['type'], tuple(d['loc']), d['input'], e]


class _Leaf:
    cache = {}


def _sentinel_fn(v):
    return _Leaf


_Leaf.fn = staticmethod(_sentinel_fn)


class Ref:
    def __init__(self, w, kw, limit=None):
        self.w = w
        self.limit = limit
        self.steps = 0
        self.strict = kw.get('strict')
        self.from_attributes = kw.get('from_attributes')
        self.by_alias = kw.get('by_alias')
        self.by_name = kw.get('by_name')
        self.partial = kw.get('allow_partial') in (True, 'on', 'trailing-strings')
        self.context = core.mat(kw['context'], w) if 'context' in kw else None
        self.raised = {}
        self.unsupported = False
        self.defs = {}
        self.leafs = {}

    # -- entry -------------------------------------------------------------------------------------------------
    def run(self, ent, value, target=None):
        st = State()
        st.self_instance = target
        st.partial = self.partial
        cfg = ent.get('config') or None
        try:
            return ('ok', self.v(ent['s'], cfg, value, st))
        except LE as e:
            return ('errors', e.errs)
        except Omit:
            return ('raise', pc.SchemaError('uncaught signal'))
        except UseDefault:
            return ('raise', pc.SchemaError('uncaught signal'))
        except Internal as e:
            return ('raise', e.e)

    # -- user code ---------------------------------------------------------------------------------------------
    def user(self, inp, f, *args):
        """Call user code; its exceptions are classified the way the documentation says."""
        try:
            return f(*args)
        except (core.HarnessError, Unsupported, core.SimLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            raise self.convert(e, inp)

    def no(self):
        self.unsupported = True  # user code may swallow the exception
        return Unsupported()

    def plain(self, f, *args, **kw):
        """User code whose exceptions always reach the caller."""
        try:
            return f(*args, **kw)
        except (core.HarnessError, Unsupported, core.SimLimit):
            raise
        except BaseException as e:  # noqa: BLE001
            raise Internal(e)

    def convert(self, e, inp):
        if isinstance(e, ValueError):
            if isinstance(e, pc.PydanticCustomError):
                return err(e.type, inp)
            if isinstance(e, pc.PydanticKnownError):
                return err(e.type, inp)
            if isinstance(e, pc.ValidationError):
                known = self.raised.get(id(e))
                if known is not None:
                    return LE(known[1])
                return LE([line(x) for x in e.errors(include_url=False)])
            return err('value_error', inp, e=e)
        if isinstance(e, AssertionError):
            return err('assertion_error', inp, e=e)
        if isinstance(e, pc.PydanticOmit):
            return Omit()
        if isinstance(e, pc.PydanticUseDefault):
            return UseDefault()
        return Internal(e)

    def to_python_error(self, errs):
        """What a handler raises for line errors."""
        t = pc.PydanticCustomError('reference', 'reference')
        e = pc.ValidationError.from_exception_data('reference', [{'type': t, 'loc': (), 'input': None} for _ in errs])
        self.raised[id(e)] = (e, errs)
        return e

    def handler(self, s, cfg, st, assignment=None):
        saved = State()
        saved.exactness = st.exactness
        saved.data = st.data
        saved.guard = st.guard
        saved.self_instance = st.self_instance

        def h(v, outer=None):
            s2 = State()
            s2.exactness = saved.exactness
            s2.data = saved.data
            s2.guard = saved.guard
            s2.self_instance = saved.self_instance
            try:
                if assignment is not None:
                    s2.field_name = assignment[0]
                    return self.assign(s, cfg, v, *assignment, s2)
                return self.v(s, cfg, v, s2)
            except LE as e:
                s2.failed()
                errs = e.errs if outer is None else e.outer(outer).errs
                raise self.to_python_error(errs) from None
            except Omit:
                raise pc.SchemaError('uncaught signal') from None
            except UseDefault:
                raise pc.SchemaError('uncaught signal') from None
            except Internal as e:
                raise e.e from None
            finally:
                saved.exactness = s2.exactness

        return h, saved

    # -- helpers -----------------------------------------------------------------------------------------------
    def is_strict(self, s, cfg):
        if self.strict is not None:
            return self.strict
        x = s.get('strict')
        if x is None and cfg:
            x = cfg.get('strict')
        return bool(x)

    def opt(self, s, cfg, key, ckey=None, default=None):
        x = s.get(key)
        if x is None and cfg:
            x = cfg.get(ckey or key)
        return default if x is None else x

    def leaf(self, s, cfg):
        key = json.dumps([s, cfg], sort_keys=True)
        r = self.leafs.get(key)
        if r is None:
            sch = self.w.schema({k: v for k, v in s.items() if k not in ('serialization', 'ref')})
            c = self.w.schema(cfg) if cfg else None
            one = pc.SchemaValidator(sch, c)
            exact = pc.SchemaValidator({'type': 'union', 'choices': [sch, {
                'type': 'function-plain', 'function': {'type': 'no-info', 'function': _sentinel_fn}}]}, c)
            strict = pc.SchemaValidator({'type': 'union', 'choices': [sch, {
                'type': 'function-after', 'function': {'type': 'no-info', 'function': _sentinel_fn},
                'schema': {'type': 'any'}}]}, c)
            r = self.leafs[key] = (one, exact, strict)
        return r

    # -- dispatch ----------------------------------------------------------------------------------------------
    def v(self, s, cfg, x, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise self.no()
        t = s['type']
        if t in LEAF:
            return self.v_leaf(s, cfg, x, st)
        old = st.partial
        if t in COMPLETE:
            st.partial = False
        try:
            return getattr(self, 'v_' + t.replace('-', '_'))(s, cfg, x, st)
        finally:
            st.partial = old

    def part(self, s, cfg, x, st, partial):
        """A part of a value, which is the last one of an incomplete input or not."""
        st.partial = partial
        return self.v(s, cfg, x, st)

    def v_leaf(self, s, cfg, x, st):
        one, exact, strict = self.leaf(s, cfg)
        kw = {'strict': self.strict} if self.strict is not None else {}
        try:
            out = one.validate_python(x, **kw)
        except pc.ValidationError as e:
            raise LE([line(a) for a in e.errors(include_url=False)])
        except Exception as e:  # noqa: BLE001
            raise Internal(e)
        if st.exactness is not None:
            if exact.validate_python(x, **kw) is _Leaf:
                st.floor(LAX if strict.validate_python(x, **kw) is _Leaf else STRICT)
        return out

    # -- sequences ---------------------------------------------------------------------------------------------
    def seq(self, s, cfg, x, st, exact_type, err_type):
        strict = self.is_strict(s, cfg)
        if isinstance(x, exact_type):
            st.floor(EXACT)
        elif strict:
            raise err(err_type, x)
        elif isinstance(x, (list, tuple, set, frozenset)):
            st.floor(LAX)
        elif isinstance(x, (str, bytes, bytearray, dict, collections.abc.Mapping)):
            raise err(err_type, x)
        else:
            try:
                it = iter(x)
            except Exception:  # noqa: BLE001
                raise err(err_type, x)
            st.floor(LAX)
            return it, None
        return iter(x if not isinstance(x, list) else _live_list(x)), len(x)

    def ahead(self, it, far=True):
        """The library looks one element ahead of the one it validates."""
        def nxt():
            try:
                return ('item', next(it))
            except StopIteration:
                return ('end', None)
            except (core.HarnessError, core.SimLimit):
                raise
            except BaseException as e:  # noqa: BLE001
                return ('error', e)

        cur = nxt()
        i = 0
        while cur[0] != 'end':
            if far:
                following = nxt()
            yield i, cur, far and following[0] == 'end'
            cur = following if far else nxt()
            i += 1

    def v_list(self, s, cfg, x, st):
        it, n = self.seq(s, cfg, x, st, list, 'list_type')
        item = s.get('items_schema')
        mx, mn, ff = s.get('max_length'), s.get('min_length'), s.get('fail_fast')
        out, errs, count = [], [], 0
        if item is None:
            raise self.no()
        partial = st.partial
        for i, (kind, val), last in self.ahead(it, item['type'] != 'any'):  # any: copied, not validated
            last = last and partial
            if kind == 'error':
                raise err('iteration_error', x, (i,))
            try:
                r = val if item['type'] == 'any' else self.part(item, cfg, val, st, last)
            except Omit:
                continue
            except LE as e:
                count += 1
                if mx is not None and count > mx:
                    raise err('too_long', x)
                if last:
                    st.failed()
                    continue
                errs += e.outer(i).errs
                if ff:
                    raise LE(errs)
                continue
            count += 1
            if mx is not None and count > mx:
                raise err('too_long', x)
            out.append(r)
        if errs:
            raise LE(errs)
        if mn is not None and len(out) < mn:
            raise err('too_short', x)
        return out

    def v_set(self, s, cfg, x, st):
        return self._set(s, cfg, x, st, set, 'set_type')

    def v_frozenset(self, s, cfg, x, st):
        return frozenset(self._set(s, cfg, x, st, frozenset, 'frozen_set_type'))

    def _set(self, s, cfg, x, st, typ, et):
        it, n = self.seq(s, cfg, x, st, typ, et)
        item = s.get('items_schema', {'type': 'any'})
        mx, mn, ff = s.get('max_length'), s.get('min_length'), s.get('fail_fast')
        out, errs = set(), []
        partial = st.partial
        for i, (kind, val), last in self.ahead(it):
            last = last and partial
            if kind == 'error':
                raise err('iteration_error', x, (i,))
            try:
                r = self.part(item, cfg, val, st, last)
                try:
                    out.add(r)
                except TypeError:
                    raise err('set_item_not_hashable', val)
                if mx is not None and len(out) > mx:
                    raise _Abort(err('too_long', x))
            except Omit:
                pass
            except _Abort as a:
                raise a.e
            except LE as e:
                if last:
                    st.failed()
                else:
                    errs += e.outer(i).errs
            if ff and errs:
                raise LE(errs)
        if errs:
            raise LE(errs)
        if mn is not None and len(out) < mn:
            raise err('too_short', x)
        return out

    def v_tuple(self, s, cfg, x, st):
        it, n = self.seq(s, cfg, x, st, tuple, 'tuple_type')
        schemas = s['items_schema']
        vi = s.get('variadic_item_index')
        mx, mn, ff = s.get('max_length'), s.get('min_length'), s.get('fail_fast')
        if not isinstance(x, (list, tuple, set, frozenset)):
            items = []
            for _ in self.ahead(it):
                raise self.no()  # lazily consumed tuples are left to other checks
        else:
            items = list(x)
        out, errs = [], []

        def push(r):
            out.append(r)
            if mx is not None and len(out) > mx:
                raise err('too_long', x)

        def one(sch, i, val):
            try:
                r = self.v(sch, cfg, val, st)
            except LE as e:
                errs.extend(e.outer(i).errs)
                return
            except Omit:
                return
            push(r)

        def missing(sch, i):
            d = self.default_value(sch, cfg, i, st)
            if d is not None:
                out.append(d[0])
            else:
                errs.append(['missing', (i,), x, None])

        def fixed(schs, base, vals):
            for k, sch in enumerate(schs):
                i = base + k
                if k < len(vals):
                    one(sch, i, vals[k])
                else:
                    missing(sch, i)
                if ff and errs:
                    return True
            return False

        stop = False
        if vi is None:
            stop = fixed(schemas, 0, items)
            if not stop and len(items) > len(schemas):
                raise err('too_long', x)
        else:
            head, var, tail = schemas[:vi], schemas[vi], schemas[vi + 1:]
            stop = fixed(head, 0, items)
            if not stop:
                rest = items[len(head):]
                nvar = max(0, len(rest) - len(tail))
                for k in range(nvar):
                    one(var, len(head) + k, rest[k])
                    if ff and errs:
                        stop = True
                        break
                if not stop and tail:
                    # locations of the tail are checked only where they are the position of the item
                    if nvar:
                        base = len(head) + nvar - 1
                    else:
                        base = len(head)
                    fixed(tail, base, rest[nvar:])
        if mn is not None and len(out) < mn:
            errs.append(['too_short', (), x, None])
        if errs:
            raise LE(errs)
        return tuple(out)

    def v_dict(self, s, cfg, x, st):
        if not isinstance(x, dict):
            if isinstance(x, collections.abc.Mapping) and not self.is_strict(s, cfg):
                raise self.no()
            raise err('dict_type', x)
        ks, vs = s.get('keys_schema', {'type': 'any'}), s.get('values_schema', {'type': 'any'})
        out, errs = {}, []
        partial = st.partial
        pairs = list(x.items())
        for pos, (k, val) in enumerate(pairs):
            last = partial and pos == len(pairs) - 1
            okey = None
            try:
                okey = [self.part(ks, cfg, k, st, False)]
            except LE as e:
                errs += e.outer('[key]').outer(_loc(k)).errs
            except Omit:
                continue
            try:
                r = self.part(vs, cfg, val, st, last)
            except LE as e:
                if last:
                    st.failed()
                else:
                    errs += e.outer(_loc(k)).errs
                continue
            except Omit:
                continue
            if okey:
                try:
                    out[okey[0]] = r
                except TypeError as e:
                    raise Internal(e)
        if errs:
            raise LE(errs)
        if s.get('min_length') is not None and len(out) < s['min_length']:
            raise err('too_short', x)
        if s.get('max_length') is not None and len(out) > s['max_length']:
            raise err('too_long', x)
        return out

    # -- wrappers ----------------------------------------------------------------------------------------------
    def v_nullable(self, s, cfg, x, st):
        return None if x is None else self.v(s['schema'], cfg, x, st)

    def v_chain(self, s, cfg, x, st):
        for step in s['steps']:
            x = self.v(step, cfg, x, st)
        return x

    def v_json_or_python(self, s, cfg, x, st):
        return self.v(s['python_schema'], cfg, x, st)

    def v_lax_or_strict(self, s, cfg, x, st):
        if self.is_strict(s, cfg):
            return self.v(s['strict_schema'], cfg, x, st)
        if st.exactness is not None:
            try:
                return self.v(s['strict_schema'], cfg, x, st)
            except (LE, Omit, UseDefault):
                pass
            st.floor(LAX)
        return self.v(s['lax_schema'], cfg, x, st)

    def v_custom_error(self, s, cfg, x, st):
        try:
            return self.v(s['schema'], cfg, x, st)
        except LE:
            raise err(s['custom_error_type'], x)

    def v_definitions(self, s, cfg, x, st):
        for d in s['definitions']:
            self.defs[d['ref']] = (d, cfg)
        return self.v(s['schema'], cfg, x, st)

    def v_definition_ref(self, s, cfg, x, st):
        name = s['schema_ref']
        d, dcfg = self.defs[name]
        k = (id(x), name)
        if k in st.guard:
            raise err('recursion_loop', x)
        old = st.guard
        if self.limit is not None:
            if len(old) >= self.limit:
                raise err('recursion_loop', x)
        elif len(old) > 150:
            raise self.no()
        st.guard = old | {k}
        try:
            return self.v(d, dcfg, x, st)
        finally:
            st.guard = old

    # -- functions ---------------------------------------------------------------------------------------------
    def _info(self, s, cfg, st):
        f = s['function']
        return Info(self, st, cfg, f.get('field_name')) if f['type'] == 'with-info' else None

    def v_function_plain(self, s, cfg, x, st):
        f = self.w.schema(s['function']['function'])
        info = self._info(s, cfg, st)
        return self.user(x, f, x, info) if info is not None else self.user(x, f, x)

    def v_function_before(self, s, cfg, x, st):
        f = self.w.schema(s['function']['function'])
        info = self._info(s, cfg, st)
        y = self.user(x, f, x, info) if info is not None else self.user(x, f, x)
        return self.v(s['schema'], cfg, y, st)

    def v_function_after(self, s, cfg, x, st):
        y = self.v(s['schema'], cfg, x, st)
        f = self.w.schema(s['function']['function'])
        info = self._info(s, cfg, st)
        return self.user(x, f, y, info) if info is not None else self.user(x, f, y)

    def v_function_wrap(self, s, cfg, x, st):
        f = self.w.schema(s['function']['function'])
        h, saved = self.handler(s['schema'], cfg, st)
        info = self._info(s, cfg, st)
        try:
            return self.user(x, f, x, h, info) if info is not None else self.user(x, f, x, h)
        finally:
            st.exactness = saved.exactness

    # -- defaults ----------------------------------------------------------------------------------------------
    def has_default(self, s):
        return 'default' in s or 'default_factory' in s

    def v_default(self, s, cfg, x, st):
        if x is pc.PydanticUndefined and self.has_default(s):
            return self.default_value(s, cfg, None, st)[0]
        try:
            return self.v(s['schema'], cfg, x, st)
        except UseDefault:
            d = self.default_value(s, cfg, None, st)
            if d is None:
                raise
            return d[0]
        except (LE, Omit):
            st.failed()
            oe = s.get('on_error', 'raise')
            if oe == 'raise':
                raise
            if oe == 'omit':
                raise Omit()
            return self.default_value(s, cfg, None, st)[0]

    def default_value(self, s, cfg, loc, st):
        """[value] or None when there is no default."""
        if s['type'] == 'definition-ref':
            d, dcfg = self.defs[s['schema_ref']]
            return self.default_value(d, dcfg, loc, st)
        if s['type'] == 'definitions':
            raise self.no()
        if s['type'] != 'default' or not self.has_default(s):
            return None
        if 'default' in s:
            key = id(s)
            if key not in self.leafs:
                self.leafs[key] = (s, self.w.schema(s['default']))
            d = self.leafs[key][1]
            try:
                hash(d)
            except TypeError:
                d = copy.deepcopy(d)
        else:
            f = self.w.schema(s['default_factory'])
            if s.get('default_factory_takes_data'):
                d = self.plain(f, st.data if st.data is not None else ())
            else:
                d = self.plain(f)
        if self.opt(s, cfg, 'validate_default', default=False):
            old = st.guard
            try:
                if self.limit is not None and len(old) >= self.limit:
                    raise err('recursion_loop', d)
                st.guard = old | {object()}  # only the depth is counted
                partial, st.partial = st.partial, False
                try:
                    d = self.v(s['schema'], cfg, d, st)
                finally:
                    st.partial = partial
            except LE as e:
                if s.get('on_error') == 'omit':
                    raise Omit()
                raise e if loc is None else e.outer(loc)
            finally:
                st.guard = old
        return [d]

    # -- unions ------------------------------------------------------------------------------------------------
    def v_union(self, s, cfg, x, st):
        choices = [(c['$tuple'][0], c['$tuple'][1]) for c in s['choices']]
        errs = []
        if len(choices) == 1 and s.get('auto_collapse', True):
            return self.v(choices[0][0], cfg, x, st)
        if s.get('mode') == 'left_to_right':
            for c, label in choices:
                try:
                    return self.v(c, cfg, x, st)
                except LE as e:
                    st.failed()
                    errs += e.outer(label).errs
        else:
            oe, oc = st.exactness, st.count
            best = None
            try:
                for c, label in choices:
                    st.exactness, st.count = EXACT, None
                    try:
                        r = self.v(c, cfg, x, st)
                    except LE as e:
                        if best is None:
                            errs += e.outer(label).errs
                        continue
                    if st.exactness == '?':
                        raise self.no()
                    if st.exactness == EXACT and st.count is None:
                        return r
                    if best is None:
                        better = True
                    elif best[2] is not None and st.count is not None and best[2] != st.count:
                        better = best[2] < st.count
                    else:
                        better = best[1] < st.exactness
                    if better:
                        best = (r, st.exactness, st.count)
            finally:
                st.exactness, st.count = oe, oc
            if best is not None:
                st.floor(best[1])
                if best[2] is not None:
                    st.add(best[2])
                return best[0]
        if 'custom_error_type' in s:
            raise err(s['custom_error_type'], x)
        raise LE(errs)

    def v_tagged_union(self, s, cfg, x, st):
        disc = s['discriminator']
        custom = s.get('custom_error_type')
        if isinstance(disc, dict):
            tag = self.plain(self.w.schema(disc), x)
        else:
            if isinstance(x, dict):
                get = lambda k: x.get(k, _MISSING)  # noqa: E731
            elif isinstance(x, collections.abc.Mapping):
                raise self.no()
            elif not self.attributes(s, cfg, True):
                raise err('dict_type', x)
            else:
                self.readable(x)
                get = lambda k: (self.attr(x, [k]) or (0, _MISSING))[1]  # noqa: E731
            tag = _MISSING
            for p in [[disc]] if isinstance(disc, str) else disc:
                tag = get(p[0])
                if tag is not _MISSING:
                    break
            if tag is _MISSING:
                raise err(custom or 'union_tag_not_found', x)
        if tag is None:
            if isinstance(disc, dict):
                raise err(custom or 'union_tag_not_found', x)
        if not (isinstance(tag, str) and tag in s['choices']):
            if not isinstance(tag, (str, int, float, type(None), list, dict, bytes)):
                raise self.no()
            raise err(custom or 'union_tag_invalid', x)
        try:
            return self.v(s['choices'][str(tag)], cfg, x, st)
        except LE as e:
            raise e.outer(str(tag))

    # -- fields ------------------------------------------------------------------------------------------------
    def lookup(self, f, name, cfg):
        """The keys under which a field is looked for, in order."""
        ba = self.by_alias if self.by_alias is not None else (cfg or {}).get('validate_by_alias')
        bn = self.by_name if self.by_name is not None else (cfg or {}).get('validate_by_name')
        ba = True if ba is None else ba
        bn = False if bn is None else bn
        al = f.get('validation_alias')
        if al is None:
            return [name]
        if not isinstance(al, str):
            raise self.no()
        if ba and bn:
            return [al, name]
        if ba:
            return [al]
        if bn:
            return [name]
        raise self.no()

    def v_typed_dict(self, s, cfg, x, st):
        cfg = s.get('config')
        if not isinstance(x, dict):
            if isinstance(x, collections.abc.Mapping) and not self.is_strict(s, cfg):
                raise self.no()
            raise err('dict_type', x)
        total = self.opt(s, cfg, 'total', 'typed_dict_total', True)
        lba = (cfg or {}).get('loc_by_alias', True)
        out, errs, used = {}, [], set()
        od, of = st.data, st.field_name
        st.data = out
        n = 0
        lastkey = next(reversed(x), None) if st.partial else None
        try:
            for name, f in s['fields'].items():
                keys = self.lookup(f, name, cfg)
                key = next((k for k in keys if k in x), None)
                required = f.get('required', total)
                if key is not None:
                    used.add(key)
                    st.field_name = name
                    try:
                        out[name] = self.part(f['schema'], cfg, x[key], st, key == lastkey)
                        n += 1
                    except Omit:
                        pass
                    except LE as e:
                        if key != lastkey or required:
                            errs += e.outer(key if lba else name).errs
                        else:
                            st.failed()
                    finally:
                        st.field_name = of
                    continue
                try:
                    d = self.default_value(f['schema'], cfg, name, st)
                    if d is not None:
                        out[name] = d[0]
                    elif required:
                        errs.append(['missing', (keys[0] if lba else name,), x, None])
                except Omit:
                    pass
                except LE as e:
                    errs += e.errs
            st.add(n)
        finally:
            st.data = od
        self.extras(s, cfg, x, st, used, errs, out, None, ('ignore', 'extra_forbidden'), lastkey)
        if errs:
            raise LE(errs)
        return out

    def extras(self, s, cfg, x, st, used, errs, out, fields_set, _, lastkey=None):
        eb = self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'ignore')
        if eb == 'ignore':
            return
        for k, val in list(x.items()):
            if not isinstance(k, str):
                errs.append(['invalid_key', (_loc(k),), k, None])
                continue
            if k in used:
                continue
            if eb == 'forbid':
                errs.append(['extra_forbidden', (_loc(k),), val, None])
                continue
            key = _loc(k)
            if 'extras_schema' in s:
                try:
                    out[key] = self.part(s['extras_schema'], cfg, val, st, key == lastkey)
                except LE as e:
                    if key == lastkey:
                        st.failed()
                    else:
                        errs += e.outer(key).errs
                    continue
            else:
                out[key] = val
            if fields_set is not None:
                fields_set.append(key)

    def attributes(self, s, cfg, default):
        fa = self.from_attributes
        if fa is None:
            fa = s.get('from_attributes')
        if fa is None:
            fa = (cfg or {}).get('from_attributes')
        return default if fa is None else fa

    def attr(self, x, keys):
        """The first of these attributes: [key, value] or None."""
        for k in keys:
            try:
                return k, getattr(x, k)
            except AttributeError:
                pass
            except (core.HarnessError, Unsupported, core.SimLimit):
                raise
            except BaseException:  # noqa: BLE001
                raise err('get_attribute_error', x)

    def readable(self, x):
        """Whether attributes of x are read, given that it is no mapping."""
        if type(x).__module__ not in ('builtins', 'datetime', 'collections'):
            return True
        if type(x) is tuple and len(x) == 2 and isinstance(x[1], dict):
            raise self.no()
        raise err('model_attributes_type', x)

    def v_model_fields(self, s, cfg, x, st):
        attrs = False
        if not isinstance(x, dict):
            if isinstance(x, collections.abc.Mapping) and not self.is_strict(s, cfg):
                raise self.no()
            if not self.attributes(s, cfg, False):
                raise err('model_type', x)
            attrs = self.readable(x)
        lba = (cfg or {}).get('loc_by_alias', True)
        out, errs, used, fs = {}, [], set(), []
        od, of = st.data, st.field_name
        st.data = out
        n = 0
        try:
            for name, f in s['fields'].items():
                keys = self.lookup(f, name, cfg)
                if attrs:
                    try:
                        found = self.attr(x, keys)
                    except LE as e:
                        errs += e.outer(name).errs
                        continue
                else:
                    found = next(((k, x[k]) for k in keys if k in x), None)
                if found is not None:
                    key = found[0]
                    used.add(key)
                    st.field_name = name
                    try:
                        out[name] = self.v(f['schema'], cfg, found[1], st)
                        fs.append(name)
                        n += 1
                    except Omit:
                        pass
                    except LE as e:
                        errs += e.outer(key if lba else name).errs
                    finally:
                        st.field_name = of
                    continue
                try:
                    d = self.default_value(f['schema'], cfg, name, st)
                    if d is not None:
                        out[name] = d[0]
                    else:
                        errs.append(['missing', (keys[0] if lba else name,), x, None])
                except Omit:
                    pass
                except LE as e:
                    errs += e.errs
        finally:
            st.data = od
        extra = {} if self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'ignore') == 'allow' else None
        if not attrs:
            self.extras(s, cfg, x, st, used, errs, extra, fs, None)
        if errs:
            raise LE(errs)
        st.add(n)
        return (out, extra, set(fs))

    def revalidates(self, s, cfg, x, cls):
        r = self.opt(s, cfg, 'revalidate_instances', default='never')
        return r == 'always' or (r == 'subclass-instances' and type(x) is not cls)

    def v_model(self, s, _cfg, x, st):
        cfg = s.get('config')
        cls = self.w.schema(s['cls'])
        if st.self_instance is not None:
            o = st.self_instance
            st.self_instance = None
            try:
                return self.construct(s, cfg, x, st, o, None)
            finally:
                st.self_instance = o
        if isinstance(x, cls):
            if not self.revalidates(s, cfg, x, cls):
                return x
            fs = x.__pydantic_fields_set__
            if s.get('root_model'):
                inner = x.root
            else:
                inner = x.__dict__
                if x.__pydantic_extra__ is not None:
                    inner = {**inner, **x.__pydantic_extra__}
            return self.construct(s, cfg, inner, st, None, fs)
        st.floor(STRICT)
        return self.construct(s, cfg, x, st, None, None)

    def construct(self, s, cfg, x, st, o, fs):
        cls = self.w.schema(s['cls'])
        new = o is None
        if new:
            o = cls.__new__(cls)
        if s.get('root_model'):
            of = st.field_name
            st.field_name = 'root'
            try:
                out = self.v(s['schema'], cfg, x, st)
                object.__setattr__(o, '__pydantic_fields_set__', set() if x is pc.PydanticUndefined else {'root'})
                object.__setattr__(o, 'root', out)
                return self.post(s, x, o)
            finally:
                st.field_name = of
        out = self.v(s['schema'], cfg, x, st)
        if not (type(out) is tuple and len(out) == 3):
            raise Internal(TypeError('not a model-fields result'))
        d, extra, vfs = out
        object.__setattr__(o, '__dict__', d)
        object.__setattr__(o, '__pydantic_extra__', extra)
        object.__setattr__(o, '__pydantic_private__', None)
        object.__setattr__(o, '__pydantic_fields_set__', vfs if fs is None else set(fs) if isinstance(fs, set) else fs)
        return self.post(s, x, o)

    def post(self, s, x, o):
        if s.get('post_init'):
            self.user(x, getattr(o, s['post_init']), self.context)
        return o

    def v_dataclass(self, s, _cfg, x, st):
        cfg = s.get('config')
        cls = self.w.schema(s['cls'])
        if st.self_instance is not None:
            o = st.self_instance
            st.self_instance = None
            try:
                return self.fill(s, self.v(s['schema'], cfg, x, st), x, o)
            finally:
                st.self_instance = o
        if isinstance(x, cls):
            if not self.revalidates(s, cfg, x, cls):
                return x
            d = {}
            for f in s['fields']:
                try:
                    d[f] = getattr(x, f)
                except AttributeError as e:
                    raise Internal(e)
            out = self.v(s['schema'], cfg, d, st)
            return self.fill(s, out, x, cls.__new__(cls))
        if self.is_strict(s, cfg):
            raise err('dataclass_exact_type', x)
        out = self.v(s['schema'], cfg, x, st)
        st.floor(STRICT)
        return self.fill(s, out, x, cls.__new__(cls))

    def fill(self, s, out, x, o):
        d, init_only = out
        if s.get('slots'):
            for k, v in d.items():
                object.__setattr__(o, k, v)
        else:
            object.__setattr__(o, '__dict__', d)
        if s.get('post_init'):
            args = () if init_only is None else init_only
            self.user(x, o.__post_init__, *args)
        return o

    def v_dataclass_args(self, s, cfg, x, st):
        if isinstance(x, dict):
            args, kw = None, x
        elif isinstance(x, pc.ArgsKwargs):
            args, kw = x.args, x.kwargs
        else:
            raise err('dataclass_type', x)
        lba = (cfg or {}).get('loc_by_alias', True)
        out, errs, used = {}, [], set()
        init_only = [] if s.get('collect_init_only') else None
        od, of = st.data, st.field_name
        st.data = out
        n = 0
        npos = sum(1 for f in s['fields'] if not f.get('kw_only', True))

        def put(f, val):
            if f.get('init_only'):
                if init_only is not None:
                    init_only.append(val)
            else:
                out[f['name']] = val

        try:
            for i, f in enumerate(s['fields']):
                name = f['name']
                if f.get('init') is False:
                    try:
                        d = self.default_value(f['schema'], cfg, name, st)
                        if d is not None:
                            put(f, d[0])
                            n += 1
                    except Omit:
                        pass
                    except LE as e:
                        errs += e.errs
                    continue
                keys = self.lookup(f, name, cfg)
                has_pos = args is not None and not f.get('kw_only', True) and i < len(args)
                key = next((k for k in keys if kw is not None and k in kw), None)
                if key is not None:
                    used.add(key)
                st.field_name = name
                try:
                    if has_pos and key is not None:
                        errs.append(['multiple_argument_values', (name,), kw[key], None])
                    elif has_pos or key is not None:
                        try:
                            r = self.v(f['schema'], cfg, args[i] if has_pos else kw[key], st)
                            put(f, r)
                            n += 1
                        except LE as e:
                            errs += e.outer(i if has_pos else key if lba else name).errs
                    else:
                        try:
                            d = self.default_value(f['schema'], cfg, name, st)
                            if d is not None:
                                put(f, d[0])
                            else:
                                errs.append(['missing', (keys[0] if lba else name,), x, None])
                        except Omit:
                            pass
                        except LE as e:
                            errs += e.errs
                finally:
                    st.field_name = of
            if args is not None:
                for i in range(npos, len(args)):
                    errs.append(['unexpected_positional_argument', (i,), args[i], None])
            eb = self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'ignore')
            if kw is not None and len(kw) != len(used):
                for k, val in list(kw.items()):
                    if not isinstance(k, str):
                        errs.append(['invalid_key', (_loc(k),), k, None])
                        continue
                    if k in used:
                        continue
                    if eb == 'forbid':
                        errs.append(['unexpected_keyword_argument', (_loc(k),), val, None])
                    elif eb == 'allow':
                        if 'extras_schema' in s:
                            try:
                                out[str(k)] = self.v(s['extras_schema'], cfg, val, st)
                            except LE as e:
                                errs += e.outer(_loc(k)).errs
                        else:
                            out[str(k)] = val
        finally:
            st.data = od
        st.add(n)
        if errs:
            raise LE(errs)
        return (out, tuple(init_only) if init_only is not None else None)


    # -- arguments ---------------------------------------------------------------------------------------------
    def v_call(self, s, cfg, x, st):
        args, kw = self.v(s['arguments_schema'], cfg, x, st)
        r = self.plain(self.w.schema(s['function']), *args, **kw)
        if 'return_schema' not in s:
            return r
        try:
            return self.v(s['return_schema'], cfg, r, st)
        except LE as e:
            raise e.outer('return')

    def arg_keys(self, a, s, cfg):
        c = dict(cfg or {})
        for k in ('validate_by_alias', 'validate_by_name'):
            if s.get(k) is not None:
                c[k] = s[k]
        return self.lookup({'validation_alias': a.get('alias')}, a['name'], c)

    def v_arguments(self, s, cfg, x, st):
        params = [dict(a, mode=a.get('mode', 'positional_or_keyword')) for a in s['arguments_schema']]
        npos = max([i + 1 for i, a in enumerate(params) if a['mode'].startswith('positional')], default=0)
        if isinstance(x, dict):
            args, kw = None, x
        elif isinstance(x, pc.ArgsKwargs):
            args, kw = x.args, x.kwargs
        elif isinstance(x, (list, tuple)):
            args, kw = x, None
        else:
            raise err('arguments_type', x)
        var_args = s.get('var_args_schema')
        var_kw = (s['var_kwargs_schema'], s.get('var_kwargs_mode', 'uniform')) if 'var_kwargs_schema' in s else None
        return self.bind(s, cfg, x, st, params, npos, args, kw, var_args, var_kw, True)

    def v_arguments_v3(self, s, cfg, x, st):
        params = [dict(a, mode=a.get('mode', 'positional_or_keyword')) for a in s['arguments_schema']]
        if isinstance(x, dict):
            return self.bind_names(s, cfg, x, st, params)
        if isinstance(x, collections.abc.Mapping):
            raise self.no()
        if not isinstance(x, pc.ArgsKwargs):
            raise err('arguments_type', x)
        var_args = next((a['schema'] for a in params if a['mode'] == 'var_args'), None)
        var_kw = next(((a['schema'], a['mode'][11:].replace('_', '-')) for a in params
                       if a['mode'].startswith('var_kwargs')), None)
        params = [a for a in params if not a['mode'].startswith('var_')]
        npos = sum(1 for a in params if a['mode'].startswith('positional'))
        return self.bind(s, cfg, x, st, params, npos, x.args, x.kwargs, var_args, var_kw, False)

    def bind(self, s, cfg, x, st, params, npos, args, kw, var_args, var_kw, names):
        lba = (cfg or {}).get('loc_by_alias', True)
        out, okw, errs, used = [], {}, [], set()
        of = st.field_name
        for i, a in enumerate(params):
            name, mode = a['name'], a['mode']
            haspos = args is not None and mode.startswith('positional') and i < len(args)
            keys = self.arg_keys(a, s, cfg) if mode != 'positional_only' else []
            key = next((k for k in keys if kw is not None and k in kw), None)
            if key is not None:
                used.add(key)
            if names:
                st.field_name = name
            try:
                if haspos and key is not None:
                    errs.append(['multiple_argument_values', (name,), kw[key], None])
                elif haspos:
                    try:
                        out.append(self.v(a['schema'], cfg, args[i], st))
                    except LE as e:
                        errs += e.outer(i).errs
                elif key is not None:
                    try:
                        okw[name] = self.v(a['schema'], cfg, kw[key], st)
                    except LE as e:
                        errs += e.outer(key if lba else name).errs
                else:
                    d = self.default_value(a['schema'], cfg, name, st)
                    if d is not None and mode == 'positional_only':
                        out.append(d[0])
                    elif d is not None:
                        okw[name] = d[0]
                    elif mode == 'positional_only':
                        errs.append(['missing_positional_only_argument', (i,), x, None])
                    else:
                        t = 'missing_argument' if mode == 'positional_or_keyword' else 'missing_keyword_only_argument'
                        errs.append([t, (keys[0] if lba else name,), x, None])
            finally:
                st.field_name = of
        for i in range(npos, len(args) if args is not None else 0):
            if var_args is None:
                errs.append(['unexpected_positional_argument', (i,), args[i], None])
                continue
            try:
                out.append(self.v(var_args, cfg, args[i], st))
            except LE as e:
                errs += e.outer(i).errs
        rest = {}
        if kw is not None and len(kw) > len(used):
            for k, val in list(kw.items()):
                if not isinstance(k, str):
                    errs.append(['invalid_key', (_loc(k),), k, None])
                elif k in used:
                    pass
                elif var_kw is None:
                    if self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'forbid') == 'forbid':
                        errs.append(['unexpected_keyword_argument', (_loc(k),), val, None])
                elif var_kw[1] == 'uniform':
                    try:
                        okw[str(k)] = self.v(var_kw[0], cfg, val, st)
                    except LE as e:
                        errs += e.outer(_loc(k)).errs
                else:
                    rest[str(k)] = val
        if var_kw is not None and var_kw[1] != 'uniform':
            try:
                okw.update(self.mapping(self.v(var_kw[0], cfg, rest, st)))
            except LE as e:
                errs += e.errs
        if errs:
            raise LE(errs)
        return (tuple(out), okw)

    def mapping(self, v):
        if not isinstance(v, dict):
            raise self.no()
        return v

    def bind_names(self, s, cfg, x, st, params):
        lba = (cfg or {}).get('loc_by_alias', True)
        out, okw, errs, used = [], {}, [], set()
        for a in params:
            name, mode = a['name'], a['mode']
            keys = self.arg_keys(a, s, cfg)
            key = next((k for k in keys if k in x), None)
            if key is None:
                if mode == 'var_kwargs_unpacked_typed_dict':
                    try:
                        okw.update(self.mapping(self.v(a['schema'], cfg, {}, st)))
                    except LE as e:
                        errs += e.outer(name).errs
                elif not mode.startswith('var_'):
                    d = self.default_value(a['schema'], cfg, name, st)
                    if d is None:
                        t = {'positional_only': 'missing_positional_only_argument',
                             'positional_or_keyword': 'missing_argument'}.get(mode, 'missing_keyword_only_argument')
                        errs.append([t, (keys[0] if lba else name,), x, None])
                    elif mode.startswith('positional'):
                        out.append(d[0])
                    else:
                        okw[name] = d[0]
                continue
            used.add(key)
            loc = key if lba else name
            val = x[key]
            if mode == 'var_args':
                if not isinstance(val, (list, tuple, set, frozenset)):
                    if not isinstance(val, (str, bytes, int, float, type(None), dict)):
                        raise self.no()
                    errs.append(['tuple_type', (loc,), val, None])
                    continue
                for i, y in enumerate(val):
                    try:
                        out.append(self.v(a['schema'], cfg, y, st))
                    except LE as e:
                        errs += e.outer(i).outer(loc).errs
            elif mode == 'var_kwargs_uniform':
                if not isinstance(val, dict):
                    errs.append(['dict_type', (loc,), val, None])
                    continue
                for k, y in list(val.items()):
                    if not isinstance(k, str):
                        errs.append(['invalid_key', (name, _loc(k)), k, None])
                        continue
                    try:
                        okw[k] = self.v(a['schema'], cfg, y, st)
                    except LE as e:
                        errs += e.outer(_loc(k)).outer(loc).errs
            else:
                try:
                    r = self.v(a['schema'], cfg, val, st)
                except LE as e:
                    errs += e.outer(loc).errs
                    continue
                if mode == 'var_kwargs_unpacked_typed_dict':
                    okw.update(self.mapping(r))
                elif mode.startswith('positional'):
                    out.append(r)
                else:
                    okw[name] = r
        eb = self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'forbid')
        if eb != 'ignore':
            for k, val in list(x.items()):
                if not isinstance(k, str):
                    errs.append(['invalid_key', (_loc(k),), k, None])
                elif k not in used and eb == 'forbid':
                    errs.append(['extra_forbidden', (_loc(k),), val, None])
        if errs:
            raise LE(errs)
        return (tuple(out), okw)

    # -- assignment --------------------------------------------------------------------------------------------
    def run_assign(self, ent, obj, f, val):
        st = State()
        st.field_name = f
        try:
            return ('ok', self.assign(ent['s'], ent.get('config') or None, obj, f, val, st))
        except LE as e:
            return ('errors', e.errs)
        except (Omit, UseDefault):
            return ('raise', pc.SchemaError('uncaught signal'))
        except Internal as e:
            return ('raise', e.e)

    def assign(self, s, cfg, x, f, val, st):
        t = s['type']
        if t == 'definitions':
            for d in s['definitions']:
                self.defs[d['ref']] = (d, cfg)
            return self.assign(s['schema'], cfg, x, f, val, st)
        if t == 'definition-ref':
            d, dcfg = self.defs[s['schema_ref']]
            return self.assign(d, dcfg, x, f, val, st)
        if t == 'function-before':
            fn, info = self.w.schema(s['function']['function']), self._info(s, cfg, st)
            y = self.user(x, fn, x, info) if info is not None else self.user(x, fn, x)
            return self.assign(s['schema'], cfg, y, f, val, st)
        if t == 'function-after':
            y = self.assign(s['schema'], cfg, x, f, val, st)
            fn, info = self.w.schema(s['function']['function']), self._info(s, cfg, st)
            return self.user(x, fn, y, info) if info is not None else self.user(x, fn, y)
        if t == 'function-wrap':
            fn = self.w.schema(s['function']['function'])
            h, saved = self.handler(s['schema'], cfg, st, (f, val))
            info = self._info(s, cfg, st)
            return self.user(x, fn, x, h, info) if info is not None else self.user(x, fn, x, h)
        if t == 'model':
            return self.a_model(s, x, f, val, st)
        if t == 'dataclass':
            return self.a_dataclass(s, x, f, val, st)
        if t == 'model-fields':
            return self.a_fields(s, cfg, x, f, val, st, False)
        if t == 'dataclass-args':
            return self.a_fields(s, cfg, x, f, val, st, True)
        raise Internal(TypeError('assignment is not supported'))

    def a_model(self, s, x, f, val, st):
        cfg = s.get('config')
        if s.get('frozen'):
            raise err('frozen_instance', val)
        if s.get('root_model'):
            if f != 'root':
                raise err('no_such_attribute', val, (f,))
            old, st.field_name = st.field_name, 'root'
            try:
                out = self.v(s['schema'], cfg, val, st)
            finally:
                st.field_name = old
            fs = getattr(x, '__pydantic_fields_set__', None)
            if fs is not None:
                fs.add('root')
            self.plain(object.__setattr__, x, 'root', out)
            return x
        old = self.plain(getattr, x, '__dict__')
        if not isinstance(old, dict):
            raise Internal(TypeError())
        d = dict(old)
        extra = self.plain(getattr, x, '__pydantic_extra__')
        if isinstance(extra, dict):
            d.update(extra)
        d[f] = val
        out = self.assign(s['schema'], cfg, d, f, val, st)
        if not (isinstance(out, tuple) and len(out) == 3 and isinstance(out[0], dict) and isinstance(out[2], set)):
            raise Internal(TypeError())
        fs = getattr(x, '__pydantic_fields_set__', None)
        if fs is not None:
            fs.update(out[2])
        self.plain(object.__setattr__, x, '__dict__', out[0])
        self.plain(object.__setattr__, x, '__pydantic_extra__', out[1])
        return x

    def a_dataclass(self, s, x, f, val, st):
        cfg = s.get('config')
        if s.get('frozen'):
            raise err('frozen_instance', val)
        slots = s.get('slots')
        d = {} if slots else dict(self.plain(getattr, x, '__dict__'))
        for name in s['fields']:
            d[name] = self.plain(getattr, x, name)
        d[f] = val
        out = self.assign(s['schema'], cfg, d, f, val, st)
        if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], dict)):
            raise Internal(TypeError())
        if slots:
            if f not in out[0]:
                raise Internal(KeyError())
            self.plain(object.__setattr__, x, f, out[0][f])
        else:
            self.plain(object.__setattr__, x, '__dict__', out[0])
        return x

    def a_fields(self, s, cfg, x, f, val, st, dc):
        if not isinstance(x, dict):
            raise Internal(TypeError())
        fields = {y['name']: y for y in s['fields']} if dc else s['fields']
        eb = self.opt(s, cfg, 'extra_behavior', 'extra_fields_behavior', 'ignore')
        od, of = st.data, st.field_name
        data = {k: v for k, v in x.items() if k != f}
        try:
            if f in fields:
                if fields[f].get('frozen'):
                    raise err('frozen_field', val, (f,))
                st.data, st.field_name = data, f
                try:
                    x[f] = self.v(fields[f]['schema'], cfg, val, st)
                except LE as e:
                    raise e.outer(f)
            elif eb != 'allow':
                raise err('no_such_attribute', val, (f,))
            elif not dc and 'extras_schema' in s:
                st.data = data
                try:
                    x[f] = self.v(s['extras_schema'], cfg, val, st)
                except LE as e:
                    raise e.outer(f)
            else:
                x[f] = val
        finally:
            st.data, st.field_name = od, of
        if dc:
            return (x, None)
        extra = None
        if eb == 'allow':
            known = {k: x[k] for k in fields if k in x}
            extra = {k: v for k, v in x.items() if k not in fields}
            x.clear()
            x.update(known)
        return (x, extra, {f})


class _Abort(Exception):
    def __init__(self, e):
        self.e = e


_MISSING = object()


def _loc(k):
    """How a dict key appears in a location."""
    if isinstance(k, str):
        return str.__str__(k)
    if isinstance(k, int) and -(2**63) <= k < 2**63:
        return int(k)
    return repr(k)


def _live_list(x):
    i = 0
    while i < len(x):
        yield x[i]
        i += 1


# ------------------------------------------------------------------------------------------------ cases


def adapt(case, attrs=False):
    """Brings a generated case into the covered subset: union choices get labels, alias paths become plain aliases,
    mappings and attribute objects become dicts.  None when a schema is outside the subset."""
    case = json.loads(json.dumps(case))

    def walk(x):
        if isinstance(x, dict):
            if x.get('type') == 'union' and isinstance(x.get('choices'), list):
                x['choices'] = [c if '$tuple' in c else {'$tuple': [c, 'c%d' % i]} for i, c in enumerate(x['choices'])]
            if 'validation_alias' in x and not isinstance(x['validation_alias'], str):
                x['validation_alias'] = 'al'
            if not attrs:
                x.pop('from_attributes', None)
            x.pop('serialization', None)
            if x.get('$') == 'mapping':
                x['$'] = 'dict'
            if x.get('$') == 'obj' and not attrs:
                v = x['v']
                x.clear()
                x.update(v)
            for y in list(x.values()):
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(case)
    return case


def types_ok(case):
    bad = set()

    def walk(x):
        if isinstance(x, dict):
            t = x.get('type')
            if isinstance(t, str) and t not in SUPPORTED:
                bad.add(t)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk([e['s'] for e in case['schemas']])
    return not bad
