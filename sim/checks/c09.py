"""C09: constraints on now, today and time zones follow the clock and the local time zone as they are when the value is
checked, however the clock has jumped, stood still or run since the validator was built."""
import ctypes
import datetime as dt
import json
import os
import time

import core
import driver
import pydantic_core as pc

SEC = 10**9
DAY = 86400
LIB = ctypes.CDLL(None)
LIB.sim_clock_now.restype = ctypes.c_int64
LIB.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
LIB.sim_clock_reads.restype = ctypes.c_uint64

ZONES = ['UTC0', 'UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', '<+0545>-5:45', '<-12>12', '<+14>-14',
         '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0', '<-0930>9:30', '<-0044>0:44:30']
OFFS = [0, 0, 3600, -3600, 7200, 19800, 20700, -34200, 50400, -43200, 60, -60, 86340, -86340, 86399, 1, -1, -2670]
EPOCH = dt.datetime(1970, 1, 1)
# moments at which calendars do something: leap days, the change of a year or century, and changes to summer time
MARKS = ['2024-02-29T00:00:00', '2023-03-01T00:00:00', '2023-12-31T23:59:59', '2024-12-31T00:00:00',
         '2024-03-31T01:00:00', '2024-10-27T01:00:00', '2024-03-10T07:00:00', '2024-11-03T06:00:00', '2000-02-29T12:00:00',
         '2038-01-19T03:14:07', '2100-03-01T00:00:00', '1970-01-02T00:00:00', '1970-01-01T00:00:00', '2240-02-29T00:00:00']
DELTAS = [0, 0, 0, 1000, -1000, 999000, -999000, SEC, -SEC, 1, -1, 999, 60 * SEC, -60 * SEC, 3600 * SEC, -3600 * SEC,
          DAY * SEC, -DAY * SEC, DAY * SEC - 1000, 1800 * SEC, 366 * DAY * SEC, -365 * DAY * SEC]
ERRS = {'date': ('date_past', 'date_future'), 'datetime': ('datetime_past', 'datetime_future')}
STATIC = ('le', 'lt', 'ge', 'gt')
STATIC_ERR = {'le': 'less_than_equal', 'lt': 'less_than', 'ge': 'greater_than_equal', 'gt': 'greater_than'}
TAIL = 1 << 20


class C09(driver.Check):
    pid = 'C09'
    runs = {'quick': 30000, 'thorough': 2500000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = date and datetime schemas with now_op, now_utc_offset, bounds and tz_constraint inside lists, models, '
            'unions, defaults, generators and wrap functions, and a history in which the simulated clock jumps forward '
            'and back, stands still or runs, and the local time zone changes, between calls and inside user callbacks; '
            'values lie around the moments the clock takes; every outcome must be the one an independent reference gives '
            'for a moment the clock showed while that value was checked; distinct = distinct (kinds of schema, form, '
            'outcome, shape, clock and zone changes)')
    assumptions = ['the clock stays between 1970 and 2255 (nanoseconds in 64 bits)',
                   'local offsets are those of the C library for the simulated TZ',
                   'a datetime without a zone is compared by the wall clock, as the documentation says']
    real = ['pydantic_core (built from the working tree)', 'CPython', 'the C library with its time zone rules']
    stubs = ['CLOCK_REALTIME, time(), gettimeofday (LD_PRELOAD)', 'TZ', 'user callbacks and tzinfo objects',
             'the oracle: sim/checks/c09.py']

    def gen(self, rng, i, tier):
        return G(rng).case()

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


# ---------------------------------------------------------------------------------------------- generation


class G:
    def __init__(self, r):
        self.r = r

    def one(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def moment(self):
        m = dt.datetime.fromisoformat(self.one(MARKS))
        t = int((m - EPOCH).total_seconds()) * SEC
        if self.p(0.4):
            t -= self.one(OFFS) * SEC
        t += self.one(DELTAS)
        if self.p(0.3):
            t += self.r.randrange(0, 40 * 365 * DAY) * SEC + self.r.randrange(SEC)
        return max(0, t)

    def case(self):
        self.refs = [self.moment() for _ in range(self.one([1, 1, 2, 3]))]
        leaves = [self.leaf() for _ in range(self.one([1, 1, 2, 3]))]
        shapes = [self.shape(leaves) for _ in range(self.one([1, 1, 2, 2, 3]))]
        case = {'t0': self.refs[0], 'tz0': self.one(ZONES), 'step': self.tick(), 'leaves': leaves, 'shapes': shapes}
        steps = []
        for _ in range(self.one([2, 3, 4, 6, 8])):
            if self.p(0.45):
                steps.append(dict(self.action(), k='act'))
            elif self.p(0.12):
                steps.append({'k': 'build', 's': self.r.randrange(len(shapes))})
            else:
                steps.append(self.call(shapes, leaves))
        steps.append(self.call(shapes, leaves))
        case['steps'] = steps
        return case

    def tick(self):
        return self.one([0, 0, 0, 0, 1, 1000, 333000, SEC, 3600 * SEC])

    def action(self):
        r = self.r.random()
        if r < 0.4:
            return {'a': 'set', 't': max(0, self.one(self.refs) + self.one(DELTAS) * self.one([0, 0, 1]))}
        if r < 0.65:
            return {'a': 'jump', 'd': self.one(DELTAS)}
        if r < 0.9:
            return {'a': 'tz', 'z': self.one(ZONES)}
        return {'a': 'step', 's': self.tick()}

    def leaf(self):
        kind = self.one(['date', 'datetime', 'datetime'])
        s = {'kind': kind}
        if self.p(0.85):
            s['now_op'] = self.one(['past', 'future'])
            if self.p(0.5):
                s['now_utc_offset'] = self.one(OFFS)
        if kind == 'datetime' and self.p(0.3):
            s['tz_constraint'] = self.one(['naive', 'aware', 'aware', self.one(OFFS)])
        for c in STATIC:
            if self.p(0.12):
                s[c] = self.value(kind, kind)['v']
        if self.p(0.3):
            s['around'] = [self.one(['nullable', 'ref', 'lax-or-strict', 'chain', 'default', 'union1', 'custom'])
                           for _ in range(self.one([1, 1, 2]))]
        return s

    def value(self, kind, form=None):
        t = self.one(self.refs) + self.one(DELTAS)
        wall = self.one([0, 0, 1])
        off = self.one([None, None, 0, 3600, self.one(OFFS)])
        # the wall clock at this moment: in the value's own zone, or in another one
        shown = off if wall == 0 and off is not None else self.one(OFFS)
        us = t // 1000 + shown * 10**6
        form = form or self.one(['py', 'py', 'str', 'sub', 'zone', 'date', 'datestr', 'int', 'pyint'] if kind == 'datetime'
                                else ['date', 'date', 'datestr', 'midnight', 'midnightstr', 'int', 'zonemidnight', 'sub'])
        if form in ('str', 'midnightstr') and off is not None:
            off -= off % 60
        us = max(0, us)
        if kind == 'date' or form in ('date', 'datestr'):
            us -= us % (DAY * 10**6)
        if form in ('int', 'pyint'):
            us -= us % 10**6
        v = {'us': us, 'off': off, 'form': {'datetime': 'py'}.get(form, form)}
        if form in ('date', 'datestr', 'int', 'pyint'):
            v.pop('off')
        if form in ('zone', 'zonemidnight'):
            v['act'] = self.action()
        return {'v': v}

    def shape(self, leaves):
        n = len(leaves)
        k = self.one(['leaf', 'leaf', 'list', 'list', 'dict', 'model', 'dataclass', 'union', 'gen', 'wrap', 'default', 'map',
                      'call'])
        s = {'k': k, 'l': [self.r.randrange(n) for _ in range(self.one([1, 2, 3]))], 'w': self.p(0.6)}
        if k == 'union':
            s['l'] = [x for x in s['l'] if leaves[x]['kind'] == leaves[s['l'][0]]['kind']]
            s['mode'] = self.one(['smart', 'left_to_right'])
        if k == 'default':
            s['factory'] = self.p(0.5)
        return s

    def call(self, shapes, leaves):
        j = self.r.randrange(len(shapes))
        sh = shapes[j]
        entry = self.one(['python', 'python', 'python', 'json', 'strings', 'isinstance', 'assign'])
        n = self.one([1, 2, 3, 4]) if sh['k'] in ('list', 'gen', 'map') else len(sh['l'])
        if sh['k'] in ('leaf', 'union', 'wrap', 'default'):
            n = 1
        ls = sh['l']
        vals = []
        for x in range(n):
            kind = leaves[ls[x % len(ls)]]['kind']
            form = None
            if entry in ('json', 'strings'):
                form = self.one(['str', 'str', 'datestr', 'int'] if kind == 'datetime' else ['datestr', 'midnightstr', 'int'])
                if entry == 'strings' and form == 'int':
                    form = 'datestr'
            vals.append(self.value(kind, form)['v'])
        acts = [[self.action() if self.p(0.4) else None, self.action() if self.p(0.25) else None] for _ in range(n + 1)]
        return {'k': 'call', 's': j, 'e': entry, 'v': vals, 'acts': acts, 'f': self.r.randrange(4)}


# ---------------------------------------------------------------------------------------------- the simulated world


class SubDatetime(dt.datetime):
    pass


class SubDate(dt.date):
    pass


class Clock:
    def __init__(self, case):
        self.pts = []
        self.span = 0
        self.stats = {}
        self.tz(case.get('tz0', 'UTC0'))
        self.step = case.get('step', 0)
        self.set(case.get('t0', 0))

    def n(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def tz(self, z):
        os.environ['TZ'] = z
        time.tzset()
        self.zone = z

    def set(self, t):
        LIB.sim_clock(1, max(0, min(t, 9 * 10**18)), self.step)

    def now(self):
        return LIB.sim_clock_now()

    def mark(self):
        t = self.now()
        self.pts.append((t, time.localtime(t // SEC).tm_gmtoff))
        return len(self.pts) - 1

    def act(self, a):
        if not a:
            return
        self.mark()
        k = a.get('a')
        if k == 'set':
            self.n('fault:clock_set_back' if a['t'] < self.now() else 'fault:clock_set_forward')
            self.span += abs(a['t'] - self.now())
            self.set(a['t'])
        elif k == 'jump':
            self.n('fault:clock_jump_back' if a['d'] < 0 else 'fault:clock_jump_forward')
            self.span += abs(a['d'])
            self.set(self.now() + a['d'])
        elif k == 'tz':
            self.n('fault:timezone_change')
            self.tz(a['z'])
        elif k == 'step':
            self.n('fault:clock_runs' if a['s'] else 'fault:clock_stuck')
            self.step = a['s']
            self.set(self.now())
        self.mark()


class Zone(dt.tzinfo):
    """A user's tzinfo: asking it for the offset takes time, in which the clock or the local zone may change."""

    def __init__(self, off, clock, act):
        self.off, self.clock, self.a = off, clock, act

    def utcoffset(self, d):
        a, self.a = self.a, None
        if a and self.clock.live:
            self.clock.n('zone_act')
            self.clock.act(a)
        return None if self.off is None else dt.timedelta(seconds=self.off)

    def dst(self, d):
        return None

    def tzname(self, d):
        return 'Z'


def wall_of(v):
    return EPOCH + dt.timedelta(microseconds=v['us'])


def tz_of(off):
    return None if off is None else dt.timezone(dt.timedelta(seconds=off))


def build_value(v, clock, entry):
    """-> (input, (wall, offset) meant)"""
    w = wall_of(v)
    f = v.get('form')
    off = v.get('off')
    if f == 'date':
        return w.date(), (w, None)
    if f == 'sub' and w.time() == dt.time() and off is None and v.get('us', 0) % 2 == 0:
        return SubDate(w.year, w.month, w.day), (w, None)
    if f in ('datestr',):
        return w.date().isoformat(), (w, None)
    if f in ('int', 'pyint'):
        t = v['us'] // 10**6
        return t, (w, 0)
    if f in ('str', 'midnightstr'):
        s = w.isoformat(timespec='microseconds' if w.microsecond else 'seconds')
        if off is not None:
            a = abs(off) // 60
            s += 'Z' if off == 0 else '%s%02d:%02d' % ('-' if off < 0 else '+', a // 60, a % 60)
        return s, (w, off)
    if f in ('zone', 'zonemidnight'):
        return w.replace(tzinfo=Zone(off, clock, v.get('act'))), (w, off)
    if f == 'sub':
        return SubDatetime(w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond, tz_of(off)), (w, off)
    return w.replace(tzinfo=tz_of(off)), (w, off)


def less(a, b):
    """Order of two (wall, offset): by instants when both have offsets, by the wall clock otherwise; -1, 0, 1."""
    (wa, oa), (wb, ob) = a, b
    if oa is not None and ob is not None:
        wa, wb = wa - dt.timedelta(seconds=oa), wb - dt.timedelta(seconds=ob)
    return (wa > wb) - (wa < wb)


def reference(leaf, val, t, local):
    """The outcome of a leaf for a value when the clock shows t and the local offset is local."""
    kind = leaf['kind']
    wall, off = val
    if kind == 'date':
        val = (wall, None)
    for c in STATIC:
        if c in leaf:
            b = leaf[c]
            bound = (wall_of(b), None if kind == 'date' else b.get('off'))
            o = less(val, bound)
            if not {'le': o <= 0, 'lt': o < 0, 'ge': o >= 0, 'gt': o > 0}[c]:
                return ['err', STATIC_ERR[c], None]
    if 'now_op' in leaf:
        o = leaf['now_utc_offset'] if 'now_utc_offset' in leaf else local
        now = EPOCH + dt.timedelta(microseconds=t // 1000, seconds=o)
        if kind == 'date':
            now = now.replace(hour=0, minute=0, second=0, microsecond=0)
            c = less(val, (now, None))
        else:
            c = less(val, (now, o))
        if leaf['now_op'] == 'past' and c >= 0:
            return ['err', ERRS[kind][0], None]
        if leaf['now_op'] == 'future' and c <= 0:
            return ['err', ERRS[kind][1], None]
    tz = leaf.get('tz_constraint')
    if kind == 'datetime' and tz is not None:
        if tz == 'naive':
            if off is not None:
                return ['err', 'timezone_naive', None]
        elif off is None:
            return ['err', 'timezone_aware', None]
        elif tz != 'aware' and tz != off:
            return ['err', 'timezone_offset', [tz, off]]
    return ['ok', wall.isoformat(), None if kind == 'date' else off]


def allowed(leaf, val, pts):
    out = []
    offs = {p[1] for p in pts}
    for t in {p[0] for p in pts}:
        for o in offs:
            try:
                r = reference(leaf, val, t, o)
            except OverflowError:
                raise core.HarnessError('out of range')
            if r not in out:
                out.append(r)
    return out


def leaf_schema(leaf, name, defs):
    s = {'type': leaf['kind']}
    for k in ('now_op', 'now_utc_offset', 'tz_constraint'):
        if k in leaf:
            s[k] = leaf[k]
    for c in STATIC:
        if c in leaf:
            w = wall_of(leaf[c])
            s[c] = w.date() if leaf['kind'] == 'date' else w.replace(tzinfo=tz_of(leaf[c].get('off')))
    for k in leaf.get('around') or ():
        if k == 'nullable':
            s = {'type': 'nullable', 'schema': s}
        elif k == 'lax-or-strict':
            s = {'type': 'lax-or-strict', 'lax_schema': s, 'strict_schema': s}
        elif k == 'chain':
            s = {'type': 'chain', 'steps': [{'type': 'any'}, s]}
        elif k == 'default':
            s = {'type': 'default', 'schema': s, 'default': None}
        elif k == 'union1':
            s = {'type': 'union', 'choices': [s]}
        elif k == 'ref':
            r = '%s-%d' % (name, len(defs))
            defs.append(dict(s, ref=r))
            s = {'type': 'definition-ref', 'schema_ref': r}
        elif k == 'custom':
            s = {'type': 'json-or-python', 'json_schema': s, 'python_schema': s}
    return s


class Box:
    pass


class DC:
    __dataclass_fields__ = {}


class Shape:
    """A validator built from one of the case's shapes."""

    def __init__(self, case, j, clock):
        self.clock = clock
        sh = case['shapes'][j % len(case['shapes'])]
        self.k, self.w = sh['k'], sh.get('w')
        self.leaves = [case['leaves'][x] for x in sh['l'] if x < len(case['leaves'])]
        if not self.leaves:
            raise core.HarnessError('no leaves')
        if self.k == 'union' and len(self.leaves) == 1:
            self.leaves *= 2
        defs = []
        ss = [self.wrapped(leaf_schema(x, 's%d' % i, defs), i) for i, x in enumerate(self.leaves)]
        self.names = ['f%d' % i for i in range(len(ss))]
        k = self.k
        if k in ('leaf', 'wrap'):
            s = ss[0]
            if k == 'wrap':
                s = {'type': 'function-wrap', 'function': {'type': 'no-info', 'function': self.twice}, 'schema': s}
        elif k == 'list':
            s = {'type': 'list', 'items_schema': ss[0]}
        elif k == 'gen':
            s = {'type': 'generator', 'items_schema': ss[0]}
        elif k == 'map':
            s = {'type': 'dict', 'keys_schema': {'type': 'str'}, 'values_schema': ss[0]}
        elif k == 'dict':
            s = {'type': 'typed-dict', 'fields': {n: {'type': 'typed-dict-field', 'schema': x, 'required': True}
                                                  for n, x in zip(self.names, ss)}}
        elif k == 'model':
            self.cls = type('M', (Box,), {})
            s = {'type': 'model', 'cls': self.cls, 'schema': {
                'type': 'model-fields', 'fields': {n: {'type': 'model-field', 'schema': x} for n, x in zip(self.names, ss)}}}
        elif k == 'dataclass':
            self.cls = type('D', (DC,), {})
            s = {'type': 'dataclass', 'cls': self.cls, 'fields': self.names, 'schema': {
                'type': 'dataclass-args', 'dataclass_name': 'D',
                'fields': [{'type': 'dataclass-field', 'name': n, 'schema': x} for n, x in zip(self.names, ss)]}}
        elif k == 'call':
            s = {'type': 'call', 'function': lambda *a: a, 'arguments_schema': {
                'type': 'arguments', 'arguments_schema': [
                    {'name': n, 'mode': 'positional_only', 'schema': x} for n, x in zip(self.names, ss)]}}
        elif k == 'union':
            s = {'type': 'union', 'mode': sh.get('mode', 'smart'), 'choices': [
                ({'type': 'function-after', 'function': {'type': 'no-info', 'function': lambda v, i=i: Won(i, v)}, 'schema': x},
                 'c%d' % i) for i, x in enumerate(ss)]}
        elif k == 'default':
            d = {'type': 'default', 'schema': ss[0], 'validate_default': True}
            if sh.get('factory'):
                d['default_factory'] = self.factory
            else:
                d['default'] = Late(self)
            # a plain default is fixed when the validator is built: it is given by the first call's value
            s = {'type': 'typed-dict', 'fields': {'f0': {'type': 'typed-dict-field', 'schema': d, 'required': False}}}
            self.sh, self.defs, self.d = sh, defs, d
        else:
            raise core.HarnessError('shape')
        self.schema = {'type': 'definitions', 'schema': s, 'definitions': defs} if defs else s
        self.windows = {}
        self.v = None
        if k != 'default':
            self.v = pc.SchemaValidator(self.schema)

    def wrapped(self, s, i):
        if not self.w:
            return s

        def f(v, handler):
            j = self.pos
            self.pos += 1
            a = self.acts[j % len(self.acts)] if self.acts else [None, None]
            self.clock.act(a[0])
            lo = self.clock.mark()
            try:
                return handler(v)
            finally:
                hi = self.clock.mark()
                self.wins.append((i, lo, hi))
                self.clock.act(a[1])

        return {'type': 'function-wrap', 'function': {'type': 'no-info', 'function': f}, 'schema': s}

    def twice(self, v, handler):
        """A wrap function which tries, lets time pass and tries again."""
        out = []
        for j in (0, 1):
            lo = self.clock.mark()
            try:
                out.append(('ok', handler(v), lo, self.clock.mark()))
            except pc.ValidationError as e:
                out.append(('err', e.errors(include_url=False), lo, self.clock.mark()))
            self.clock.act((self.acts[0] if self.acts else [None])[0])
        return out

    def factory(self):
        self.clock.act((self.acts[-1] if self.acts else [None])[0])
        return self.dv


class Won:
    def __init__(self, i, v):
        self.i, self.v = i, v


class Late:
    def __init__(self, s):
        pass


def show(v):
    if isinstance(v, dt.datetime):
        o = v.utcoffset()
        return ['ok', v.replace(tzinfo=None).isoformat(), None if o is None else int(o.total_seconds())]
    if isinstance(v, dt.date):
        return ['ok', dt.datetime(v.year, v.month, v.day).isoformat(), None]
    return ['ok', type(v).__name__, repr(v)[:80]]


def show_err(e):
    c = e.get('ctx') or {}
    return ['err', e['type'], [c['tz_expected'], c['tz_actual']] if e['type'] == 'timezone_offset' else None]


class Bad(Exception):
    def __init__(self, kind, text, detail):
        self.v = [kind, text, detail]


def run_case(case):
    clock = Clock(case)
    clock.live = True
    t0 = clock.now()
    shapes = {}
    trace = []
    sig = []
    viol = None
    stats = clock.stats
    try:
        for st in case.get('steps', ()):
            k = st.get('k')
            if k == 'act':
                clock.act(st)
                sig.append(st.get('a'))
            elif k == 'build':
                if case['shapes']:
                    j = st['s'] % len(case['shapes'])
                    shapes[j] = Shape(case, j, clock)
                    stats['op:build'] = stats.get('op:build', 0) + 1
            elif k == 'call':
                if not case['shapes'] or not st.get('v'):
                    continue
                j = st['s'] % len(case['shapes'])
                if j not in shapes:
                    shapes[j] = Shape(case, j, clock)
                one_call(case, shapes[j], st, clock, trace, sig, stats)
    except Bad as e:
        viol = e.v
    finally:
        n = LIB.sim_clock_reads()
        span = clock.span + abs(clock.now() - t0)
        LIB.sim_clock(0, 0, 0)
    stats['clock_reads'] = n
    return {'viol': viol, 'stats': stats, 'trace': trace, 'sim_ns': min(span, 10**18), 'state': core.digest(sig)}


def one_call(case, s, st, clock, trace, sig, stats):
    e = st['e']
    k = s.k
    leaves = s.leaves
    if e == 'assign' and k not in ('model', 'dataclass'):
        e = 'python'
    if k in ('gen', 'call') and e == 'isinstance' or k in ('gen', 'call', 'list') and e == 'strings' or (
            k == 'wrap' and e == 'isinstance'):
        e = 'python'
    if any(v.get('form') not in ('str', 'datestr', 'midnightstr', 'int') for v in st['v']) and e in ('json', 'strings'):
        e = 'python'
    if any(v.get('form') == 'int' for v in st['v']) and e == 'strings':
        e = 'python'
    if k == 'default' and e in ('strings', 'json'):
        e = 'python'
    vals = [build_value(v, clock, e) for v in st['v']]
    ins = [v[0] for v in vals]
    means = [v[1] for v in vals]
    if k in ('dict', 'model', 'dataclass', 'call'):
        if len(ins) != len(leaves):
            raise core.HarnessError('arity')
        per = leaves
    else:
        per = [leaves[0]] * len(ins)
    if k in ('leaf', 'union', 'wrap', 'default'):
        ins, means = ins[:1], means[:1]
    if k == 'union':
        per = leaves
    for x, (w, _) in zip(leaves if k == 'union' else per, means * 9 if k == 'union' else means):
        if x['kind'] == 'date' and w.time() != dt.time():
            raise core.HarnessError('not a date')
    s.acts = st.get('acts') or []
    s.pos, s.wins = 0, []
    if k == 'default':
        if not s.sh.get('factory'):
            s.d['default'] = ins[0]
        s.dv = ins[0]
        s.v = pc.SchemaValidator(s.schema)
        arg = {}
    elif k in ('leaf', 'union', 'wrap'):
        arg = ins[0]
    elif k in ('list', 'gen'):
        arg = ins
    elif k == 'call':
        arg = pc.ArgsKwargs(tuple(ins)) if e != 'json' else ins
    elif k == 'map':
        arg = {'k%d' % i: x for i, x in enumerate(ins)}
    else:
        arg = dict(zip(s.names, ins))
    fi = st.get('f', 0) % len(ins)
    stats['op:' + e] = stats.get('op:' + e, 0) + 1
    lo = clock.mark()
    locs = {}
    try:
        if e == 'assign':
            field = s.names[fi]
            if k == 'dataclass':
                o = s.cls()
                for n in s.names:
                    o.__dict__[n] = 'old'
                s.v.validate_assignment(o, field, ins[fi])
                out = o.__dict__
            else:
                o = s.cls()
                for n in s.names:
                    o.__dict__[n] = 'old'
                object.__setattr__(o, '__pydantic_fields_set__', set())
                object.__setattr__(o, '__pydantic_extra__', None)
                object.__setattr__(o, '__pydantic_private__', None)
                s.v.validate_assignment(o, field, ins[fi])
                out = o.__dict__
        elif e == 'json':
            out = s.v.validate_json(json.dumps(arg))
        elif e == 'strings':
            out = s.v.validate_strings(arg)
        elif e == 'isinstance':
            out = s.v.isinstance_python(arg)
        else:
            out = s.v.validate_python(arg)
        err = None
    except pc.ValidationError as x:
        out, err = None, x
        for y in x.errors(include_url=False):
            locs.setdefault(y['loc'], []).append(y)
    except BaseException as x:  # noqa: BLE001
        if isinstance(x, core.HarnessError):
            raise
        raise Bad('raised', '%s raised %s: %s' % (e, type(x).__name__, str(x)[:200]), None)
    if k == 'gen' and err is None:
        res = []
        for i in range(len(ins)):
            a = clock.mark()
            try:
                res.append(('ok', next(out)))
            except pc.ValidationError as x:
                res.append(('err', x.errors(include_url=False)))
            except StopIteration:
                raise Bad('generator', 'ended after %d of %d items' % (i, len(ins)), None)
            b = clock.mark()
            got = show(res[-1][1]) if res[-1][0] == 'ok' else show_err(res[-1][1][0])
            if s.w:
                a, b = s.wins[-1][1:]
            judge(per[i], means[i], got, clock, a, b, 'item %d of a generator' % i, trace, sig, stats, st, i)
            clock.act((s.acts[i % len(s.acts)] if s.acts else [None])[0])
        return
    hi = clock.mark()

    def win(i):
        """The window of position i: that of its own wrap function, or of the call."""
        if s.w and k != 'union':
            if i < len(s.wins):
                return s.wins[i][1:]
            raise Bad('not validated', 'position %d was not validated' % i, None)
        return lo, hi

    if k == 'union':
        wins = {}
        for i, a, b in s.wins:
            wins.setdefault(i, []).append((a, b))
        sets = [allowed(x, means[0], clock.pts[lo:hi + 1]) for x in leaves]
        if s.w:
            sets = [sum([allowed(x, means[0], clock.pts[a:b + 1]) for a, b in wins.get(i, [])], [])
                    for i, x in enumerate(leaves)]
        if e == 'isinstance':
            can = any(r[0] == 'ok' for q in sets for r in q), all(any(r[0] == 'err' for r in q) for q in sets)
            if not can[0 if out else 1]:
                raise Bad('isinstance', 'isinstance_python gives %s' % out, {'allowed': sets})
        elif err is None:
            if not isinstance(out, Won):
                raise Bad('union', 'no choice has won', repr(out)[:100])
            got = show(out.v)
            if got not in sets[out.i]:
                raise Bad('accepted', 'choice %d accepted' % out.i, {'got': got, 'allowed': sets[out.i]})
        else:
            for i, q in enumerate(sets):
                got = [show_err(y) for y in sum([v for l, v in locs.items() if l and l[0] == 'c%d' % i], [])]
                if len(got) != 1 or got[0] not in q:
                    raise Bad('rejected', 'choice %d' % i, {'got': got, 'allowed': q})
        tell(trace, sig, stats, ['union', e, err is None if e != 'isinstance' else out])
        return
    if k == 'wrap' and err is None:
        for x in out:
            got = show(x[1]) if x[0] == 'ok' else show_err(x[1][0])
            a, b = x[2:]
            judge(leaves[0], means[0], got, clock, a, b, 'a wrap function', trace, sig, stats, st, 0)
        return
    if e == 'isinstance':
        # the first invalid position need not be reached when an earlier one fails, unless it was validated
        sets = []
        for i in range(len(ins)):
            if s.w and i >= len(s.wins):
                sets.append([['err', 'not reached', None], ['ok', None, None]])
                continue
            a, b = win(i)
            sets.append(allowed(per[i], means[i], clock.pts[a:b + 1]))
        ok = all(any(r[0] == 'ok' for r in q) for q in sets)
        bad = any(any(r[0] == 'err' for r in q) for q in sets)
        if not (ok if out else bad):
            raise Bad('isinstance', 'isinstance_python gives %s' % out, {'allowed': sets})
        tell(trace, sig, stats, ['isinstance', out])
        return
    seen = set()
    for i in range(len(ins)):
        if k in ('leaf', 'wrap'):
            loc, val = (), out
        elif k == 'list':
            loc, val = (i,), out[i] if err is None else None
        elif k == 'map':
            loc, val = ('k%d' % i,), out['k%d' % i] if err is None else None
        elif k == 'call':
            loc, val = (i,), out[i] if err is None else None
        else:
            n = s.names[i]
            if e == 'assign' and i != fi:
                continue
            loc = (n,)
            val = None if err is not None else out[n] if k in ('dict', 'default') or e == 'assign' else getattr(out, n)
        if loc in locs:
            got = show_err(locs[loc][0])
            seen.add(loc)
        elif err is not None:
            got = None
        else:
            got = show(val)
        a, b = win(0 if e == 'assign' else i)
        judge(per[i], means[i], got, clock, a, b, 'position %s' % (loc,), trace, sig, stats, st, i)
    if set(locs) - seen:
        raise Bad('location', 'errors at other locations', sorted(map(repr, set(locs) - seen)))
    if err is not None and not seen:
        raise Bad('location', 'an error without a location', None)


def tell(trace, sig, stats, x):
    trace.append(x)
    sig.append(x[:3])


def judge(leaf, val, got, clock, a, b, where, trace, sig, stats, st, i):
    pts = clock.pts[a:b + 1]
    q = allowed(leaf, val, pts)
    if len(q) == 1:
        stats['exact'] = stats.get('exact', 0) + 1
    else:
        stats['window'] = stats.get('window', 0) + 1
    form = st['v'][i]['form']
    tell(trace, sig, stats, [leaf['kind'], form, (got or ['ok'])[0:2] if (got or ['ok'])[0] == 'err' else 'ok', where])
    if got is None:
        # no error at this place though the call failed elsewhere
        if not any(r[0] == 'ok' for r in q):
            raise Bad('accepted', '%s was accepted' % where, {'leaf': leaf, 'value': str(val), 'allowed': q, 'clock': pts})
        return
    if got not in q:
        raise Bad('accepted' if got[0] == 'ok' else 'rejected', '%s: %s' % (where, got[0]),
                  {'leaf': leaf, 'value': str(val), 'got': got, 'allowed': q, 'clock': [[t, o] for t, o in pts]})


CHECK = C09()
