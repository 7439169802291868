"""C13: what calls create is released, cycles are collected, and the collector can run anywhere."""
import array
import copy
import ctypes
import gc
import sys

import core
import driver
import gen
import ops
import pydantic_core as pc

PLANT = 0.25


_libc = ctypes.CDLL(None)
_live = getattr(_libc, 'sim_live_blocks', None)
if _live is not None:
    _live.restype = ctypes.c_int64


class Keeper:
    """User objects in places of a schema which hold arbitrary objects."""

    _sim_opaque = True

    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return 'Keeper'


class C13(driver.Check):
    pid = 'C13'
    runs = {'quick': 9000, 'thorough': 250000}
    wall = {'quick': 70, 'thorough': 3000}
    rule = ('case = schemas with user objects in every position, and a history of calls on them with injected '
            'exceptions; all of it (validators, serializers, functions, classes, inputs, results, exceptions with '
            'tracebacks, handlers, info objects, iterators) is one web of reference cycles. The history runs again and '
            'again in one process: after everything was dropped and collected, and after every call whose results '
            'were dropped, the numbers of live objects, of memory blocks of CPython and of live allocations of malloc must not '
            'grow; with the collector run at chosen callbacks and between calls the history must be the same; '
            'distinct = distinct (schema types, outcomes, callbacks)')
    assumptions = ['caches are bounded: the first repetitions of a history may fill them',
                   'growth counts when it appears in each of six repetitions']
    stubs = driver.Check.stubs

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.4]), fn_rate=rng.choice([0.1, 0.25, 0.5]),
                    max_depth=rng.choice([2, 3, 3, 4]))
        entries = [g.entry(recursive=0.2) for _ in range(rng.choice([1, 1, 2]))]
        for e in entries:
            plant(g, e['s'])
            if g.p(0.1):
                e['config'] = {**(e.get('config') or {}), 'zz': {'$keeper': 1}}
        attach = []
        if g.p(0.3):
            attach = [[m['cls']['$cls'], copy.deepcopy(m)] for m in ops.attachable([e['s'] for e in entries])]
        og = ops.OpGen(g, entries, share=0.3)
        hist = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            sp = ops.add_faults(g, og.op(), 0.5)
            if g.p(0.3):
                sp['nodrain'] = True
            if 'context' in (sp.get('kw') or {}) and g.p(0.5):
                sp['kw']['context'] = {'k': {'$': 'fn', 'v': g.fn('before', beh=['id'])['$fn']}}
            if sp.get('m') == 'assign' and g.p(0.3):
                sp['val'] = {'$': 'fn', 'v': g.fn('before', beh=['id'])['$fn']}
            hist.append(sp)
        for f in g.fns.values():
            if f['role'] in ('wrap', 'serwrap', 'before', 'after', 'plain', 'ser') and g.p(0.5):
                f['keep'] = True
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [hist], 'attach': attach,
                'gc': rng.randrange(1, 1 << 30), 'ties': rng.randrange(1, 1 << 30)}

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def plant(g, s):
    """User objects where schemas take any object."""
    if isinstance(s, list):
        for x in s:
            plant(g, x)
        return
    if not isinstance(s, dict):
        return
    for k, x in list(s.items()):
        if k not in ('$fn', '$cls', '$val', 'serialization') or k == 'serialization':
            plant(g, x)
    t = s.get('type')
    K = {'$keeper': 1}
    if 'return_schema' in s and g.p(PLANT):
        s['return_schema'] = {**s['return_schema'], 'serialization': {
            'type': 'function-plain', 'function': g.fn('ser', beh=['id'])}}
    if not isinstance(t, str):
        return
    if t in ('custom-error', 'union', 'tagged-union') and s.get('custom_error_type') and g.p(PLANT):
        s['custom_error_context'] = {'x': K}
    if t == 'literal' and g.p(PLANT):
        s['expected'] = list(s['expected']) + [K]
    if t == 'model' and g.p(PLANT) and isinstance(s.get('cls'), dict):
        s['generic_origin'] = s['cls']
    if t == 'dataclass' and g.p(PLANT) and isinstance(s.get('cls'), dict):
        s['generic_origin'] = s['cls']
    if t == 'call' and 'return_schema' in s and g.p(PLANT):
        s['return_schema'] = {'type': 'function-after', 'schema': {'type': 'any'}, 'function': {
            'type': 'no-info', 'function': g.fn('after', beh=['id'])}}
    if t == 'enum' and 'sub_type' not in s and g.p(PLANT) and 'cls' in s:
        g.classes[s['cls']['$cls']]['members'] = [['A', {'$': 'f', 'v': '1.5'}], ['B', {'$': 'f', 'v': '2.5'}]]
        s['sub_type'] = 'float'
    if t == 'enum' and g.p(PLANT):
        s['missing'] = {'$fn': g.fn('disc')['$fn']} if False else g.fn('disc')
    if t == 'default' and 'default' in s and g.p(PLANT):
        s['default'] = K
    if g.p(0.03) and t not in ('definition-ref', 'definitions', 'model-field', 'typed-dict-field', 'dataclass-field',
                               'computed-field'):
        s['metadata'] = {'m': K}


class World(core.World):
    kept = None

    def schema(self, s):
        if isinstance(s, dict) and '$keeper' in s:
            k = self.sentinels.get('keeper')
            if k is None:
                k = self.sentinels['keeper'] = Keeper(self)
                self.label(k, 'keeper')
            return k
        return super().schema(s)

    def call_fn(self, fid, role, v, handler, info):
        if self.case['fns'][str(fid)].get('keep'):
            if len(self.keep) < 5000:
                self.keep.append((v, handler, info))
        return super().call_fn(fid, role, v, handler, info)

    def do_fault(self, op, n, f, fid, point, ctl):
        r = super().do_fault(op, n, f, fid, point, ctl)
        return r

    def fire(self, fid, point, payload=None, ctl=None):
        op = self.cur()
        if op is not None and self.gcr:
            self.gcn += 1
            if core.mix('gc', self.gcr, self.gcn) % 3 == 0:
                self.stat('fault:gc')
                gc.collect()
        return super().fire(fid, point, payload, ctl)


def do_op(w, spec, key):
    """core.do_op, with the exception left as the caller of the library finds it."""
    op = core.Op(spec, key)
    st = w.stack()
    st.append(op)
    w.stat('op:' + spec['k'] + ':' + str(spec.get('m', '')))
    try:
        try:
            r = core.run_call(w, op, spec)
            if not spec.get('nodrain') and core.lazy(r):
                r = core.drain(w, op, r)
            elif core.lazy(r):
                for it in iterators(r):
                    try:
                        next(it)
                    except StopIteration:
                        pass
        finally:
            st.pop()
        op.raw = r
        op.result = ['ok', core.norm(r, w) if not spec.get('nodrain') else 'undrained']
    except core.HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        op.raw = None
        op.exc = e
        op.result = ['raise', core.norm_exc(e, w)]
    return op


def iterators(r):
    if type(r) in (list, tuple):
        for x in r:
            yield from iterators(x)
    elif type(r) is dict:
        for x in r.values():
            yield from iterators(x)
    elif type(r).__name__ in ('ValidatorIterator', 'SerializationIterator'):
        yield r


def new_world(case, gcr):
    w = World(case)
    w.gcr, w.gcn = gcr, 0
    core.install_warnings(w)
    for c in list(w.classes.values()):
        try:
            c._tie = w
        except (AttributeError, TypeError):
            pass
    try:
        ops.prebuild(w, ops.used_schemas(case))
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        raise ops.Refused(str(e)[:200])
    return w


def life(case, gcr):
    """One history in a world of its own; everything is dropped when this returns."""
    w = new_world(case, gcr)
    w.all = []
    reps = []
    for j, spec in enumerate(case['threads'][0]):
        if gcr:
            gc.collect()
        op = do_op(w, spec, '#0.%d#' % j)
        w.all.append(op)
        reps.append(core.op_report(op))
    core._Warn.world = None
    return reps, w.stats, w.overflow


def census(out, row):
    """Writes three numbers into preallocated memory: counting must not be what grows."""
    sys._clear_type_cache()  # keeps names of attributes alive
    while gc.collect():
        pass
    out[3 * row] = len(gc.get_objects())
    out[3 * row + 1] = sys.getallocatedblocks()
    out[3 * row + 2] = _live()


NAMES = ('objects', 'blocks', 'mallocs')


def grows(out, a, b):
    """Which of the numbers grew in every step from row a to row b."""
    return [name for n, name in enumerate(NAMES)
            if all(out[3 * (r + 1) + n] > out[3 * r + n] for r in range(a, b))]


def leak(step):
    """Runs `step` again and again; -> what grows, and the numbers."""
    out = array.array('q', bytes(8 * 3 * 16))
    step()
    step()
    census(out, 0)
    for r in (1, 2):
        step()
        census(out, r)
    if not grows(out, 0, 2):
        return None, None
    for r in range(3, 10):
        step()
        census(out, r)
    g = grows(out, 3, 9)
    return (g or None), [list(out[3 * r: 3 * r + 3]) for r in range(10)]


def by_type():
    gc.collect()
    n = {}
    for o in gc.get_objects():
        k = type(o).__name__
        n[k] = n.get(k, 0) + 1
    return n


def describe(step):
    step()
    a = by_type()
    step()
    b = by_type()
    return {k: b[k] - a.get(k, 0) for k in sorted(b) if b[k] > a.get(k, 0)}


def run_case(case):
    gc.disable()
    gc.collect()
    gc.freeze()
    stats = {}
    try:
        reps, st, over = life(case, 0)
    except ops.Refused:
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    if over:
        return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
    for a, b in st.items():
        stats[a] = stats.get(a, 0) + b
    trace = [core.digest(reps)]
    viol = None
    reps2, st, _ = life(case, case['gc'])
    stats['fault:gc'] = stats.get('fault:gc', 0) + st.get('fault:gc', 0)
    if reps2 != reps:
        viol = ['gc-differs', 'with the collector running: %s' % ops.first_diff(reps2, reps), None]
    if not viol:
        box = {}

        def step():
            box.clear()
            life(case, 0)

        bad, series = leak(step)
        stats['lives'] = stats.get('lives', 0) + 5
        if bad:
            viol = ['leak-life', 'after all was dropped: %s grow: %s; new: %s' % (bad, series, describe(step)), None]
    if not viol:
        w = new_world(case, 0)
        for j, spec in enumerate(case['threads'][0]):
            if viol:
                break

            def step(spec=spec):
                n, labels, g, muts = len(w.keep), dict(w.labels), len(w.global_log), dict(w.mutables)
                do_op(w, spec, '#0.0#')
                del w.keep[n:]
                del w.global_log[g:]
                w.labels = labels
                w.mutables = muts

            bad, series = leak(step)
            stats['calls'] = stats.get('calls', 0) + 1
            if bad:
                viol = ['leak-call', 'call %d repeated: %s grow: %s; new: %s' % (j, bad, series, describe(step)), None]
        core._Warn.world = None
    sig = [sorted(ops.types_in(case['schemas'])), [[r['result'][0], len(r['log']), r['fired']] for r in reps]]
    return {'viol': viol, 'stats': stats, 'trace': trace, 'state': core.digest(sig)}


CHECK = C13()
