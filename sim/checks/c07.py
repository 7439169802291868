"""C07: lazy streams (generator schemas in validation and serialization) behave like an explicit model of a stream."""
import json
import re

import core
import driver
import gen
import ops

pc = core.pc
FAULTS = core.FAULTS_VALUE + core.FAULTS_FATAL


class C07(driver.Check):
    pid = 'C07'
    runs = {'quick': 16000, 'thorough': 700000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = 1-4 streams from generator schemas (validation of Python iterables and of JSON arrays, python '
            'serialization of iterators) consumed step by step by 1-3 simulated threads under a seeded schedule, with '
            'exceptions injected into sources, item validators and item serializers, some with their validator or '
            'serializer dropped and collected; every step is compared with a model: pulls on the source, result or '
            'error with its index, length limits, warnings, callbacks, index; distinct = distinct (schema types, '
            'outcomes, callbacks, faults, interleaving)')
    assumptions = ['an item is validated or serialized as by a stand-alone validator or serializer of items_schema']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.3]), fn_rate=rng.choice([0.2, 0.4, 0.6]),
                    max_depth=rng.choice([1, 1, 2]))
        streams, threads = [], [[] for _ in range(rng.choice([1, 1, 2, 3]))]
        for k in range(rng.choice([1, 2, 3, 4])):
            ent = g.entry(recursive=0.15)
            kind = rng.choice(['val', 'val', 'json', 'ser', 'ser'])
            s = ent['s']
            shape = rng.choice(['top', 'top', 'list', 'nullable', 'rec'])
            gs = {}
            if kind != 'ser' and shape != 'rec' and g.p(0.06):
                gs['no_items'] = True
                s = {'type': 'any'}
                ent['s'] = s
            if g.p(0.35):
                gs['min_length'] = rng.choice([0, 1, 2, 4])
            if g.p(0.35):
                gs['max_length'] = rng.choice([0, 1, 2, 3])
            if g.p(0.2):
                gs['serialization'] = {'type': 'include-exclude-sequence', g.one(['include', 'exclude']): {
                    '$val': {'$': 'set', 'v': rng.sample(range(4), 2)}}}
            n = rng.choice([0, 1, 2, 3, 5])
            wrap = (lambda v: {'a': v, 'kids': []}) if shape == 'rec' else (lambda v: v)  # noqa: E731
            st = {'kind': kind, 'gen': gs, 'shape': shape}
            if kind == 'json':
                st['items'] = [gen.json_text(rng, wrap(g.val(s, js=True))) for _ in range(n)]
                kw = ops.validate_kw(g)
                kw.pop('from_attributes', None)
            elif kind == 'val':
                vals = [wrap(g.val(s)) for _ in range(n)]
                st['src'] = {'$': rng.choice(['gen', 'iter', 'lazygen', 'iter', 'deque', 'tuple']), 'v': vals}
                if g.p(0.05):
                    st['src'] = g.atom()
                kw = ops.validate_kw(g)
            else:
                vals = [wrap(g.val(s, valid=True if g.p(0.85) else None, out=True)) for _ in range(n)]
                st['src'] = {'$': rng.choice(['gen', 'iter', 'lazygen']), 'v': vals}
                kw = ops.ser_kw(g, False)
                kw['mode'] = g.one(['python', 'custom'])
                kw.pop('include', None)
                kw.pop('exclude', None)
                if g.p(0.3):
                    kw[g.one(['include', 'exclude'])] = g.one([
                        {'$': 'set', 'v': rng.sample(range(4), 2)},
                        {'$': 'dict', 'v': [[rng.randrange(3), True], [rng.randrange(3), {'a': True}]]}])
                if shape == 'rec':
                    kw.pop('serialize_as_any', None)
                if shape in ('list', 'rec'):
                    kw.pop('include', None)
                    kw.pop('exclude', None)
            kw.pop('allow_partial', None)
            st['kw'] = kw
            st['ent'] = ent
            streams.append(st)
            th = rng.choice(threads)
            seq = [['new', k, {}]]
            for _ in range(n + rng.choice([-1, 0, 1, 1, 2, 3])):
                f = {}
                if g.p(0.35):
                    f[str(min(6, int(rng.expovariate(0.5))))] = {'k': 'raise', 'e': rng.choice(FAULTS)}
                if g.p(0.08):
                    f[str(rng.randrange(4))] = {'k': 'gc', 'g': 2}
                seq.append(['next', k, f])
            if g.p(0.2):
                seq.insert(rng.randrange(1, len(seq) + 1), ['drop', k, {}])
            # merge into the thread at random places, keeping the order
            pos = sorted(rng.randrange(len(th) + 1) for _ in seq)
            for off, (p, x) in enumerate(zip(pos, seq)):
                th.insert(p + off, x)
        p = rng.choice([0.1, 0.4, 0.8])
        sched = [rng.randint(1, 2) if g.p(p) else 0 for _ in range(150)] if len(threads) > 1 else []
        return {'classes': g.classes, 'fns': g.fns, 'inputs': [], 'streams': streams,
                'threads': threads, 'schedule': sched}

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def lines(e, w):
    """Type, location, input and context: the title of a stream is its own, and so is the wording (streams over JSON
    arrays word their messages as for Python input)."""
    return [[t, loc, i, c] for t, loc, m, i, c in core.norm(e, w)[2]]


def outcome(w, f):
    try:
        return ['ok', core.norm(f(), w)]
    except StopIteration as e:
        lab = w.labels.get(id(e))
        return ['raise', ['@', lab]] if lab else ['end']
    except core.HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, pc.ValidationError) and not w.labels.get(id(e)):
            return ['errors', lines(e, w)]
        return ['raise', core.norm_exc(e, w)]


def kwargs(w, st):
    kw = dict(st['kw'])
    names = core.SKW if st['kind'] == 'ser' else core.VKW
    out = {a: kw[a] for a in names if a in kw}
    for a in ('context', 'include', 'exclude'):
        if a in kw:
            out[a] = core.mat(kw[a], w)
    if 'fallback' in kw:
        out['fallback'] = w.fn(kw['fallback'])
    return out


class Real:
    def __init__(self, w, st):
        self.w, self.st = w, st
        self.it = None

    def new(self):
        w, st = self.w, self.st
        kw = kwargs(w, st)
        if st['kind'] == 'ser':
            src = core.mat(st['src'], w)
            out = w.serializer(st['v']).to_python(self.outer(src), **kw)
        elif st['kind'] == 'json':
            text = '[' + ', '.join(st['items']) + ']'
            if st['shape'] == 'list':
                text = '[' + text + ']'
            elif st['shape'] == 'rec':
                text = '{"a": %s, "kids": %s}' % (json.dumps(None), text)
            out = w.validator(st['v']).validate_json(text, **kw)
        else:
            src = core.mat(st['src'], w)
            out = w.validator(st['v']).validate_python(self.outer(src), **kw)
        self.it = out[0] if st['shape'] == 'list' else out['kids'] if st['shape'] == 'rec' else out
        return type(self.it).__name__

    def outer(self, src):
        sh = self.st['shape']
        return [src] if sh == 'list' else {'a': None, 'kids': src} if sh == 'rec' else src

    def next(self):
        return next(self.it)

    def index(self):
        return getattr(self.it, 'index', None)


class Model:
    """What a stream is: a source, a position, limits and a stand-alone validator or serializer of items."""

    def __init__(self, w, st):
        self.w, self.st = w, st
        self.it = None
        self.i = 0
        self.pos = 0

    def new(self):
        w, st = self.w, self.st
        self.kw = kwargs(w, st)
        if st['kind'] == 'json':
            self.src = json.loads('[' + ', '.join(st['items']) + ']')
            self.it = iter(st['items'])
            return 'ValidatorIterator'
        self.src = core.mat(st['src'], w)
        if st['kind'] == 'ser':
            self.inner = (st['gen'].get('serialization') or {})
            self.it = iter(self.src)
            return 'SerializationIterator'
        try:
            self.it = iter(self.src)
        except TypeError:
            loc = (0,) if st['shape'] == 'list' else ('kids',) if st['shape'] == 'rec' else ()
            if st['shape'] == 'nullable' and self.src is None:
                return 'NoneType'
            raise pc.ValidationError.from_exception_data('x', [{'type': 'iterable_type', 'loc': loc, 'input': self.src}])
        return 'ValidatorIterator'

    def next(self):
        if self.st['kind'] == 'ser':
            return self.next_ser()
        g = self.st['gen']
        try:
            x = next(self.it)
        except StopIteration as e:
            if self.w.labels.get(id(e)):
                pass  # raised by the source: indistinguishable from its end
            if g.get('min_length') is not None and self.i < g['min_length']:
                raise pc.ValidationError.from_exception_data('x', [{
                    'type': 'too_short', 'loc': (), 'input': self.src,
                    'ctx': {'field_type': 'Generator', 'min_length': g['min_length'], 'actual_length': self.i}}])
            raise StopIteration
        i = self.i
        self.i += 1
        if g.get('max_length') is not None and i >= g['max_length']:
            raise pc.ValidationError.from_exception_data('x', [{
                'type': 'too_long', 'loc': (), 'input': self.src,
                'ctx': {'field_type': 'Generator', 'max_length': g['max_length'], 'actual_length': None}}])
        if g.get('no_items'):
            return json.loads(x) if self.st['kind'] == 'json' else x
        v = self.w.validator(self.st['v'] + 1)
        try:
            if self.st['kind'] == 'json':
                return v.validate_json(x, **self.kw)
            return v.validate_python(x, **self.kw)
        except pc.ValidationError as e:
            raise Located(i, e)

    def next_ser(self):
        s = self.w.serializer(self.st['v'] + 1)
        while True:
            try:
                x = next(self.it)
            except StopIteration:
                raise StopIteration
            i = self.i
            self.i += 1
            keep = self.keep(i)
            if keep is None:
                continue
            kw = dict(self.kw)
            kw.pop('include', None)
            kw.pop('exclude', None)
            return s.to_python(x, include=keep[0], exclude=keep[1], **kw)

    def keep(self, i):
        """None = left out, else the filters for the item."""
        inc, exc = self.kw.get('include'), self.kw.get('exclude')
        sinc = core.mat(self.inner['include']['$val'], self.w) if 'include' in self.inner else None
        sexc = core.mat(self.inner['exclude']['$val'], self.w) if 'exclude' in self.inner else None
        ne = None
        if isinstance(exc, dict):
            r = pick(exc, i)
            if r is True:
                return None
            ne = r
        elif isinstance(exc, set) and (i in exc or '__all__' in exc):
            return None
        if inc is not None:
            if isinstance(inc, dict):
                r = pick(inc, i)
                if r is not None:
                    return (None if r is True else r, ne)
            elif i in inc or '__all__' in inc:
                return (None, ne)
            if not (sinc is not None and i in sinc):
                return None
        if ne is not None:
            return (None, ne)
        if sexc is not None and i in sexc or sinc is not None and i not in sinc:
            return None
        return (None, None)

    def index(self):
        return self.i


def pick(d, i):
    a, b = d.get(i), d.get('__all__')
    if b is not None and a is not None and a is not True:
        raise core.HarnessError('merging filters is outside the model')
    r = a if a is not None else b
    return r


class Located(Exception):
    def __init__(self, i, e):
        self.i, self.e = i, e


def model_outcome(w, f):
    try:
        return ['ok', core.norm(f(), w)]
    except Located as e:
        if w.labels.get(id(e.e)):
            return ['raise', ['@', w.labels[id(e.e)]]]
        return ['errors', [[t, ['tuple', [e.i] + loc[1]], *r] for t, loc, *r in lines(e.e, w)]]
    except StopIteration as e:
        lab = w.labels.get(id(e))
        return ['raise', ['@', lab]] if lab else ['end']
    except core.HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, pc.ValidationError) and not w.labels.get(id(e)):
            return ['errors', lines(e, w)]
        return ['raise', core.norm_exc(e, w)]


def step(w, obj, kind, faults, key, run):
    op = core.Op({'k': 'stream', 'm': kind, 'faults': faults}, key)
    w.stack().append(op)
    try:
        if kind == 'drop':
            op.result = ['ok', None]
        else:
            op.result = run(w, obj.new if kind == 'new' else obj.next)
    finally:
        w.stack().pop()
    rep = core.op_report(op)
    rep['index'] = obj.index() if kind == 'next' else None
    return rep


def build(case):
    """The case with the schemas its streams stand for."""
    schemas, streams = [], []
    for st in case['streams']:
        if not ({'kind', 'gen', 'shape', 'kw', 'ent'} <= set(st) and ('items' if st['kind'] == 'json' else 'src') in st):
            return None
        g = st['gen']
        s = {'type': 'generator', **{k: g[k] for k in ('min_length', 'max_length', 'serialization') if k in g}}
        if not g.get('no_items'):
            s['items_schema'] = st['ent']['s']
        if st['shape'] == 'rec':
            # the outermost "a" is None and not validated against the schema
            a = {'type': 'nullable', 'schema': st['ent']['s']}
            s['items_schema'] = {'type': 'definition-ref', 'schema_ref': 'REC'}
            r = {'type': 'typed-dict', 'ref': 'REC', 'fields': {
                'a': {'type': 'typed-dict-field', 'schema': a}, 'kids': {'type': 'typed-dict-field', 'schema': s}}}
            d = {'s': {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'REC'},
                       'definitions': [r]}, 'config': st['ent'].get('config')}
            streams.append({**st, 'v': len(schemas)})
            schemas += [d, d]
            continue
        if st['shape'] == 'list':
            s = {'type': 'list', 'items_schema': s}
        elif st['shape'] == 'nullable':
            s = {'type': 'nullable', 'schema': s}
        streams.append({**st, 'v': len(schemas)})
        schemas += [{'s': s, 'config': st['ent'].get('config')}, st['ent']]
    return {**case, 'schemas': schemas, 'streams': streams}


def run_case(case):
    case = build(case)
    if case is None:
        return {'viol': None, 'stats': {}, 'discard': True}
    sched = core.Sched(case.get('schedule') or ())
    w = ops.world_for(case, sched)
    try:
        for st in case['streams']:
            for k in (0, 1):
                (w.serializer if st['kind'] == 'ser' else w.validator)(st['v'] + k)
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        return {'viol': None, 'stats': {'discard:refused': 1, 'refused:' + str(e)[:90]: 1}, 'discard': True}
    reals = [Real(w, st) for st in case['streams']]
    reports = {}
    order = {}

    def body(t):
        def run():
            for kind, k, faults in case['threads'][t]:
                n = order[k] = order.get(k, -1) + 1
                if kind != 'new' and type(reals[k].it).__name__ not in ('ValidatorIterator', 'SerializationIterator'):
                    continue
                if kind == 'drop':
                    (w.serializers if case['streams'][k]['kind'] == 'ser' else w.validators).pop(
                        case['streams'][k]['v'], None)
                    core.gc.collect()
                reports[(k, n)] = step(w, reals[k], kind, faults, '#%d.%d#' % (k, n), outcome)

        return run

    sched.run([body(t) for t in range(len(case['threads']))])
    if w.overflow:
        return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
    stats = dict(w.stats)
    stats['switches'] = sched.switches
    ref = core.World(case)
    core.install_warnings(ref)
    ref.reference = True
    trace, sig, viol = [], [], None
    for k, st in enumerate(case['streams']):
        m = Model(ref, st)
        n = -1
        for th in case['threads']:
            for kind, kk, faults in th:
                if kk != k:
                    continue
                n += 1
                if (k, n) not in reports:
                    continue
                got = json.loads(json.dumps(reports[(k, n)]))
                want = json.loads(json.dumps(step(ref, m, kind, faults, '#%d.%d#' % (k, n), model_outcome)))
                if st['shape'] == 'rec':
                    # a missing-field warning names the enclosing model, which an item on its own does not have
                    for r in (got, want):
                        r['warnings'] = [[c, re.sub(r'input_value=.*, input_type=', '', m)] for c, m in r['warnings']]
                stats['compared'] = stats.get('compared', 0) + 1
                kx = '%s:%s:%s' % (st['kind'], kind, got['result'][0])
                stats[kx] = stats.get(kx, 0) + 1
                trace.append(core.digest(got))
                sig.append([k, n, got['result'][0], [x[:2] for x in got['log']], got['fired']])
                if ops.has_panic(got['result']):
                    viol = ['panic', 'stream %d step %d: %s' % (k, n, json.dumps(got['result'])[:500]), [k, n]]
                elif got != want:
                    viol = ['differs', 'stream %d (%s) step %d (%s): library | model: %s' % (
                        k, st['kind'], n, kind, ops.first_diff(got, want)), [k, n]]
                if viol:
                    return {'viol': viol, 'stats': stats, 'trace': trace, 'state': []}
    return {'viol': viol, 'stats': stats, 'trace': trace,
            'state': [core.digest([sorted(ops.types_in(case['schemas'])), sig, sched.trace])]}


CHECK = C07()
