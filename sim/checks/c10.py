"""C10: a stream cut off anywhere validates to what had arrived by then, and only the last part of a value may be missing."""
import json

import core
import driver
import gen
import ops
import pydantic_core as pc
import refval
from checks import c03

MODES = [True, True, 'trailing-strings']
CONT = ['list', 'list', 'tuple', 'set', 'frozenset', 'dict', 'default', 'nullable', 'union', 'union', 'tagged-union', 'chain',
        'lax-or-strict', 'json-or-python', 'typed-dict', 'typed-dict', 'model', 'root-model', 'dataclass', 'custom-error']
ALL = core.FAULTS_VALUE + core.FAULTS_FATAL + core.FAULTS_SIGNAL
# schemas for which a JSON text means just what the Python value read from it does
SAME = {'int', 'str', 'bool', 'none', 'any', 'list', 'dict', 'typed-dict', 'union', 'nullable', 'chain', 'default',
        'definition-ref', 'definitions', 'function-after', 'function-before', 'function-plain',
        'function-wrap', 'typed-dict-field', 'custom-error', 'no-info', 'model',
        'model-fields', 'model-field'}


class C10(driver.Check):
    pid = 'C10'
    runs = {'quick': 14000, 'thorough': 700000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = a schema and a value. (1) As JSON text, cut off after every character (up to 60 of them, also within '
            'characters when given as bytes) and read with allow_partial on, off or trailing-strings: from_json gives what '
            'an independent scanner says has arrived; validation and its callbacks, with exceptions injected into them, are '
            'those of the complete text of what has arrived, and, for schemas which do not tell JSON from Python, of the '
            'value. (2) As Python value: validation with allow_partial under up to 4 plans of injected exceptions is '
            'compared with the reference interpreter, which drops only failing last parts. distinct = distinct (schema '
            'types, outcome, callbacks, faults)')
    assumptions = ['the text before the cut is valid JSON', 'leaf coercions are taken from the same leaf validated alone']
    stubs = driver.Check.stubs + ['the oracle: sim/refval.py and the scanner in sim/checks/c10.py']

    def gen(self, rng, i, tier):
        js = rng.random() < 0.5
        g = gen.Gen(rng, fn_rate=rng.choice([0, 0.15, 0.4]), max_depth=rng.choice([2, 3, 3, 4]),
                    containers=sorted(rng.sample(CONT, rng.randint(5, 12))), reject_rate=0.2)
        ent = g.entry(recursive=0.15)
        if g.p(0.6):
            ent['s'] = wrap(g, ent['s'])
        kw = ops.validate_kw(g)
        kw.pop('from_attributes', None)
        kw['allow_partial'] = g.one(MODES)
        plans = []
        for _ in range(rng.choice([1, 2, 4])):
            f = {}
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                f[str(rng.randrange(1000))] = ({'k': 'raise', 'e': rng.choice(ALL)} if g.p(0.85)
                                               else {'k': 'return', 'v': g.atom()})
            plans.append(f)
        case = {'classes': g.classes, 'fns': g.fns, 'schemas': [ent], 'inputs': [], 'kw': kw, 'plans': plans, 'init': None}
        if js:
            v = gen.plain(g.val(ent['s'], js=True))
            if g.p(0.4):
                v = spoil(rng, v)
            case['text'] = text(rng, v)
            case['cuts'] = sorted({rng.randrange(len(case['text']) + 1) for _ in range(rng.choice([3, 10, 30, 60]))}
                                  | {len(case['text'])})
            case['bytes'] = g.p(0.4)
            case['vals'] = []
            case['inner'] = g.p(0.3)
            if g.p(0.1):
                kw['allow_partial'] = g.one([False, 'off', 'on'])
            return case
        case['vals'] = [g.val(ent['s']) for _ in range(2)]
        return refval.adapt(case, False)

    def run(self, case):
        if 'text' not in case and not refval.types_ok(case):
            return {'viol': None, 'stats': {'discard:unsupported': 1}, 'discard': True}
        st, v = core.forked(lambda: run_text(case) if 'text' in case else c03.run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def wrap(g, s):
    """More containers around: what may be incomplete is at the end of all of them."""
    for _ in range(g.one([1, 1, 2])):
        k = g.one(['list', 'dict', 'td', 'union', 'tuple', 'set', 'chain', 'las'])
        if k == 'list':
            s = {'type': 'list', 'items_schema': s}
        elif k == 'set':
            s = {'type': 'list', 'items_schema': s, 'min_length': 1}
        elif k == 'dict':
            s = {'type': 'dict', 'values_schema': s}
        elif k == 'tuple':
            s = {'type': 'tuple', 'items_schema': [s], 'variadic_item_index': 0}
        elif k == 'td':
            s = {'type': 'typed-dict', 'fields': {
                'a': {'type': 'typed-dict-field', 'schema': s, 'required': g.p(0.4)},
                'b': {'type': 'typed-dict-field', 'schema': {'type': g.one(['int', 'str', 'any'])}, 'required': g.p(0.3)}}}
            if g.p(0.4):
                s['extra_behavior'] = g.one(['allow', 'forbid'])
        elif k == 'union':
            o = g.one([{'type': 'tuple', 'items_schema': [{'type': 'int'}], 'variadic_item_index': 0}, {'type': 'int'},
                       {'type': 'list', 'items_schema': {'type': 'int'}}, {'type': 'dict'}])
            s = {'type': 'union', 'choices': [o, s]}
            if g.p(0.4):
                s['mode'] = 'left_to_right'
        elif k == 'chain':
            s = {'type': 'chain', 'steps': [s, {'type': 'any'}]}
        elif k == 'las':
            s = {'type': 'lax-or-strict', 'lax_schema': s, 'strict_schema': s}
    return s


def spoil(rng, v):
    """Something which does not fit, somewhere, most likely near the end."""
    if isinstance(v, list) and v and rng.random() < 0.8:
        i = -1 if rng.random() < 0.6 else rng.randrange(len(v))
        v[i] = spoil(rng, v[i])
        return v
    if isinstance(v, dict) and v and rng.random() < 0.8:
        k = list(v)[-1] if rng.random() < 0.6 else rng.choice(list(v))
        v[k] = spoil(rng, v[k])
        return v
    return rng.choice(['bad', {}, [], None, -7, 2.5, [['x']], {'zz': 1}])


def text(rng, v):
    """JSON text with its freedoms: blanks, escapes, forms of numbers."""
    a = rng.random() < 0.5
    sp = rng.choice(['', '', ' ', ' \n', '\t'])
    pretty = rng.random() < 0.5

    def b():
        return sp if pretty and rng.random() < 0.5 else ''

    def f(x):
        if isinstance(x, dict):
            return '{' + ','.join(b() + f(str(k)) + b() + ':' + b() + f(y) + b() for k, y in x.items()) + b() + '}'
        if isinstance(x, (list, tuple)):
            return '[' + ','.join(b() + f(y) + b() for y in x) + b() + ']'
        if isinstance(x, str):
            s = json.dumps(x, ensure_ascii=a)
            if rng.random() < 0.15:
                s = s[:-1] + rng.choice(['\\n', '\\u00e9', 'é', '\\ud83d\\ude00', '😀', '\\\\', '\\"', '\\/']) + '"'
            return s
        s = json.dumps(x)
        if isinstance(x, float) and x == x and abs(x) < 1e300 and rng.random() < 0.2:
            s = '%e' % x
        return s

    return b() + f(v) + b()


# ---------------------------------------------------------------------------------------------- what has arrived


class End(Exception):
    """The text ended within a value, of which this much (possibly nothing) has arrived."""

    def __init__(self, part=None):
        self.part = part


def arrived(t, strings):
    """The complete text of what has arrived of a JSON text cut off; None if nothing has."""
    n = len(t)

    def blank(i):
        while i < n and t[i] in ' \t\r\n':
            i += 1
        return i

    def string(i):
        j = i + 1
        while j < n and t[j] != '"':
            if t[j] == '\\':
                if j + 1 >= n:
                    raise End
                if t[j + 1] == 'u':
                    if j + 6 > n:
                        raise End
                    hi = int(t[j + 2:j + 6], 16)
                    if 0xD800 <= hi < 0xDC00:
                        if j + 12 > n:
                            raise End
                        j += 6
                    j += 6
                else:
                    j += 2
            else:
                j += 1
        if j >= n:
            raise End(t[i:] + '"' if strings else None)
        return j + 1

    def value(i):
        i = blank(i)
        if i >= n:
            raise End
        c = t[i]
        if c == '"':
            j = string(i)
            return t[i:j], j
        if c == '[':
            return many(i, ']', None)
        if c == '{':
            return many(i, '}', True)
        for w in ('true', 'false', 'null', 'NaN', 'Infinity', '-Infinity'):
            if t.startswith(w, i):
                return w, i + len(w)
            if len(t) - i < len(w) and w.startswith(t[i:]):
                raise End
        j = i
        while j < n and t[j] in '+-0123456789.eE':
            j += 1
        if j == n and t[j - 1] in '+-.eE':
            raise End
        return t[i:j], j

    def many(i, close, pairs):
        out = []
        op = t[i]
        i = blank(i + 1)
        if i < n and t[i] == close:
            return op + close, i + 1
        try:
            while True:
                key = ''
                i = blank(i)
                if pairs:
                    if i >= n:
                        raise End
                    try:
                        j = string(i)
                    except End:
                        raise End from None
                    key, i = t[i:j] + ':', blank(j)
                    if i >= n:
                        raise End
                    i += 1
                try:
                    v, i = value(i)
                except End as e:
                    if e.part is not None:
                        out.append(key + e.part)
                    raise End from None
                out.append(key + v)
                i = blank(i)
                if i >= n:
                    raise End
                if t[i] == close:
                    return op + ','.join(out) + close, i + 1
                i += 1
        except End:
            raise End(op + ','.join(out) + close) from None

    try:
        return value(0)[0]
    except End as e:
        return e.part


def report(case, entry, data, plan, kw):
    """One validation in a pristine world."""
    w = ops.world_for(case)
    try:
        w.validator(0)
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        raise ops.Refused(str(e))
    spec = {'k': 'validate', 'm': entry, 'v': 0, 'kw': kw, 'faults': plan}
    if entry == 'json':
        spec.update(json=data, bytes=case.get('bytes'))
    else:
        spec['in'] = data
    op = core.do_op(w, spec, '#0.0#')
    return core.op_report(op), w, op


def run_text(case):
    stats = {}
    trace = []
    sigs = []
    types = sorted(ops.types_in(case['schemas']))
    kw = dict(case['kw'])
    mode = kw.get('allow_partial', False)
    strings = mode == 'trailing-strings'
    off = mode in (False, 'off')
    t = case['text']
    plans = [{}] + case['plans']

    def bad(kind, what, cut):
        return {'viol': [kind, 'cut %d of %r mode %r: %s' % (cut, t[:300], mode, what), None], 'stats': stats,
                'trace': trace, 'state': sigs}

    def n(k, c=1):
        stats[k] = stats.get(k, 0) + c

    try:
        json.loads(t)
    except ValueError:
        raise core.HarnessError('no JSON text')
    for cut in case['cuts']:
        if cut > len(t):
            continue
        p = t[:cut]
        whole = arrived(p, strings)
        n('fault:stream_cut' if cut < len(t) else 'complete')
        if off:
            full = arrived(p, False)
            complete = full is not None
            if complete:
                try:
                    json.loads(p)
                except ValueError:
                    complete = False
            whole = full if complete else None
        # 1. what is read
        try:
            got = ['ok', core.norm(pc.from_json(p.encode() if case.get('bytes') else p, allow_partial=mode))]
        except ValueError as e:
            got = ['error', str(e)[:60]]
        n('op:from_json')
        if whole is None:
            want = ['error']
        else:
            want = ['ok', core.norm(json.loads(whole))]
        if got[0] != want[0] or got[0] == 'ok' and got[1] != want[1]:
            return bad('read', 'from_json gives %s instead of %s' % (json.dumps(got)[:300], json.dumps(want)[:300]), cut)
        if case.get('bytes') and not strings:
            # cut within a character
            b = p.encode()
            if cut < len(t) and ord(t[cut]) > 127:
                try:
                    got2 = ['ok', core.norm(pc.from_json(b + t[cut].encode()[:-1], allow_partial=mode))]
                except ValueError as e:
                    got2 = ['error', str(e)[:60]]
                n('fault:cut_within_character')
                if got2[0] != got[0] or got[0] == 'ok' and got2 != got:
                    return bad('read', 'from_json gives %s within the next character' % json.dumps(got2)[:300], cut)
        if case.get('inner'):
            c2 = dict(case, schemas=[{'s': {'type': 'json'}}])
            b, _, _ = report(c2, 'python', p, {}, {'allow_partial': mode})
            n('op:json_schema')
            if b['result'][0] != ('ok' if got[0] == 'ok' else 'raise') or got[0] == 'ok' and b['result'][1] != got[1]:
                return bad('read', 'a json schema gives %s' % json.dumps(b)[:300], cut)
        # 2. what is validated
        k = None
        for pi, plan in enumerate(plans if cut == len(t) or cut % 3 == 0 else plans[:1]):
            if k == 0:
                break
            if k is not None:
                plan = {str(int(a) % k): b for a, b in plan.items()}
            try:
                a, w, op = report(case, 'json', p, plan, kw)
            except ops.Refused:
                return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
            if w.overflow:
                return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
            n('op:json')
            for x, y in w.stats.items():
                n(x, y)
            if k is None:
                k = op.n
            trace.append(core.digest(a))
            if whole is None:
                r = a['result']
                if not (r[0] == 'raise' and 'json_invalid' in json.dumps(r)):
                    return bad('read', 'validation of nothing: %s' % json.dumps(r)[:300], cut)
                break
            sigs.append(core.digest([types, a['result'][0], [x[:2] for x in a['log']], a['fired'], mode]))
            b, _, _ = report(case, 'json', whole, plan, kw)
            d = a != b and ops.first_diff(a, b)
            if d:
                return bad('differs', 'plan %s: cut | complete text %s: %s' % (json.dumps(plan), whole[:200], d), cut)
            n('compared')
            if set(types) <= SAME and 'float' not in types and not kw.get('strict') and (
                    not any(x in json.dumps(case['schemas']) for x in ('from_attributes', '"strict": true'))):
                b, _, _ = report(case, 'python', json.loads(whole), plan, kw)
                x, y = plain(a), plain(b)
                d = x != y and ops.first_diff(x, y)
                if d:
                    return bad('differs', 'plan %s: JSON | Python %s: %s' % (json.dumps(plan), whole[:200], d), cut)
                n('python')
            if case.get('inner') and not ({'model', 'dataclass'} & set(types)):
                ent = case['schemas'][0]
                c2 = dict(case, schemas=[dict(ent, s={'type': 'json', 'schema': ent['s']})])
                b, _, _ = report(c2, 'python', p, plan, kw)
                x, y = plain(untitled(a)), plain(untitled(b))
                d = x != y and ops.first_diff(x, y)
                if d:
                    return bad('differs', 'plan %s: validate_json | json schema: %s' % (json.dumps(plan), d), cut)
                n('json_schema')
            if not plan and cut == len(t) and not off and not {'union', 'lax-or-strict'} & set(types) and (
                    'on_error' not in json.dumps(case['schemas'])):
                # a complete, valid value is not affected
                b, _, _ = report(case, 'json', p, plan, {**kw, 'allow_partial': False})
                if b['result'][0] == 'ok':
                    n('valid')
                    d = a != b and ops.first_diff(a, b)
                    if d:
                        return bad('differs', 'allow_partial changes a valid value: %s' % d, cut)
    return {'viol': None, 'stats': stats, 'trace': trace, 'state': sigs}


def untitled(r):
    r = json.loads(json.dumps(r))
    if r['result'][0] == 'raise' and isinstance(r['result'][1], list) and len(r['result'][1]) > 2:
        r['result'][1][1] = None
    return r


def plain(x):
    """Without the words in which JSON and Python differ."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return 'text' if isinstance(x, str) and 'Input should be' in x else x


CHECK = C10()
