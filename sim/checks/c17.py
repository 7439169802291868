"""C17: to_json and to_python(mode='json') are the same serialization, whatever user code does during it."""
import json
import math
import re

import core
import driver
import gen
import ops


class C17(driver.Check):
    pid = 'C17'
    runs = {'quick': 22000, 'thorough': 1200000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = a schema with function serializers, computed fields, iterators and fallbacks, a value of it (or one '
            'that does not fit), serialization arguments and exceptions at user callbacks, serialized twice in pristine '
            'worlds: with to_json and with to_python(mode=json); distinct = distinct (schema types, outcome, callbacks, '
            'faults, warnings)')
    assumptions = ['unions serialize their choices to a value before writing it, so warnings are compared as a multiset']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0.15, 0.3, 0.5]), fn_rate=rng.choice([0, 0.05, 0.2]),
                    max_depth=rng.choice([2, 3, 3, 4]), disable=('json-or-python',))
        g.nested_method = True
        entries = [g.entry(recursive=0.15)]
        og = ops.OpGen(g, entries, share=0)
        if g.p(0.12):
            sp = og.op(0, kinds=['to_json'])
            sp['k'] = 'to_json'
        else:
            sp = og.op(0, kinds=['serjson'])
        kw = sp['kw']
        kw.pop('indent', None)
        if g.p(0.2):
            kw[g.one(['include', 'exclude'])] = ops.filters(g)
        if 'in' in sp and g.p(0.4):
            sp['in'] = exotic(g, sp['in'], g.one([0.15, 0.3, 0.6]))
        ops.add_faults(g, sp, rng.choice([0, 0.3, 0.5]), signals=False)
        for f in (sp.get('faults') or {}).values():
            if f['k'] == 'raise' and g.p(0.35):
                f['e'] = g.one(['unexpected_value', 'ser_error', 'recursion_error', 'unexpected_value'])
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [[sp]]}

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st in ('died', 'timeout'):
            return {'viol': ['crash', 'the process %s: %s' % (st, v), None], 'stats': {}, 'trace': [st]}
        if st == 'error':
            raise core.HarnessError(v)
        if v['viol'] and 'float' in ops.types_in(case['schemas']) and '"$": "dec"' in json.dumps(case):
            # known finding float-extract: does the violation go away when no Decimal meets a float schema?
            st, v2 = core.forked(lambda: run_case(undecimal(case)))
            if st == 'ok' and not v2['viol']:
                v['stats']['finding:float-extract'] = 1
                v['viol'] = None
        return v

    def known(self, key):
        if key == 'float-extract':
            case = {'schemas': [{'s': {'type': 'float'}}],
                    'threads': [[{'k': 'ser', 'v': 0, 'in': {'$': 'dec', 'v': '2'}, 'm': 'json', 'kw': {}}]]}
            st, v = core.forked(lambda: run_case(case))
            return st == 'ok' and bool(v['viol'])
        return False


EXOTIC = ({'$': 'path', 'v': '/a/b'}, {'$': 'path', 'v': 'x\u00e9'}, {'$': 'pattern', 'v': '^a+$'}, {'$': 'bytearray', 'v': 'ab'},
          {'$': 'bytearray', 'v': '\xff\xfe'}, {'$': 'bytes', 'v': '\xff'}, {'$': 'bytes', 'v': 'b'}, {'$': 'url', 'v': 'http://x.org/'},
          {'$': 'murl', 'v': 'http://a:1,b:2/'}, {'$': 'complex', 'v': '1-2j'}, {'$': 'complex', 'v': 'nan+1j'},
          {'$': 'dt', 'v': '2020-02-03T10:11:12.000500+05:30'}, {'$': 'time', 'v': '10:11:12.5'}, {'$': 'td', 'v': -5},
          {'$': 'td', 'v': 90061.5}, {'$': 'dec', 'v': '1.50'}, {'$': 'big', 'v': '123456789012345678901234567890'},
          {'$': 'f', 'v': '1e22'}, {'$': 'f', 'v': '-0.0'}, {'$': 'f', 'v': 'nan'}, {'$': 'intsub', 'v': 7}, {'$': 'strsub', 'v': 's'},
          {'$': 'sub', 'v': {'$': 'f', 'v': '2.5'}}, {'$': 'sub', 'v': {'$': 'bytes', 'v': 'zz'}}, True, None, '\u2028\x7f"',
          {'$': 'uuid', 'v': '12345678-1234-4234-9234-123456789abc'}, {'$': 'date', 'v': '1999-12-31'},
          {'$': 'undefined'}, {'$': 'ellipsis'}, {'$': 'some', 'v': 1})


def exotic(g, v, p):
    """The value with some parts replaced by values of other types, also as keys."""
    if g.p(p):
        r = g.rng.random()
        if r < 0.5:
            return g.one(EXOTIC)
        if r < 0.75:
            ks = [g.one(EXOTIC) for _ in range(g.rng.randint(1, 3))]
            ks = [k for k in ks if not isinstance(k, dict) or k['$'] not in ('bytearray', 'some')]
            return {'$': 'dict', 'v': [[k, exotic(g, 1, 0.4)] for k in ks]}
        if isinstance(v, list):
            return {'$': 'sub', 'v': v}
        if isinstance(v, dict) and v.get('$') in (None, 'tuple', 'set', 'frozenset', 'dict'):
            return {'$': 'sub', 'v': v}
    if isinstance(v, list):
        return [exotic(g, x, p) for x in v]
    if isinstance(v, dict):
        t = v.get('$')
        if t is None:
            return {k: exotic(g, x, p) for k, x in v.items()}
        if t in ('tuple', 'gen', 'iter', 'deque'):
            return {**v, 'v': [exotic(g, x, p) for x in v['v']]}
        if t == 'dict':
            return {**v, 'v': [[k, exotic(g, x, p)] for k, x in v['v']]}
        if t in ('inst', 'obj') and isinstance(v.get('v'), dict):
            return {**v, 'v': {k: exotic(g, x, p) for k, x in v['v'].items()}}
    return v


def undecimal(x):
    if isinstance(x, dict):
        return x['v'] if x.get('$') == 'dec' else {k: undecimal(v) for k, v in x.items()}
    return [undecimal(v) for v in x] if isinstance(x, list) else x


def one(case, spec):
    w = ops.world_for(case)
    ops.prebuild(w, ops.used_schemas(case))
    op = core.do_op(w, spec, '#a#')
    return w, op


def has_type(x, ts):
    return bool(ops.types_in(x) & ts)


def run_case(case):
    js = case['threads'][0][0]
    if js['k'] == 'to_json':
        py = {**js, 'k': 'to_jsonable'}
    else:
        py = {**js, 'm': 'python', 'kw': {**js['kw'], 'mode': 'json'}}
    try:
        w1, a = one(case, js)
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    w2, b = one(case, py)
    stats = w1.stats
    if w1.overflow or w2.overflow:
        return {'viol': None, 'stats': {'discard:overflow': 1}, 'discard': True}
    viol = compare(a, b)
    sig = [a.result[0], b.result[0], len(a.log), a.fired, len(a.warnings)]
    stats['outcome:' + a.result[0]] = 1
    return {'viol': viol, 'stats': stats, 'trace': [a.result, b.result, a.log],
            'state': [core.digest([sorted(ops.types_in(case['schemas'])), sig])]}


def compare(a, b):
    if a.log != b.log:
        return ['callbacks', 'user code is called differently by to_json and to_python(mode="json")',
                ops.first_diff(a.log, b.log)]
    if sorted(map(warning, a.warnings)) != sorted(map(warning, b.warnings)):
        return ['warnings', 'different warnings', [a.warnings[:3], b.warnings[:3]]]
    if a.result[0] != b.result[0]:
        return ['outcome', 'one fails, the other does not', [a.result, b.result]]
    if a.result[0] == 'ok':
        try:
            x = json.loads(a.raw)
        except ValueError as e:
            return ['json', 'to_json wrote invalid JSON: %s' % e, a.raw[:300].decode('utf8', 'replace')]
        if not same(x, b.raw):
            return ['value', 'to_json and to_python(mode="json") differ', [a.raw[:500].decode('utf8', 'replace'), b.result[1]]]
        return None
    ea, eb = a.exc, b.exc
    if not isinstance(ea, Exception):
        return None if type(ea) is type(eb) else ['error', 'different errors', [a.result, b.result]]
    try:
        sa, sb = addr(str(ea)), addr(str(eb))
    except Exception:  # noqa: BLE001
        return None
    if sb not in sa and not isinstance(eb, UnicodeError):
        return ['error', 'the error of to_json does not tell what to_python(mode="json") raised', [sa, sb]]
    return None


def warning(w):
    return [w[0], addr(w[1])]


def addr(x):
    return re.sub(r'(?s)input_value=.*?, input_type=', 'input_type=', re.sub(r'0x[0-9a-f]+', '0x', x)) if isinstance(x, str) else x


def same(x, y):
    if isinstance(y, float) and not math.isfinite(y):
        return x is None or isinstance(x, float) or x in ('NaN', 'Infinity', '-Infinity')  # JSON has no word for these
    if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None:
        return x is y
    if isinstance(x, dict):
        return (isinstance(y, dict) and list(map(addr, x)) == list(map(addr, y))
                and all(map(same, x.values(), y.values())))
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, str):
        return isinstance(y, str) and addr(x) == addr(y)
    if isinstance(x, float):
        return isinstance(y, (int, float)) and (x == y or (math.isnan(x) and math.isnan(y)))
    return type(y) is type(x) and x == y


CHECK = C17()
