"""Seeded generation of schemas (every core-schema type), inputs, values and operations as plain JSON."""
import json
import random


def nm(rng, pre, n=4):
    return pre + str(rng.randrange(n))


LEAVES = (
    'any',
    'none',
    'bool',
    'int',
    'float',
    'decimal',
    'str',
    'bytes',
    'date',
    'time',
    'datetime',
    'timedelta',
    'literal',
    'enum',
    'is-instance',
    'is-subclass',
    'callable',
    'url',
    'multi-host-url',
    'uuid',
    'complex',
)
CONTAINERS = (
    'list',
    'tuple',
    'set',
    'frozenset',
    'generator',
    'dict',
    'default',
    'nullable',
    'union',
    'tagged-union',
    'chain',
    'lax-or-strict',
    'json-or-python',
    'typed-dict',
    'model',
    'root-model',
    'dataclass',
    'arguments',
    'arguments-v3',
    'call',
    'custom-error',
    'json',
)
FUNCS = ('function-after', 'function-before', 'function-wrap', 'function-plain')
HASHABLE_LEAVES = ('int', 'str', 'bool', 'date', 'decimal', 'uuid', 'literal', 'enum', 'bytes')
CONFUSABLE = ('int', 'float', 'bool', 'str', 'decimal', 'date', 'timedelta', 'none', 'bytes', 'complex')
CONFUSING = (1, 0, '1', '0', True, {'$': 'f', 'v': '1.0'}, {'$': 'f', 'v': '0.5'}, '1.5', 'true', '2020-01-01', None,
             {'$': 'dec', 'v': '1'}, {'$': 'intsub', 'v': 1}, {'$': 'strsub', 'v': '1'}, 'x', {'$': 'bytes', 'v': '1'})
FIELD_NAMES = ('a', 'b', 'c', 'd')


class Gen:
    nested_method = False  # field serializers inside field serializers

    def __init__(self, rng, leaves=None, containers=None, fn_rate=0.25, ser_rate=0.0, disable=(), reject_rate=0.15,
                 serializable=False, beh=True, max_depth=3, config_rate=0.3):
        self.rng = rng
        pick = self.subset
        self.leaves = [x for x in (leaves or pick(LEAVES, 6, 12)) if x not in disable]
        self.containers = [x for x in (containers or pick(CONTAINERS, 6, 14)) if x not in disable]
        self.confusable = [x for x in CONFUSABLE if x not in disable and (not leaves or x in leaves)]
        if not self.leaves:
            self.leaves = ['int', 'str']
        if not self.containers:
            self.containers = ['list']
        self.fn_rate = fn_rate
        self.ser_rate = ser_rate
        self.reject_rate = reject_rate
        self.serializable = serializable
        self.beh = beh
        self.max_depth = max_depth
        self.config_rate = config_rate
        self.classes = {}
        self.fns = {}
        self.nfn = 0
        self.ncls = 0
        self.defs = []
        self.ref_rate = 0.3
        self.on_ref = None  # decides the value of a definition-ref
        self.ndef = 0
        self.in_fields = 0

    def subset(self, xs, lo, hi):
        k = min(len(xs), self.rng.randint(lo, hi))
        return sorted(self.rng.sample(list(xs), k), key=list(xs).index)

    def p(self, x):
        return self.rng.random() < x

    def one(self, xs):
        return xs[self.rng.randrange(len(xs))]

    # -- functions ---------------------------------------------------------------------------------------------
    def fn(self, role, **kw):
        i = self.nfn
        self.nfn += 1
        self.fns[str(i)] = dict(role=role, **kw)
        return {'$fn': i}

    def vfn(self, role, hashable=False, inner=None):
        info = self.p(0.5)
        beh = ['id']
        if self.beh:
            if role == 'wrap':
                beh = self.one([['call'], ['call'], ['call'], ['twice'], ['catch'], ['loc', 'L'], ['catch_any']])
                if not hashable and self.p(0.15):
                    beh = ['tag']
            elif self.p(self.reject_rate):
                beh = ['reject', self.one(['value_error', 'assertion_error', 'custom_error', 'known_error'])]
            elif role in ('after', 'plain') and self.p(0.3) and not self.serializable:
                beh = ['tag']
            elif role == 'before' and self.p(0.2):
                beh = ['add', 1]
        f = self.fn(role, info=info, beh=beh)
        fun = {'type': 'with-info' if info else 'no-info', 'function': f}
        return fun

    def wrap_fn(self, s, hashable=False):
        k = self.one(FUNCS[:3] if self.p(0.9) else FUNCS)
        if k == 'function-plain':
            return {'type': k, 'function': self.vfn('plain', hashable)}
        role = k.split('-')[1]
        return {'type': k, 'function': self.vfn(role, hashable), 'schema': s}

    # -- schemas -----------------------------------------------------------------------------------------------
    def schema(self, depth=None, hashable=False, field=False):
        depth = self.max_depth if depth is None else depth
        s = self._schema(depth, hashable)
        if s['type'] in ('arguments', 'arguments-v3', 'call'):
            s['serialization'] = {'type': 'any'}
        if self.p(self.fn_rate):
            s = self.wrap_fn(s, hashable)
        if self.ser_rate and self.p(self.ser_rate) and 'serialization' not in s:
            x = self.serialization(s, field)
            if x:
                s['serialization'] = x
        return s

    def serialization(self, s, field=False):
        r = self.rng.random()
        wu = self.one(['always', 'always', 'always', 'unless-none', 'json', 'json-unless-none'])
        info = self.p(0.5)
        isf = field and self.p(0.25)
        if r < 0.4:
            out = {'type': 'function-plain', 'function': self.fn('ser', info=info, method=isf,
                   beh=self.one([['id'], ['str'], ['tag'], ['items']])),
                   'info_arg': info, 'when_used': wu}
            if isf:
                out['is_field_serializer'] = True
            if self.p(0.3):
                out['return_schema'] = self.one([{'type': 'any'}, {'type': 'str'}, {'type': 'int'},
                                                 {'type': 'list', 'items_schema': {'type': 'int'}}])
            return out
        if r < 0.85:
            out = {'type': 'function-wrap', 'function': self.fn('serwrap', info=info, method=isf,
                   beh=self.one([['call'], ['call'], ['tag'], ['twice'], ['skip'], ['catch_any'],
                                 ['loc', self.one(['a', 0, 1, '__all__'])]])),
                   'info_arg': info, 'when_used': wu}
            if isf:
                out['is_field_serializer'] = True
            if self.p(0.3):
                out['return_schema'] = self.one([{'type': 'any'}, {'type': 'str'}])
            if self.p(0.15):
                out['schema'] = {'type': self.one(['any', 'str', 'int'])}
            elif isf and self.nested_method and self.p(0.4):
                t = {'type': self.one(['any', 'any', 'str', 'int'])}
                z = self.serialization(t, field=True)
                out['schema'] = {**t, 'serialization': z} if z else t
            return out
        if r < 0.9:
            return {'type': 'to-string', 'when_used': wu}
        if r < 0.94:
            return {'type': 'format', 'formatting_string': self.one(['', '04', '.1f', '>6', 'x', '%d']), 'when_used': wu}
        if r < 0.98 and s['type'] in ('list', 'tuple', 'dict'):
            seq = s['type'] != 'dict'
            z = {'type': 'include-exclude-sequence' if seq else 'include-exclude-dict'}
            for k in self.one([['include'], ['exclude'], ['include', 'exclude']]):
                z[k] = {'$val': {'$': 'set', 'v': self.rng.sample([0, 1, 2] if seq else ['a', 'b', 'k0', 'k1', 0, 1],
                                                                  self.rng.randint(1, 2))}}
            return z
        return {'type': self.one(['any', 'str', 'int'])}

    def leaf(self, hashable=False, t=None):
        ls = [x for x in self.leaves if x in HASHABLE_LEAVES] if hashable else self.leaves
        t = t or self.one(ls or ['int', 'str'])
        p = self.p
        s = {'type': t}
        if t == 'int':
            if p(0.2):
                s['ge'] = 0
            if p(0.1):
                s['multiple_of'] = 2
            if p(0.2):
                s['strict'] = True
        elif t == 'float':
            if p(0.3):
                s['lt'] = 50.0
            if p(0.2):
                s['allow_inf_nan'] = False
        elif t == 'decimal':
            if p(0.3):
                s['max_digits'] = 4
            if p(0.3):
                s['ge'] = {'$val': {'$': 'dec', 'v': '0'}}
        elif t == 'str':
            r = self.rng.random()
            if r < 0.15:
                s['max_length'] = 3
            elif r < 0.3:
                s['pattern'] = self.one(['^[a-z]*$', '^.a', '\\d'])
                if p(0.3):
                    s['regex_engine'] = 'python-re'
            elif r < 0.4:
                s['to_upper'] = True
            elif r < 0.5:
                s['strip_whitespace'] = True
            elif r < 0.6:
                s['strict'] = True
        elif t == 'bytes':
            if p(0.3):
                s['max_length'] = 3
        elif t == 'date':
            if p(0.3):
                s['ge'] = {'$val': {'$': 'date', 'v': '2001-01-01'}}
        elif t == 'datetime':
            if p(0.2):
                s['tz_constraint'] = self.one(['aware', 'naive'])
        elif t == 'timedelta':
            if p(0.3):
                s['ge'] = {'$val': {'$': 'td', 'v': 0}}
        elif t == 'literal':
            s['expected'] = self.one([['x', 'y'], [1, 2], ['x', 1], [True, 'z']])
        elif t == 'enum':
            c = self.enum_cls()
            s.update(cls={'$cls': c}, members={'$members': c})
            mix = self.classes[c].get('mix')
            if mix in ('str', 'int'):
                s['sub_type'] = mix
        elif t == 'is-instance':
            s['cls'] = {'$cls': self.plain_cls()}
        elif t == 'is-subclass':
            s['cls'] = {'$cls': self.plain_cls()}
        elif t == 'url':
            if p(0.3):
                s['allowed_schemes'] = ['http', 'https']
            if p(0.2):
                s['host_required'] = True
        elif t == 'uuid':
            if p(0.2):
                s['version'] = 4
        elif t == 'complex':
            if p(0.2):
                s['strict'] = True
        return s

    def enum_cls(self):
        if self.p(0.5):
            for n, c in self.classes.items():
                if c['kind'] == 'enum':
                    return n
        n = 'E%d' % self.ncls
        self.ncls += 1
        mix = self.one([None, 'str', 'int'])
        mem = [['A', 'ea'], ['B', 'eb']] if mix == 'str' else [['A', 1], ['B', 2]] if mix == 'int' else self.one(
            [[['A', 'ea'], ['B', 3]], [['A', {'$': 'f', 'v': '1.5'}], ['B', 'q']]])
        self.classes[n] = {'kind': 'enum', 'mix': mix, 'members': mem}
        return n

    def plain_cls(self):
        for n, c in self.classes.items():
            if c['kind'] == 'plain':
                return n
        n = 'P%d' % self.ncls
        self.ncls += 1
        self.classes[n] = {'kind': 'plain'}
        return n

    def field_extra(self, f, kind):
        p = self.p
        if p(0.2):
            f['validation_alias'] = self.one(['al', ['al'], [['al', 0], ['al2']], [['nest', 'x']]])
            if f['validation_alias'] == ['al']:
                f['validation_alias'] = 'al'
        if p(0.15):
            f['serialization_alias'] = 'sal_' + kind
        return f

    def fields(self, depth, kind, n=None):
        n = self.rng.randint(1, 3) if n is None else n
        out = {}
        for i in range(n):
            name = FIELD_NAMES[i]
            s = self.schema(depth - 1, field=True)
            if self.p(0.3):
                s = self.default(s, depth, omit=kind != 'dc')
            out[name] = self.field_extra({'schema': s}, name)
        return out

    def default(self, s, depth, omit=True):
        d = {'type': 'default', 'schema': s}
        r = self.rng.random()
        if r < 0.4:
            v = self.val(s, valid=True, out=True)
            if '"$": "gen"' in json.dumps(v) or '"$": "iter"' in json.dumps(v):
                v = []  # a default which is consumed by its first use
            d['default'] = {'$val': v}
        elif r < 0.75:
            data = self.p(0.4)
            d['default_factory'] = self.fn('factory', data=data, beh=self.one(
                [['const', 7], ['const', []], ['const', 'ddd'], ['data'] if data else ['const', [1]]]))
            d['default_factory_takes_data'] = data
        else:
            d['default'] = {'$val': self.one([0, 'dflt', [], {'k': [1]}, None])}
        if self.p(0.3):
            d['validate_default'] = True
        if self.p(0.3):
            d['on_error'] = 'default'
        elif omit and self.p(0.15):
            d['on_error'] = 'omit'
            if self.p(0.4):
                for k in ('default', 'default_factory', 'default_factory_takes_data', 'validate_default'):
                    d.pop(k, None)
        if self.p(0.3) and 'default_factory' not in d:
            d['copy_default'] = True
            del d['copy_default']
        return d

    def _schema(self, depth, hashable):
        if depth <= 0 or self.p(0.2):
            if self.defs and not hashable and self.p(self.ref_rate):
                return {'type': 'definition-ref', 'schema_ref': self.one(self.defs)}
            return self.leaf(hashable)
        if hashable:
            t = self.one(['leaf', 'tuple', 'frozenset', 'nullable'])
            if t == 'leaf':
                return self.leaf(True)
        else:
            t = self.one(self.containers)
        p = self.p
        sub = lambda **k: self.schema(depth - 1, **k)  # noqa: E731
        if t == 'list':
            s = {'type': 'list', 'items_schema': sub()}
            if p(0.15):
                s['max_length'] = 2
            if p(0.15):
                s['fail_fast'] = True
            if p(0.15):
                s['strict'] = True
            return s
        if t == 'tuple':
            n = self.rng.randint(1, 3)
            s = {'type': 'tuple', 'items_schema': [sub(hashable=hashable) for _ in range(n)]}
            if p(0.4):
                s['variadic_item_index'] = self.rng.randrange(n)
                if p(0.15):
                    s['max_length'] = self.rng.randint(1, 3)
                if p(0.15):
                    s['min_length'] = self.rng.randint(1, 3)
                if p(0.1):
                    s['fail_fast'] = True
            return s
        if t in ('set', 'frozenset'):
            s = {'type': t, 'items_schema': self.schema(min(depth - 1, 1), hashable=True)}
            if p(0.15):
                s['max_length'] = 2
            return s
        if t == 'generator':
            s = {'type': 'generator', 'items_schema': sub()}
            if p(0.2):
                s['max_length'] = 2
            if p(0.2):
                s['min_length'] = 1
            return s
        if t == 'dict':
            s = {'type': 'dict', 'keys_schema': self.schema(min(depth - 1, 1), hashable=True), 'values_schema': sub()}
            if p(0.15):
                s['max_length'] = 2
            return s
        if t == 'default':
            return self.default(sub(), depth)
        if t == 'nullable':
            return {'type': 'nullable', 'schema': sub(hashable=hashable)}
        if t == 'union':
            if p(0.2) and len(self.confusable) > 2:  # many scalars which compete for the same inputs
                ch = [self.leaf(t=self.one(self.confusable)) for _ in range(self.rng.randint(3, 7))]
            else:
                ch = [sub() for _ in range(self.rng.randint(2, 3))]
            s = {'type': 'union', 'choices': ch}
            if p(0.3):
                s['mode'] = 'left_to_right'
            if p(0.1):
                s['custom_error_type'] = 'cu'
                s['custom_error_message'] = 'CU'
            return s
        if t == 'tagged-union':
            ch = {}
            for tag in ('x', 'y'):
                f = self.fields(depth - 1, 'td', self.rng.randint(1, 2))
                f = {'tag': {'schema': {'type': 'literal', 'expected': [tag]}}, **f}
                k = self.one(['typed-dict', 'typed-dict', 'model', 'dataclass'])
                if k == 'typed-dict':
                    ch[tag] = {'type': 'typed-dict', 'fields': {n: {'type': 'typed-dict-field', **x} for n, x in f.items()}}
                else:
                    ch[tag] = self.model(depth, f) if k == 'model' else self.dataclass(depth, f)
            s = {'type': 'tagged-union', 'choices': ch}
            r = self.rng.random()
            if r < 0.6:
                s['discriminator'] = 'tag'
            elif r < 0.7:
                s['discriminator'] = [['tag'], ['kind']]
            else:
                s['discriminator'] = self.fn('disc', beh=['disc', 'tag'])
            return s
        if t == 'chain':
            return {'type': 'chain', 'steps': [sub(), self.one([{'type': 'any'}, self.wrap_fn({'type': 'any'})])]}
        if t == 'lax-or-strict':
            a = sub()
            return {'type': t, 'lax_schema': a, 'strict_schema': self.one([a, {'type': 'any'}]) if p(0.5) else self.leaf()}
        if t == 'json-or-python':
            a = sub()
            return {'type': t, 'json_schema': a, 'python_schema': a if p(0.5) else self.leaf()}
        if t == 'typed-dict':
            f = self.fields(depth, 'td')
            for x in f.values():
                x['type'] = 'typed-dict-field'
                if p(0.3) and x['schema'].get('type') != 'default':
                    x['required'] = False
            s = {'type': 'typed-dict', 'fields': f}
            if p(0.35):
                s['extra_behavior'] = self.one(['allow', 'forbid', 'ignore'])
                if s['extra_behavior'] == 'allow' and p(0.5):
                    s['extras_schema'] = sub()
            return s
        if t == 'model':
            return self.model(depth)
        if t == 'root-model':
            n = self.new_cls('model')
            if p(0.2):
                self.classes[n]['post_init'] = self.fn('before', beh=['id'])['$fn']
            s = {'type': 'model', 'cls': {'$cls': n}, 'root_model': True, 'schema': sub()}
            if 'post_init' in self.classes[n]:
                s['post_init'] = 'model_post_init'
            return s
        if t == 'dataclass':
            return self.dataclass(depth)
        if t in ('arguments', 'call'):
            s = self.arguments(depth)
            if t == 'call':
                c = {'type': 'call', 'arguments_schema': s, 'function': self.fn('call', beh=['call'])}
                if p(0.4):
                    c['return_schema'] = self.one([{'type': 'any'}, {'type': 'list', 'items_schema': {'type': 'any'}}])
                return c
            return s
        if t == 'arguments-v3':
            out = []
            seen = False
            n = self.rng.randint(1, 3)
            only = self.rng.randrange(2) if p(0.4) else 0
            for i in range(n):
                s = sub()
                if seen or p(0.25):
                    s = self.default(s, depth, omit=False)
                    seen = True
                a = {'name': FIELD_NAMES[i], 'schema': s,
                     'mode': 'positional_only' if i < only else 'positional_or_keyword'}
                if p(0.15):
                    a['alias'] = 'al%d' % i
                out.append(a)
            if p(0.3):
                out.append({'name': 'va', 'schema': self.schema(depth - 2), 'mode': 'var_args'})
            if p(0.3):
                out.append({'name': 'ko', 'schema': self.leaf(), 'mode': 'keyword_only'})
                if p(0.3):
                    out[-1]['schema'] = self.default(out[-1]['schema'], depth, omit=False)
            r = self.rng.random()
            if r < 0.3:
                out.append({'name': 'kw', 'schema': self.schema(depth - 2), 'mode': 'var_kwargs_uniform'})
            elif r < 0.45:
                f = self.fields(depth - 2, 'td', 1)
                out.append({'name': 'kw', 'mode': 'var_kwargs_unpacked_typed_dict', 'schema': {
                    'type': 'typed-dict', 'fields': {
                        'x' + k: {'type': 'typed-dict-field', 'required': p(0.5), **x} for k, x in f.items()}}})
            for a in out:
                if a['schema']['type'] == 'default' and a['schema'].get('on_error') == 'omit':
                    a['schema']['on_error'] = 'raise'
            s = {'type': 'arguments-v3', 'arguments_schema': out}
            if p(0.2):
                s['extra_behavior'] = self.one(['ignore', 'forbid'])
            return s
        if t == 'custom-error':
            return {'type': t, 'schema': sub(), 'custom_error_type': 'ce', 'custom_error_message': 'CE {x}',
                    'custom_error_context': {'x': 'q'}}
        if t == 'json':
            return {'type': 'json', 'schema': sub()} if p(0.8) else {'type': 'json'}
        raise AssertionError(t)

    def arguments(self, depth):
        p = self.p
        out = []
        n = self.rng.randint(1, 3)
        seen_default = False
        for i in range(n):
            s = self.schema(depth - 1)
            if seen_default or p(0.25):
                s = self.default(s, depth, omit=False)
                seen_default = True
            mode = 'positional_or_keyword' if i else self.one(['positional_only', 'positional_or_keyword'])
            a = {'name': FIELD_NAMES[i], 'schema': s, 'mode': mode}
            if p(0.15) and mode != 'positional_only':
                a['alias'] = 'al'
            out.append(a)
        if p(0.3):
            out.append({'name': 'ko', 'schema': self.leaf(), 'mode': 'keyword_only'})
        s = {'type': 'arguments', 'arguments_schema': out}
        if p(0.4):
            s['var_args_schema'] = self.schema(depth - 1)
        if p(0.4):
            s['var_kwargs_schema'] = self.schema(depth - 1)
            if p(0.5):
                s['var_kwargs_mode'] = 'uniform'
            if p(0.25):
                f = self.fields(depth - 1, 'td')
                s['var_kwargs_schema'] = {'type': 'typed-dict', 'fields': {
                    'x' + n: {'type': 'typed-dict-field', 'required': False, **x} for n, x in f.items()}}
                s['var_kwargs_mode'] = 'unpacked-typed-dict'
        if p(0.2):
            s['extra_behavior'] = self.one(['ignore', 'forbid'])
        if p(0.1):
            s['validate_by_name'] = True
        for a in out:
            if a['schema']['type'] == 'default' and a['schema'].get('on_error') == 'omit':
                a['schema']['on_error'] = 'raise'
        return s

    def new_cls(self, kind, **kw):
        n = ('M%d' if kind == 'model' else 'D%d') % self.ncls
        self.ncls += 1
        self.classes[n] = {'kind': kind, **kw}
        return n

    def model(self, depth, fields=None):
        p = self.p
        n = self.new_cls('model')
        f = fields or self.fields(depth, 'mf')
        for x in f.values():
            x['type'] = 'model-field'
            if p(0.08):
                x['frozen'] = True
        mf = {'type': 'model-fields', 'fields': f, 'model_name': n}
        if p(0.4):
            mf['extra_behavior'] = self.one(['allow', 'allow', 'forbid', 'ignore'])
            if mf['extra_behavior'] == 'allow' and p(0.5):
                mf['extras_schema'] = self.schema(depth - 1)
        if p(0.2):
            mf['from_attributes'] = True
        if self.ser_rate and p(0.35):
            mf['computed_fields'] = self.computed(n)
        inner = mf
        if p(self.fn_rate * 0.5):
            inner = {'type': self.one(['function-before', 'function-after']), 'schema': mf}
            inner['function'] = self.vfn('before' if inner['type'].endswith('before') else 'after')
            if inner['type'].endswith('after'):
                self.fns[str(inner['function']['function']['$fn'])]['beh'] = ['id']
        s = {'type': 'model', 'cls': {'$cls': n}, 'schema': inner}
        if p(0.15):
            self.classes[n]['post_init'] = self.fn('before', beh=['id'])['$fn']
            s['post_init'] = 'model_post_init'
        if p(0.3):
            s['revalidate_instances'] = self.one(['always', 'never', 'subclass-instances'])
        if p(0.07):
            s['frozen'] = True
        if p(0.3):
            s['config'] = self.config()
        if p(0.1):
            s['strict'] = True
        return s

    def computed(self, n):
        out = []
        for name in self.one([['cf'], ['cf'], ['cf', 'cg']]):
            i = self.rng.randrange(6)
            self.classes[n].setdefault('props', {})[name] = self.fn('ser', beh=[
                ['const', 11], ['const', 'cf'], ['str'], ['const', [1, 'x', 3]],
                ['const', {'a': 1, 'b': {'a': 2, 'cf': 3}, 'cf': [4, 5]}], ['const', [1, {'a': 2}]]][i])['$fn']
            r = self.one([{'type': 'any'}, {'type': 'any'}, {'type': 'str'}, {'type': 'int'},
                          {'type': 'list'} if i in (3, 5) else {'type': 'dict'} if i == 4 else {'type': 'any'}])
            if self.p(self.ser_rate):
                z = self.serialization(r, field=True)
                if z:
                    r = {**r, 'serialization': z}
            cf = {'type': 'computed-field', 'property_name': name, 'return_schema': r}
            if self.p(0.2):
                cf['alias'] = name + '_alias'
            out.append(cf)
        return out

    def dataclass(self, depth, fields=None):
        p = self.p
        f = fields or self.fields(depth, 'dc')
        n = self.new_cls('dataclass', fields=list(f))
        fl = []
        for name, x in f.items():
            y = {'type': 'dataclass-field', 'name': name, **x}
            y['type'] = 'dataclass-field'
            if p(0.4):
                y['kw_only'] = False
            if y['schema']['type'] == 'default' and y['schema'].get('on_error') == 'omit':
                y['schema']['on_error'] = 'raise'
            fl.append(y)
        fl.sort(key=lambda y: y.get('kw_only', True))  # as positions are assigned
        if p(0.1) and fl[-1]['schema']['type'] == 'default' and len(fl) > 1:
            fl[-1].update(init=False, kw_only=True)
        # required positional fields first keeps the schema legal
        args = {'type': 'dataclass-args', 'dataclass_name': n, 'fields': fl}
        slots = p(0.2)
        if not slots and p(0.2):
            args['extra_behavior'] = self.one(['allow', 'forbid', 'ignore'])
            if args['extra_behavior'] == 'allow' and p(0.5):
                args['extras_schema'] = self.schema(depth - 1)
        if self.ser_rate and p(0.2):
            args['computed_fields'] = self.computed(n)
        s = {'type': 'dataclass', 'cls': {'$cls': n}, 'schema': args, 'fields': list(f)}
        if slots:
            self.classes[n]['slots'] = True
            s['slots'] = True
        if p(0.2):
            self.classes[n]['post_init'] = self.fn('before', beh=['id'])['$fn']
            s['post_init'] = True
            if p(0.4):
                y = self.one(fl)
                if y.get('init') is not False and len(fl) > 1 and y['name'] != 'tag':
                    y['init_only'] = True
                    s['fields'].remove(y['name'])
                    args['collect_init_only'] = True
        if p(0.3):
            s['revalidate_instances'] = self.one(['always', 'never', 'subclass-instances'])
        if p(0.2):
            s['config'] = self.config()
        return s

    def config(self):
        p = self.p
        c = {}
        if p(0.3):
            c['title'] = 'Cfg%d' % self.rng.randrange(3)
        if p(0.2):
            c['strict'] = self.one([True, False])
        if p(0.2):
            c['from_attributes'] = True
        if p(0.2):
            c['loc_by_alias'] = False
        if p(0.2):
            c['validate_default'] = True
        if p(0.2):
            c['str_to_lower'] = True
        if p(0.2):
            c['str_max_length'] = 4
        if p(0.2):
            c['revalidate_instances'] = 'always'
        if p(0.2):
            c['coerce_numbers_to_str'] = True
        if p(0.2):
            c['extra_fields_behavior'] = self.one(['allow', 'forbid', 'ignore'])
        if p(0.2):
            c['cache_strings'] = self.one([True, False, 'all', 'keys', 'none'])
        if p(0.15):
            c['validate_by_name'] = True
        if p(0.15):
            c['ser_json_timedelta'] = 'float'
        if p(0.15):
            c['ser_json_bytes'] = self.one(['base64', 'hex'])
        if p(0.1):
            c['val_json_bytes'] = self.one(['base64', 'hex'])
        if p(0.15):
            c['ser_json_inf_nan'] = self.one(['constants', 'strings'])
        if p(0.1):
            c['hide_input_in_errors'] = True
        if p(0.1):
            c['validation_error_cause'] = True
        if p(0.15):
            c['serialize_by_alias'] = True
        return c

    def recursive(self, depth=2):
        """A definitions schema with a self-reference."""
        name = 'R%d' % self.ndef
        self.ndef += 1
        ref = {'type': 'definition-ref', 'schema_ref': name}
        kids = self.one(
            [
                {'type': 'list', 'items_schema': ref},
                {'type': 'nullable', 'schema': ref},
                {'type': 'dict', 'keys_schema': {'type': 'str'}, 'values_schema': ref},
                {'type': 'tuple', 'items_schema': [ref], 'variadic_item_index': 0},
            ]
        )
        kids0 = kids
        if self.p(0.3):
            kids = self.wrap_fn(kids)
        fields = {
            'v': {'schema': self.schema(min(depth, 1))},
            'kids': {'schema': {'type': 'default', 'schema': kids, 'default': {'$val': None}}},
        }
        k = self.one(['typed-dict', 'model', 'dataclass', 'list'])
        if k == 'typed-dict':
            s = {'type': 'typed-dict', 'fields': {n: {'type': 'typed-dict-field', **x} for n, x in fields.items()}}
        elif k == 'model':
            s = self.model(depth, fields)
        elif k == 'dataclass':
            s = self.dataclass(depth, fields)
        else:
            s = kids0 if kids0['type'] != 'nullable' else {'type': 'list', 'items_schema': ref}
        s = dict(s)
        s['ref'] = name
        return {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': name}, 'definitions': [s]}

    def entry(self, recursive=0.2, depth=None):
        if self.p(recursive):
            s = self.recursive()
        else:
            s = self.schema(depth)
            if s['type'] in LEAVES and self.p(0.7):
                s = {'type': 'list', 'items_schema': s} if self.p(0.5) else self._schema(2, False)
                if s['type'] in ('arguments', 'arguments-v3', 'call'):
                    s['serialization'] = {'type': 'any'}
        e = {'s': s}
        if self.p(self.config_rate):
            e['config'] = self.config()
        return e

    # -- values ------------------------------------------------------------------------------------------------
    def atom(self):
        return self.one([0, 1, -3, 7, 12345, True, False, None, 'a', 'b', 'bad', 'x', '5', 'zzzz', {'$': 'f', 'v': '1.5'},
                         {'$': 'f', 'v': '3.0'}, [], {}, [1, 2], {'a': 1}])

    def val(self, s, valid=None, out=False, js=False, depth=0, defs=None):
        """A value for schema s.  valid: True = meant to validate, None = usually.  out: an already validated value
        (serializer input).  js: JSON-representable."""
        rng = self.rng
        if valid is None and self.p(0.06):
            return self.atom()
        if depth > 7:
            return None
        t = s['type']
        defs = defs or {}
        rec = lambda x, **k: self.val(x, valid, out, js, depth + 1, defs)  # noqa: E731
        one = self.one
        if t == 'definitions':
            d = dict(defs)
            for x in s['definitions']:
                d[x['ref']] = x
            return self.val(s['schema'], valid, out, js, depth, d)
        if t == 'definition-ref':
            x = defs.get(s['schema_ref'])
            if x and self.on_ref:
                return self.on_ref(s['schema_ref'], lambda: rec(x))
            return rec(x) if x else None
        if t == 'any':
            return self.atom()
        if t == 'none':
            return None
        if t == 'bool':
            return one([True, False] if out or self.p(0.7) else ['true', 0, 1, 'no'])
        if t == 'int':
            x = one([0, 2, 4, 8, 20, 3, -4, 10**20 if not js else 44] if not out else [0, 2, 4, 6])
            if isinstance(x, int) and x > 10**15:
                return {'$': 'big', 'v': str(x)}
            if not out and self.p(0.15):
                return one(['4', '12', {'$': 'f', 'v': '2.0'}] + ([] if js else [{'$': 'intsub', 'v': 6}]))
            return x
        if t == 'float':
            return {'$': 'f', 'v': one(['1.5', '0.0', '-2.25', '49.0', 'nan', 'inf'] if not js else ['1.5', '0.25', '60.5'])}
        if t == 'decimal':
            return one(['1.5', '12', 3]) if js or (not out and self.p(0.4)) else {'$': 'dec', 'v': one(['1.5', '12', '0.01', '-2'])}
        if t == 'str':
            if not js and not out and self.p(0.1):
                return {'$': 'strsub', 'v': 'sub'}
            return one(['a', 'bc', 'xyz', 'aa', 'b1', ' s ', '', 'longer', 'bad', 'é☃'])
        if t == 'bytes':
            return one(['a', 'YWI=', '6162']) if js else {'$': 'bytes', 'v': one(['a', 'bc', '\xff', ''])}
        if t == 'date':
            if js or (not out and self.p(0.4)):
                return one(['2020-02-03', '1999-12-31', '2024-02-29'])
            return {'$': 'date', 'v': one(['2020-02-03', '1999-12-31', '2024-02-29'])}
        if t == 'time':
            if js or (not out and self.p(0.4)):
                return one(['10:11:12', '23:59'])
            return {'$': 'time', 'v': one(['10:11:12', '00:00:00.5'])}
        if t == 'datetime':
            if js or (not out and self.p(0.4)):
                return one(['2020-02-03T10:11:12', '2020-02-03T10:11:12Z', '1999-12-31T23:59:59+05:00'])
            return {'$': 'dt', 'v': one(['2020-02-03T10:11:12', '2020-02-03T10:11:12+00:00'])}
        if t == 'timedelta':
            if js or (not out and self.p(0.4)):
                return one(['P1D', 'PT5S', 60])
            return {'$': 'td', 'v': one([0, 5, -5, 86401])}
        if t == 'literal':
            return one(s['expected'])
        if t == 'enum':
            c = s['cls']['$cls']
            m = one(self.classes[c]['members'])
            if js or (not out and self.p(0.5)):
                return m[1] if not isinstance(m[1], dict) or not js else 3
            return {'$': 'enum', 'c': c, 'm': m[0]}
        if t == 'is-instance':
            return 1 if js else {'$': 'inst', 'c': s['cls']['$cls'], 'v': {}}
        if t == 'is-subclass':
            return 1 if js else {'$': 'cls', 'v': s['cls']['$cls']}
        if t == 'callable':
            return 1 if js else {'$': 'fn', 'v': self.fn('iterfn', beh=['const', 1])['$fn']}
        if t == 'url':
            v = one(['http://example.com/a', 'https://x.org', 'ftp://h/b'])
            return v if js or not out else {'$': 'url', 'v': v}
        if t == 'multi-host-url':
            return one(['postgres://a:1,b:2/db', 'http://x.org']) if js or not out else one(['x'])
        if t == 'uuid':
            v = one(['12345678-1234-4234-9234-123456789abc', '12345678-1234-1234-9234-123456789abc'])
            return v if js or (not out and self.p(0.5)) else {'$': 'uuid', 'v': v}
        if t == 'complex':
            return one(['1+2j', 3]) if js else {'$': 'complex', 'v': '1+2j'}
        if t in ('list', 'generator'):
            xs = [rec(s.get('items_schema', {'type': 'any'})) for _ in range(rng.randint(0, 3))]
            if js:
                return xs
            if out:
                if t == 'generator':
                    return {'$': one(['gen', 'iter']), 'v': xs}
                return xs
            r = rng.random()
            if r < 0.75:
                return xs
            if r < 0.85:
                return {'$': 'tuple', 'v': xs}
            if r < 0.95:
                return {'$': 'gen', 'v': xs}
            return {'$': 'deque', 'v': xs}
        if t == 'tuple':
            it = s['items_schema']
            vi = s.get('variadic_item_index')
            xs = []
            for i, x in enumerate(it):
                if i == vi:
                    xs += [rec(x) for _ in range(rng.randint(0, 2))]
                else:
                    xs.append(rec(x))
            return xs if js or (not out and self.p(0.3)) else {'$': 'tuple', 'v': xs}
        if t in ('set', 'frozenset'):
            n = rng.randint(0, 3)
            xs = [rec(s.get('items_schema', {'type': 'int'})) for _ in range(n)]
            if js:
                return xs
            if not out and self.p(0.4):
                return xs
            # elements must be hashable to build a real set: keep one, so that iteration order is not address-dependent
            xs = [x for x in xs if _hashable(x)]
            xs = [x for x in xs if type(x) is int][:3] or xs[:1]
            return {'$': t, 'v': xs}
        if t == 'dict':
            ks = s.get('keys_schema', {'type': 'str'})
            items = [[rec(ks), rec(s.get('values_schema', {'type': 'any'}))] for _ in range(rng.randint(0, 3))]
            if js:
                return {str(k) if not isinstance(k, str) else k: v for k, v in items if not isinstance(k, (dict, list))}
            items = [x for x in items if _hashable(x[0])]
            if not out and self.p(0.15):
                return {'$': 'mapping', 'v': items}
            return {'$': 'dict', 'v': items}
        if t == 'default':
            return rec(s['schema'])
        if t == 'nullable':
            return None if self.p(0.25) else rec(s['schema'])
        if t == 'union':
            if valid is None and not out and self.p(0.5) and all(c.get('type') in CONFUSABLE for c in s['choices'] if isinstance(c, dict)):
                v = one(CONFUSING)
                if not js or not isinstance(v, dict):
                    return v
            return rec(one(s['choices']))
        if t == 'tagged-union':
            tag = one(list(s['choices']))
            v = rec(s['choices'][tag])
            if valid is None and self.p(0.1) and isinstance(v, dict) and 'tag' in v:
                v['tag'] = one(['nope', None, 'y'])
            return v
        if t == 'chain':
            return rec(s['steps'][0])
        if t == 'lax-or-strict':
            return rec(s['lax_schema'])
        if t == 'json-or-python':
            return rec(s['json_schema'] if js else s['python_schema'])
        if t.startswith('function-'):
            if t == 'function-plain':
                return self.atom()
            return rec(s['schema'])
        if t == 'custom-error':
            return rec(s['schema'])
        if t == 'json':
            v = self.val(s.get('schema', {'type': 'any'}), valid, False, True, depth + 1, defs)
            return rec(s['schema']) if out and 'schema' in s else json.dumps(plain(v))
        if t == 'typed-dict':
            return self.fields_val(s, rec, js, out, lambda d: d)
        if t == 'model-fields':
            return self.fields_val(s, rec, js, out, lambda d: d)
        if t == 'model':
            c = s['cls']['$cls']
            if s.get('root_model'):
                v = rec(s['schema'])
                if out or (not js and self.p(0.2)):
                    return {'$': 'inst', 'c': c, 'v': {'root': v}, 'fs': ['root']}
                return v
            inner = s['schema']
            while inner['type'] != 'model-fields':
                inner = inner['schema']
            asinst = out or (not js and self.p(0.15))
            d = self.fields_val(inner, rec, js, asinst, lambda d: d)
            if asinst and isinstance(d, dict):
                fs = [k for k in d if self.p(0.7)]
                x = None
                if inner.get('extra_behavior') == 'allow':
                    x = {k: d.pop(k) for k in list(d) if k not in inner['fields']}
                return {'$': 'inst', 'c': c, 'v': {k: v for k, v in d.items() if k in inner['fields']}, 'fs': fs, 'x': x}
            if not js and isinstance(d, dict) and '$' not in d and (inner.get('from_attributes')) and self.p(0.6):
                return {'$': 'obj', 'v': d}
            return d
        if t == 'dataclass':
            c = s['cls']['$cls']
            a = s['schema']
            while a['type'] != 'dataclass-args':
                a = a['schema']
            asinst = out or (not js and self.p(0.15))
            fs = {'fields': {f['name']: f for f in a['fields']}, 'extra_behavior': a.get('extra_behavior')}
            d = self.fields_val(fs, rec, js, asinst, lambda d: d)
            if asinst and isinstance(d, dict):
                return {'$': 'inst', 'c': c, 'v': {k: v for k, v in d.items() if k in s['fields']}}
            pos = [f for f in a['fields'] if f.get('kw_only') is False]
            if not js and self.p(0.35 if pos else 0.15) and isinstance(d, dict) and '$' not in d:
                pa = []
                for f in pos:
                    if f['name'] not in d or self.p(0.3):
                        break
                    pa.append(d.pop(f['name']) if self.p(0.95) else d[f['name']])
                return {'$': 'argskwargs', 'a': pa, 'k': d}
            return d
        if t == 'arguments':
            args, kw = [], {}
            for a in s['arguments_schema']:
                if a['schema']['type'] == 'default' and self.p(0.3):
                    break
                if a['mode'] == 'positional_only' or (a['mode'] == 'positional_or_keyword' and self.p(0.5) and not kw):
                    args.append(rec(a['schema']))
                else:
                    kw[a.get('alias', a['name'])] = rec(a['schema'])
            if 'var_args_schema' in s and not kw and self.p(0.4):
                args += [rec(s['var_args_schema'])]
            if 'var_kwargs_schema' in s and self.p(0.4):
                v = rec(s['var_kwargs_schema'])
                if s.get('var_kwargs_mode') != 'unpacked-typed-dict':
                    kw['extra1'] = v
                elif isinstance(v, dict) and '$' not in v:
                    kw.update(v)
            if js:
                return kw if not args else args if not kw else kw
            return {'$': 'argskwargs', 'a': args, 'k': kw}
        if t == 'arguments-v3':
            d, args, kw = {}, [], {}
            flat = not js and not out and self.p(0.4)
            for a in s['arguments_schema']:
                m, k = a['mode'], a.get('alias', a['name'])
                if (a['schema']['type'] == 'default' or m.startswith('var_')) and self.p(0.3):
                    if flat and m.startswith('positional'):
                        flat = None
                    continue
                v = [rec(a['schema']) for _ in range(self.rng.randint(1, 2))] if m == 'var_args' else rec(a['schema'])
                if m == 'var_kwargs_uniform':
                    v = {'ex': v}
                d[k] = v
                if m == 'var_args':
                    args += v if flat else []
                elif m.startswith('var_kwargs') and isinstance(v, dict):
                    kw.update({x: y for x, y in v.items() if x != '$'} if '$' not in v else {})
                elif m == 'positional_only' or (m == 'positional_or_keyword' and not kw and flat and self.p(0.6)):
                    args.append(v)
                else:
                    kw[k] = v
            if flat is not False:
                return {'$': 'argskwargs', 'a': args, 'k': kw}
            return d
        if t == 'call':
            return rec(s['arguments_schema'])
        raise AssertionError(t)

    def fields_val(self, s, rec, js, out, mk):
        d = {}
        for name, f in s['fields'].items():
            fs = f['schema']
            if not out and (fs['type'] == 'default' or f.get('required') is False) and self.p(0.3):
                continue
            if not out and self.p(0.03):
                continue
            key = name
            al = f.get('validation_alias')
            v = rec(fs)
            if al and not out and self.p(0.85):
                if isinstance(al, str):
                    d[al] = v
                elif isinstance(al[0], list):
                    path = self.one(al)
                    if path == ['al', 0]:
                        d['al'] = [v]
                    elif path == ['al2']:
                        d['al2'] = v
                    else:
                        d['nest'] = {'x': v}
                continue
            d[key] = v
        eb = s.get('extra_behavior')
        if self.p(0.5 if eb else 0.1):
            d['zz'] = rec(s['extras_schema']) if 'extras_schema' in s else self.atom()
        return d


def _hashable(x):
    if isinstance(x, list):
        return False
    if isinstance(x, dict):
        t = x.get('$')
        if t in ('tuple', 'frozenset'):
            return all(_hashable(y) for y in x['v'])
        return t in ('dec', 'uuid', 'date', 'enum', 'bytes', 'intsub', 'strsub', 'f', 'td', 'dt', 'big')
    return True


def plain(v):
    """Value spec -> JSON data."""
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        t = v.get('$')
        if t is None:
            return {k: plain(x) for k, x in v.items()}
        if t == 'f':
            f = float(v['v'])
            return f if f == f and abs(f) != float('inf') else 1.25
        if t in ('tuple', 'set', 'frozenset', 'gen', 'iter', 'deque'):
            return plain(v['v'])
        if t in ('dict', 'mapping'):
            return {str(k): plain(x) for k, x in v['v']}
        if t == 'argskwargs':
            return plain(v['k'])
        if t in ('inst', 'obj'):
            return plain(v['v'])
        return str(v.get('v', 'q')) if t != 'big' else int(v['v'])
    return v


def json_text(rng, v):
    s = json.dumps(plain(v), ensure_ascii=rng.random() < 0.5)
    return s


def str_values(v):
    """For validate_strings: leaves become strings."""
    v = plain(v)

    def f(x):
        if isinstance(x, list):
            return {str(i): f(y) for i, y in enumerate(x)}
        if isinstance(x, dict):
            return {k: f(y) for k, y in x.items()}
        return str(x)

    return f(v)
