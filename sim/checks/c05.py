"""C05: calls leave the caller's objects as they are and hand out containers of their own."""
import collections
import json

import core
import driver
import gen
import ops
import pydantic_core as pc
import refser
import refval
from checks import c03, c15

CONTAINERS = (list, dict, set, collections.deque)


def parts(o):
    """The parts of a container or instance, named; None for anything else."""
    if type(o) in (list, tuple, collections.deque):
        return list(enumerate(o))
    if type(o) is dict:
        return [(('k', n), k) for n, k in enumerate(o)] + [(('v', n), x) for n, x in enumerate(o.values())]
    if type(o) is set or type(o) is frozenset:
        return [(('s', core.digest(core.norm(x))), x) for x in o]
    if type(o) is pc.ArgsKwargs:
        return [('args', o.args), ('kwargs', o.kwargs)]
    if type(o) is core.SimMapping:
        return [('items', vars(o).get('items', vars(o)))]
    t = type(o)
    if getattr(t, '_sim_model', False):
        out = []
        for a in ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'):
            try:
                out.append((a, object.__getattribute__(o, a)))
            except AttributeError:
                out.append((a, None))
        return out
    if getattr(t, '_sim_obj', False):
        return [('__dict__', vars(o))]
    f = getattr(t, '_sim_dc', None)
    if f is not None:
        d = getattr(o, '__dict__', None)
        if d is not None:
            return [('__dict__', d)]
        return [(a, getattr(o, a, None)) for a in f]
    return None


def mutable(o):
    return type(o) in CONTAINERS or any(getattr(type(o), a, None) for a in ('_sim_model', '_sim_obj', '_sim_dc'))


def shallow(o):
    return [(n, id(x)) for n, x in parts(o)] if type(o) not in (set, frozenset) else sorted(id(x) for x in o)


def walk(root):
    """Every container reachable, with a path."""
    seen = set()
    todo = [('$', root)]
    while todo:
        path, o = todo.pop()
        if type(o) in (int, str, float, bool, type(None), bytes) or id(o) in seen:
            continue
        try:
            ps = parts(o)
        except Exception:  # noqa: BLE001
            continue
        if ps is None:
            continue
        seen.add(id(o))
        yield path, o
        for n, x in ps:
            todo.append(('%s.%s' % (path, n if not isinstance(n, tuple) else '%s%s' % n), x))


class World(core.World):
    depth = 0

    def __init__(self, case):
        self.owned = {}
        self.copied = {}
        self.changed = None
        self.paths = {}
        core.Mat.hook = self.adopt
        super().__init__(case)

    def adopt(self, root, name='value'):
        for path, o in walk(root):
            if id(o) not in self.owned:
                self.owned[id(o)] = (o, None, name + path)
        return root

    def fix(self):
        """Remembers how the objects of the caller look now."""
        for k, (o, s, name) in self.owned.items():
            if s is None:
                self.owned[k] = (o, shallow(o), name)

    def verify(self, where):
        if self.changed:
            return
        for o, s, name in list(self.owned.values()):
            if s is not None and shallow(o) != s:
                self.changed = '%s of the caller changed (%s, seen at %s)' % (type(o).__name__, name, where)
                return
        self.fix()

    def schema(self, s):
        self.depth += 1
        try:
            r = super().schema(s)
        finally:
            self.depth -= 1
        if isinstance(r, dict) and r.get('type') == 'default' and 'default' in r:
            try:
                hash(r['default'])
            except TypeError:
                for _, o in walk(r['default']):
                    self.copied[id(o)] = o
        if not self.depth and r is not None:
            self.adopt(r, 'schema')
            self.fix()
        return r

    def input(self, ref):
        r = super().input(ref)
        self.adopt(r, 'input')
        self.fix()
        self.last_input = r
        return r

    def fire(self, fid, point, payload=None, ctl=None):
        self.verify('callback %s %s' % (fid, point))
        return super().fire(fid, point, payload, ctl)


def shared_paths(result, root):
    """Where the result holds containers of the input."""
    where = {id(o): p for p, o in walk(root) if mutable(o)}
    return sorted([p, where[id(o)]] for p, o in walk(result) if id(o) in where)


class C05(driver.Check):
    pid = 'C05'
    runs = {'quick': 9000, 'thorough': 600000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ('case = schemas and 2-4 operations with injected exceptions; at every callback and at the end every container '
            'and instance the caller owns (input, context, include/exclude, defaults and everything else in the schema) '
            'must have the parts it had; every operation is done twice and a third time after everything the '
            'library made for the first result was changed: results must not share anything mutable which the caller did '
            'not own, errors neither, and the third must equal the first; where the reference interpreters apply, the '
            'result must share with the input exactly what the reference passes through; distinct = distinct (schema '
            'types, outcomes, shared parts)')
    assumptions = ['iterators among the inputs are consumed, so they are exempt']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0, 0.2]), fn_rate=rng.choice([0, 0.15, 0.3]),
                    max_depth=rng.choice([2, 3, 3, 4]))
        entries = [g.entry(recursive=0.12) for _ in range(rng.choice([1, 1, 2]))]
        for e in entries:
            defaults(g, e['s'])
        og = ops.OpGen(g, entries, share=0.5)
        hist = []
        kinds = ['python', 'python', 'python', 'json', 'ser', 'ser', 'serjson', 'strings', 'default', 'vs', 'to_json',
                 'isinstance', 'from_json']
        for _ in range(rng.choice([2, 3, 4])):
            hist.append(ops.add_faults(g, og.op(kinds=kinds), 0.3))
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [hist]}

    def run(self, case):
        st, v = core.forked(lambda: run_case(case))
        if st == 'error':
            raise core.HarnessError(v)
        if st in ('died', 'timeout'):
            return {'viol': ['crash' if st == 'died' else 'hang', 'the process %s: %s' % (st, v), None], 'stats': {},
                    'trace': [st]}
        return v


def defaults(g, s):
    """Mutable defaults of all kinds."""
    if isinstance(s, list):
        for x in s:
            defaults(g, x)
    elif isinstance(s, dict):
        for k, x in s.items():
            if k != 'default':
                defaults(g, x)
        if s.get('type') == 'default' and 'default' in s and g.p(0.35):
            s['default'] = {'$val': g.one([
                {'$': 'deque', 'v': [1]}, {'$': 'tuple', 'v': [1, [2]]}, {'$': 'deque', 'v': [[2]]}, {'k': [1]},
                {'$': 'set', 'v': [1]}, [[]]])}


def outcome(op):
    """The objects the library handed out."""
    e = getattr(op, 'exc', None)
    if e is None:
        return op.raw
    if isinstance(e, pc.ValidationError):
        try:
            return e.errors(include_url=False)
        except Exception:  # noqa: BLE001
            return None
    return None


def spoil(result, owned):
    """Changes everything mutable in a result which is not the caller's."""
    n = 0
    for _, o in list(walk(result)):
        if id(o) in owned or not mutable(o):
            continue
        n += 1
        if type(o) is list or type(o) is collections.deque:
            o.append('SPOILT')
        elif type(o) is dict:
            o['SPOILT'] = 1
        elif type(o) is set:
            o.add('SPOILT')
    return n


def run_case(case):
    stats = {}
    trace = []
    sigs = []
    viol = None
    w = World(case)
    core.install_warnings(w)
    try:
        ops.prebuild(w, ops.used_schemas(case))
    except core.HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if core.is_panic(e):
            raise
        return {'viol': None, 'stats': {'discard:refused': 1}, 'discard': True}
    held = []
    made = {}
    for j, spec in enumerate(case['threads'][0]):
        one_shot = ops.stateful(spec)
        reps = []
        outs = []
        for again in range(1 if one_shot else 3):
            w.last_input = None
            op = core.do_op(w, spec, '#0.%d#' % j)
            w.verify('the end of the call')
            if w.overflow:
                return {'viol': None, 'stats': {'discard:budget': 1}, 'discard': True}
            if w.changed:
                viol = ['changed', 'operation %d (%s %s): %s' % (j, spec['k'], spec.get('m'), w.changed), [j]]
                break
            out = outcome(op)
            rep = core.op_report(op)
            held.append(out)
            outs.append(out)
            reps.append(rep)
            if again == 0:
                trace.append(core.digest(rep))
                r0 = op.raw
                inp = w.last_input
                if viol is None and spec['k'] in ('validate', 'ser') and spec.get('m', 'python') == 'python' and r0 is not None:
                    viol = against_reference(case, spec, j, r0, inp, stats)
                    if viol:
                        break
            elif rep != reps[0]:
                viol = ['repeat', 'operation %d (%s %s) repeated%s: %s' % (
                    j, spec['k'], spec.get('m'), ' after its first result was changed' if again == 2 else '',
                    ops.first_diff(rep, reps[0])), [j]]
                break
            for path, o in walk(out):
                if id(o) in w.copied and mutable(o):
                    viol = ['default', 'operation %d (%s %s): %s at %s is a default of the schema, not a copy' % (
                        j, spec['k'], spec.get('m'), type(o).__name__, path), [j]]
                    break
                if mutable(o) and id(o) not in w.owned:
                    if made.get(id(o), (j, again))[:2] != (j, again):
                        viol = ['shared', 'operation %d (%s %s), repetition %d: %s at %s was handed out before, by %s' % (
                            j, spec['k'], spec.get('m'), again, type(o).__name__, path, made[id(o)][:3]), [j]]
                        break
                    made[id(o)] = (j, again, path)
            if viol:
                break
            if again == 1:
                stats['spoilt'] = stats.get('spoilt', 0) + spoil(outs[0], w.owned)
        if viol:
            break
        stats['ops'] = stats.get('ops', 0) + 1
        sigs.append([reps[0]['result'][0], len(reps[0]['log']), reps[0]['fired']])
    for a, b in w.stats.items():
        stats[a] = stats.get(a, 0) + b
    stats['owned'] = len(w.owned)
    core.Mat.hook = None
    return {'viol': viol, 'stats': stats, 'trace': trace,
            'state': core.digest([sorted(ops.types_in(case['schemas'])), sigs])}


def against_reference(case, spec, j, result, inp, stats):
    hook, core.Mat.hook = core.Mat.hook, None
    try:
        sub = dict(case, schemas=[case['schemas'][spec['v']]])
        kw = spec.get('kw') or {}
        if spec['k'] == 'validate':
            if not refval.types_ok(sub) or kw.get('allow_partial') or kw.get('from_attributes'):
                return None
        elif any(a in kw for a in ('include', 'exclude', 'serialize_as_any')):
            return None
        w = core.World(sub)
        w.reference = False
        op = core.Op(spec, '#0.0#')
        w.stack().append(op)
        val = w.input(spec['in'])
        try:
            if spec['k'] == 'validate':
                ref = refval.Ref(w, kw, None)
                kind, v = ref.run(sub['schemas'][0], val, None)
                if ref.unsupported:
                    return None
            else:
                ref = refser.Ref(w, kw, 10**6)
                kind, v = ref.run(sub['schemas'][0], val)
            if ref.steps > refval.MAX_STEPS:
                return None
        except refval.Unsupported:
            return None
        finally:
            w.stack().pop()
        if kind != 'ok':
            return None
        stats['compared'] = stats.get('compared', 0) + 1
        got, want = shared_paths(result, inp), shared_paths(v, val)
        if got:
            stats['sharing'] = stats.get('sharing', 0) + 1
        if got != want:
            return ['aliases', 'operation %d (%s): parts of the input in the result: library | reference: %s' % (
                j, spec['k'], ops.first_diff(json.loads(json.dumps(got)), json.loads(json.dumps(want)))), [j]]
        return None
    finally:
        core.Mat.hook = hook


CHECK = C05()
