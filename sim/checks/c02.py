"""C02: what a call does is a function of its arguments, not of the calls the process made before."""
import core
import driver
import gen
import ops

TYPES = [
    1, 'x', {'$': 'f', 'v': '1.5'}, None, True, {'$': 'bytes', 'v': 'b'}, {'$': 'dec', 'v': '1'}, {'$': 'dt', 'v': '2020-01-01T00:00:00'},
    {'$': 'date', 'v': '2020-01-01'}, {'$': 'time', 'v': '10:00:00'}, {'$': 'td', 'v': 3}, [1], {'a': 1}, {'$': 'tuple', 'v': [1]},
    {'$': 'set', 'v': [1]}, {'$': 'frozenset', 'v': [2]}, {'$': 'uuid', 'v': '12345678-1234-4234-9234-123456789abc'},
    {'$': 'url', 'v': 'http://a.b'}, {'$': 'complex', 'v': '1+2j'}, {'$': 'strsub', 'v': 's'}, {'$': 'intsub', 'v': 3},
    {'$': 'gen', 'v': [1]}, {'$': 'obj', 'v': {'a': 1}}, {'$': 'deque', 'v': [1]},
]


class C02(driver.Check):
    pid = 'C02'
    runs = {'quick': 9000, 'thorough': 400000}
    wall = {'quick': 70, 'thorough': 3000}
    rule = ('case = a history of 3-12 operations on shared validators and serializers in one process: failing and '
            'faulted calls, failed first-use imports, recursion failures and cyclic inputs, cache-filling workloads '
            '(strings, types, collection sizes), repeats, lazy construction; every operation is compared with its '
            'execution alone in a pristine process; distinct = distinct (schema types, outcomes, callback counts)')
    assumptions = ['the reference execution runs the same code, so a fault common to a first call and to every later '
                   'call is invisible here (other checks use independent models)']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.4]), fn_rate=rng.choice([0.1, 0.25, 0.5]),
                    max_depth=rng.choice([2, 3, 3, 4]))
        rec = rng.choice([0.2, 0.2, 0.6])
        n = rng.choice([2, 3, 4, 6, 9]) if tier == 'quick' else rng.choice([3, 6, 9, 14, 20])
        small = g.p(0.25)  # many calls of one small validator
        if small:
            g.max_depth = rng.choice([1, 2])
            n = rng.choice([6, 9, 12])
        entries = [g.entry(recursive=rec) for _ in range(1 if small else rng.choice([1, 1, 2, 3]))]
        og = ops.OpGen(g, entries, share=0.3)
        hist = []
        for _ in range(n):
            r = rng.random()
            if r < 0.07:
                vals = [rng.choice(TYPES) for _ in range(rng.randint(1, 5))]
                hist.append({'k': 'warm_types', 'vals': vals})
            elif r < 0.13:
                hist.append({'k': 'deep', 'v': rng.randrange(len(entries)), 'n': rng.choice([50, 300, 1000]),
                             'shape': g.p(0.5), 'json': g.p(0.3)})
            elif r < 0.18:
                hist.append({'k': 'cyclic', 'v': rng.randrange(len(entries))})
            elif r < 0.19:
                hist.append({'k': 'warm_strings', 'p': rng.choice('abx'), 'n': rng.choice([100, 20000])})
            elif r < 0.22:
                # a collection far larger than the ones before and after it
                v = rng.randrange(len(entries))
                one = g.val(entries[v]['s'], js=True)
                hist.append({'k': 'validate', 'm': 'json', 'v': v, 'json': gen.json_text(rng, [one] * rng.choice([9, 40])),
                             'kw': {}})
            else:
                sp = ops.add_faults(g, og.op(), 0.45)
                if g.p(0.12) and sp['k'] == 'validate' and not has_nested_ser(sp):
                    sp['impf'] = {'mod': rng.choice(['copy', 'uuid', 'time', 're']), 'e': rng.choice(ops.FATAL)}
                hist.append(sp)
                if g.p(0.25):
                    again = {k: v for k, v in sp.items() if k not in ('impf', 'faults')}
                    hist.append(again)
        hist.append({k: v for k, v in og.op().items()})
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': [hist]}

    def run(self, case):
        return run_c02(case)


def has_nested_ser(sp):
    """Failing imports are injected into validation only (DESIGN.md: limits)."""
    return any(f['k'] == 'nested' for f in (sp.get('faults') or {}).values())


QUIET = ('warm_types', 'warm_strings', 'deep', 'cyclic')


def run_c02(case):
    st, v = core.forked(lambda: ops.exec_history(case))
    if st == 'error':
        raise core.HarnessError(v)
    if st in ('died', 'timeout'):
        return {'viol': ['crash' if st == 'died' else 'hang', 'the process running the history: %s %s' % (st, v), None],
                'stats': {}, 'trace': [st]}
    if v.get('refused') or v['overflow']:
        return {'viol': None, 'stats': {'discard': 1}, 'discard': True}
    stats = dict(v['stats'])
    viol = None
    cmpable = [x for x in v['reports'] if x[1]['k'] not in QUIET]
    for key, spec, rep in v['reports']:
        if ops.has_panic(rep['result']):
            viol = ['panic', '%s: %s' % (key, str(rep['result'])[:600]), [key]]
    # the tail of the history is compared with pristine processes, the rest with fresh objects in one other process
    last = cmpable[-3:]
    cache = ops.isolated_batch(case, [spec for _, spec, _ in cmpable[:-3]])
    for x in cmpable:
        if viol:
            break
        key, spec, rep = x
        if 'impf' in spec:
            stats['import_fault_ops'] = stats.get('import_fault_ops', 0) + 1
            continue
        st, ref = ops.isolated(case, spec, {} if x in last else cache)
        if st == 'error':
            raise core.HarnessError(ref)
        if st in ('died', 'timeout'):
            viol = ['crash-alone' if st == 'died' else 'hang-alone', 'operation %s alone: %s' % (key, st), [key]]
            break
        if ref.get('refused') or ref['overflow']:
            continue
        if rep != ref['report']:
            viol = ['differs', 'operation %s (%s) depends on the history before it; in history | alone: %s' % (
                key, spec['k'] + ':' + str(spec.get('m')), ops.first_diff(rep, ref['report'])), [key]]
            break
        stats['compared'] = stats.get('compared', 0) + 1
        k = 'outcome:' + rep['result'][0]
        stats[k] = stats.get(k, 0) + 1
    return {'viol': viol, 'stats': stats, 'trace': [[k, r] for k, _, r in v['reports']],
            'state': ops.state_digest(case, v)}


CHECK = C02()
