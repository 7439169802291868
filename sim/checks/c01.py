"""C01: calls which overlap in time, on other threads or re-entrantly, do not affect each other."""
import core
import driver
import gen
import ops


class C01(driver.Check):
    pid = 'C01'
    runs = {'quick': 12000, 'thorough': 900000}
    wall = {'quick': 70, 'thorough': 3000}
    rule = ('case = 1-3 generated schemas shared by 1-3 simulated client threads of 1-3 operations each (validate from '
            'python/json/strings, isinstance, init, assignment, serialize, to_json, from_json, repr), a schedule of '
            'context switches at the callbacks of user code, nested operations inside callbacks, injected exceptions '
            'and collections; distinct = distinct (schema types, per-operation outcome/callback count/faults, '
            'interleaving trace)')
    assumptions = ['the GIL is held between callbacks, so user callbacks, iterators, attribute reads and garbage '
                   'collections are the only points at which another call can run (no allow_threads in the source)']

    def gen(self, rng, i, tier):
        g = gen.Gen(rng, ser_rate=rng.choice([0, 0.2, 0.5]), fn_rate=rng.choice([0.15, 0.3, 0.6]),
                    max_depth=rng.choice([2, 3, 3, 4]))
        tight = g.p(0.15)  # recursive schemas, many callbacks, the same input in every call
        if tight:
            g.fn_rate = rng.choice([0.25, 0.5, 0.7])
        entries = [g.entry(recursive=1 if tight else 0.2) for _ in range(1 if tight else rng.choice([1, 1, 2, 3]))]
        og = ops.OpGen(g, entries, share=0.9 if tight else 0.25)
        nt = rng.choice([1, 2, 2, 2, 3])
        focus = rng.randrange(len(entries)) if g.p(0.6) else None

        def nested(depth=0):
            sp = og.op(focus)
            return ops.add_faults(g, sp, 0.25, nested=(lambda: nested(depth + 1)) if depth < 1 else None)

        threads = []
        for _ in range(nt):
            n = rng.choice([1, 1, 2, 3]) if nt > 1 else rng.choice([1, 2])
            threads.append([ops.add_faults(g, og.op(focus), 0.5 if nt == 1 else 0.3, nested=nested) for _ in range(n)])
        p = rng.choice([0.1, 0.4, 0.8])
        sched = [rng.randint(1, 2) if g.p(p) else 0 for _ in range(200)] if nt > 1 else []
        return {'classes': g.classes, 'fns': g.fns, 'schemas': entries, 'inputs': og.inputs, 'threads': threads,
                'schedule': sched}

    def run(self, case):
        return ops.history_run(case, batch=True)


CHECK = C01()
