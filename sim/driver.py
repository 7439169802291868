"""Runs one check: a seeded batch of simulated cases over worker processes, confirmation and minimisation of the first
violation, the replay file and the evidence file.

    driver.py run <ID> <tier>      driver.py replay <file>      driver.py selftest <ID>
"""
import importlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class Check:
    """One property's simulator.  `gen` turns a PRNG into a case (plain JSON: classes, schemas, inputs, operations,
    faults, schedule); `run` executes a case and judges it.  run(case) -> {'viol': None | [class, text, data],
    'stats': {...}, 'state': str, 'trace': any, 'discard': bool}; `stats` keys 'fault:<kind>' count faults that fired."""

    pid = None
    level = 'exploration'
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 60, 'thorough': 3000}
    rule = ''
    real = ['pydantic_core extension module built from /repo (validators, serializers, jiter, pyo3), CPython 3.12']
    stubs = ['user code: callbacks, iterators, attribute objects and classes built from the case']
    assumptions = []
    case_cpu = 60

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def prepare(self):
        """Runs once in the main process before workers are forked (must not touch library caches)."""

    def extra_coverage(self, total):
        return {}


def load(pid):
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.CHECK


def case_rng(seed, pid, i):
    return random.Random(core.mix('case', seed, pid, i))


def safe_run(chk, case):
    try:
        return chk.run(case)
    except core.HarnessError as e:
        return {'viol': None, 'stats': {'harness_discard': 1}, 'discard': True, 'why': str(e)}


def worker(chk, seed, tier, k, n, total, deadline, out):
    done = 0
    stats = {}
    states = []
    recheck = bad = discard = 0
    samples = []
    sim_ns = 0
    for i in range(k, total, n):
        if time.monotonic() > deadline:
            break
        case = chk.gen(case_rng(seed, chk.pid, i), i, tier)
        r = safe_run(chk, case)
        done += 1
        for a, b in (r.get('stats') or {}).items():
            stats[a] = stats.get(a, 0) + b
        sim_ns += r.get('sim_ns', 0)
        if r.get('discard'):
            discard += 1
        elif r.get('state') is not None:
            st = r['state']
            states.extend(st if isinstance(st, list) else [st])
        if r.get('viol'):
            send(out, {'viol': [i, case, r['viol']]})
        elif done % 40 == 1 and not r.get('discard'):
            recheck += 1
            r2 = safe_run(chk, case)
            if core.digest(r.get('trace')) != core.digest(r2.get('trace')):
                bad += 1
                send(out, {'nondet': [i]})
            if len(samples) < 1 and r.get('trace') is not None:
                samples.append({'case_index': i, 'case': _short(case), 'trace': _short(r.get('trace'))})
        if done % 50 == 0:
            send(out, {'states': states})
            states = []
    send(out, {'end': done, 'stats': stats, 'states': states, 'recheck': recheck, 'bad': bad, 'discard': discard,
               'samples': samples, 'sim_ns': sim_ns})


def _short(x, lim=4000):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= lim else s[:lim] + '...'


def send(fd, obj):
    data = (json.dumps(obj, default=str) + '\n').encode()
    while data:
        data = data[os.write(fd, data):]


def limits(chk):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_batch(chk, seed, tier):
    total = chk.runs[tier]
    if os.environ.get('SIM_RUNS'):
        total = int(os.environ['SIM_RUNS'])
    deadline = time.monotonic() + chk.wall[tier]
    procs = {}
    bufs = {}
    for k in range(NW):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in procs:
                    os.close(fd)
                limits(chk)
                worker(chk, seed, tier, k, NW, total, deadline, w)
            except BaseException:  # noqa: BLE001
                try:
                    send(w, {'error': traceback.format_exc()[-3000:]})
                except OSError:
                    pass
                code = 70
            os._exit(code)
        os.close(w)
        procs[r] = pid
        bufs[r] = b''
    agg = {'done': 0, 'stats': {}, 'states': set(), 'recheck': 0, 'bad': 0, 'discard': 0, 'samples': [], 'viol': [],
           'nondet': [], 'error': None, 'sim_ns': 0, 'lost': 0}
    live = dict(procs)
    ended = set()
    stop = False
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                pid = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                if fd not in ended and not stop:
                    agg['lost'] += 1
                continue
            bufs[fd] += b
            *lines, bufs[fd] = bufs[fd].split(b'\n')
            for ln in lines:
                m = json.loads(ln)
                if 'viol' in m:
                    agg['viol'].append(m['viol'])
                if 'nondet' in m:
                    agg['nondet'] += m['nondet']
                if 'error' in m:
                    agg['error'] = m['error']
                    ended.add(fd)
                for s in m.get('states') or ():
                    agg['states'].add(s)
                if 'end' in m:
                    ended.add(fd)
                    agg['done'] += m['end']
                    for key in ('recheck', 'bad', 'discard', 'sim_ns'):
                        agg[key] += m[key]
                    for a, c in m['stats'].items():
                        agg['stats'][a] = agg['stats'].get(a, 0) + c
                    if len(agg['samples']) < 3:
                        agg['samples'] += m['samples']
        if (len(agg['viol']) >= 1 or agg['error']) and not stop:
            stop = True
            # a grace period lets the others report, so that the earliest case of the batch is preferred
            t = time.monotonic() + 1.0
            while time.monotonic() < t:
                time.sleep(0.05)
            for pid in live.values():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                except PermissionError:
                    pass
    return agg


# ---------------------------------------------------------------------------------------------- minimisation


def _subs(x, path=()):
    """Every (path, node) of a JSON tree, outermost first."""
    todo = [((), x)]
    while todo:
        p, n = todo.pop(0)
        yield p, n
        if isinstance(n, dict):
            todo += [(p + (k,), v) for k, v in n.items()]
        elif isinstance(n, list):
            todo += [(p + (i,), v) for i, v in enumerate(n)]


def _set(x, path, fn):
    y = json.loads(json.dumps(x))
    if not path:
        return fn(y)
    cur = y
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = fn(cur[path[-1]])
    return y


def candidates(case):
    for path, node in list(_subs(case)):
        if isinstance(node, list) and node:
            n = len(node)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    yield _set(case, path, lambda v, a=a, s=size: v[:a] + v[a + s:])
                if size == 1:
                    break
                size = max(1, size // 2)
        elif isinstance(node, dict) and node:
            if path and node.get('type') and isinstance(node.get('type'), str):
                for k in ('schema', 'items_schema', 'values_schema'):
                    if isinstance(node.get(k), dict):
                        yield _set(case, path, lambda v, k=k: v[k])
                for k in ('choices', 'steps'):
                    if isinstance(node.get(k), list):
                        for j in range(len(node[k])):
                            if isinstance(node[k][j], dict):
                                yield _set(case, path, lambda v, k=k, j=j: v[k][j])
                if node != {'type': 'any'} and node['type'] != 'any':
                    yield _set(case, path, lambda v: {'type': 'any'})
            for k in list(node):
                if k in ('$', 'type', 'k', 'role'):
                    continue

                def drop(v, k=k):
                    v = dict(v)
                    v.pop(k)
                    return v

                yield _set(case, path, drop)
        elif type(node) is int and node > 0 and path and path[-1] not in ('v',):
            yield _set(case, path, lambda v: 0)
            if node > 2:
                yield _set(case, path, lambda v: v // 2)


def minimise(chk, case, viol, budget):
    end = time.monotonic() + budget
    cls = viol[0]
    best, best_v = case, viol
    improved = True
    tried = 0
    while improved and time.monotonic() < end:
        improved = False
        for c in (chk.shrinks(best) if hasattr(chk, 'shrinks') else candidates(best)):
            if time.monotonic() > end:
                break
            if len(json.dumps(c)) >= len(json.dumps(best)):
                continue
            tried += 1
            try:
                r = chk.run(c)
            except Exception:  # noqa: BLE001
                continue
            v = r.get('viol')
            if v and v[0] == cls:
                best, best_v, improved = c, v, True
                break
    return best, best_v, tried


# ---------------------------------------------------------------------------------------------- known findings


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out.append((key.partition('=')[2], what))
    return out


# ---------------------------------------------------------------------------------------------- commands


def write_replay(chk, case, viol, seed, tier, i, orig):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': chk.pid, 'violation': viol, 'seed': seed, 'tier': tier, 'case_index': i, 'case': case}
    if orig is not case:
        body['unminimised_case'] = orig
    path = os.path.join(d, '%s-%s.json' % (chk.pid, core.digest(case)))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return path


def cmd_run(pid, tier):
    t0 = time.monotonic()
    chk = load(pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    core.setup_process()
    chk.prepare()
    known = known_findings(pid)
    agg = run_batch(chk, seed, tier)
    code = 0
    unreproduced = 0
    violations = 0
    found = None
    listed = {}
    if agg['error']:
        sys.stderr.write(agg['error'])
        code = 3
    if agg['viol']:
        for i, case, viol in sorted(agg['viol'], key=lambda x: x[0])[:20]:
            again = [safe_run(chk, case).get('viol') for _ in range(2)]
            if not all(a and a[0] == viol[0] for a in again):
                unreproduced += 1
                sys.stderr.write('case %d: %s did not reproduce\n' % (i, viol[0]))
                continue
            key = chk.finding_key(case, viol) if hasattr(chk, 'finding_key') else None
            hit = [k for k in known if k[0] == key] if key else []
            if hit:
                listed[key] = hit[0][1]
                continue
            found = (i, case, viol)
            break
    if found:
        i, case, viol = found
        small, sv, tried = minimise(chk, case, viol, 45 if tier == 'quick' else 240)
        path = write_replay(chk, small, sv, seed, tier, i, case)
        print('property %s violated by case %d of seed %d: %s: %s' % (pid, i, seed, sv[0], str(sv[1])[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        violations = 1
        code = 1
    elif unreproduced and code == 0:
        code = 4
    if hasattr(chk, 'known'):
        for key, what in known:
            if chk.known(key):
                listed[key] = what
    for key, what in listed.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = time.monotonic() - t0
    evals = agg['done']
    st = agg['stats']
    if evals == 0 and not violations and code == 0:
        code = 5
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(agg['states']),
        'rule': chk.rule,
        'samples': agg['samples'] or [{'note': 'stopped before a sample was drawn'}],
        'simulated_runs': evals,
        'runs_per_hour': int(evals / max(wall, 0.001) * 3600),
        'seeds_per_hour': int(evals / max(wall, 0.001) * 3600),
        'batch_seed': seed,
        'case_seed_rule': 'case i is generated from PRNG(sha256(seed, property, i)); its JSON is the replay file',
        'faults_fired': {k[6:]: v for k, v in sorted(st.items()) if k.startswith('fault:')},
        'faults_total': sum(v for k, v in st.items() if k.startswith('fault:')),
        'operations': {k[3:]: v for k, v in sorted(st.items()) if k.startswith('op:')},
        'probes': {k: v for k, v in sorted(st.items()) if not k.startswith(('fault:', 'op:'))},
        'distinct_states_measure': 'digests described in rule',
        'discarded': agg['discard'],
        'determinism_reruns': agg['recheck'],
        'determinism_mismatches': agg['bad'],
        'unreproduced_violations': unreproduced,
        'workers': NW,
        'workers_lost': agg['lost'],
        'simulated_time_s': round(agg['sim_ns'] / 1e9, 3),
        'components_real': chk.real,
        'components_stub': chk.stubs,
    }
    cov.update(chk.extra_coverage(agg))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(
            {
                'property': pid,
                'tier': tier,
                'seed': seed,
                'level': chk.level,
                'coverage': cov,
                'assumptions': list(chk.assumptions),
                'wall_s': round(wall, 2),
                'violations': violations,
            },
            f,
            indent=1,
            default=str,
        )
    print('%s %s: %d runs, %d distinct states, %d faults, %d discarded, %d/%d reruns differed, %.1f s' % (
        pid, tier, evals, len(agg['states']), cov['faults_total'], agg['discard'], agg['bad'], agg['recheck'], wall))
    if agg['lost'] and code == 0:
        sys.stderr.write('%d workers died\n' % agg['lost'])
        code = 6
    return code


def cmd_replay(path):
    body = json.load(open(path))
    chk = load(body['property'])
    core.setup_process()
    chk.prepare()
    r = chk.run(body['case'])
    v = r.get('viol')
    print(json.dumps({'violation': v, 'trace': r.get('trace')}, indent=1, default=str)[:20000])
    if v:
        print('VIOLATION property=%s replay=%s' % (body['property'], os.path.abspath(path)))
        same = json.loads(json.dumps(v, default=str)) == body.get('violation')
        print('identical to the recorded violation: %s' % same)
        return 1
    print('not reproduced')
    return 0


def main(argv):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if argv[0] == 'run':
        return cmd_run(argv[1], argv[2])
    if argv[0] == 'replay':
        return cmd_replay(argv[1])
    raise SystemExit('usage')


if __name__ == '__main__':
    sys.modules['driver'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
