"""Explores the harnesses of a property with a pool of workers, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'


class Harness:
    def __init__(self, name, fn, bounds, quick=None, thorough=None, models=(), validate=True, weight=1):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.cfgs = {'quick': quick or {}, 'thorough': dict(quick or {}, **(thorough or {}))}
        self.models = list(models)
        self.validate = validate


def setup_paths(instrumented):
    sys.dont_write_bytecode = True
    for p in (REPO, REPO + '/core', HERE):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [HERE, REPO, REPO + '/core']
    if VENV not in sys.path:
        sys.path.append(VENV)
    if instrumented:
        from . import instr

        instr.install(REPO)


def load_property(pid):
    return importlib.import_module('props.' + pid.lower())


# -- concrete side ----------------------------------------------------------------------------------


def run_concrete(harness, cfg, inputs, seed):
    """Runs the harness over the unmodified code. Returns a JSON-able result."""
    from .api import AssumptionFailed, ConcApi, ConcreteViolation

    api = ConcApi(inputs, cfg, seed)
    res = {'status': 'ok'}

    def alarm(*_):
        raise TimeoutError("replay took too long")

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(15)
    try:
        harness.fn(api)
    except AssumptionFailed:
        res = {'status': 'assumption'}
    except ConcreteViolation as e:
        res = {'status': 'violation', 'label': e.label}
    except TimeoutError as e:
        res = {'status': 'violation', 'label': 'does not terminate', 'tb': traceback.format_exc(limit=-6)}
    except RecursionError:
        res = {'status': 'violation', 'label': 'unbounded recursion'}
    except Exception as e:
        res = {
            'status': 'violation',
            'label': f'uncaught {type(e).__name__}: {str(e)[:200]}',
            'tb': traceback.format_exc(limit=-8),
        }
    finally:
        signal.alarm(0)
        api.cleanup()
    res['observed'] = api.observed
    return res


def concrete_server(pid):
    """Reads requests from stdin, one JSON object per line."""
    setup_paths(False)
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    import logging

    logging.disable(logging.CRITICAL)
    mod = load_property(pid)
    by_name = {h.name: h for h in mod.HARNESSES}
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run_concrete(by_name[req['harness']], req['cfg'], req['inputs'], req.get('seed', 0))
        except BaseException as e:  # noqa
            res = {'status': 'error', 'label': repr(e), 'tb': traceback.format_exc()}
        out.write(json.dumps(res) + '\n')
        out.flush()


class Replayer:
    def __init__(self, pid):
        self.pid = pid
        self.p = None

    def ask(self, req, timeout=40):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            self.p = subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'check.py'), self.pid, '--concrete-server'],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                text=True,
                env=env,
            )
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'status': 'error', 'label': 'replay process died'}
        t0 = time.time()
        while True:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.1, timeout - (time.time() - t0)))
            if r:
                line = self.p.stdout.readline()
                if not line:
                    self.p.wait()
                    rc = self.p.returncode
                    self.p = None
                    return {'status': 'violation' if rc < 0 else 'error', 'label': f'replay process ended with {rc}'}
                return json.loads(line)
            if time.time() - t0 > timeout:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {'status': 'violation', 'label': 'does not terminate'}

    def close(self):
        if self.p is not None and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()


# -- symbolic side ----------------------------------------------------------------------------------


def worker(conn, mod, tier, seed):
    import random

    import z3

    from . import core

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rnd = random.Random(seed)

    def alarm(*_):
        raise core.Inconclusive("path time limit: no progress, possibly an endless loop")

    signal.signal(signal.SIGALRM, alarm)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull

    solver, used = None, 0
    while True:
        msg = conn.recv()
        if msg is None:
            break
        hi, prefixes, budget, want_samples = msg
        h = mod.HARNESSES[hi]
        cfg = h.cfgs[tier]
        stats = core.Stats()
        out = {
            'hi': hi, 'violations': [], 'undecided': [], 'samples': [], 'reached': {}, 'functions': {},
            'known': {}, 'validation': [], 'max_decisions': 0,
        }
        stack = list(prefixes)
        t0 = time.time()
        n = 0
        while stack and (n == 0 or time.time() - t0 < budget):
            prefix = stack.pop()
            if solver is None or used > 400:
                solver = z3.Solver()
                solver.set('timeout', int(cfg.get('solver_timeout_ms', 20000)))
                used = 0
            used += 1
            validate = h.validate and want_samples > 0 and rnd.random() < cfg.get('validate_rate', 0.15)
            options = {'cfg': cfg, 'validate': validate, 'max_decisions': cfg.get('max_decisions', 4000)}
            signal.alarm(int(cfg.get('path_seconds', 60)))
            try:
                status, sibs, info = core.run_path(h.fn, prefix, solver, stats, options)
            except core.Inconclusive as e:
                status, sibs, info = 'inconclusive', [], {'error': str(e)}
            finally:
                signal.alarm(0)
            n += 1
            stack.extend(sibs)
            if status not in ('ok', 'cut'):
                solver = None
            out['max_decisions'] = max(out['max_decisions'], info.get('n_decisions', 0))
            if status == 'violation':
                out['violations'].append(
                    {'label': info['label'], 'model': info['model'], 'tb': info.get('tb'), 'prefix_len': len(prefix)}
                )
                if len(out['violations']) >= 5:
                    break
            elif status in ('unsupported', 'inconclusive'):
                model = None
                out['undecided'].append(
                    {'status': status, 'error': info.get('error'), 'tb': (info.get('tb') or '')[-3000:]}
                )
            elif status == 'ok':
                for r in info['reached']:
                    out['reached'][r] = out['reached'].get(r, 0) + 1
                for f, k in info['functions'].items():
                    out['functions'][f] = out['functions'].get(f, 0) + k
                if validate and 'observed' in info:
                    out['validation'].append({'inputs': info['model'], 'observed': info['observed']})
                    want_samples -= 1
            if status != 'ok':
                for f, k in info.get('functions', {}).items():
                    out['functions'][f] = out['functions'].get(f, 0) + k
            for k, v in info.get('known', {}).items():
                out['known'].setdefault(k, v)
        out['stats'] = stats.as_dict()
        out['rest'] = stack
        conn.send(out)


class Result:
    def __init__(self):
        self.stats = {}
        self.violations = []
        self.undecided = []
        self.reached = {}
        self.functions = {}
        self.known = {}
        self.validation = []
        self.unexplored = 0
        self.max_decisions = 0
        self.solver_s = 0.0


def explore(mod, tier, seed, budget_s, jobs, on_violation):
    """Explores all harnesses. on_violation(harness, violation) -> True to stop."""
    results = [Result() for _ in mod.HARNESSES]
    conns = []
    procs = []
    for k in range(jobs):
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b, mod, tier, seed * 1000 + k), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    queue = [(hi, [()]) for hi in range(len(mod.HARNESSES))]
    idle = list(range(jobs))
    busy = {}
    t_end = time.time() + budget_s
    stop = False
    lost = []
    n_valid = [0] * len(mod.HARNESSES)
    max_valid = mod.HARNESSES and getattr(mod, 'MAX_VALIDATION', 40)
    try:
        while (queue and not stop) or busy:
            now = time.time()
            if stop or now > t_end:
                break
            while queue and idle:
                # breadth first while there is little work, so that all workers get some
                hi, prefixes = queue.pop(0)
                w = idle.pop()
                if len(queue) < 2 * jobs:
                    budget = 0.3
                else:
                    budget = 3.0
                conns[w].send((hi, prefixes, budget, max(0, min(4, max_valid - n_valid[hi]))))
                busy[w] = (hi, prefixes)
            ready = mp.connection.wait([conns[w] for w in busy], timeout=1.0)
            for c in ready:
                w = conns.index(c)
                hi, prefixes = busy.pop(w)
                try:
                    out = c.recv()
                except (EOFError, ConnectionResetError):
                    results[hi].undecided.append({'status': 'crash', 'error': 'worker ended', 'tb': ''})
                    a, b = mp.Pipe()
                    p = mp.Process(target=worker, args=(b, mod, tier, seed * 1000 + w + 77), daemon=True)
                    p.start()
                    b.close()
                    conns[w], procs[w] = a, p
                    idle.append(w)
                    continue
                idle.append(w)
                r = results[hi]
                for k, v in out['stats'].items():
                    r.stats[k] = r.stats.get(k, 0) + v
                for k, v in out['reached'].items():
                    r.reached[k] = r.reached.get(k, 0) + v
                for k, v in out['functions'].items():
                    r.functions[k] = r.functions.get(k, 0) + v
                for k, v in out['known'].items():
                    r.known.setdefault(k, v)
                r.undecided += out['undecided']
                r.validation += out['validation']
                n_valid[hi] += len(out['validation'])
                r.max_decisions = max(r.max_decisions, out['max_decisions'])
                for v in out['violations']:
                    if on_violation(mod.HARNESSES[hi], v):
                        r.violations.append(v)
                        stop = True
                    else:
                        r.undecided.append(
                            {'status': 'unconfirmed', 'error': v['label'], 'tb': v.get('tb') or '', 'model': v['model'], 'replay': v.get('replay')}
                        )
                rest = out['rest']
                if rest:
                    want = max(1, min(len(rest), len(idle) - len(queue)))
                    if want > 1:
                        chunks = [rest[i::want] for i in range(want)]
                    else:
                        chunks = [rest]
                    if len(queue) < jobs and len(rest) > 1:
                        k = min(len(rest), jobs)
                        chunks = [rest[i::k] for i in range(k)]
                    queue += [(hi, ch) for ch in chunks if ch]
    finally:
        for hi, prefixes in list(busy.values()) + queue:
            results[hi].unexplored += len(prefixes)
        for w, p in enumerate(procs):
            if w in busy:
                p.kill()
            else:
                try:
                    conns[w].send(None)
                except Exception:
                    pass
        for p in procs:
            p.join(2)
            if p.is_alive():
                p.kill()
    return results


def load_known():
    """known_findings.txt: '<finding id> property=<id> <text>' or 'fixed: property=<id> <commit> <text>'."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                fid, prop, text = line.split(' ', 2)
                out[fid] = (prop.split('=', 1)[1], text)
    return out


def run_check(pid, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    sys.setrecursionlimit(6000)
    setup_paths(True)
    import logging

    logging.disable(logging.CRITICAL)
    evidence_path = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    try:
        mod = load_property(pid)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: {pid}: the code under test could not be loaded")
        return 2
    if only:
        mod.HARNESSES = [h for h in mod.HARNESSES if h.name in only]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count()
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (getattr(mod, 'BUDGET', {}).get(tier) or (600 if tier == 'quick' else 3 * 3600))
    replayer = Replayer(pid)
    replay_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    confirmed = []

    def replay(h, inputs, seeds=(0, 1, 2, 3)):
        last = None
        for s in seeds:
            last = replayer.ask({'harness': h.name, 'cfg': h.cfgs[tier], 'inputs': inputs, 'seed': s})
            if last['status'] == 'violation':
                last['seed'] = s
                return last
        return last

    def on_violation(h, v):
        res = replay(h, v['model'])
        v['replay'] = res
        if res['status'] == 'violation':
            path = os.path.join(replay_dir, f'{pid}-{h.name}-{len(confirmed)}.json')
            with open(path, 'w') as f:
                json.dump(
                    {
                        'property': pid, 'harness': h.name, 'tier': tier, 'symbolic_label': v['label'],
                        'label': res['label'], 'inputs': v['model'], 'seed': res.get('seed', 0),
                        'traceback': res.get('tb'), 'observed': res.get('observed'),
                    },
                    f, indent=1,
                )
            confirmed.append((h, v, res, path))
            return True
        return False

    results = explore(mod, tier, seed, budget, jobs, on_violation)

    # Validation of the encoding: the outcome the symbolic path predicts against the unmodified code.
    validated, mismatches, samples = 0, [], []
    known_lines = []
    known = load_known()
    if not confirmed:
        for h, r in zip(mod.HARNESSES, results):
            for v in r.validation:
                res = replayer.ask({'harness': h.name, 'cfg': h.cfgs[tier], 'inputs': v['inputs'], 'seed': 0})
                got = json.loads(json.dumps(res.get('observed')))
                want = json.loads(json.dumps(v['observed']))
                if res['status'] == 'ok' and got == want:
                    validated += 1
                    if len([s for s in samples if s['harness'] == h.name]) < 2:
                        samples.append({'harness': h.name, 'inputs': v['inputs'], 'observed': v['observed'][:12]})
                elif res['status'] == 'violation':
                    # the real code breaks the property on an input the symbolic path called fine
                    path = os.path.join(replay_dir, f'{pid}-{h.name}-{len(confirmed)}.json')
                    with open(path, 'w') as f:
                        json.dump({'property': pid, 'harness': h.name, 'tier': tier, 'label': res['label'],
                                   'inputs': v['inputs'], 'seed': 0, 'traceback': res.get('tb'),
                                   'note': 'found while validating the encoding'}, f, indent=1)
                    mismatches.append({'harness': h.name, 'inputs': v['inputs'], 'got': res, 'want': want})
                    confirmed.append((h, {'label': res['label'], 'model': v['inputs']}, res, path))
                else:
                    mismatches.append({'harness': h.name, 'inputs': v['inputs'], 'got': got, 'want': want, 'res': res})
        for h, r in zip(mod.HARNESSES, results):
            for fid, k in r.known.items():
                res = replay(h, k['model'])
                if res['status'] == 'violation':
                    if fid in known and known[fid][0] == pid:
                        known_lines.append(f'KNOWN-FINDING: property={pid} {known[fid][1]}')
                    else:
                        path = os.path.join(replay_dir, f'{pid}-{h.name}-{len(confirmed)}.json')
                        with open(path, 'w') as f:
                            json.dump({'property': pid, 'harness': h.name, 'tier': tier, 'label': res['label'],
                                       'inputs': k['model'], 'seed': res.get('seed', 0)}, f, indent=1)
                        confirmed.append((h, {'label': k['label'], 'model': k['model']}, res, path))
    replayer.close()

    total = {}
    for r in results:
        for k, v in r.stats.items():
            total[k] = total.get(k, 0) + v
    undecided = [dict(u, harness=h.name) for h, r in zip(mod.HARNESSES, results) for u in r.undecided]
    unexplored = sum(r.unexplored for r in results)
    functions = {}
    for r in results:
        for k, v in r.functions.items():
            if not k.startswith('props.'):
                functions[k] = functions.get(k, 0) + v
    missing = []
    if not confirmed:
        for h, r in zip(mod.HARNESSES, results):
            want = getattr(h, 'must_reach', None) or getattr(mod, 'MUST_REACH', {}).get(h.name, ())
            for m in want:
                if m not in r.reached:
                    missing.append(f'{h.name}:{m}')
            if not r.stats.get('paths'):
                missing.append(f'{h.name}:<no completed path>')
    wall = time.time() - t0
    cov = {
        'states': total.get('paths', 0),
        'transitions': total.get('decisions', 0),
        'traces_validated_against_impl': validated,
        'samples': samples[:12],
        'explanation': (
            'Symbolic execution of the current source: every path of each harness within the stated bounds is '
            'followed with symbolic inputs, branch feasibility and each assertion are decided by z3. states counts '
            'completed symbolic paths, transitions the branch decisions put to the solver.'
        ),
        'exhaustive': not unexplored and not undecided and not confirmed,
        'bounds': {h.name: {'text': h.bounds, 'cfg': h.cfgs[tier]} for h in mod.HARNESSES},
        'outside_the_claim': list(getattr(mod, 'OUTSIDE', [])),
        'models': sorted({m for h in mod.HARNESSES for m in h.models}),
        'functions_encoded': sorted(functions),
        'queries': {k: total.get(k, 0) for k in ('queries', 'sat', 'unsat')},
        'assertions': {
            'evaluated': total.get('checks', 0),
            'discharged_by_solver': total.get('discharged', 0),
            'constant_true_on_their_path': total.get('trivial', 0),
        },
        'solver_s': round(total.get('solver_s', 0.0), 2),
        'paths_cut_by_assumptions': total.get('cut', 0),
        'paths_unexplored': unexplored,
        'paths_undecided': [
            {k: u.get(k) for k in ('harness', 'status', 'error', 'replay')} for u in undecided[:10]
        ],
        'paths_undecided_count': len(undecided),
        'witnesses': {h.name: r.reached for h, r in zip(mod.HARNESSES, results)},
        'max_decisions_on_a_path': max([r.max_decisions for r in results] or [0]),
        'per_harness': {
            h.name: {'paths': r.stats.get('paths', 0), 'decisions': r.stats.get('decisions', 0),
                     'queries': r.stats.get('queries', 0), 'solver_s': round(r.stats.get('solver_s', 0), 2)}
            for h, r in zip(mod.HARNESSES, results)
        },
        'encoding_mismatches': mismatches[:5],
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    tmp = evidence_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, evidence_path)

    for line in known_lines:
        print(line)
    print(
        f"{pid} {tier}: paths={total.get('paths', 0)} cut={total.get('cut', 0)} decisions={total.get('decisions', 0)} "
        f"queries={total.get('queries', 0)} assertions={total.get('checks', 0)} "
        f"solver_s={total.get('solver_s', 0.0):.1f} validated={validated} wall_s={wall:.1f}"
    )
    if verbose:
        for h, r in zip(mod.HARNESSES, results):
            print('  ', h.name, {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r.stats.items()}, 'reached', r.reached, 'unexplored', r.unexplored)
        for u in undecided[:6]:
            print('UNDECIDED', json.dumps({k: v for k, v in u.items() if k != 'tb'}, default=str)[:1500])
            print(u.get('tb', '')[-2500:])
        for m in mismatches[:3]:
            print('MISMATCH', json.dumps(m, default=str)[:3000])
    if confirmed:
        for h, v, res, path in confirmed[:3]:
            print(f"  harness={h.name} {res['label']}")
            print(f"  inputs={json.dumps(v['model'])[:1500]}")
            if verbose:
                print(res.get('tb'))
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if unexplored:
        print(f"UNEXPLORED: {unexplored} path prefixes left when the time budget of {budget:.0f} s ran out")
    if undecided:
        kinds = {}
        for u in undecided:
            key = f"{u['harness']}: {u['status']}: {str(u.get('error'))[:160]}"
            kinds[key] = kinds.get(key, 0) + 1
        for k, n in sorted(kinds.items(), key=lambda kv: -kv[1])[:8]:
            print(f"UNDECIDED: {n} paths: {k}")
    if mismatches:
        print(f"ENCODING MISMATCH: {len(mismatches)} predicted outcomes differ from the real code")
        return 2
    if missing:
        print("NOT REACHED: " + ', '.join(missing[:10]))
        return 2
    if undecided and len(undecided) > total.get('paths', 0):
        return 2
    return 0


def replay_file(pid, path):
    setup_paths(False)
    with open(path) as f:
        r = json.load(f)
    mod = load_property(pid)
    h = {h.name: h for h in mod.HARNESSES}[r['harness']]
    res = run_concrete(h, h.cfgs[r['tier']], r['inputs'], r['seed'])
    print(json.dumps(res, indent=1))
    return 1 if res['status'] == 'violation' else 0
