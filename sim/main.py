import collections
import fcntl
import json
import os
import pathlib
import random
import subprocess
import sys
import time

from . import core
from . import runner
from .registry import PROPS


VERIF = runner.VERIF
REPO = runner.REPO
MAX_SHRINK_S = 60


def build():
    """Generate schema repositories from /repo's working tree and load code"""
    lock = open('/tmp/verif-build.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        common = REPO / 'src_py/hat/event/common'
        outs = [common / 'json_schema_repo.json', common / 'sbs_repo.json']
        for i in outs:
            i.unlink(missing_ok=True)
        (REPO / '.doit.db').unlink(missing_ok=True)
        env = dict(os.environ, PYTHONPATH=str(REPO / 'src_py'),
                   PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(
            [sys.executable, '-m', 'doit', 'json_schema_repo', 'sbs_repo'],
            cwd=REPO, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        if p.returncode or not all(i.exists() for i in outs):
            raise core.HarnessError(
                f'build failed: {p.stdout.decode()[-2000:]}')
        runner.prepare()
    finally:
        lock.close()


def make_plan(prop, scenario, seed, tier):
    rng = random.Random(f'plan/{scenario}/{prop}/{seed}')
    plan = runner.load_scenario(scenario).generate(rng, prop, tier)
    plan['seed'] = seed
    plan['prop'] = prop
    return plan


def plans(prop, tier, base_seed, limit):
    spec = PROPS[prop]
    scenarios = []
    for name, weight in spec['scenarios']:
        scenarios += [name] * weight
    for i in range(limit):
        seed = base_seed * 1_000_003 + i
        name = scenarios[i % len(scenarios)]
        yield make_plan(prop, name, seed, tier)


def is_failure(result, prop):
    """Violation kind found by the run (or None)"""
    for v in result['violations']:
        if v['prop'] == prop:
            return v['kind']
    spec = PROPS[prop]
    if result.get('hang') and spec.get('hang'):
        return 'hang'
    if result.get('error') == 'steplimit' and spec.get('hang'):
        return 'livelock'
    return None


def describe(result, prop, kind):
    for v in result['violations']:
        if v['prop'] == prop and v['kind'] == kind:
            return f"[{v['t']:.6f}s] {v['kind']}: {v['msg']}"
    if kind == 'hang':
        return f"hang: {result.get('hang')} {result.get('error')}"
    return kind


def load_known():
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return []
    return json.loads(path.read_text()).get('findings', [])


def find_known(known, prop, scenario, result, kind):
    """Known finding matching violation"""
    for v in result['violations']:
        if v['prop'] != prop or v['kind'] != kind:
            continue
        for f in known:
            if (f['property'] == prop and f['kind'] == kind and
                    f.get('scenario', scenario) == scenario and
                    all(i in v['msg'] for i in f['contains'])):
                return f


def cmd_check(args):
    prop = args[0]
    spec = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base_seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = float(os.environ.get('VERIF_BUDGET') or
                   spec.get(tier, 40 if tier == 'quick' else 600))
    count = int(os.environ.get('VERIF_RUNS') or spec.get(
        f'{tier}_runs', 1_000_000))
    start = runner.time_real()
    build()
    known = load_known()
    known_seen = {}
    agg = Aggregate()
    found = None
    harness_errors = []
    with runner.Pool() as pool:
        deadline = start + budget
        for plan, result in pool.run_all(plans(prop, tier, base_seed, count),
                                         deadline=deadline):
            agg.add(plan, result)
            kind = is_failure(result, prop)
            if kind:
                f = find_known(known, prop, plan['scenario'], result, kind)
                if f:
                    known_seen.setdefault(f['id'], (f, plan['seed']))
                    continue
                found = plan, result, kind
                break
            if (result.get('error') and
                    result['error'] != 'steplimit'):
                harness_errors.append((plan, result['error']))
                if len(harness_errors) > 20:
                    break
        violation = None
        if found:
            plan, result, kind = found
            again = pool.run(plan)
            if not runner.matches(again, prop, kind):
                # determinism is part of the harness contract
                print(f'warning: violation {kind} of seed {plan["seed"]} not '
                      f'reproduced: {describe(result, prop, kind)}',
                      file=sys.stderr)
                harness_errors.append((plan, 'not reproduced: ' + describe(
                    result, prop, kind)))
            else:
                small, tried = runner.shrink(pool, plan, prop, kind,
                                             MAX_SHRINK_S)
                final = pool.run(small)
                if not runner.matches(final, prop, kind):
                    small, final = plan, again
                text = describe(final, prop, kind)
                path = save_replay(prop, small, kind, text, plan, tried,
                                   final)
                violation = path, text
    for f, seed in known_seen.values():
        print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    # findings that are listed but not met in this run are still reported
    for f in known:
        if f['property'] == prop and f['id'] not in known_seen:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    wall = runner.time_real() - start
    agg.write(prop, tier, base_seed, wall, violation, known_seen,
              harness_errors)
    print(f'{prop}: {agg.runs} runs, {agg.evals[prop]} oracle evaluations, '
          f'{agg.sim_s:.0f} simulated seconds, {wall:.1f} s')
    if violation:
        print(violation[1][:1500])
        print(f'VIOLATION property={prop} replay={violation[0]}')
        return 1
    if harness_errors and len(harness_errors) >= max(3, agg.runs // 20):
        for plan, e in harness_errors[:3]:
            print(f'harness error (seed {plan["seed"]}, {plan["scenario"]}): '
                  f'{e[-1500:]}', file=sys.stderr)
        return 2
    for plan, e in harness_errors[:3]:
        print(f'note: run {plan["scenario"]}/{plan["seed"]} not judged: '
              f'{e[-300:]}', file=sys.stderr)
    if not agg.runs:
        return 2
    return 0


def save_replay(prop, plan, kind, text, original, tried, result):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    path = d / f'{prop}-{plan["scenario"]}-{plan["seed"]}-{kind}.json'
    path.write_text(json.dumps({
        'property': prop, 'kind': kind, 'message': text, 'plan': plan,
        'crc': result.get('crc'),
        'minimised': {'ops': [len(original.get('ops') or []),
                              len(plan.get('ops') or [])],
                      'faults': [len(original.get('faults') or []),
                                 len(plan.get('faults') or [])],
                      'runs': tried}}, indent=1))
    return path


class Aggregate:

    def __init__(self):
        self.runs = 0
        self.evals = collections.Counter()
        self.faults = collections.Counter()
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.scenarios = collections.Counter()
        self.sim_s = 0
        self.orders = set()
        self.nontrivial = set()
        self.samples = []
        self.events = 0
        self.steps = 0
        self.errors = collections.Counter()
        self.cpu = 0

    def add(self, plan, result):
        self.runs += 1
        self.scenarios[plan['scenario']] += 1
        self.evals.update(result.get('evals', {}))
        self.faults.update(result.get('faults', {}))
        self.stats.update(result.get('stats', {}))
        self.probes.update(result.get('probes', {}))
        self.sim_s += result.get('sim_s', 0)
        self.steps += result.get('steps', 0)
        self.events += result.get('events', 0)
        self.cpu += result.get('wall_s', 0)
        if result.get('error'):
            self.errors[result['error'][:60]] += 1
        crc = result.get('order_crc')
        if crc is not None:
            self.orders.add(crc)
            if (result.get('evals', {}).get(plan['prop']) and
                    not result.get('error')):
                self.nontrivial.add(crc)
        if len(self.samples) < 4 and result.get('samples'):
            self.samples.append({'scenario': plan['scenario'],
                                 'seed': plan['seed'],
                                 'ops': (plan.get('ops') or [])[:6],
                                 'faults': plan.get('faults'),
                                 'run': result['samples'][0]})

    def write(self, prop, tier, seed, wall, violation, known_seen, errors):
        spec = PROPS[prop]
        hours = max(wall, 1e-3) / 3600
        real, stub = components([i for i, _ in spec['scenarios']])
        data = {
            'property': prop, 'tier': tier, 'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': self.runs,
                'distinct_nontrivial': len(self.nontrivial),
                'rule': 'one evaluation is one simulated run of a generated '
                        'plan (seeded configuration, workload, schedule and '
                        'fault sequence); runs are distinct when the hash of '
                        'their complete scheduling sequence (order of '
                        'process steps, thread switches, storage calls and '
                        'packet arrivals) differs, and non-trivial when the '
                        'oracle of this property was evaluated at least once',
                'samples': self.samples or [{'note': 'no runs'}],
                'oracle_evaluations': self.evals[prop],
                'distinct_interleavings': len(self.orders),
                'runs_per_hour': int(self.runs / hours),
                'seeds_per_hour': int(self.runs / hours),
                'simulated_seconds': round(self.sim_s, 1),
                'simulated_seconds_per_wall_second': round(
                    self.sim_s / max(wall, 1e-3), 1),
                'scheduler_steps': self.steps,
                'trace_events': self.events,
                'runs_per_scenario': dict(self.scenarios),
                'faults_injected': dict(sorted(self.faults.items())),
                'probes': dict(sorted(self.probes.items())),
                'simulator_counters': dict(sorted(self.stats.items())),
                'components_real': real,
                'components_simulated': stub,
                'runs_without_verdict': dict(self.errors)},
            'assumptions': spec.get('assumptions', []) + [
                'LMDB commits are atomic and durable once they return',
                'sampled: nothing is claimed about schedules which were not '
                'executed'],
            'wall_s': round(wall, 2),
            'violations': 1 if violation else 0,
            'known_findings': sorted(known_seen)}
        path = VERIF / 'evidence' / f'{prop}.json'
        path.parent.mkdir(exist_ok=True)
        tmp = path.with_suffix('.tmp')
        tmp.write_text(json.dumps(data, indent=1))
        os.replace(tmp, path)


def components(scenarios):
    real, stub = [], []
    for name in scenarios:
        m = runner.load_scenario(name)
        real += [i for i in getattr(m, 'REAL', []) if i not in real]
        stub += [i for i in getattr(m, 'STUB', []) if i not in stub]
    return real, stub


def cmd_replay(args):
    verbose = '-v' in args
    args = [i for i in args if i != '-v']
    data = json.loads(pathlib.Path(args[0]).read_text())
    build()
    plan = data['plan']
    if verbose:
        plan = dict(plan, world=dict(plan.get('world') or {}, trace=True))
    with runner.Pool(1) as pool:
        result = pool.run(plan)
    if verbose:
        for i in result.pop('trace', []):
            print(i)
        for i in result.pop('logs', []):
            print('LOG', i)
    if result.get('error'):
        print('error:', result['error'])
    for v in result['violations']:
        print(f"[{v['t']:.6f}s] {v['prop']} {v['kind']}: {v['msg']}")
    same = runner.matches(result, data['property'], data['kind'])
    print('trace', result.get('crc'), 'recorded', data.get('crc'))
    if same:
        print(f'VIOLATION property={data["property"]} replay={args[0]}')
        return 1
    print('not reproduced')
    return 0


def cmd_run(args):
    scenario, prop, seed = args[:3]
    trace = '-v' in args or '-vv' in args
    build()
    if os.environ.get('VERIF_DEBUG'):
        exec(open(os.environ['VERIF_DEBUG']).read(),
             {'__name__': 'debug'})
    plan = make_plan(prop, scenario, int(seed),
                     os.environ.get('VERIF_TIER', 'quick'))
    if '--free' in args:
        plan['prop'] = None
    if trace:
        plan['world'] = dict(plan.get('world') or {},
                             trace='full' if '-vv' in args else True)
    with runner.Pool(1) as pool:
        result = pool.run(plan)
    for i in result.pop('trace', []):
        print(i)
    for i in result.pop('logs', []):
        print('LOG', i)
    if '-p' in args:
        print(json.dumps(plan, indent=1))
    print(json.dumps(result, indent=1))
    return 0


def cmd_sweep(args):
    """sweep SCENARIO PROP|any START COUNT: report all violations"""
    scenario, prop, first, count = args[:4]
    build()
    tier = os.environ.get('VERIF_TIER', 'quick')
    names = (sorted(PROPS) if prop == 'any' else prop.split(','))
    names = [i for i in names
             if any(s == scenario for s, _ in PROPS[i]['scenarios'])] or names

    def gen():
        for i in range(int(count)):
            seed = int(first) + i
            p = make_plan(names[i % len(names)], scenario, seed, tier)
            if '--own' not in args:
                p['prop_gen'], p['prop'] = p['prop'], None
            yield p

    seen = collections.defaultdict(list)
    errors = collections.defaultdict(list)
    agg = Aggregate()
    start = runner.time_real()
    with runner.Pool() as pool:
        for plan, result in pool.run_all(gen()):
            agg.add(plan, result)
            pg = plan.get('prop_gen', plan['prop'])
            for v in result['violations'][:1]:
                key = v['kind']
                props = sorted({i['prop'] for i in result['violations']
                                if i['kind'] == key})
                seen[key].append((pg, plan['seed'], props, v['msg'][:600]))
            if result.get('error'):
                errors[result['error'].strip().splitlines()[-1] if 'hang' not in result['error'] else 'hang'].append((pg, plan['seed']))
    for key, items in sorted(seen.items()):
        print(f'== {key}: {len(items)}')
        for i in items[:3]:
            print('   ', *i)
    for key, items in errors.items():
        print(f'!! {len(items)} {items[:3]}: {key}')
    wall = runner.time_real() - start
    print(f'{agg.runs} runs in {wall:.1f} s, {agg.sim_s:.0f} sim s, '
          f'{agg.steps} steps; evals {dict(agg.evals)}')
    print('faults', dict(agg.faults))
    print('probes', dict(agg.probes))
    print('stats', dict(agg.stats))
    return 0


def cmd_determinism(args):
    n = int(args[0]) if args else 20
    build()
    bad = 0
    total = 0
    base = int(os.environ.get('VERIF_SEED', '1'))
    for prop in sorted(PROPS):
        first = {}
        for rnd in range(2):
            with runner.Pool(None if rnd == 0 else 3) as pool:
                for plan, r in pool.run_all(plans(prop, 'quick', base + 70,
                                                  n)):
                    key = plan['seed'], plan['scenario']
                    val = (r.get('crc'), r.get('events'), r.get('steps'),
                           json.dumps(r['violations']))
                    if rnd == 0:
                        first[key] = val
                    else:
                        total += 1
                        if first[key] != val:
                            bad += 1
                            print('NONDETERMINISTIC', prop, key, first[key],
                                  val)
    print(f'determinism: {total} plans executed twice, {bad} differ')
    return 1 if bad else 0


def cmd_setup(args):
    build()
    plan_list = []
    for prop in sorted(PROPS):
        plan_list += list(plans(prop, 'quick', 1, 1))
    n = 0
    with runner.Pool() as pool:
        for plan, result in pool.run_all(plan_list):
            n += 1
            if result.get('error'):
                print(f'{plan["prop"]} {plan["scenario"]}: '
                      f'{result["error"][:200]}', file=sys.stderr)
    print(f'setup: {n} smoke runs')
    return 0


def main(argv):
    if not argv:
        print('usage: check.py check PROP | replay FILE | determinism [N]')
        return 2
    try:
        return {'check': cmd_check, 'replay': cmd_replay, 'run': cmd_run,
                'sweep': cmd_sweep, 'determinism': cmd_determinism,
                'setup': cmd_setup}[argv[0]](argv[1:])
    finally:
        sys.stdout.flush()
