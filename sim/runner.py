"""Seeded search over simulated runs: generation, workers, minimisation, replay, evidence.

Every run is `execute(scenario)` where the scenario is a JSON value drawn from ONE
PRNG seeded by (VERIF_SEED, property, run index).  The scenario contains every
scheduling decision, fault, delay and input of the run, so the replay file (the
minimised scenario) reproduces the run exactly.
"""
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

REAL_TIME = _time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IKBT_REPO', '/repo')

FAMILIES = {'B': 'sim.btree', 'F': 'sim.files', 'K': 'sim.kin', 'K06': 'sim.assign', 'K07': 'sim.gen',
            'K09': 'sim.gen', 'K11': 'sim.eqsys', 'K12': 'sim.gen'}


class Outcome(object):
    def __init__(self):
        self.viol = []          # [{'cls':..., 'key':..., 'detail':...}]
        self.log = []           # event log (strings), hashed for determinism/replay
        self.stats = Counter()  # fault kinds fired, probes
        self.simtime = 0.0
        self.states = set()     # coverage keys (short strings)
        self.inconclusive = None
        self.nontrivial = True
        self.sample = None

    def ev(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def violate(self, cls, detail, key=None):
        self.viol.append({'cls': cls, 'key': key or cls, 'detail': str(detail)[:1500]})

    def digest(self):
        h = hashlib.sha256()
        for x in self.log:
            h.update(x.encode('utf8', 'replace'))
            h.update(b'\n')
        for v in self.viol:
            h.update((v['cls'] + '|' + v['key'] + '\n').encode())
        return h.hexdigest()[:20]

    def to_json(self):
        return {'hash': self.digest(), 'viol': self.viol, 'stats': dict(self.stats),
                'simtime': self.simtime, 'states': sorted(self.states),
                'inconclusive': self.inconclusive, 'nontrivial': self.nontrivial,
                'steps': len(self.log)}


def h8(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:10]


class Check(object):
    """One property.  Families subclass it."""
    pid = None
    level = 'exploration'
    rule = ''
    components = {}
    assumptions = []
    quick_runs = 200
    thorough_runs = 5000
    quick_cap = 240.0          # wall seconds after which no new run is started
    thorough_cap = 3000.0
    nworkers = 8
    hash_classes = 8           # PYTHONHASHSEED values in use; run i gets class i % hash_classes
    selftest = 24              # runs executed again under another hash seed

    def prepare(self, scratch, tier, seed):
        """Build what the runs need from the current tree. Returns a JSON value."""
        return None

    def setup_worker(self, prep):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        return iter(())

    def runs(self, tier):
        return self.quick_runs if tier == 'quick' else self.thorough_runs

    def sample(self, scn, out):
        return {'scenario': scn, 'steps': out.get('steps'), 'hash': out.get('hash')}


def load_check(pid):
    mod = importlib.import_module(FAMILIES.get(pid) or FAMILIES[pid[0]])
    return mod.CHECKS[pid]()


def scenario_for(check, seed, i, tier):
    rng = random.Random('%d/%s/%d' % (seed, check.pid, i))
    scn = check.gen(rng, i, tier)
    return json.loads(json.dumps(scn))


def hashseed_for(check, seed, i):
    return (seed * 1009 + (i % check.hash_classes) * 7919 + 11) % 4294967295


# --------------------------------------------------------------------------- worker

def worker_main(argv):
    """Reads one JSON request per line on stdin, answers one JSON line on fd 3 (dup of stdout)."""
    pid, prep_path = argv[0], argv[1]
    out_fd = os.dup(1)
    os.dup2(2, 1)                       # whatever the code under test prints goes to stderr
    sys.stdout = open(os.devnull, 'w') if not os.environ.get('VERIF_DEBUG') else sys.stderr
    check = load_check(pid)
    with open(prep_path) as f:
        prep = json.load(f)
    check.setup_worker(prep)
    out = os.fdopen(out_fd, 'w')
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        req = json.loads(line)
        try:
            if 'scenario' in req:
                scn = req['scenario']
            else:
                scn = scenario_for(check, req['seed'], req['i'], req['tier'])
            res = check.execute(scn)
            ans = res.to_json()
            if res.viol or req.get('want_scn'):
                ans['scenario'] = scn
            if req.get('want_log'):
                ans['log'] = res.log[:4000]
        except Exception:
            ans = {'error': traceback.format_exc()[-3000:]}
        ans['tag'] = req.get('tag')
        out.write(json.dumps(ans) + '\n')
        out.flush()
    return 0


class Worker(object):
    def __init__(self, check, prep_path, hashseed):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['VERIF_CHILD'] = '1'
        self.hashseed = hashseed
        self.errfile = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), '--worker',
                                   check.pid, prep_path],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errfile, env=env, cwd=VERIF)
        self.buf = b''
        self.busy = True            # until ready
        self.req = None
        self.started = REAL_TIME()

    def send(self, req):
        self.req = req
        self.busy = True
        self.started = REAL_TIME()
        self.p.stdin.write((json.dumps(req) + '\n').encode())
        self.p.stdin.flush()

    def stderr_tail(self, n=3000):
        try:
            self.errfile.seek(0, 2)
            size = self.errfile.tell()
            self.errfile.seek(max(0, size - n))
            return self.errfile.read().decode('utf8', 'replace')
        except Exception:
            return ''

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=2)
        except Exception:
            self.p.kill()
            self.p.wait()
        for f in (self.p.stdout, self.errfile):
            try:
                f.close()
            except Exception:
                pass


def run_batch(check, prep_path, requests, nworkers, deadline, stop_on_violation=True,
              run_limit=600.0, progress=None):
    """requests: list of dicts with '_hs' (hash seed).  Returns list of answers (with 'req')."""
    queues = {}
    for r in requests:
        queues.setdefault(r['_hs'], []).append(r)
    for q in queues.values():
        q.reverse()
    answers, errors = [], []
    workers = []
    seeds = list(queues)
    stopped = None
    crash_count = 0

    def spawn():
        # the hash-seed class with most work left and no worker
        have = Counter(w.hashseed for w in workers)
        cand = [s for s in seeds if queues[s]]
        cand.sort(key=lambda s: (have[s], -len(queues[s])))
        if not cand:
            return False
        if have[cand[0]] >= len(queues[cand[0]]):
            return False
        workers.append(Worker(check, prep_path, cand[0]))
        return True

    for _ in range(nworkers):
        if not spawn():
            break
    while workers:
        now = REAL_TIME()
        if stopped is None and now > deadline:
            stopped = 'time cap'
        fds = {w.p.stdout.fileno(): w for w in workers}
        r, _, _ = select.select(list(fds), [], [], 1.0)
        dead = []
        for fd in r:
            w = fds[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                dead.append(w)
                continue
            w.buf += data
            while b'\n' in w.buf:
                line, w.buf = w.buf.split(b'\n', 1)
                ans = json.loads(line.decode())
                if ans.get('ready'):
                    w.busy = False
                    continue
                ans['req'] = w.req
                ans['wall'] = REAL_TIME() - w.started
                w.busy, w.req = False, None
                answers.append(ans)
                if progress:
                    progress(ans)
                if ans.get('viol') and stop_on_violation and \
                        any(not v.get('known') for v in check_known(check.pid, ans['viol'])):
                    stopped = stopped or 'violation'
        for w in workers:
            if w.busy and w.req is not None and now - w.started > run_limit and w not in dead:
                w.p.kill()
                answers.append({'req': w.req, 'inconclusive': 'run wall limit', 'wall': now - w.started})
                w.req = None
                dead.append(w)
        for w in dead:
            if w.req is not None:
                answers.append({'req': w.req, 'error': 'worker died: ' + w.stderr_tail()})
            elif w.busy and w.p.poll() not in (None, 0) and crash_count < 20:
                crash_count += 1
                errors.append('worker failed to start: ' + w.stderr_tail())
            w.close()
            workers.remove(w)
            if stopped is None and crash_count < 3:
                spawn()
        for w in list(workers):
            if w.busy:
                continue
            q = queues[w.hashseed]
            if stopped is None and q:
                w.send(q.pop())
            else:
                w.close()
                workers.remove(w)
                if stopped is None:
                    spawn()
    left = sum(len(q) for q in queues.values())
    return answers, errors, stopped, left


# --------------------------------------------------------------------------- known findings

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [d for d in data['findings'] if d['property'] == pid and d['status'] == 'open']


def check_known(pid, viols):
    keys = {k: d for d in known_findings(pid) for k in d['keys']}
    out = []
    for v in viols:
        v = dict(v)
        if v['key'] in keys:
            v['known'] = keys[v['key']]['id']
        out.append(v)
    return out


# --------------------------------------------------------------------------- minimise / replay

def one_shot(check, prep_path, scn, hs, want_log=False, limit=300.0):
    """Execute one scenario in a fresh process."""
    req = {'scenario': scn, '_hs': hs, 'want_log': want_log}
    a, e, _, _ = run_batch(check, prep_path, [req], 1, REAL_TIME() + limit,
                           stop_on_violation=False, run_limit=limit)
    if not a:
        return {'error': '; '.join(e) or 'no answer'}
    return a[0]


def pick(ans, pid, cls=None):
    for v in check_known(pid, ans.get('viol') or []):
        if v.get('known'):
            continue
        if cls is None or v['cls'] == cls:
            return v
    return None


def minimise(check, prep_path, scn, hs, cls, budget_s, max_execs=400):
    """Greedy shrinking while the same violation class persists."""
    t_end = REAL_TIME() + budget_s
    w = None
    execs = 0

    def ask(c):
        nonlocal w, execs
        if w is None:
            w = Worker(check, prep_path, hs)
            line = w.p.stdout.readline()
            if not line:
                w.close()
                w = None
                return None
        execs += 1
        try:
            w.send({'scenario': c})
            while True:
                r, _, _ = select.select([w.p.stdout.fileno()], [], [], max(0.5, t_end - REAL_TIME()))
                if not r:
                    w.p.kill()
                    w.close()
                    w = None
                    return None
                line = w.p.stdout.readline()
                if not line:
                    w.close()
                    w = None
                    return None
                return json.loads(line.decode())
        except Exception:
            if w:
                w.close()
            w = None
            return None

    cur = scn
    progress = True
    while progress and REAL_TIME() < t_end and execs < max_execs:
        progress = False
        for cand in check.shrink(json.loads(json.dumps(cur))):
            if REAL_TIME() > t_end or execs >= max_execs:
                break
            cand = json.loads(json.dumps(cand))
            if cand == cur:
                continue
            a = ask(cand)
            if a and not a.get('error') and pick(a, check.pid, cls):
                cur = cand
                progress = True
                break
    if w:
        w.close()
    return cur, execs


def replay_main(check, path, prep_path):
    with open(path) as f:
        rep = json.load(f)
    if rep['scenario'].get('prep'):
        # the violation is in the preparation itself, which has just been done again
        bad = [v for v in check_known(check.pid, (check.prep or {}).get('viol') or [])
               if not v.get('known')]
        for v in bad[:1]:
            print('replay: violation %s: %s' % (v['cls'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1 if bad else 0
    a = one_shot(check, prep_path, rep['scenario'], rep['hashseed'], want_log=True, limit=800.0)
    if a.get('error'):
        print('replay: error ' + a['error'])
        return 3
    v = pick(a, check.pid)
    same = a.get('hash') == rep.get('hash')
    print('replay: %s; event log %s' % ('violation %s: %s' % (v['cls'], v['detail']) if v else 'no violation',
                                        'identical' if same else 'differs from the recorded one'))
    if v:
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    return 0


# --------------------------------------------------------------------------- main

def main(argv):
    if argv and argv[0] == '--worker':
        return worker_main(argv[1:])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    runs_override = None
    collect = False
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    k = 1
    while k < len(argv):
        if argv[k] == '--tier':
            tier = argv[k + 1]; k += 2
        elif argv[k] == '--replay':
            replay = argv[k + 1]; k += 2
        elif argv[k] == '--runs':
            runs_override = int(argv[k + 1]); k += 2
        elif argv[k] == '--seed':
            seed = int(argv[k + 1]); k += 2
        elif argv[k] == '--collect':            # development aid: run everything, list the violation keys
            collect = True; k += 1
        else:
            raise SystemExit('bad argument ' + argv[k])
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = REAL_TIME()
    check = load_check(pid)
    scratch = tempfile.mkdtemp(prefix='ikbtsim_%s_' % pid, dir='/tmp')
    os.environ['VERIF_SCRATCH'] = scratch
    rc = 3
    try:
        print('seed %d  property %s  tier %s' % (seed, pid, tier), flush=True)
        prep_path = os.path.join(scratch, 'prep.json')
        rt = tier
        if replay:
            with open(replay) as f:
                rep0 = json.load(f)
            rt = rep0.get('tier', tier)
            check.only = rep0['scenario']
        prep = check.prepare(scratch, rt, seed)
        check.prep = prep
        with open(prep_path, 'w') as f:
            json.dump(prep, f)
        if collect:
            rc = collect_main(check, tier, seed, prep_path, runs_override)
        elif replay:
            rc = replay_main(check, replay, prep_path)
        else:
            rc = search(check, tier, seed, prep, prep_path, t0, runs_override)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def collect_main(check, tier, seed, prep_path, n):
    reqs = [{'i': i, 'seed': seed, 'tier': tier, '_hs': hashseed_for(check, seed, i), 'tag': 'run'}
            for i in range(n or check.runs(tier))]
    answers, errors, _, _ = run_batch(check, prep_path, reqs, check.nworkers, REAL_TIME() + 36000,
                                      stop_on_violation=False, run_limit=getattr(check, 'run_limit', 300.0))
    keys, ex, inc = Counter(), {}, Counter()
    for a in answers:
        if a.get('error'):
            keys['ERROR'] += 1
            ex['ERROR'] = a['error'][-1500:]
        if a.get('inconclusive'):
            inc[a['inconclusive']] += 1
        for v in a.get('viol') or []:
            keys[v['key']] += 1
            if v['key'] not in ex or len(json.dumps(a['scenario'])) < len(json.dumps(ex[v['key']][0])):
                ex[v['key']] = (a['scenario'], v['detail'][:700])
    print('%d runs; inconclusive %s' % (len(answers), dict(inc)), errors[:1])
    for k, n in keys.most_common():
        print('%5d %s\n      %s' % (n, k, ex[k]))
    return 0


def search(check, tier, seed, prep, prep_path, t0, runs_override=None):
    pid = check.pid
    n = runs_override or check.runs(tier)
    cap = check.quick_cap if tier == 'quick' else check.thorough_cap
    reqs = []
    for i in range(n):
        reqs.append({'i': i, 'seed': seed, 'tier': tier, '_hs': hashseed_for(check, seed, i), 'tag': 'run'})
    # determinism self test: a sample of the runs again, in other processes, under other hash seeds
    st_idx = sorted(random.Random('%d/self' % seed).sample(range(n), min(check.selftest, n)))
    prep_viol = (prep or {}).get('viol') if isinstance(prep, dict) else None
    t1 = REAL_TIME()
    answers, errors, stopped, left = [], [], None, n
    if prep_viol and any(not v.get('known') for v in check_known(pid, prep_viol)):
        answers = [{'req': {'i': -1, '_hs': 0}, 'viol': prep_viol, 'scenario': {'prep': True},
                    'hash': '', 'stats': {}, 'simtime': 0, 'states': [], 'wall': 0}]
        stopped, left = 'violation', n
    else:
        answers, errors, stopped, left = run_batch(
            check, prep_path, reqs, check.nworkers, t1 + cap,
            run_limit=getattr(check, 'run_limit', 300.0))
    run_wall = REAL_TIME() - t1
    by_i = {a['req']['i']: a for a in answers}
    # --- collect
    stats, states, hashes = Counter(), set(), set()
    simtime, steps = 0.0, 0
    nontriv = set()
    inconcl, errs = [], []
    done = 0
    viol_runs = []
    known_seen = {}
    for i in sorted(by_i):
        a = by_i[i]
        if a.get('error'):
            errs.append((i, a['error']))
            continue
        if a.get('inconclusive'):
            inconcl.append((i, a['inconclusive']))
        done += 1
        stats.update(a.get('stats') or {})
        states.update(a.get('states') or ())
        simtime += a.get('simtime') or 0
        steps += a.get('steps') or 0
        hashes.add(a.get('hash'))
        if a.get('nontrivial', True):
            nontriv.add(a.get('hash'))
        for v in check_known(pid, a.get('viol') or []):
            if v.get('known'):
                known_seen[v['known']] = known_seen.get(v['known'], 0) + 1
            elif not viol_runs or viol_runs[-1][0] != i:
                viol_runs.append((i, v))
    # --- self test
    st_total = st_diff = 0
    st_bad = []
    if not viol_runs and check.selftest:
        streqs = [{'i': i, 'seed': seed, 'tier': tier, 'tag': 'self',
                   '_hs': hashseed_for(check, seed + 77, (i + 3) if j % 2 else (i + 5))}
                  for j, i in enumerate(st_idx) if i in by_i and not by_i[i].get('error')
                  and not by_i[i].get('inconclusive')]
        sa, _, _, _ = run_batch(check, prep_path, streqs, max(1, check.nworkers // 2 + 1),
                                REAL_TIME() + cap / 3, stop_on_violation=False,
                                run_limit=getattr(check, 'run_limit', 300.0))
        for a in sa:
            if a.get('error') or a.get('inconclusive'):
                continue
            st_total += 1
            if a['hash'] != by_i[a['req']['i']]['hash']:
                st_diff += 1
                st_bad.append(a['req']['i'])
    for kf in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s%s' % (
            pid, kf['what'], '' if kf['id'] in known_seen else ' (not met in this run)'))
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(nontriv),
        'rule': check.rule,
        'samples': [],
        'seeds': done,
        'runs_per_hour': round(done * 3600.0 / max(run_wall, 1e-3)),
        'simulated_time_s': round(simtime, 3),
        'simulated_steps': steps,
        'distinct_event_logs': len(hashes),
        'distinct_states': len(states),
        'faults_and_probes': dict(sorted(stats.items())),
        'determinism_selftest': {'rerun': st_total, 'different': st_diff, 'indices': st_bad[:20],
                                 'how': 'same scenario again in another process under another PYTHONHASHSEED'},
        'components': check.components,
        'runs_requested': n, 'runs_not_started': left, 'stopped': stopped,
        'inconclusive_runs': len(inconcl), 'inconclusive_samples': [list(x) for x in inconcl[:5]],
        'harness_errors': len(errs) + len(errors),
        'known_findings_met': known_seen,
    }
    extra = (prep or {}).get('evidence') if isinstance(prep, dict) else None
    if extra:
        cov['preparation'] = extra
    for i in list(sorted(by_i))[:3]:
        a = by_i[i]
        if not a.get('error') and i >= 0:
            scn = scenario_for(check, seed, i, tier)
            txt = json.dumps(scn)
            cov['samples'].append({'run': i, 'hash': a.get('hash'), 'steps': a.get('steps'),
                                   'scenario': scn if len(txt) < 6000 else txt[:6000] + '...'})
    rc = 0
    for i, e in errs[:3]:
        print('harness error in run %d: %s' % (i, e), file=sys.stderr)
    for e in errors[:2]:
        print('worker error: %s' % e, file=sys.stderr)
    if viol_runs:
        rc = report(check, tier, seed, viol_runs, by_i, prep_path, cov)
    elif errs and len(errs) > max(2, 0.2 * max(1, done)) or errors and not done:
        print('the harness could not run: %d errors in %d runs' % (len(errs) + len(errors), n))
        rc = 3
    elif done == 0:
        print('nothing was run')
        rc = 3
    elif len(inconcl) > 0.5 * done:
        print('more than half of the runs were inconclusive')
        rc = 3
    write_evidence(check, tier, seed, cov, t0, len(viol_runs))
    print('%s %s: %d runs (%d distinct non-trivial), %d states, %d steps, simulated %.1f s, %.1f s wall, '
          'self-test %d/%d differ%s' % (pid, tier, done, len(nontriv), len(states), steps, simtime,
                                        REAL_TIME() - t0, st_diff, st_total,
                                        '' if not inconcl else ', %d inconclusive' % len(inconcl)))
    return rc


def report(check, tier, seed, viol_runs, by_i, prep_path, cov):
    pid = check.pid
    i, v = viol_runs[0]
    a = by_i[i]
    hs = a['req']['_hs']
    scn = a.get('scenario')
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s_seed%d_run%d.json' % (pid, seed, i))
    small, execs, fresh = scn, 0, None
    if not scn.get('prep'):
        small, execs = minimise(check, prep_path, scn, hs, v['cls'],
                                getattr(check, 'shrink_s', 60.0 if tier == 'quick' else 240.0))
        fresh = one_shot(check, prep_path, small, hs, want_log=True)
        ok = fresh and not fresh.get('error') and pick(fresh, pid, v['cls'])
        if not ok:
            small = scn
            fresh = one_shot(check, prep_path, small, hs, want_log=True)
            ok = fresh and not fresh.get('error') and pick(fresh, pid, v['cls'])
        if ok:
            v = ok
    else:
        ok = True
    rep = {'property': pid, 'tier': tier, 'seed': seed, 'run': i, 'hashseed': hs,
           'class': v['cls'], 'key': v['key'], 'detail': v['detail'],
           'scenario': small, 'original_scenario': scn, 'shrink_executions': execs,
           'reproduced_in_fresh_process': bool(ok),
           'hash': (fresh or a).get('hash'), 'trace': (fresh or {}).get('log', [])[:400]}
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    cov['violation'] = {'run': i, 'class': v['cls'], 'detail': v['detail'],
                        'runs_with_violation': len(viol_runs)}
    print('violation class %s in run %d (seed %d): %s' % (v['cls'], i, seed, v['detail']))
    print('minimised scenario: %s' % json.dumps(small)[:2000])
    if not ok:
        print('warning: the fresh-process replay did not show the same violation')
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def write_evidence(check, tier, seed, cov, t0, nviol):
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    ev = {'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': list(check.assumptions),
          'wall_s': round(REAL_TIME() - t0, 2), 'violations': nviol}
    tmp = os.path.join(edir, '.%s.tmp' % check.pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, check.pid + '.json'))
