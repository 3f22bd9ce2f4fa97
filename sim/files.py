"""Family F: the programs and the files they share (kinematics cache, generated output), on a simulated
disk, with crashes, power failures, disk errors and concurrent runs."""
import errno
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile

from . import proc, simclock
from .runner import Check, Outcome, REPO, h8
from .simfs import Kernel, real_snapshot, O_ACC

PROGS = ('ikSolver.py', 'fkOnly.py')
ROBOTS = ('PP', 'RP', 'RPl', 'RRx', 'PRal')
# arms whose names are close to those of others: name -> arm of which it has the table
SIBLINGS = {'rp': 'PP', 'RP_2': 'PP', 'RPL': 'PP', 'PP_RP': 'RP', 'RP2': 'RPl', 'PP_p': 'RPl', 'P': 'RP', 'xPP': 'RP'}
FAMILY = {'PP': ('PP_RP', 'PP_p', 'P', 'xPP'), 'RP': ('rp', 'RP_2', 'RP2', 'RPl'), 'RPl': ('RPL', 'RP', 'RP2'),
          'RRx': ('PP',), 'PRal': ('PP', 'P')}
# single cells of the DH table the user may edit: row, column, value, parameter it needs
CELLS = ((0, 3, 'pi/2', None), (1, 3, 'pi/2', None), (1, 0, '-pi/2', None), (1, 1, 'l_2', 'l_2'), (0, 2, 'l_2', 'l_2'),
         (1, 2, 'l_2', 'l_2'), (0, 1, 'l_2', 'l_2'), (0, 0, 'pi/2', None), (2, 0, 'pi/2', None), (2, 1, 'l_3', 'l_3'),
         (5, 1, 'l_3', 'l_3'), (5, 2, 'l_3', 'l_3'), (5, 3, 'pi/2', None), (5, 0, 'pi/2', None), (3, 2, 'l_3', 'l_3'))


def cell_edits(robot):
    rows = proc.TINY[SIBLINGS.get(robot, robot)]['rows']
    return [j for j, (r, c, v, _) in enumerate(CELLS)
            if str(rows[r][c]) != v and not str(rows[r][c]).startswith(('th', 'd_'))]


def close_pair(rng):
    r = rng.choice(sorted(FAMILY))
    return [r, rng.choice(FAMILY[r])]


def variant(robot, v):
    """The robot table entry `robot` after edits by the user: v = {'dh': n, 'pv': n, 'extra': bool}."""
    v = v or {}
    robot = SIBLINGS.get(robot, robot)
    if robot not in proc.TINY:
        return {'base': robot, 'pv': v.get('pv', 0), 'extra': bool(v.get('extra'))}
    s = json.loads(json.dumps(proc.TINY[robot]))
    if v.get('dh', 0) > 1:
        r, c, x, q = CELLS[v['dh'] - 2]
        s['rows'][r][c] = x
        if q and q not in s['params']:
            s['params'] = s['params'] + [q]
            s['pvals'][q] = 1.25
    elif v.get('dh'):
        r = s['rows']
        if robot in ('PP', 'RP'):
            r[1][0] = {'PP': 'pi/2', 'RP': '-pi/2'}[robot]
        elif robot == 'PRal':
            r[1][0] = 'al_2'
            s['params'] = ['l_1', 'al_2']
            s['pvals'] = {'l_1': 0.5, 'al_2': 0.6}
        else:
            r[1][1] = 'l_2'
            s['params'] = ['l_2']
            s['pvals'] = {'l_2': 1.5}
    if v.get('vv'):             # the kind of a joint corrected (enters the Jacobian)
        j = v['vv'] % 6
        s['vv'][j] = 1 - s['vv'][j]
    if v.get('unk') == 1:       # the list of unknowns in another order
        s['unknowns'] = s['unknowns'][::-1]
    elif v.get('unk'):          # one forgotten or added
        s['unknowns'] = s['unknowns'][:-1] if v['unk'] == 2 else s['unknowns'][1:]
    if v.get('pv'):
        for k in s['pvals']:
            s['pvals'][k] = round(s['pvals'][k] + 0.125 * v['pv'], 6)
    if v.get('extra'):
        s['params'] = s['params'] + ['h']
        if s['pvals'] or True:
            s['pvals'] = dict(s['pvals'], h=3)
    return s


def sha(b):
    return None if b is None else hashlib.sha256(b).hexdigest()[:16]


def is_cache(path):
    return path.startswith('fk_eqns')


class FCheck(Check):
    level = 'fault_enumeration'
    quick_runs = 400
    thorough_runs = 20000
    quick_cap = 200.0
    run_limit = 300.0
    selftest = 24
    shrink_s = 60.0
    robots = ROBOTS
    real_robots = ()
    components = {
        'real': ['ikSolver.py and fkOnly.py run unmodified by runpy in forked processes', 'kinematics cache code',
                 'LaTeX/Python/C++ writers', 'CPython io buffering layers, pickle', 'b3, all solver leaves'],
        'stub': ['disk below the raw file (gated real scratch directory + durability model)', 'process scheduler',
                 'os.getpid', 'clock, sleep, uuid', 'robot table entries for small test arms',
                 'sympy.simplify/trigsimp results remembered between runs (pure functions)']}
    assumptions = ['a file operation is atomic except write, which may be short or torn at any byte',
                   'power failure keeps a prefix of the directory journal and, per file, what was fsynced plus a '
                   'possibly torn prefix of later writes or its last size with only some blocks of them; fsync commits the journal (ext4 ordered-mode like)',
                   'rename replaces atomically']

    # -- preparation: remember the results of sympy's expensive pure functions
    def prepare(self, scratch, tier, seed):
        self.scratch = scratch
        memo_path = os.path.join(scratch, 'memo.pickle')
        # computed in a child so that the worker's interpreter stays as fresh as a new process
        import pickle
        import subprocess
        procs = []
        for r in list(self.robots) + list(self.real_robots):
            env = dict(os.environ, VERIF_CHILD='1')
            code = ("import sys; sys.path.insert(0, %r)\nfrom sim import files\nfiles.warm(%r, %r)\n"
                    % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), r,
                       os.path.join(scratch, 'memo_%s.pickle' % r)))
            procs.append((r, subprocess.Popen([sys.executable, '-c', code], env=env,
                                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for r, p in procs:
            _, err = p.communicate(timeout=600)
            if p.returncode:
                print('memo for %s not available: %s' % (r, err.decode()[-400:]), file=sys.stderr)
        return {'scratch': scratch}

    def setup_worker(self, prep):
        import pickle
        self.scratch = prep['scratch']
        proc.preload()
        proc.install_memo()
        for r in list(self.robots) + list(self.real_robots):
            p = os.path.join(self.scratch, 'memo_%s.pickle' % r)
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    proc.MEMO.update(pickle.load(f))
        self.refs = {}
        with open(os.path.join(REPO, 'LaTex', 'IK_preamble.tex'), 'rb') as f:
            self.pre = f.read()
        with open(os.path.join(REPO, 'LaTex', 'IK_close.tex'), 'rb') as f:
            self.clo = f.read()

    # -- running
    def fresh_dir(self):
        d = tempfile.mkdtemp(prefix='fs_', dir=self.scratch)
        for x in ('LaTex', 'CodeGen/Python', 'CodeGen/Cpp'):
            os.makedirs(os.path.join(d, x))
        for n, c in (('IK_preamble.tex', self.pre), ('IK_close.tex', self.clo)):
            with open(os.path.join(d, 'LaTex', n), 'wb') as f:
                f.write(c)
        return os.path.realpath(d)

    def start(self, k, name, prog, robot, var=None, pid=None):
        table = {robot: variant(robot, var)}

        def fn():
            proc.install_robots(table)
            return proc.run_program(prog, [robot], k.root)
        return k.spawn(name, fn, pid=pid)

    def drive(self, k, p, faults=(), out=None):
        """Run one process to its end.  faults: list of {'at','among','do',...}; returns fired list."""
        fired = []
        counts = p.counts = {'all': 0, 'mut': 0, 'write': 0, 'read': 0, 'cache': 0}
        sticky = None
        while p.status is None:
            m = p.pending
            mut = m['op'] in ('write', 'fsync', 'rename', 'unlink', 'mkdir', 'rmdir', 'link', 'ftruncate') or \
                (m['op'] == 'open' and m.get('flags', 0) & (O_ACC | os.O_CREAT | os.O_TRUNC))
            cats = ['all']
            if mut:
                cats.append('mut')
            if m['op'] == 'write':
                cats.append('write')
            if m['op'] in ('read', 'open') and not mut:
                cats.append('read')
            if is_cache(m['path']) and m['path'] != 'fk_eqns':
                cats.append('cache')
            action = None
            for f in faults:
                if f.get('fired') or f['among'] not in cats or counts[f['among']] != f['at']:
                    continue
                f['fired'] = True
                fired.append((f['do'], m['op'], m['path']))
                if f['do'] in ('kill', 'power'):
                    if f.get('frac') and k.tear(p, f['frac']):
                        out.stats['fault:torn write'] += 1
                    if p.status is None:
                        k.kill(p)
                    return fired
                if f['do'] == 'err':
                    action = {'a': 'err', 'errno': getattr(errno, f['errno'])}
                    if f.get('sticky'):
                        sticky = f
                elif f['do'] == 'short' and m['op'] == 'write':
                    action = {'a': 'short', 'n': int(len(m['data']) * f.get('frac', 0.5))}
                if action:
                    break
            if action is None and sticky is not None and mut and m['op'] in ('write', 'open', 'mkdir'):
                action = {'a': 'err', 'errno': getattr(errno, sticky['errno'])}
                out.stats['fault:%s (sticky)' % sticky['errno']] += 1
            if m['op'] in ('start', 'exit', 'close', 'sleep', 'lock') and action and action['a'] == 'err':
                action = None
            for c in cats:
                counts[c] += 1
            if m['op'] == 'write' and action is None and not m['data']:
                pass
            k.step(p, action)
        return fired

    def reference(self, prog, robot, var, out):
        """The result of the program run once, alone, in a fresh directory, without faults."""
        key = (prog, robot, json.dumps(var or {}, sort_keys=True))
        if key in self.refs:
            return self.refs[key]
        d = self.fresh_dir()
        o = Outcome()
        k = Kernel(d, o)
        try:
            before = real_snapshot(d)
            p = self.start(k, 'ref', prog, robot, var)
            self.drive(k, p, (), o)
            after = real_snapshot(d)
            cold = warm = p.counts
            if p.status[0] == 'ok':
                k.resync()
                p2 = self.start(k, 'ref2', prog, robot, var)
                self.drive(k, p2, (), o)
                warm = p2.counts
        finally:
            k.close()
            shutil.rmtree(d, ignore_errors=True)
        files = {f: c for f, c in after.items() if c is not None and before.get(f) != c}
        nmut = p.nmut
        ref = {'status': p.status, 'files': files, 'nops': p.nops, 'nmut': nmut, 'cold': cold, 'warm': warm,
               'out': {f: c for f, c in files.items() if not is_cache(f)}, 'trace': p.trace}
        self.refs[key] = ref
        return ref

    def place(self, k, f, ref, robot):
        """Turn a fault's relative position into an operation number of the run about to start."""
        f = dict(f)
        c = ref['warm' if self.cache_files(k, robot) else 'cold']
        f['at'] = int(f['pos'] * max(1, c.get(f['among'], 1)))
        return f

    def cache_files(self, k, r):
        d = os.path.join(k.root, 'fk_eqns')
        if not os.path.isdir(d):
            return []
        def has(f, n):
            return f.startswith(n + '_') or f.startswith(n + '.')
        longer = [n for n in list(SIBLINGS) + list(ROBOTS) if n != r and n.startswith(r)]
        return [os.path.join('fk_eqns', f) for f in sorted(os.listdir(d))
                if has(f, r) and not any(has(f, n) for n in longer)]

    def need_reference(self, prog, robot, var, out):
        ref = self.reference(prog, robot, var, out)
        if ref['status'][0] == 'harness':
            raise RuntimeError(ref['status'][1])
        if ref['status'][0] != 'ok' or not ref['out']:
            out.violate('plain run fails', '%s %s %s alone in a fresh directory: %s' % (prog, robot, var, ref['status']))
            return None
        return ref

    def compare(self, k, ref, what, out, cls='wrong output'):
        snap = real_snapshot(k.root)
        for f, c in sorted(ref['out'].items()):
            got = snap.get(f)
            if got != c:
                where = ''
                if got is not None:
                    a, b = got.split(b'\n'), c.split(b'\n')
                    for j in range(max(len(a), len(b))):
                        x = a[j] if j < len(a) else b'<end of file>'
                        y = b[j] if j < len(b) else b'<end of file>'
                        if x != y:
                            where = 'line %d is %r, should be %r' % (j + 1, x[:120], y[:120])
                            break
                else:
                    where = 'is missing'
                out.violate(cls, '%s: %s %s' % (what, f, where))
                return False
        return True

    def check_end(self, p, what, out, want='ok'):
        st = p.status
        if st[0] == 'harness':
            raise RuntimeError(st[1])
        if st[0] == 'hang':
            if 'file operations' in st[1]:
                out.violate('run does not end', '%s: %s' % (what, st[1]))
            else:
                out.inconclusive = st[1]
            return False
        if st[0] != want:
            out.violate('run fails', '%s: ended with %s %s' % (what, st[0], st[1][:700]))
            return False
        return True

    def execute(self, scn):
        out = Outcome()
        d = self.fresh_dir()
        k = Kernel(d, out)
        try:
            self.run(scn, k, out)
            out.simtime = k.clock
        finally:
            k.close()
            shutil.rmtree(d, ignore_errors=True)
        for s in list(out.stats):
            if not out.stats[s]:
                del out.stats[s]
        return out

    def power(self, k, seed, out):
        for p in k.procs:
            if p.status is None:
                k.kill(p)
        st = k.disk.power_loss(random.Random('%s/power' % seed))
        lost = {f for f in k.disk.snapshot() if f not in st} | \
               {f for f, c in k.disk.snapshot().items() if c is not None and st.get(f) != c}
        out.stats['fault:power loss'] += 1
        if lost:
            out.stats['probe:power loss lost something'] += 1
        k.disk.materialise(st)
        from .simfs import Disk
        k.disk = Disk(k.root)
        out.ev('power loss', sorted((f, sha(c)) for f, c in st.items()))

    def prior(self, k, scn, out):
        for j, r in enumerate(scn.get('prior') or []):
            p = self.start(k, 'prior%d' % j, r['prog'], r['robot'], r.get('var'))
            self.drive(k, p, (), out)
            if not self.check_end(p, 'earlier fault-free run %s %s' % (r['prog'], r['robot']), out):
                return False
            k.resync()
        # what happened before the faults start is on disk
        from .simfs import Disk
        k.disk = Disk(k.root)
        return True

    def final_runs(self, k, runs, out, cls):
        for j, r in enumerate(runs):
            ref = self.need_reference(r['prog'], r['robot'], r.get('var'), out)
            if ref is None:
                return False
            what = 'fault-free run %d (%s %s) after the faults' % (j, r['prog'], r['robot'])
            p = self.start(k, 'after%d' % j, r['prog'], r['robot'], r.get('var'), pid=r.get('pid'))
            self.drive(k, p, (), out)
            if not self.check_end(p, what, out):
                return False
            if not self.compare(k, ref, what, out, cls):
                return False
            k.resync()
        return True

    def pick_robot(self, rng):
        return rng.choice(self.robots)

    # generic shrinking over the lists/flags these scenarios use
    def shrink(self, scn):
        for key in ('prior', 'crashes', 'after', 'ops', 'faults', 'procs'):
            lst = scn.get(key)
            if lst:
                for j in range(len(lst)):
                    s = dict(scn)
                    s[key] = lst[:j] + lst[j + 1:]
                    if s[key] or key in ('prior', 'faults', 'crashes'):
                        yield s
        if scn.get('sched'):
            n = len(scn['sched'])
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    yield dict(scn, sched=scn['sched'][:a] + scn['sched'][a + size:])
                size //= 2
            for j in range(min(n, 60)):
                if scn['sched'][j]:
                    s = list(scn['sched'])
                    s[j] = 0
                    yield dict(scn, sched=s)
        for key in ('crashes', 'faults'):
            for j, f in enumerate(scn.get(key) or []):
                if f.get('frac'):
                    yield dict(scn, **{key: scn[key][:j] + [dict(f, frac=0)] + scn[key][j + 1:]})
                if f.get('sticky'):
                    yield dict(scn, **{key: scn[key][:j] + [dict(f, sticky=False)] + scn[key][j + 1:]})
                if f.get('do') == 'power':
                    yield dict(scn, **{key: scn[key][:j] + [dict(f, do='kill')] + scn[key][j + 1:]})
        small = json.dumps(scn)
        for r in ('RRx', 'PRal', 'RPl', 'RP'):
            if '"%s"' % r in small:
                yield json.loads(small.replace('"%s"' % r, '"PP"'))
                if r != 'RP':
                    yield json.loads(small.replace('"%s"' % r, '"RP"'))


class F01(FCheck):
    pid = 'F01'
    quick_runs = 700
    rule = ('one or two crashes (process kill before/inside/after a file operation, or power loss with a seeded '
            'surviving disk state) of ikSolver/fkOnly on small arms, cold or warm; then fault-free runs which must '
            'end normally and reproduce the reference output byte for byte; non-trivial = a crash fired')

    def gen(self, rng, i, tier):
        r = self.pick_robot(rng)
        scn = {'robot': r, 'prior': [], 'crashes': [], 'after': []}
        if rng.random() < 0.35:
            scn['prior'].append({'prog': rng.choice(PROGS), 'robot': r})
        for _ in range(rng.choice([1, 1, 1, 2])):
            prog = rng.choice(PROGS)
            among = rng.choice(['mut', 'mut', 'mut', 'cache', 'cache', 'all'])
            c = {'prog': prog, 'pos': round(rng.random(), 4), 'among': among, 'do': rng.choice(['kill', 'power', 'power']),
                 'frac': rng.choice([0, 0, 0.1, 0.5, 0.9, 0.999]), 'rng': rng.randrange(1 << 30)}
            if c['do'] == 'power' and rng.random() < 0.2:
                c['pos'] = 1.0          # the power fails after the program has ended
            scn['crashes'].append(c)
        if rng.random() < 0.4:
            scn['samepid'] = True
        for _ in range(rng.choice([1, 1, 2, 3])):
            scn['after'].append({'prog': rng.choice(PROGS), 'robot': r})
        return scn

    def run(self, scn, k, out):
        if not self.prior(k, scn, out):
            return
        n = 0
        for j, c in enumerate(scn['crashes']):
            ref = self.need_reference(c['prog'], scn['robot'], None, out)
            if ref is None:
                return
            c = self.place(k, c, ref, scn['robot'])
            p = self.start(k, 'crash%d' % j, c['prog'], scn['robot'], pid=77 if scn.get('samepid') else None)
            fired = self.drive(k, p, [c], out)
            k.resync()
            if fired:
                n += 1
                out.stats['fault:process killed'] += 1
                out.stats['probe:crash at %s' % fired[0][1]] += 1
                if is_cache(fired[0][2]):
                    out.stats['probe:crash while storing the cache'] += 1
            elif p.status[0] != 'ok':
                self.check_end(p, 'run with a crash point it did not reach', out)
                return
            if c['do'] == 'power':
                if not fired:
                    n += 1
                    out.stats['probe:power loss after the end'] += 1
                self.power(k, c['rng'], out)
            out.states.add(h8(sorted((f, sha(x)) for f, x in real_snapshot(k.root).items())))
        out.nontrivial = n > 0
        self.final_runs(k, [dict(a, pid=77 if scn.get('samepid') else None) for a in scn['after']], out,
                        'wrong output after crash')


class F02(FCheck):
    pid = 'F02'
    level = 'exploration'
    quick_runs = 450
    rule = ('histories of 3-8 actions: runs of both programs on several arms, edits of parameter values, parameter '
            'lists and DH tables, cache deletion, truncation, garbage, unreadable cache (EIO/EACCES/ESTALE on open or read); '
            'every run must equal a run in a fresh directory, or refuse and touch no output when the DH table differs '
            'from the cached one; non-trivial = a run met a cache')

    real_robots = ('Arm_3', 'Olson13', 'Wrist')        # has sum-of-angle unknowns, which the cache must keep

    def gen(self, rng, i, tier):
        robots = rng.sample(self.robots, rng.choice([1, 1, 2]))
        if rng.random() < 0.3:
            robots = close_pair(rng)
        cells = rng.random() < 0.4
        if cells:       # edits of single DH cells; mostly on the cheapest arms
            robots = [rng.choice(['PP', 'PP', 'PP', 'RP', 'RPl', 'PRal', 'RRx'] if rng.random() < 0.3 else ['PP', 'xPP', 'RP'])]
        if rng.random() < 0.04:
            robots = [rng.choice(self.real_robots)]
            ops = [{'op': 'run', 'prog': rng.choice(PROGS), 'robot': robots[0]},
                   {'op': 'edit', 'robot': robots[0], 'var': {'pv': rng.randrange(4), 'extra': rng.random() < 0.4}},
                   {'op': 'run', 'prog': 'ikSolver.py', 'robot': robots[0]}]
            return {'ops': ops}
        ops = []
        for _ in range(rng.randint(3, 8)):
            r = rng.choice(robots)
            x = rng.random()
            if x < 0.55 or not ops:
                ops.append({'op': 'run', 'prog': rng.choice(PROGS), 'robot': r})
            elif x < 0.68:
                ops.append({'op': 'edit', 'robot': r, 'var': {'pv': rng.randrange(4), 'extra': rng.random() < 0.4,
                                                              'keepdh': True}})
                if rng.random() < 0.4:      # ... the kinds of the joints, the unknowns
                    ops[-1]['var'].update(rng.choice([{'vv': rng.randint(1, 6)}, {'unk': rng.randint(1, 3)}]))
            elif x < (0.9 if cells else 0.76):
                ops.append({'op': 'edit', 'robot': r, 'var': {'dh': rng.randrange(2)}})
                if cells:
                    ops[-1]['var']['dh'] = rng.choice([0] + [2 + j for j in cell_edits(r)] * 2)
                    if rng.random() < 0.5:
                        ops.append({'op': 'rmcache', 'robot': r})
                    ops.append({'op': 'run', 'prog': rng.choice(PROGS), 'robot': r})
            elif x < 0.81:
                ops.append({'op': 'rmcache', 'robot': r})
            elif x < 0.92:
                ops.append({'op': 'damage', 'robot': r, 'how': rng.choice(['empty', 'trunc', 'trunc', 'garbage', 'text']),
                            'frac': rng.random()})
            else:
                ops.append({'op': 'run', 'prog': rng.choice(PROGS), 'robot': r,
                            'unreadable': rng.choice(['EIO', 'EACCES', 'ESTALE']), 'at': rng.randrange(3)})
        if ops[-1]['op'] != 'run':
            ops.append({'op': 'run', 'prog': rng.choice(PROGS), 'robot': rng.choice(robots)})
        return {'ops': ops}

    def run(self, scn, k, out):
        var = {}
        cached = {}          # robot -> dh variant of the valid cache, or None
        met = 0
        for j, op in enumerate(scn['ops']):
            r = op['robot']
            v = var.setdefault(r, {})
            if op['op'] == 'edit':
                nv = dict(op['var'])
                if nv.pop('keepdh', None):
                    nv['dh'] = v.get('dh', 0)
                var[r] = {x: y for x, y in nv.items() if y}
                out.stats['probe:robot table edited'] += 1
                continue
            cname = self.cache_files(k, r)
            if op['op'] == 'rmcache':
                for c in cname:
                    os.unlink(os.path.join(k.root, c))
                cached.pop(r, None)
                k.disk.__init__(k.root)
                continue
            if op['op'] == 'damage':
                for c in cname:
                    pth = os.path.join(k.root, c)
                    with open(pth, 'rb') as f:
                        data = f.read()
                    if op['how'] == 'empty':
                        data = b''
                    elif op['how'] == 'trunc':
                        data = data[:max(0, min(len(data) - 1, int(len(data) * op['frac'])))]
                    elif op['how'] == 'garbage':
                        data = bytes(random.Random(op['frac']).randrange(256) for _ in range(200))
                    else:
                        data = b'not a pickle\n'
                    with open(pth, 'wb') as f:
                        f.write(data)
                    out.stats['fault:cache ' + op['how']] += 1
                    cached.pop(r, None)
                k.disk.__init__(k.root)
                out.ev('damage', r, op['how'])
                continue
            ref = self.need_reference(op['prog'], r, v, out)
            if ref is None:
                return
            what = 'action %d: %s %s with table %s' % (j, op['prog'], r, v)
            before = real_snapshot(k.root)
            stale = r in cached and cached[r] != v.get('dh', 0)
            if r in cached:
                met += 1
                out.stats['probe:run met a cache'] += 1
            p = self.start(k, 'run%d' % j, op['prog'], r, v)
            faults = []
            if op.get('unreadable'):
                faults = [{'at': n, 'among': 'cacheread', 'do': 'err', 'errno': op['unreadable']}
                          for n in range(op['at'], op['at'] + 1)]
            fired = self.drive_reads(k, p, op, out) if faults else self.drive(k, p, (), out)
            if fired:
                out.stats['fault:cache unreadable'] += 1
                if stale:       # it could not see that the cache is out of date: recomputing is right
                    stale = False
                    if p.status[0] == 'quit':
                        stale = True
            if stale:
                out.stats['probe:stale cache refused'] += 1
                if p.status[0] == 'exception':      # refusing by an exception is refusing
                    p.status = ('quit', p.status[1])
                if not self.check_end(p, what + ' (cache holds another DH table)', out, 'quit'):
                    if p.status[0] == 'ok' and self.compare(k, ref, what, Outcome()):
                        # refusing is one right answer; computing the right result is another
                        out.viol[:] = []
                        cached[r] = v.get('dh', 0) if self.still(k, r) else None
                        continue
                    return
                after = real_snapshot(k.root)
                for f in ref['out']:
                    if before.get(f) != after.get(f):
                        out.violate('stale output', '%s: refused the stale cache but wrote %s' % (what, f))
                        return
                k.resync()
                continue
            if not self.check_end(p, what, out):
                return
            if not self.compare(k, ref, what, out, 'result depends on the cache'):
                return
            if self.cache_files(k, r):
                cached[r] = v.get('dh', 0)
            else:
                cached.pop(r, None)
            k.resync()
            out.states.add(h8(sorted((f, sha(x)) for f, x in real_snapshot(k.root).items() if x is not None)))
        out.nontrivial = met > 0

    def still(self, k, r):
        return bool(self.cache_files(k, r))

    def drive_reads(self, k, p, op, out):
        fired = []
        n = 0
        while p.status is None:
            m = p.pending
            act = None
            if is_cache(m['path']) and (m['op'] == 'read' or (m['op'] == 'open' and not m.get('flags', 0) & O_ACC)):
                if n >= op['at']:
                    act = {'a': 'err', 'errno': getattr(errno, op['unreadable'])}
                    fired.append(m['op'])
                n += 1
            k.step(p, act)
        return fired


class F03(FCheck):
    pid = 'F03'
    level = 'exploration'
    quick_runs = 350
    rule = ('2-3 processes (both programs, same or different arms) started together on one directory, cold or warm, '
            'interleaved at every file operation by the seeded scheduler, sometimes one stalls for good or is killed; '
            'every surviving run must end normally with the output of a solitary run, and a later run too; '
            'non-trivial = at least two processes made operations in the shared cache directory while both alive')

    def gen(self, rng, i, tier):
        robots = rng.sample(self.robots, 2)
        if rng.random() < 0.3:
            robots = close_pair(rng)
        procs = []
        n = rng.choice([2, 2, 2, 3, 3, 4] if tier == 'thorough' else [2, 2, 2, 3])
        for _ in range(n):
            procs.append({'prog': rng.choice(PROGS), 'robot': robots[0] if rng.random() < 0.75 else robots[1]})
        scn = {'procs': procs, 'prior': [], 'faults': []}
        if rng.random() < 0.25:
            scn['prior'].append({'prog': rng.choice(PROGS), 'robot': robots[0]})
        style = rng.choice(['uniform', 'bursts', 'lockstep'])
        sched = []
        while len(sched) < 260:
            if style == 'uniform':
                sched.append(rng.randrange(n))
            elif style == 'bursts':
                sched += [rng.randrange(n)] * rng.randint(1, 14)
            else:
                sched += list(range(n))
                if rng.random() < 0.1:
                    sched += [rng.randrange(n)] * rng.randint(1, 5)
        scn['sched'] = sched[:260]
        if rng.random() < 0.35:
            scn['faults'].append({'proc': rng.randrange(n), 'at': rng.randrange(40), 'do': rng.choice(['kill', 'stall'])})
        return scn

    def run(self, scn, k, out):
        if not self.prior(k, scn, out):
            return
        ps = []
        refs = []
        for j, r in enumerate(scn['procs']):
            ref = self.need_reference(r['prog'], r['robot'], None, out)
            if ref is None:
                return
            refs.append(ref)
        for j, r in enumerate(scn['procs']):
            ps.append(self.start(k, 'p%d' % j, r['prog'], r['robot']))
        stalled = set()
        overlap = set()
        pos = 0
        switches = 0
        last = None
        while True:
            live = [p for p in ps if p.status is None and p not in stalled]
            if not live:
                break
            c = scn['sched'][pos] if pos < len(scn['sched']) else 0
            pos += 1
            # the slot names a process; if it is gone the next live one goes
            cand = ps[c % len(ps)]
            if cand not in live:
                cand = live[c % len(live)]
            for f in scn['faults']:
                if not f.get('fired') and ps[f['proc'] % len(ps)] is cand and cand.nops == f['at']:
                    f['fired'] = True
                    if f['do'] == 'kill':
                        out.stats['fault:process killed'] += 1
                        k.kill(cand)
                    else:
                        out.stats['fault:process stalled'] += 1
                        stalled.add(cand)
                    cand = None
                    break
            if cand is None:
                continue
            if cand is not last:
                switches += 1
                last = cand
            if is_cache(cand.pending['path']):
                for q in ps:
                    if q is not cand and q.status is None:
                        overlap.add((cand.name, q.name))
            k.step(cand)
        out.stats['probe:process switches'] += switches
        out.nontrivial = any((b, a) in overlap for a, b in overlap)
        out.states.add(h8([e for e in out.log if ' cached' not in e][:400]))
        dead = [j for j, p in enumerate(ps) if p.status is None or p.status[0] == 'killed']
        for j, p in enumerate(ps):
            if j in dead:
                continue
            what = 'concurrent run %d (%s %s)' % (j, scn['procs'][j]['prog'], scn['procs'][j]['robot'])
            if not self.check_end(p, what, out):
                return
        for j, p in enumerate(ps):
            if j in dead or any(scn['procs'][d] == scn['procs'][j] for d in dead):
                continue
            what = 'concurrent run %d (%s %s)' % (j, scn['procs'][j]['prog'], scn['procs'][j]['robot'])
            if not self.compare(k, refs[j], what, out, 'wrong output of a concurrent run'):
                return
        for p in ps:
            if p.status is None:
                k.kill(p)
        k.resync()
        self.final_runs(k, [scn['procs'][0], scn['procs'][-1]], out, 'wrong output after concurrent runs')


class F04(FCheck):
    pid = 'F04'
    quick_runs = 700
    rule = ('one run with 1-3 injected disk faults (ENOSPC, EIO, EACCES, EROFS, EMFILE, EDQUOT, short writes, a disk '
            'that stays full) at seeded operations; if the run ends normally its output must be complete and equal '
            'to the reference; failures that only hit the storing of the cache must not stop the run; a later fault-free run '
            'must succeed; non-trivial = a fault fired')

    def gen(self, rng, i, tier):
        r = self.pick_robot(rng)
        prog = rng.choice(PROGS)
        scn = {'robot': r, 'prog': prog, 'prior': [], 'faults': [], 'after': []}
        if rng.random() < 0.4:
            scn['prior'].append({'prog': rng.choice(PROGS), 'robot': r})
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            among = rng.choice(['mut', 'mut', 'write', 'write', 'cache', 'read', 'all'])
            do = 'short' if rng.random() < 0.2 else 'err'
            f = {'among': 'write' if do == 'short' else among,
                 'pos': round(rng.random(), 4), 'do': do}
            if do == 'err':
                f['errno'] = rng.choice(['EIO', 'EACCES'] if among == 'read' else
                                        ['ENOSPC', 'ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EMFILE', 'EDQUOT'])
                f['sticky'] = f['errno'] in ('ENOSPC', 'EROFS') and rng.random() < 0.4
            else:
                f['frac'] = rng.choice([0.01, 0.3, 0.7])
            scn['faults'].append(f)
        scn['after'] = [{'prog': rng.choice(PROGS), 'robot': r} for _ in range(rng.choice([1, 1, 2]))]
        return scn

    def run(self, scn, k, out):
        if not self.prior(k, scn, out):
            return
        ref = self.need_reference(scn['prog'], scn['robot'], None, out)
        if ref is None:
            return
        # stale leftovers would hide a missing output file
        p = self.start(k, 'run', scn['prog'], scn['robot'])
        fl = [self.place(k, f, ref, scn['robot']) for f in scn['faults']]
        fired = self.drive(k, p, fl, out)
        for f in fl:
            if f.get('fired'):
                out.stats['fault:%s' % (f.get('errno') or 'short write')] += 1
        out.nontrivial = bool(fired)
        what = '%s %s with faults %s' % (scn['prog'], scn['robot'], fired)
        st = p.status[0]
        if st == 'harness':
            raise RuntimeError(p.status[1])
        if st in ('hang', 'died'):
            self.check_end(p, what, out)
            return
        if st in ('ok', 'quit'):
            out.stats['probe:ended normally despite faults'] += bool(fired)
            if not self.compare(k, ref, what + ' ended normally', out, 'silent loss of output'):
                return
        else:
            out.stats['probe:failed visibly'] += 1
            errs = [f for f in fired if f[0] == 'err']
            # an injected error which only hits the storing (or reading) of the cache file is not fatal
            if errs and all(is_cache(f[2]) and f[2] != 'fk_eqns' and f[1] in ('write', 'fsync', 'rename', 'open')
                            for f in errs) and not any(x.get('sticky') for x in scn['faults']):
                out.violate('cache failure stops the run', '%s: %s' % (what, p.status[1][:600]))
                return
            if not errs:
                out.violate('run fails', '%s: %s' % (what, p.status[1][:600]))
                return
        out.states.add(h8((st, fired)))
        k.resync()
        self.final_runs(k, scn['after'], out, 'wrong output after disk errors')


class F05(FCheck):
    pid = 'F05'
    level = 'exploration'
    quick_runs = 350
    rule = ('histories of 2-5 runs over 2-3 arms and both programs in one directory, with kills and disk errors; after '
            'every file operation no file outside the running program\'s own reference set has changed, and after a '
            'normal end nothing but that set was added; non-trivial = two different arms or programs ran')

    def gen(self, rng, i, tier):
        robots = rng.sample(self.robots, rng.choice([2, 2, 3]))
        if rng.random() < 0.5:
            robots = close_pair(rng)
        ops = []
        for _ in range(rng.randint(2, 5)):
            o = {'prog': rng.choice(PROGS), 'robot': rng.choice(robots), 'faults': []}
            if rng.random() < 0.4:
                o['faults'].append(rng.choice([
                    {'among': 'mut', 'pos': round(rng.random(), 4), 'do': 'kill', 'frac': rng.choice([0, 0.5])},
                    {'among': 'mut', 'pos': round(rng.random(), 4), 'do': 'err', 'errno': 'ENOSPC'},
                    {'among': 'cache', 'pos': round(rng.random(), 4), 'do': 'err', 'errno': 'EIO'}]))
            ops.append(o)
        return {'ops': ops}

    def run(self, scn, k, out):
        out.nontrivial = len(set((o['prog'], o['robot']) for o in scn['ops'])) > 1
        sets = {}
        for o in scn['ops']:
            ref = self.need_reference(o['prog'], o['robot'], None, out)
            if ref is None:
                return
            sets[o['prog'], o['robot']] = ref
        for a in sorted(sets):
            for b in sorted(sets):
                both = set(sets[a]['files']) & set(sets[b]['files'])
                if a[1] == b[1]:
                    both = {f for f in both if not is_cache(f)}
                if a < b and both:
                    out.violate('two runs write the same file', '%s and %s both write %s' % (a, b, sorted(both)))
                    return
        for j, o in enumerate(scn['ops']):
            ref = self.need_reference(o['prog'], o['robot'], None, out)
            if ref is None:
                return
            own = set(ref['files'])
            before = real_snapshot(k.root)
            mine = [f for f in own if is_cache(f)]
            protected = {f: c for f, c in before.items() if c is not None and f not in own and
                         not any(f.startswith(m) for m in mine)}
            what = 'run %d (%s %s)' % (j, o['prog'], o['robot'])
            bad = []

            def on_op(kk, p, m, protected=protected, bad=bad):
                if bad or 'note' in m and m['note'] == 'opened' and not m['flags'] & O_ACC:
                    return
                for path in (m.get('path'), m.get('dst')):
                    if path in protected:
                        full = os.path.join(kk.root, path)
                        try:
                            with open(full, 'rb') as f:
                                now = f.read()
                        except OSError:
                            now = None
                        if now != protected[path]:
                            bad.append('%s changed by %s' % (path, m.get('op') or m.get('note')))
            k.on_op = on_op
            p = self.start(k, 'run%d' % j, o['prog'], o['robot'])
            fired = self.drive(k, p, [self.place(k, f, ref, o['robot']) for f in o['faults']], out)
            k.on_op = None
            for f in fired:
                out.stats['fault:' + {'kill': 'process killed', 'err': 'disk error'}[f[0]]] += 1
            k.resync()
            after = real_snapshot(k.root)
            for f, c in protected.items():
                if after.get(f) != c:
                    bad.append('%s differs afterwards' % f)
            if bad:
                out.violate('foreign file changed', '%s: %s' % (what, bad[0]))
                return
            if p.status[0] == 'harness':
                raise RuntimeError(p.status[1])
            if p.status[0] == 'ok':
                extra = [f for f, c in after.items() if f not in before and c is not None and f not in own]
                if extra and not fired:
                    out.violate('stray file', '%s: left %s' % (what, extra))
                    return
                if not self.compare(k, ref, what, out):
                    return
            elif not fired:
                self.check_end(p, what, out)
                return
            out.states.add(h8(sorted((f, sha(x)) for f, x in after.items() if x is not None)))


def warm(robot, path):
    """Compute and store sympy results used by one arm (runs in its own process)."""
    import pickle
    proc.preload()
    proc.install_memo()
    d = tempfile.mkdtemp(prefix='warm_', dir=os.path.dirname(path))
    for x in ('LaTex', 'CodeGen/Python', 'CodeGen/Cpp'):
        os.makedirs(os.path.join(d, x))
    for n in ('IK_preamble.tex', 'IK_close.tex'):
        shutil.copy(os.path.join(REPO, 'LaTex', n), os.path.join(d, 'LaTex', n))
    sys.stdout = open(os.devnull, 'w')
    simclock.start(1000000.0)
    for v in ({}, {'dh': 1}):
        proc.install_robots({robot: variant(robot, v)})
        shutil.rmtree(os.path.join(d, 'fk_eqns'), ignore_errors=True)
        for prog in PROGS:
            proc.run_program(prog, [robot], d)
    simclock.stop()
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(proc.MEMO, f)
    os.replace(path + '.tmp', path)


CHECKS = {c.pid: c for c in (F01, F02, F03, F04, F05)}
