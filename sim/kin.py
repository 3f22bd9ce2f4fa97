"""Family K: whole solver runs (ikSolver.py) under permuted schedules and tool outages, with numeric
invariants checked after every leaf tick against an oracle that does not use the repository's algebra."""
import ast
import builtins
import contextlib
import hashlib
import io
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

from . import numeric as nu
from . import proc, simclock
from .runner import Check, Outcome, REPO, VERIF, h8

FAST = ['Wrist', 'Palm13', 'ICP5p5_A21', 'Minder13', 'Bartell', 'Arm_3', 'Olson13', 'Brad']
MID = ['Axtman13', 'Chair_Helper', 'MiniDD']
SLOW = ['Craig417', 'Frei13', 'Sims11', 'Stanford']
THOROUGH = ['DZhang', 'Srisuan11', 'Wachtveitl', 'Mackler13', 'Parkman13', 'JennyGuoSp24']
TINY = ['PP', 'RP', 'RPl', 'RRx', 'PRal']
COMPLETE = ['Wrist', 'Palm13', 'ICP5p5_A21', 'Minder13', 'Bartell', 'Arm_3', 'Olson13', 'Brad', 'Axtman13',
            'Chair_Helper', 'MiniDD', 'RP', 'PP', 'RRx', 'RPl', 'PRal']
IDS = ['algebra_id', 'tan_id', 'sincos_id', 'simu_id', 'sinandcos_id', 'x2z2_transform']
SOLVERS = {'algebra_solve': 'algebra', 'rank': 'rank', 'simu_solver': 'simultaneous', 'sinandcos_solve': 'sinANDcos'}


# --------------------------------------------------------------------------------- directories and kinematics

def make_dir(d):
    for x in ('LaTex', 'CodeGen/Python', 'CodeGen/Cpp'):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    for n in ('IK_preamble.tex', 'IK_close.tex'):
        shutil.copy(os.path.join(REPO, 'LaTex', n), os.path.join(d, 'LaTex', n))


def cold_main(robot, d, prog=None):
    """(own process) cold kinematics, or a whole program run, in directory d; stdout is dropped."""
    proc.preload()
    proc.install_robots(proc.TINY)
    sys.stdout = open(os.devnull, 'w')
    simclock.start()
    if prog == 'both':
        st = proc.run_program('ikSolver.py', [robot], d)
        if st[0] == 'ok':
            st = proc.run_program('fkOnly.py', [robot], d)
    elif prog:
        st = proc.run_program(prog, [robot], d)
    else:
        os.chdir(d)
        import ikbtbasics.ik_classes as ikc
        dh, vv, params, pvals, unks = proc.robot_params(robot)
        ikc.kinematics_pickle(robot, dh, params, pvals, vv, unks, False)
        st = ('ok', '')
    sys.stderr.write('STATUS %s\n' % json.dumps(st))


def cold_popen(robot, d, prog=None, hashseed=None):
    env = dict(os.environ, VERIF_CHILD='1')
    if hashseed is not None:
        env['PYTHONHASHSEED'] = str(hashseed)
    code = ('import sys; sys.path.insert(0, %r)\nfrom sim import kin\nkin.cold_main(%r, %r, %r)\n'
            % (VERIF, robot, d, prog))
    return subprocess.Popen([sys.executable, '-c', code], env=env, stdout=subprocess.DEVNULL,
                            stderr=subprocess.PIPE)


def parallel(jobs, n=8, limit=700):
    """jobs: list of (key, function starting a Popen) -> {key: (returncode, stderr)}"""
    jobs = list(jobs)
    live, res = [], {}
    t0 = simclock.REAL['monotonic']()
    while jobs or live:
        while jobs and len(live) < n:
            k, f = jobs.pop(0)
            errf = tempfile.TemporaryFile()
            live.append((k, f(), errf))
        for item in list(live):
            k, p, errf = item
            try:
                _, err = p.communicate(timeout=0.2)
                res[k] = (p.returncode, err.decode('utf8', 'replace'))
                live.remove(item)
                errf.close()
            except subprocess.TimeoutExpired:
                pass
        if simclock.REAL['monotonic']() - t0 > limit:
            for k, p, errf in live:
                p.kill()
                res[k] = (-9, 'time limit')
            break
    return res


# --------------------------------------------------------------------------------- the monitor (in the child)

class StopRun(BaseException):
    pass


class Monitor(object):
    """Installed in the simulated process.  Perturbs the tree as the scenario says and checks invariants."""

    def __init__(self, scn, want, dh, mech_names):
        self.scn = scn
        self.want = want
        self.dh = dh
        self.vv = scn.get('_vv')
        self.viol = []
        self.log = []
        self.stats = {}
        self.states = []
        self.R = None
        self.bb = None
        self.ticks = 0
        self.calls = {}
        self.seen = {}          # unknown name -> record when solved
        self.order = []
        self.solver = {}        # unknown name -> leaf class that solved it
        self.eqseen = {}
        self.listseen = {}
        self.auxseen = 0
        self.root_status = None
        self.asg = []
        self.fair = {}
        self.names0 = None
        self.indet = set()
        rng = random.Random('%s/pose' % scn.get('pose'))
        self.poses = [nu.Pose(dh, None, rng) for _ in range(3)]
        self.eqposes = self.poses[:2]
        self.prism = set()
        self.angles = set()
        for r in dh:
            for s in r[2].free_symbols:
                self.prism.add(s.name)
            for s in r[3].free_symbols:
                self.angles.add(s.name)
        self.aux = []
        self.ended = False

    # -- reporting
    def bad(self, cls, detail, key=None):
        if len(self.viol) < 8 and not any(v[2] == (key or cls) for v in self.viol):
            self.viol.append((cls, str(detail)[:1400], key or cls))

    def hit(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- installation
    def install(self):
        import b3
        mon = self
        orig = b3.BehaviorTree.tick

        def tick(tree, target, bb):
            if mon.bb is not None:
                return orig(tree, target, bb)
            mon.begin(tree, bb)
            st = orig(tree, target, bb)
            mon.root_status = st
            mon.after_tree(tree, bb, st)
            return st
        b3.BehaviorTree.tick = tick

    def walk(self, node):
        out = [node]
        for c in getattr(node, 'children', None) or []:
            out += self.walk(c)
        c = getattr(node, 'child', None)
        if c is not None:
            out += self.walk(c)
        return out

    def begin(self, tree, bb):
        self.bb = bb
        self.R = bb.get('Robot')
        scn = self.scn
        nodes = self.walk(tree.root)
        if scn.get('prio'):
            k = 0
            for n in nodes:
                if type(n).__name__ in ('Priority', 'OrNode') and len(n.children) > 1:
                    keys = scn['prio'][k % len(scn['prio'])]
                    k += 1
                    n.children = [c for _, _, c in sorted((keys[j % len(keys)], j, c)
                                                          for j, c in enumerate(n.children))]
            self.hit('probe:tool order permuted')
        if scn.get('unks'):
            u = bb.get('unknowns')
            keys = scn['unks']
            u[:] = [x for _, _, x in sorted((keys[j % len(keys)], j, x) for j, x in enumerate(u))]
            self.hit('probe:unknown order permuted')
        done = set()
        self.shape = ','.join(type(n).__name__ for n in nodes)
        for n in nodes:
            if getattr(n, 'children', None) or getattr(n, 'child', None) or id(n) in done:
                continue
            done.add(id(n))
            self.wrap(n)
        self.log.append('unknowns ' + ' '.join(u.name for u in bb.get('unknowns')))
        self.snapshot_lists()
        self.check_all('start')

    def wrap(self, leaf):
        orig = leaf.tick
        name = type(leaf).__name__
        mon = self

        def tick(t):
            return mon.leaf_tick(leaf, name, orig, t)
        leaf.tick = tick

    def leaf_tick(self, leaf, name, orig, t):
        self.ticks += 1
        if self.ticks > 6000:
            self.bad('does not terminate', 'more than 6000 leaf ticks')
            raise StopRun()
        k = self.calls.get(name, 0)
        self.calls[name] = k + 1
        bb = t.blackboard
        if name in IDS:
            for o in self.scn.get('outages') or []:
                if o['leaf'] == name and o['from'] <= k < o['from'] + o['len']:
                    self.hit('fault:tool outage')
                    cu = bb.get('curr_unk')
                    self.log.append('%s down (%s)' % (name, cu.name if cu is not None else None))
                    return 'failure' if False else self.failure()
        before = bb.get('curr_unk')
        try:
            st = orig(t)
        except (AssertionError, Exception) as e:
            self.log.append('%s raised %s' % (name, type(e).__name__))
            raise
        cu = bb.get('curr_unk')
        self.log.append('%s %s -> %s' % (name, cu.name if cu is not None else None, st))
        self.after_leaf(name, st, before, cu, bb)
        return st

    def failure(self):
        import b3
        return b3.FAILURE

    # -- invariants
    def unknowns(self):
        return self.bb.get('unknowns')

    def after_leaf(self, name, st, before, cu, bb):
        R = bb.get('Robot')
        self.R = R
        unks = bb.get('unknowns')
        if 'fair' in self.want and name == 'assigner':
            self.fairness(unks, cu)
        fresh = []
        for u in unks:
            if u.solved and u.name not in self.seen:
                fresh.append(u)
        if 'book' in self.want:
            self.book(name, st, before, cu, unks, R, fresh)
        for u in fresh:
            self.seen[u.name] = self.record(u)
            self.order.append(u.name)
            self.solver[u.name] = name
            self.log.append('solved %s by %s: %s' % (u.name, name, u.solutions))
        if 'eqs' in self.want or 'lists' in self.want:
            self.check_all(name)

    def record(self, u):
        return (u.solveorder, [str(s) for s in u.solutions], u.nsolutions, sorted(d.name for d in u.dependencies),
                u.nversions, list(u.versionNames), u.solvemethod)

    def book(self, name, st, before, cu, unks, R, fresh):
        names = [u.name for u in unks]
        if len(set(names)) != len(names):
            self.bad('duplicate unknown', 'after %s: %s' % (name, names))
        if self.names0 is not None and not set(self.names0) <= set(names):
            self.bad('unknown lost', 'after %s: %s -> %s' % (name, self.names0, names))
        self.names0 = names
        by = {u.name: u for u in unks}
        for n, rec in self.seen.items():
            if n in by:
                if not by[n].solved:
                    self.bad('solved unknown became unsolved', '%s after %s' % (n, name))
                elif self.record(by[n]) != rec:
                    self.bad('published solution changed', 'after %s: %s was %s, is %s'
                             % (name, n, rec, self.record(by[n])))
        if fresh and name not in SOLVERS:
            self.bad('solved by a leaf that is no solver', '%s solved %s' % (name, [u.name for u in fresh]))
        if len(fresh) > 1:
            self.bad('several unknowns solved at once', '%s: %s' % (name, [u.name for u in fresh]))
        for u in fresh:
            if cu is not None and u.name != cu.name:
                self.bad('solved an unknown that was not assigned', '%s solved %s while %s was assigned'
                         % (name, u.name, cu.name))
            if u.solveorder != len(self.seen) + 1:
                self.bad('solve order not dense', '%s solved as number %d has solveorder %s'
                         % (u.name, len(self.seen) + 1, u.solveorder))
            if u.nsolutions != len(u.solutions) or not u.solutions:
                self.bad('solution count wrong', '%s: nsolutions %s but %d solutions'
                         % (u.name, u.nsolutions, len(u.solutions)))
            deps = set()
            for s in u.solutions:
                fs = {x.name for x in s.free_symbols}
                if u.name in fs:
                    self.bad('solution contains its own unknown', '%s = %s' % (u.name, s))
                for n in fs:
                    if n in by and n != u.name:
                        deps.add(n)
                        if n not in self.seen:
                            self.bad('solution uses an unsolved unknown', '%s = %s uses %s' % (u.name, s, n))
                    if n not in by and not self.known_symbol(n):
                        self.bad('solution uses a foreign symbol', '%s = %s uses %s' % (u.name, s, n))
            got = {d.name for d in u.dependencies}
            if got != deps:
                self.bad('dependencies wrong', '%s: recorded %s, solutions use %s' % (u.name, sorted(got), sorted(deps)))
            nv = u.nsolutions
            for n in deps:
                nv *= by[n].nsolutions
            if u.nversions != nv or len(u.versionNames) != nv:
                self.bad('version count wrong', '%s: nversions %s, %d names, expected %d'
                         % (u.name, u.nversions, len(u.versionNames), nv))
            want = ['%ss%d' % (u.name, k + 1) for k in range(u.nsolutions)]
            if list(u.solutionNames) != want:
                self.bad('solution names wrong', '%s: %s' % (u.name, u.solutionNames))
            if not R.solution_nodes or R.solution_nodes[-1].unknown.name != u.name:
                self.bad('solution node missing', u.name)
            edges = [(e.StartNode.name, e.dependsOn.name) for e in R.notation_graph_edges]
            edges = sorted(y for x, y in edges if x == u.name)
            if edges != sorted(deps):
                self.bad('solution graph edges wrong', '%s: edges to %s, solutions use %s' % (u.name, edges, sorted(deps)))
        nn = [x.unknown.name for x in R.solution_nodes]
        exp = self.order + [u.name for u in fresh]
        if nn != exp:
            self.bad('solution nodes differ from the solved unknowns', 'after %s: nodes %s, solved in order %s'
                     % (name, nn, exp))
        if R.solveN != len(exp):
            self.bad('solve counter wrong', 'after %s: %s, %d solved' % (name, R.solveN, len(exp)))

    def known_symbol(self, n):
        return n in self.poses[0].env()

    def fairness(self, unks, cu):
        """Every unknown that stays unsolved is assigned at least once in any len(unknowns)+1 assigner ticks."""
        if cu is None or cu.name not in [u.name for u in unks]:
            self.bad('assigned something that is no unknown', cu)
            return
        n = len(unks)
        for u in unks:
            if u.solved or u is cu:
                self.fair[u.name] = 0
            else:
                self.fair[u.name] = self.fair.get(u.name, 0) + 1
                if self.fair[u.name] > n + 1:
                    self.bad('unsolved unknown is starved', '%s was not assigned in %d assigner ticks (%d unknowns)'
                             % (u.name, self.fair[u.name], n))
        if cu.solved and any(not u.solved for u in unks):
            self.asg.append(1)
            if len(self.asg) > 1 + n // 2 and self.asg[-3:] == [1, 1, 1]:
                self.bad('assigner keeps assigning solved unknowns', cu.name)
        else:
            self.asg.append(0)

    def truth_of(self, e, what, lhs, rhs):
        for p in self.eqposes:
            v = self.eq_value(p, lhs, rhs)
            if v is not None:
                self.bad(what[0], '%s: %s = %s is false at %s: %s'
                         % (what[1], lhs, rhs, {k: round(x, 6) for k, x in p.base.items()}, v))
                return False
        return True

    def eq_value(self, p, lhs, rhs):
        """None if the equation holds at pose p, else a description."""
        try:
            env = p.env()
            memo = p.__dict__.setdefault('memo', {})
            l = nu.ev(lhs, env, nu.FB, memo)
            r = nu.ev(rhs, env, nu.FB, memo)
            if abs(l - r) <= 1e-8 * (1 + abs(l) + abs(r)):
                return None
        except nu.Foreign as f:
            return 'uses symbol %s which is no pose entry, parameter or unknown' % f
        except (nu.Undefined, nu.Indeterminate, OverflowError, ValueError):
            pass
        B = nu.mpb()
        try:
            env = p.env(B)
            p.define(self.aux)
            l = nu.ev(lhs, env, B)
            r = nu.ev(rhs, env, B)
            if abs(l - r) <= 1e-25 * (1 + abs(l) + abs(r)):
                return None
            return '%s is not %s' % (nu.FB.c(l), nu.FB.c(r))
        except (nu.Undefined, nu.Indeterminate):
            return 'has no value'

    def update_aux(self):
        R = self.R
        al = R.kequation_aux_list
        if len(al) != self.auxseen:
            self.aux = [(e.LHS, e.RHS) for e in al]
            for p in self.poses:
                p.define(self.aux)
            new = al[self.auxseen:] if len(al) > self.auxseen else al
            self.auxseen = len(al)
            for u in self.unknowns():
                for p in self.poses:
                    if u.name not in p.env():
                        # not defined by an equation: the name says which joints it sums
                        e = p.env()
                        dig = u.name.split('_')[-1]
                        parts = ['th_' + c for c in dig]
                        if len(dig) > 1 and all(x in e for x in parts):
                            e[u.name] = sum(e[x] for x in parts)
            return new
        return []

    def check_all(self, where):
        R = self.R
        new = self.update_aux()
        if 'eqs' in self.want:
            for e in new:
                self.truth_of(e, ('auxiliary equation false', 'after ' + where), e.LHS, e.RHS)
            for m, me in enumerate(R.mequation_list):
                for i in range(3):
                    for j in range(4):
                        l, r = me.Td[i, j], me.Ts[i, j]
                        old = self.eqseen.get((m, i, j))
                        if old is not None and (old[0] is l or old[0] == l) and (old[1] is r or old[1] == r):
                            continue
                        if old is not None:
                            self.hit('probe:matrix equation rewritten')
                        self.eqseen[(m, i, j)] = (l, r)
                        if self.viol:
                            continue
                        self.truth_of(None, ('matrix equation false', 'after %s: equation %d element %d,%d'
                                             % (where, m, i, j)), l, r)
        self.check_lists(where)

    def snapshot_lists(self):
        self.lists_id = None

    def check_lists(self, where):
        bb = self.bb
        L = [bb.get('eqns_1u'), bb.get('eqns_2u'), bb.get('eqns_3pu')]
        ident = tuple(id(x) for x in L)
        key = tuple((len(x), tuple((str(e.LHS), str(e.RHS)) for e in x)) for x in L) \
            if ident != self.lists_id or where in ('start', 'updateL', 'sub_transform') else None
        if key is None:
            return
        self.keep = L
        self.lists_id = ident
        if key == self.listseen.get('key') and where not in ('updateL', 'start'):
            return
        changed = key != self.listseen.get('key')
        self.listseen['key'] = key
        if 'eqs' in self.want and changed:
            for x in L:
                for e in x:
                    if self.viol:
                        break
                    self.truth_of(e, ('listed equation false', 'after ' + where), e.LHS, e.RHS)
        if 'lists' in self.want and (changed or where == 'updateL'):
            self.classify(where, L)

    def classify(self, where, L):
        unks = self.unknowns()
        uns = {u.name for u in unks if not u.solved}

        def n_unk(*es):
            # the repository counts both sides separately
            n = 0
            for e in es:
                n += len(uns & {s.name for s in e.free_symbols})
            return n

        def n_set(*es):
            s = set()
            for e in es:
                s |= uns & {x.name for x in e.free_symbols}
            return len(s)
        for k, x in enumerate(L):
            last = -1
            for e in x:
                n = n_set(e.LHS, e.RHS)
                m = n_unk(e.LHS, e.RHS)
                ok = (n <= k + 1 <= m) if k < 2 else m >= 3
                if not ok:
                    self.bad('equation in the wrong list', 'after %s: %s has %d unsolved unknowns but is listed with %s'
                             % (where, e, n, ('1', '2', '3 or more')[k]))
                    return
            del last
        # nothing missing
        have = [set((str(e.LHS), str(e.RHS)) for e in x) for x in L]
        import sympy as sp
        for m, me in enumerate(self.R.mequation_list):
            for i in range(4):
                for j in range(4):
                    l, r = sp.sympify(me.Td[i, j]), sp.sympify(me.Ts[i, j])
                    n = n_unk(l, r)
                    if n == 0:
                        continue
                    k = min(n, 3) - 1
                    if (str(l), str(r)) not in have[k]:
                        if any(sp.expand(e.LHS - l) == 0 and sp.expand(e.RHS - r) == 0 for e in L[k]):
                            continue
                        self.bad('equation missing from its list',
                                 'after %s: %s = %s (equation %d, element %d,%d) with %d unsolved unknowns'
                                 % (where, l, r, m, i, j, n))
                        return
        if where == 'updateL':
            for e in self.R.kequation_aux_list:
                n = n_set(e.LHS, e.RHS)
                if n not in (1, 2, 3):
                    continue
                if not any(sp.expand((q.LHS - q.RHS) - (e.LHS - e.RHS)) == 0 or
                           sp.expand((q.LHS - q.RHS) + (e.LHS - e.RHS)) == 0 for q in L[n - 1]):
                    self.bad('auxiliary equation missing from its list', '%s with %d unsolved unknowns' % (e, n))
                    return

    # -- end of the tree
    def after_tree(self, tree, bb, st):
        self.log.append('root -> %s' % st)
        self.ended = True
        unks = bb.get('unknowns')
        self.R = bb.get('Robot')
        uns = [u.name for u in unks if not u.solved]
        self.hit('probe:runs with everything solved' if not uns else 'probe:runs with unsolved unknowns')
        self.states.append(h8((self.scn['robot'], tuple(self.order), tuple(self.solver.get(n) for n in self.order))))
        self.update_aux()
        if 'term' in self.want:
            import b3
            if (st == b3.SUCCESS) != (not uns):
                self.bad('wrong report of completion', 'root status %s but unsolved unknowns are %s' % (st, uns))
            if st == b3.SUCCESS and len(self.R.solution_nodes) != len(unks):
                self.bad('wrong report of completion', 'success with %d nodes for %d unknowns'
                         % (len(self.R.solution_nodes), len(unks)))
            if uns and self.scn.get('must_finish'):
                self.bad('not solved after the outage ended', 'unsolved: %s' % uns)
        if 'sols' in self.want or 'sets' in self.want or 'python' in self.want or 'cpp' in self.want:
            self.solutions()
        if not {'sets', 'python', 'cpp', 'latex'} & set(self.want):
            raise StopRun()

    def solutions(self):
        """Each published solution list contains the true joint value."""
        for node in self.R.solution_nodes:
            u = node.unknown
            leaf = SOLVERS.get(self.solver.get(u.name), self.solver.get(u.name, '?'))
            for p in self.poses:
                r = self.solution_ok(u, p)
                if r is None:
                    continue
                if r[0] == 'indeterminate':
                    self.indet.add(u.name)
                if 'sols' in self.want:
                    self.bad('%s solution' % r[0], '%s = %s (found by %s, %s) at %s: %s' %
                             (u.name, u.solutions, leaf, u.solvemethod,
                              {k: round(x, 6) for k, x in p.base.items()}, r[1]),
                             '%s|%s|%s|%s' % (r[0], leaf, self.scn['robot'], u.name))
                break

    def solution_ok(self, u, p):
        pr = u.name in self.prism
        res = []
        try:
            env = p.env()
            q = env[u.name]
            for s in u.solutions:
                try:
                    if nu.close_joint(nu.ev(s, env), q, pr):
                        return None
                except (nu.Undefined, nu.Indeterminate, OverflowError, ValueError):
                    pass
        except (KeyError, nu.Foreign):
            pass
        B = nu.mpb()
        env = p.env(B)
        p.define(self.aux)
        if u.name not in env:
            e = env
            dig = u.name.split('_')[-1]
            parts = ['th_' + c for c in dig]
            if all(x in e for x in parts):
                e[u.name] = sum(e[x] for x in parts)
            else:
                return ('undefined', 'nothing defines %s' % u.name)
        q = env[u.name]
        kinds = set()
        for s in u.solutions:
            try:
                v = nu.ev(s, env, B)
                if nu.close_joint(v, q, pr, B, 1e-20):
                    return None
                res.append('%.6g%+.3gj' % (float(B.re(v)), float(B.im(v))))
                kinds.add('wrong')
            except nu.Indeterminate:
                kinds.add('indeterminate')
                res.append('atan2(0,0)')
            except nu.Undefined as e:
                kinds.add('undefined')
                res.append(str(e))
            except nu.Foreign as e:
                kinds.add('undefined')
                res.append('symbol %s' % e)
        kind = 'indeterminate' if 'indeterminate' in kinds else ('undefined' if kinds == {'undefined'} else 'wrong')
        return (kind, 'gives %s, the joint is at %.6g' % (res, float(B.re(q))))


def noncomment(e):
    return e


def simulate(scn, want, dh, d, table):
    """In the forked child: one whole solver run.  Returns a plain dict."""
    if 'robots' in table:
        proc.install_robots(table['robots'])
    simclock.start(1000000.0 + scn.get('clock', 0))
    mon = Monitor(scn, want, dh, None)
    mon.install()
    try:
        st = proc.run_program('ikSolver.py', [scn['robot']], d)
    except StopRun:
        st = ('ok', 'stopped')
    if st[0] == 'exception' and st[1].startswith('AssertionError') and mon.ended and (scn.get('prio') or scn.get('unks') or scn.get('outages')) \
            and 'ikSolver.py' in st[1].rsplit('File "', 1)[-1].split('"')[0]:
        st = ('ok', 'assertions of the shipped order')
    res = {'status': list(st), 'mon': mon}
    try:
        finish(mon, scn, want, d, st)
    except Exception:
        import traceback
        res['harness'] = traceback.format_exc()[-2500:]
    del res['mon']
    res.update(viol=mon.viol, log=mon.log, stats=mon.stats, states=mon.states, ticks=mon.ticks,
               simtime=simclock.CURRENT.total, ended=mon.ended, order=mon.order, indet=sorted(mon.indet))
    if 'debug' in scn:
        res['debug'] = {u.name: [str(s) for s in u.solutions] for u in mon.unknowns()}
    return res


def finish(mon, scn, want, d, st):
    if not mon.ended:
        return
    if st[0] == 'exception' and {'python', 'cpp', 'latex'} & set(want):
        # solved, but died before everything was written
        mon.bad('run aborted while writing its output', st[1][-600:])
        return
    if st[0] not in ('ok', 'quit'):
        return
    R = mon.R
    if 'sets' in want and st[1] != 'stopped':
        check_sets(mon, R)
    if 'python' in want and st[1] != 'stopped':
        check_python(mon, R, scn, d)
    if 'cpp' in want and st[1] != 'stopped':
        check_cpp(mon, R, scn, d)
    if 'latex' in want and st[1] != 'stopped':
        from . import gen
        gen.check_ik_report(mon, R, scn, d, mon.dh, mon.vv)


def check_sets(mon, R):
    nodes = R.solution_nodes
    names = [n.unknown.name for n in nodes]
    if not names:
        return
    rows = R.FinalEqnMatrix
    mon.hit('probe:solution rows', len(rows))
    if not R.solutionSet and names:
        mon.bad('no solution sets', 'solved %s' % names)
        return
    defined = {}
    vals = []
    for row in rows:
        if len(row) != len(names):
            mon.bad('solution row incomplete', 'row %s for %s' % (row, names))
            return
        for e in row:
            k = str(e.LHS)
            if k in defined and str(defined[k]) != str(e.RHS):
                mon.bad('name defined twice', '%s = %s and = %s' % (k, defined[k], e.RHS))
                return
            defined[k] = e.RHS
    order = [str(e.LHS) for row in rows for e in row]
    # every name used is defined, in an order in which it can be computed column by column
    done = set()
    unk_names = set(mon.poses[0].base) & {u.name for u in mon.unknowns()} | {u.name for u in mon.unknowns()}
    for c in range(len(names)):
        for row in rows:
            for s in row[c].RHS.free_symbols:
                if s.name in unk_names or (s.name not in done and not mon.known_symbol(s.name)):
                    mon.bad('solution set uses an undefined name', '%s = %s uses %s' % (row[c].LHS, row[c].RHS, s.name))
                    return
            done.add(str(row[c].LHS)) if False else None
        for row in rows:
            done.add(str(row[c].LHS))
    for t in R.solutionSet:
        if len(t) != len(names):
            mon.bad('solution set incomplete', '%s for %s' % (t, names))
            return
        for n, x in zip(names, t):
            if str(x) not in defined:
                mon.bad('solution set uses an undefined name', '%s in %s' % (x, t))
                return
            if not str(x).startswith(n + 'v'):
                mon.bad('solution set mixes up the unknowns', '%s for %s in %s' % (x, n, t))
                return
    if len(set(R.solutionSet)) != len(list(R.solutionSet)):
        mon.bad('duplicate solution set', R.solutionSet)
    # consistency: the equation of a set's member only uses members of the same set (same branch)
    sets = [set(map(str, t)) for t in R.solutionSet]
    for t in sets:
        for x in t:
            for s in defined[x].free_symbols:
                if s.name in defined and s.name not in t:
                    # another name with an identical definition is the same branch
                    if not any(str(defined[y]) == str(defined[s.name]) for y in t):
                        mon.bad('solution set mixes branches', '%s = %s uses %s which is not in the set %s'
                                % (x, defined[x], s.name, sorted(t)))
                        return
    # every combination of branches is there
    want = 1
    for n in nodes:
        want *= n.unknown.nsolutions
    if len(rows) < 1:
        return
    for p in mon.poses:
        r = row_found(mon, p, names, rows, R.solutionSet, defined)
        if r is not None:
            mon.bad('true posture in no solution set', r)
            return


def row_found(mon, p, names, rows, sets, defined):
    for B, tol in ((nu.FB, 1e-5), (nu.mpb(), 1e-15)):
        env = dict(p.env(B))
        p.define(mon.aux)
        env = dict(p.env(B))
        memo = {}
        why = []
        ok_names = {}
        vals = {}

        def val(x):
            if x in vals:
                return vals[x]
            vals[x] = None
            rhs = defined[x]
            e2 = env
            for s in rhs.free_symbols:
                if s.name in defined:
                    v = val(s.name)
                    if v is None:
                        return None
                    e2 = e2 if s.name in e2 else e2
                    env[s.name] = v
            try:
                v = nu.ev(rhs, env, B, memo)
            except (nu.Undefined, nu.Indeterminate, nu.Foreign, OverflowError, ValueError, ZeroDivisionError):
                v = None
            vals[x] = v
            return v
        del ok_names
        for t in sets:
            good = True
            for n, x in zip(names, t):
                v = val(str(x))
                q = env.get(n)
                if q is None:
                    continue
                if v is None or not nu.close_joint(v, q, n in mon.prism, B, tol):
                    good = False
                    why.append('%s=%s' % (x, None if v is None else complex(v)))
                    break
            if good:
                return None
    return 'pose %s: no row gives the joint values; first mismatches %s' % (
        {k: round(x, 6) for k, x in p.base.items()}, why[:6])


def check_python(mon, R, scn, d):
    """The generated module, executed at reachable poses, returns the posture among its solutions."""
    name = scn['robot']
    path = os.path.join(d, 'CodeGen', 'Python', 'IK_equations%s.py' % name)
    try:
        with open(path) as f:
            src = f.read()
    except OSError as e:
        mon.bad('generated code missing', e)
        return
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        mon.bad('generated code is not python', '%s at line %s: %s' % (e.msg, e.lineno, e.text))
        return
    rng = random.Random('%s/pypose' % scn.get('pose'))
    names = [n.unknown.name for n in R.solution_nodes]
    mod = {}
    funcs = [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]
    f = [x for x in funcs if x.startswith('ikin')]
    if not f:
        mon.bad('generated code has no ikin function', funcs)
        return
    # parameters the user has to fill in (robot table without numbers)
    todo = [n for n in ast.walk(tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == 'XXXXX']
    pv = fill_in(mon, scn, rng, [n.targets[0].id for n in todo])
    for n in todo:
        n.value = ast.copy_location(ast.Constant(pv[n.targets[0].id]), n.value)
    try:
        exec(compile(ast.fix_missing_locations(tree), path, 'exec'), mod)
    except Exception as e:
        mon.bad('generated code cannot be loaded', repr(e))
        return
    if not names:
        return
    import numpy as np
    import sympy as sp
    if not run_as_script(mon, tree, path):
        return
    colnames = columns(R)
    arcs = {str(g) for row in R.FinalEqnMatrix for e in row for g in e.RHS.atoms(sp.asin, sp.acos)}
    if arcs:
        mon.hit('probe:generated code with asin/acos')
        if any('v' in a for a in arcs):
            mon.hit('probe:generated code with asin/acos of other unknowns')
    for k in range(5):
        p, env = posture(mon, rng, pv, near=k == 4)
        T = np.array(p.T(), dtype=float)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = mod[f[0]](T)
        except NameError as e:
            mon.bad('generated code uses an undefined name', e)
            return
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            if isinstance(e, ValueError) and not not_reachable(mon, R, p, True, False):
                mon.bad('generated code raises a domain error where no square root is negative', '%r at %s' % (e, p.base))
                return
            if not_reachable(mon, R, p, True):
                mon.hit('probe:generated code raised a domain error')
                continue
            mon.bad('generated code raises a domain error at a pose where nothing is out of range', '%r at %s' % (e, p.base))
            return
        except SystemExit:
            mon.bad('generated code refuses a 4x4 pose', T.tolist())
            return
        except Exception as e:
            mon.bad('generated code fails', repr(e))
            return
        if not judge_rows(mon, R, p, env, colnames, r):
            return


def run_as_script(mon, tree, path):
    """The module as a program: it tries its own test pose, which need not be reachable, and prints the solutions."""
    ns = {'__name__': '__main__'}
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            exec(compile(tree, path, 'exec'), ns)
    except (ValueError, ZeroDivisionError, OverflowError):
        mon.hit('probe:test pose of the generated code has a domain error')
        return True
    except SystemExit:
        mon.bad('generated code refuses its own test pose', text.getvalue()[-300:])
        return False
    except Exception as e:
        mon.bad('generated code fails as a program', repr(e))
        return False
    mon.hit('probe:generated code ran as a program')
    return True


def fill_in(mon, scn, rng, names):
    """Parameter values: those of the robot table, drawn ones for the names the user has to fill in; ca1 = cos(al_1) etc."""
    p = nu.Pose(mon.dh, None, rng, pvals=scn['_pvals'])
    env = p.env()
    joints = {u.name for u in mon.unknowns()}
    pv = {k: v for k, v in p.base.items() if k not in joints}
    pv.update(scn['_pvals'])
    for n in names:
        if n not in pv:
            pv[n] = complex(env[n]).real if n in env else rng.uniform(0.4, 1.6)
    return pv


def columns(R):
    """Unknowns in the order of the generated rows (sorted version names)."""
    if not R.solutionSet:
        return []
    return [x.rsplit('v', 1)[0] for x in sorted(map(str, list(R.solutionSet)[0]))]


def posture(mon, rng, pv, near=False):
    """A drawn posture with the values of all names the solver made up (sums of angles, ...).
    near: every angle close to (not at) a multiple of a quarter turn, where arguments of asin/acos come close to 1."""
    p = nu.Pose(mon.dh, None, rng, pvals=pv)
    if near:
        for n in sorted(p.base):
            if n not in pv and n in mon.angles:
                p.base[n] = rng.choice([-2, -1, 0, 1]) * math.pi / 2 + rng.choice([-1, 1]) * rng.uniform(0.006, 0.013)
        mon.hit('probe:pose near a limit of asin/acos')
    p.define(mon.aux)
    env = p.env()
    for u in mon.unknowns():
        if u.name not in env:
            dig = u.name.split('_')[-1]
            parts = ['th_' + c for c in dig]
            if all(x in env for x in parts):
                env[u.name] = sum(env[x] for x in parts)
    return p, env


def judge_rows(mon, R, p, env, colnames, r):
    """r: rows returned by generated code (False: unreachable) at posture p.  False when a violation was reported."""
    if r is False:
        if not_reachable(mon, R, p):
            mon.hit('probe:generated code reported a range error of some branch')
            return True
        mon.bad('generated code calls a reachable pose unreachable', p.base)
        return False
    mon.hit('probe:generated code evaluated')
    if not R.solutionSet:
        return True
    if len(r) != len(R.solutionSet) or any(len(x) != len(colnames) for x in r):
        mon.bad('generated code returns the wrong number of solutions', '%d rows for %d sets'
                % (len(r), len(R.solutionSet)))
        return False
    for row in r:
        if all(nu.close_joint(complex(v), env[n], n in mon.prism, nu.FB, 1e-5) for v, n in zip(row, colnames)):
            return True
    # is it only rounding (a pose near a domain limit)?
    if any(v != v for row in r for v in row) and not_reachable(mon, R, p, True):
        mon.hit('probe:generated code gave nan for some branch')
        return True
    if ill_conditioned(mon, R, p):
        mon.hit('probe:pose skipped (ill conditioned)')
        return True
    mon.bad('generated code does not return the true posture', 'joints %s: columns %s rows %s'
            % ({n: round(env[n].real, 6) for n in colnames}, colnames,
               [[round(float(v), 5) for v in row] for row in r][:8]))
    return False


CPP_MAIN = r"""
#include "unit.cpp"
#include <cstdio>
#include <cstdlib>
#include <vector>
static const double EMPTY = 9.87654321e250;
template<int M> int drive(int (*f)(double[4][4], double (*)[M])) {
    static double rows[4096][M];
    double T[4][4], flat[16];
    for (;;) {
        for (int k = 0; k < 16; k++) if (scanf("%lf", &flat[k]) != 1) return 0;
        for (int k = 0; k < 16; k++) T[k / 4][k % 4] = flat[k];
        for (int i = 0; i < 4096; i++) for (int j = 0; j < M; j++) rows[i][j] = EMPTY;
        int r = f(T, rows);
        int n = 4096;
        while (n > 0 && rows[n - 1][0] == EMPTY) n--;
        printf("%d %d %d\n", r, n, M);
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < M; j++) if (rows[i][j] == EMPTY) printf("- "); else printf("%.17g ", rows[i][j]);
            printf("\n");
        }
    }
}
// before the unit's own main(), which has buffers of its own: a row too many smashes its stack
__attribute__((constructor)) static void go() { drive(&ikin); fflush(stdout); }
"""


def check_cpp(mon, R, scn, d):
    """The generated C++ unit, parameters filled in, compiles; executed at reachable poses it returns the posture."""
    import subprocess
    name = scn['robot']
    path = os.path.join(d, 'CodeGen', 'Cpp', 'IK_equations%s.cpp' % name)
    try:
        with open(path) as f:
            src = f.read()
    except OSError as e:
        mon.bad('generated code missing', e)
        return
    if not R.solution_nodes:
        return
    rng = random.Random('%s/cpppose' % scn.get('pose'))
    # the user fills in the parameter values
    slot = r'(\w+)\s*=\s*XXXXX\b'
    pv = fill_in(mon, scn, rng, re.findall(slot, src))
    src = re.sub(slot, lambda m: '%s = %r' % (m.group(1), pv[m.group(1)]), src)
    w = os.path.join(d, 'cpp')
    os.makedirs(w)
    with open(os.path.join(w, 'unit.cpp'), 'w') as f:
        f.write(src)
    with open(os.path.join(w, 'drive.cpp'), 'w') as f:
        f.write(CPP_MAIN)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    c = subprocess.run(['g++', '-std=c++17', '-O0', '-w', '-ffp-contract=off', '-fstack-protector-all', '-o', 'drive', 'drive.cpp'], cwd=w, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if c.returncode != 0:
        err = [l for l in c.stdout.splitlines() if 'unit.cpp' in l and 'error' in l]
        if not err:
            if 'drive.cpp' in c.stdout and 'error' in c.stdout:
                mon.bad('generated code has another interface', c.stdout[:600])
                return
            raise RuntimeError('g++ fails: ' + c.stdout[-800:])
        mon.bad('generated code does not compile', ' | '.join(err[:3])[:600])
        return
    poses = [posture(mon, rng, pv, near=k > 9) for k in range(12)]
    text = ''
    for p, _ in poses:
        text += ' '.join('%.17g' % complex(v).real for r in p.T() for v in r) + '\n'
    c = subprocess.run(['./drive'], cwd=w, env=env, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode != 0:
        mon.bad('generated code fails', 'exit status %d' % c.returncode)
        return
    lines = c.stdout.splitlines()
    colnames = columns(R)
    at = 0
    for p, e in poses:
        ok, n, m = map(int, lines[at].split())
        rows = [[None if v == '-' else float(v) for v in l.split()] for l in lines[at + 1:at + 1 + n]]
        at += 1 + n
        k = len(colnames)
        if ok and (m < k or any(v is None for r in rows for v in r[:k])):
            mon.bad('generated code leaves values unset', '%d columns for %d unknowns' % (m, k))
            return
        if not judge_rows(mon, R, p, e, colnames, [r[:k] for r in rows] if ok else False):
            return


def not_reachable(mon, R, p, roots=False, arcs=True):
    """Does some asin/acos argument (roots: or square root) of some version leave its domain, or nearly, at this pose?"""
    import sympy as sp
    env = dict(p.env())
    for c in range(len(R.solution_nodes)):
        for row in R.FinalEqnMatrix:
            e = row[c]
            for a in e.RHS.atoms(sp.asin, sp.acos) if arcs else ():
                try:
                    v = nu.ev(a.args[0], env)
                    if abs(v.imag) > 1e-9 or abs(v.real) > 1 - 1e-9:
                        return True
                except Exception:
                    return True
            for a in e.RHS.atoms(sp.Pow) if roots else ():
                if a.exp.is_Rational and a.exp.q == 2:
                    try:
                        v = nu.ev(a.base, env)
                        if abs(v.imag) > 1e-9 or v.real < 1e-9:
                            return True
                    except Exception:
                        return True
            try:
                env[str(e.LHS)] = nu.ev(e.RHS, env)
            except Exception:
                return True
    return False


def ill_conditioned(mon, R, p):
    """Evaluate the rows in 70 digits and with the pose slightly rounded: a huge change means ill conditioned."""
    defined = {str(e.LHS): e.RHS for row in R.FinalEqnMatrix for e in row}
    names = [n.unknown.name for n in R.solution_nodes]
    # truth by 70 digits must be found, otherwise the code is wrong
    if row_found(mon, p, names, R.FinalEqnMatrix, R.solutionSet, defined) is not None:
        return False
    # found in exact arithmetic: perturb the pose entries by 1e-13 and see whether a row still matches
    env = p.env()
    saved = dict(env)
    rng = random.Random(1)
    lost = 0
    try:
        for _ in range(3):
            for k in list(env):
                if k.startswith('r_') or k in ('Px', 'Py', 'Pz'):
                    env[k] = saved[k] + rng.uniform(-1, 1) * 1e-14
            if not float_row(mon, p, names, R.solutionSet, defined):
                lost += 1
    finally:
        env.clear()
        env.update(saved)
    return lost > 0


def float_row(mon, p, names, sets, defined):
    env = dict(p.env())
    for x in defined:
        try:
            env[x] = nu.ev(defined[x], env)
        except Exception:
            env[x] = complex('nan')
    for t in sets:
        if all(nu.close_joint(env[str(x)], p.env()[n], n in mon.prism, nu.FB, 1e-5) for n, x in zip(names, t)):
            return True
    return False


# --------------------------------------------------------------------------------- random arms

def random_arm(rng, n=None):
    """A serial arm in the repository's DH convention."""
    n = n or rng.choice([2, 2, 3, 3, 3])
    rows, vv, params, unks = [], [], [], []
    for j in range(1, 7):
        if j > n:
            rows.append([0, 0, 0, 0])
            vv.append(1)
            continue
        al = rng.choice(['0', 'pi/2', '-pi/2', 'pi/2', '-pi/2']) if j > 1 else '0'
        if j > 1 and not any(skew(r[0]) for r in rows) and rng.random() < .12:
            al = rng.choice(['al_%d' % (j - 1), 'pi/3', '-pi/6'])
            if al.startswith('al_'):
                params.append(al)
        a = '0'
        if j > 1 and rng.random() < .5:
            a = 'a_%d' % (j - 1)
            params.append(a)
        d = '0'
        if rng.random() < .65:
            if rng.random() < .35:
                d = 'l_%d' % j
                params.append(d)
            th = 'th_%d' % j
            vv.append(1)
            unks.append(th)
        else:
            d = 'd_%d' % j
            vv.append(0)
            unks.append(d)
            th = rng.choice(['0', '0', 'pi/2'])
        rows.append([al, a, d, th])
    return {'rows': rows, 'vv': vv, 'params': params, 'unknowns': unks,
            'pvals': arm_values(rng, params)}


def skew(al):
    return str(al) not in ('0', 'pi/2', '-pi/2')


def arm_values(rng, params):
    """Numbers of the parameters: none, some or all of them, round or not."""
    k = rng.random()
    if k < .15:
        return {}
    return {p: rng.choice([round(rng.uniform(.4, 1.9), 6), 1.25 + .5 * i, round(rng.uniform(.5, 1.5), 4)])
            for i, p in enumerate(params) if k > .25 or rng.random() < .5}


# --------------------------------------------------------------------------------- checks

class KCheck(Check):
    level = 'exploration'
    want = ()
    quick_runs = 240
    thorough_runs = 20000
    quick_cap = 75.0
    thorough_cap = 3000.0
    run_limit = 400.0
    selftest = 8
    cpu_limit = 50
    weights = ((FAST, 8), (MID, 1), (TINY, 3))
    weights_thorough = ((FAST, 6), (MID, 3), (TINY, 2), (SLOW, 2), (THOROUGH, 1))
    components = {
        'real': ['ikSolver.py run unmodified by runpy in a forked process', 'cold kinematics computed by the '
                 'current tree', 'all solver leaves and transforms', 'b3', 'solution sets, writers', 'sympy'],
        'stub': ['clock and sleep (simulated)', 'uuid (seeded stream)', 'tool leaves during an injected outage',
                 'robot table entries of the small test arms']}
    assumptions = ['generic poses: joint values away from multiples of pi/2, parameters nonzero',
                   'tool order and unknown order are free choices of the user (ikSolver.py: "possible to build '
                   'customized BT")', 'an outage makes an identification leaf return FAILURE without looking']

    def robots(self, tier):
        w = self.weights if tier == 'quick' else self.weights_thorough
        return [r for rs, _ in w for r in rs]

    def prepare(self, scratch, tier, seed):
        self.scratch = scratch
        jobs = []
        for r in self.robots(tier):
            d = os.path.join(scratch, 'cold', r)
            make_dir(d)
            jobs.append((r, lambda r=r, d=d: cold_popen(r, d)))
        res = parallel(jobs)
        failed = {}
        for r, (rc, err) in sorted(res.items()):
            frames = [l for l in err.splitlines() if l.startswith('  File "')]
            if rc > 0 and frames and '/sim/' not in frames[-1]:
                failed[r] = ' '.join(err[-700:].split())
            ok = os.path.exists(os.path.join(scratch, 'cold', r, 'fk_eqns', r + '_pickle.p'))
            if rc != 0 or not ok:
                print('cold kinematics of %s failed: %s' % (r, err[-600:]), file=sys.stderr)
        good = [r for r in self.robots(tier) if os.path.exists(
            os.path.join(scratch, 'cold', r, 'fk_eqns', r + '_pickle.p'))]
        return {'scratch': scratch, 'good': good, 'failed': failed}

    def setup_worker(self, prep):
        self.prep = prep
        self.scratch = prep['scratch']
        proc.preload()
        proc.install_robots(proc.TINY)
        self.dhs = {}
        self.pv = {}
        self.vvs = {}
        for r in prep['good']:
            entry = proc.robot_params(r)
            self.dhs[r], self.pv[r] = self.mech(entry)
            self.vvs[r] = list(entry[1])

    def mech(self, entry):
        import sympy as sp
        dh, vv, params, pvals, unks = entry
        pv = {}
        for k, v in pvals.items():
            try:
                pv[str(k)] = float(v)
            except (TypeError, ValueError):
                pass
        return [[sp.sympify(dh[i, j]) for j in range(4)] for i in range(6)], pv

    def pick_robot(self, rng, tier):
        w = self.weights if tier == 'quick' else self.weights_thorough
        k = rng.randrange(sum(x for _, x in w))
        for rs, x in w:
            if k < x:
                return rng.choice(rs)
            k -= x

    arm_share = 0.2

    def gen(self, rng, i, tier):
        scn = {'robot': self.pick_robot(rng, tier), 'pose': rng.randrange(1 << 30)}
        if rng.random() < self.arm_share:
            scn['robot'] = 'ARM'
            scn['arm'] = random_arm(rng, 4 if tier == 'thorough' and rng.random() < 0.15 else None)
        style = rng.random()
        if style < 0.7:
            scn['prio'] = [[rng.randrange(100) for _ in range(5)] for _ in range(2)]
        if rng.random() < 0.6:
            scn['unks'] = [rng.randrange(100) for _ in range(9)]
        if rng.random() < 0.6:
            scn['outages'] = [{'leaf': rng.choice(IDS), 'from': rng.choice([0, 0, 1, 2, 5, 12]),
                               'len': rng.choice([1, 2, 4, 10, 40, 1000])} for _ in range(rng.randint(1, 4))]
        return scn

    def execute(self, scn):
        out = Outcome()
        robot = scn['robot']
        if robot in self.prep.get('failed', {}) and 'arm' not in scn and 'term' in self.want:
            out.violate('kinematics of a robot cannot be computed', '%s: %s' % (robot, self.prep['failed'][robot]))
            return out
        if robot not in self.prep['good'] and 'arm' not in scn:
            out.inconclusive = 'no kinematics for %s' % robot
            out.nontrivial = False
            return out
        d = os.path.realpath(tempfile.mkdtemp(prefix='k_', dir=self.scratch))
        table = dict(proc.TINY)
        if 'arm' in scn:
            table['ARM'] = scn['arm']
            dh, pv = self.mech(proc.tiny_robot(scn['arm']))
        else:
            dh, pv = self.dhs[robot], self.pv.get(robot, {})
        try:
            make_dir(d)
            if not scn.get('cold') and 'arm' not in scn:
                os.makedirs(os.path.join(d, 'fk_eqns'))
                shutil.copy(os.path.join(self.scratch, 'cold', robot, 'fk_eqns', robot + '_pickle.p'),
                            os.path.join(d, 'fk_eqns', robot + '_pickle.p'))
            s = dict(scn)
            s['_pvals'] = pv
            s['_vv'] = list(scn['arm']['vv']) if 'arm' in scn else self.vvs[robot]
            res, reason = proc.fork_call(lambda: simulate(s, self.want, dh, d, {'robots': table}),
                                         cpu_limit=self.cpu_limit, wall_limit=self.run_limit - 20,
                                         uuid_seed=scn.get('uuid', 0))
            self.judge(scn, res, reason, out, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    def judge(self, scn, res, reason, out, d):
        if res is None:
            plain = not scn.get('prio') and not scn.get('unks') and scn['robot'] in FAST + TINY + ['ARM']
            if reason == 'cpu limit' and 'term' in self.want and plain:
                # the shipped order needs about 1-2 s on these arms; in other orders sympy itself may need very long
                out.violate('does not terminate', '%s used more than %d s of CPU' % (scn['robot'], self.cpu_limit))
            else:
                out.inconclusive = reason
            return
        if '__child_error__' in res:
            raise RuntimeError(res['__child_error__'])
        if res.get('harness'):
            raise RuntimeError(res['harness'])
        out.log += res['log']
        out.log.append('status %s' % (res['status'][0]))
        out.simtime = res['simtime']
        for k, v in res['stats'].items():
            out.stats[k] += v
        for s in res['states']:
            out.states.add(s)
        out.nontrivial = res['ticks'] > 0 and bool(res['order'])
        for cls, detail, key in res['viol']:
            out.violate(cls, detail, key)
        st = res['status']
        if st[0] in ('exception', 'quit') or (st[0] == 'ok' and not res['ended']):
            if 'term' in self.want:
                out.violate('solver run aborted', '%s %s' % (st[0], st[1][-900:]))
            elif not out.viol:
                out.stats['probe:run aborted'] += 1
                out.nontrivial = False
        if not out.viol and res['indet']:
            out.stats['probe:indeterminate solution published'] += 1

    def shrink(self, scn):
        for key in ('prio', 'unks', 'cold'):
            if scn.get(key):
                yield {k: v for k, v in scn.items() if k != key}
        o = scn.get('outages') or []
        for j in range(len(o)):
            s = dict(scn, outages=o[:j] + o[j + 1:])
            if not s['outages']:
                del s['outages']
            yield s
        for j in range(len(o)):
            for n in (1, 2, 5, 20):
                if n < o[j]['len']:
                    yield dict(scn, outages=o[:j] + [dict(o[j], len=n)] + o[j + 1:])
                    break
        if scn.get('prio'):
            for k in range(len(scn['prio'])):
                p = [list(range(5)) if j == k else x for j, x in enumerate(scn['prio'])]
                if p != scn['prio']:
                    yield dict(scn, prio=p)
        arm = scn.get('arm')
        if arm:
            for j in range(6):
                for c in (0, 1, 2):
                    if arm['rows'][j][c] not in (0, '0') and not str(arm['rows'][j][c]).startswith('d_'):
                        rows = [list(r) for r in arm['rows']]
                        old, rows[j][c] = rows[j][c], '0'
                        yield dict(scn, arm=dict(arm, rows=rows, params=[x for x in arm['params'] if x != old],
                                                 pvals={k: v for k, v in arm['pvals'].items() if k != old}))
            return
        for r in ('RP', 'RRx', 'Wrist', 'Minder13', 'Palm13'):
            if r != scn['robot'] and r in self.prep['good']:
                yield dict(scn, robot=r)


class K01(KCheck):
    pid = 'K01'
    want = ('sols',)
    rule = ('whole solver runs on real and small arms; order of tools and unknowns drawn by the seed, identification tools '
            'go down for drawn windows; at three generic poses each solution list published must contain the '
            'true joint value (60-digit recheck); non-trivial = at least one unknown solved')


class K02(KCheck):
    pid = 'K02'
    want = ('eqs',)
    rule = ('as K01; at the start and after every leaf tick each matrix, auxiliary and listed equation that is new or '
            'was rewritten must hold at two generic poses; non-trivial = at least one unknown solved')


class K03(KCheck):
    pid = 'K03'
    want = ('book',)
    rule = ('as K01; after every leaf tick the bookkeeping of solved unknowns (solve order, counts, names, dependencies, '
            'nodes) must be consistent and nothing published may change; non-trivial = at least one unknown solved')


class K04(KCheck):
    pid = 'K04'
    want = ('sets', 'sols_')
    rule = ('as K01, run to the end; the solution sets and version equations must be closed (no undefined name), one branch '
            'per row, and at three generic poses some set equals the true posture; non-trivial = something solved')


class K05(KCheck):
    pid = 'K05'
    want = ('term',)
    rule = ('as K01: every run ends without exception in a bounded number of ticks and the tree reports success exactly when '
            'all unknowns are solved; shipped order with outages that end: everything gets solved; '
            'non-trivial = at least one unknown solved')

    def gen(self, rng, i, tier):
        scn = KCheck.gen(self, rng, i, tier)
        if i % 2:
            scn.pop('prio', None)
            scn.pop('unks', None)
            if scn['robot'] not in COMPLETE:
                scn['robot'] = rng.choice(FAST)
                scn.pop('arm', None)
            scn['outages'] = [{'leaf': rng.choice(IDS), 'from': 0, 'len': rng.choice([1, 2, 4, 6])}
                              for _ in range(rng.randint(0, 4))]
            scn['must_finish'] = True
        return scn


class K06(KCheck):
    pid = 'K06'
    want = ('fair',)


class CodeCheck(KCheck):
    def gen(self, rng, i, tier):
        scn = KCheck.gen(self, rng, i, tier)
        if rng.random() < 0.3:          # without the tangent tool more is solved by arcsin and arccos
            scn.setdefault('outages', []).append({'leaf': 'tan_id', 'from': 0, 'len': 1000})
        return scn


class K08(CodeCheck):
    pid = 'K08'
    want = ('python',)
    rule = ('as K01, run to the end; the generated Python inverse kinematics is executed at five reachable poses with '
            'the robot table\'s parameter values: it must load, use no undefined name and return the true posture '
            'among its rows unless it reports a range error or a root is negative; non-trivial = something solved')


class K13(CodeCheck):
    pid = 'K13'
    want = ('cpp',)
    rule = ('as K01, run to the end; the generated C++ unit, with parameter values filled in, is compiled and executed at twelve '
            'reachable poses: it must compile and return the true posture among its rows unless it reports a range error of '
            'some branch; non-trivial = something solved')


class K10(KCheck):
    pid = 'K10'
    want = ('lists',)
    rule = ('as K01; whenever the equation lists on the blackboard are rebuilt each listed equation is in the list for its '
            'number of unsolved unknowns and none is missing; non-trivial = something solved')


CHECKS = {c.pid: c for c in (K01, K02, K03, K04, K05, K08, K10, K13)}
