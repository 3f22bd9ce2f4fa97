"""K11: random equation systems with a known solution through the real tool tree.

A scenario is a set of equations between pose entries, parameters and unknowns, written as text, with a drawn
truth.  Every pose entry is defined by its equation at the truth (in double and in 70 digit arithmetic), so each
equation holds exactly there.  The tool tree is the one of ikSolver.py with a drawn tool order, unknown order and
drawn outages of identification leaves; after every leaf tick the equations, and after every solve the published
solutions, are evaluated at the truth."""
import math
import random
import sys
import traceback

from . import numeric as nu
from . import proc, simclock
from .runner import Check, Outcome, h8

IDS = ['algebra_id', 'tan_id', 'sincos_id', 'simu_id', 'sinandcos_id', 'x2z2_transform', 'sum_id', 'sub_transform']
PARAMS = ['l_1', 'l_2', 'l_3', 'l_4', 'a_2', 'a_3', 'd_4']
POSE = ['r_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + ['Px', 'Py', 'Pz']


class Gen(object):
    def __init__(self, rng, plain=False):
        self.r = rng
        self.plain = plain
        self.free = list(POSE)
        rng.shuffle(self.free)
        self.eqs = []
        self.pre = []           # pose entries which are simply drawn

    def coef(self, solved, allow1=True):
        r = self.r
        k = r.random()
        if self.plain:
            if k < 0.3 or not solved:
                return r.choice(['l_1', '-l_2', 'l_3', '2*l_4', 'l_1*l_2', '-3*l_1', 'a_2', '1', '-1'])
            s = r.choice(solved)
            if s.startswith('d'):
                return r.choice(['%s', '-%s', 'l_1*%s']) % s
            return r.choice(['cos(%s)', 'sin(%s)', '-sin(%s)', 'l_1*cos(%s)']) % s
        if allow1 and k < 0.25:
            return r.choice(['1', '-1'])
        if k < 0.6 or not solved:
            return r.choice(['l_1', '-l_2', 'l_3', '(l_1 + l_2)', '2*l_4', '(l_3 - l_2)', 'l_1*l_2', '-3*l_1', 'a_2', 'sqrt(2)*l_1'])
        s = r.choice(solved)
        if s.startswith('d'):
            return r.choice(['%s', '-%s', '2*%s', 'l_1*%s']) % s
        return r.choice(['cos(%s)', 'sin(%s)', '-sin(%s)', 'l_1*cos(%s)', '-l_2*sin(%s)', '(l_1 + l_2*cos(%s))']) % s

    def off(self, solved):
        k = self.r.random()
        if k < 0.35:
            return '0'
        if k < 0.75:
            return self.coef(solved)
        return self.coef(solved) + ' + ' + self.coef(solved)

    def add(self, rhs, tag, solved=(), lhs=None, sign=True):
        """equation  c0*SYM + c1 = rhs"""
        if not self.free:
            return False
        r = self.r
        if lhs is None:
            lhs = self.free.pop()
        k = r.random()
        c0, c1 = '1', '0'
        if k < 0.1:
            c0 = '-1'
        elif k < 0.2:
            c0 = r.choice(['l_3', '2', 'l_4'])
        elif k < 0.3 and solved:
            c1 = self.coef([] if self.plain else list(solved))
        self.eqs.append({'sym': lhs, 'c0': c0, 'c1': c1, 'rhs': rhs, 'tag': tag})
        return True

    def pattern(self, u, solved, later):
        """equations which determine u from solved unknowns"""
        r = self.r
        c = lambda: self.coef(solved)
        o = lambda: self.off(solved)
        if u.startswith('d'):
            k = r.choice(['alg', 'alg', 'algtwice'])
            self.add('%s*%s + %s' % (c(), u, o()), k, solved)
            if k == 'algtwice':
                self.add('%s*%s + %s' % (c(), u, o()), k, solved)
            return k
        kinds = ['sin', 'cos', 'tan', 'tan', 'sac', 'sac0', 'simu', 'tandep', 'linear', 'sinmany']
        if self.plain:
            kinds.remove('sinmany')
            if later:
                kinds += ['common', 'common', 'sum', 'sumboth']
        elif later:
            kinds += ['common', 'common', 'sum', 'sumboth', 'x2z2', 'commond', 'subs']
        k = r.choice(kinds)
        if k == 'sin':
            self.add('%s*sin(%s) + %s' % (c(), u, o()), k, solved)
        elif k == 'cos':
            self.add('%s*cos(%s) + %s' % (c(), u, o()), k, solved)
        elif k == 'sinmany':
            self.add('%s*sin(%s) + %s*sin(%s) + %s' % (c(), u, c(), u, o()), k, solved)
        elif k == 'linear':
            self.add('%s*%s + %s' % (c(), u, o()), k, solved)
        elif k in ('tan', 'tandep'):
            self.add('%s*sin(%s) + %s' % (c(), u, o()), k, solved)
            self.add('%s*cos(%s) + %s' % (c(), u, o()), k, solved)
        elif k == 'sac':
            self.add('%s*sin(%s) + %s*cos(%s) + %s' % (c(), u, c(), u, o()), k, solved)
        elif k == 'sac0':
            # A sin + B cos = 0 with pose entries as coefficients
            if len(self.free) >= 2:
                a = self.free.pop()
                self.pre.append(a)
                self.eqs.append({'sym': self.free.pop(), 'c0': 'cos(%s)' % u, 'c1': '-%s*sin(%s)' % (a, u),
                                 'rhs': '0', 'tag': k})
        elif k == 'simu':
            a, b = c(), c()
            sg = r.choice(['', '-'])
            self.add('%s*sin(%s) + %s*cos(%s) + %s' % (a, u, b, u, o()), k, solved)
            self.add('%s(%s*cos(%s) - %s*sin(%s)) + %s' % (sg, a, u, b, u, o()), k, solved)
        elif k in ('common', 'commond'):
            v = r.choice(later)
            f = v if v.startswith('d') else r.choice(['sin(%s)', 'cos(%s)']) % v
            a = c()
            self.add('%s*%s*sin(%s)' % (a, f, u) + ('' if r.random() < 0.6 else ' + ' + o()), k, solved)
            self.add('%s*%s*cos(%s)' % (a if r.random() < 0.7 else c(), f, u) + ('' if r.random() < 0.6 else ' + ' + o()),
                     k, solved)
        elif k in ('sum', 'sumboth'):
            v = [x for x in later if x.startswith('th')]
            if not v:
                self.add('%s*sin(%s) + %s' % (c(), u, o()), 'sin', solved)
                return 'sin'
            v = r.choice(v)
            self.add('%s*sin(%s + %s) + %s' % (c(), u, v, o()), k, solved)
            if k == 'sumboth':
                self.add('%s*cos(%s + %s) + %s' % (c(), u, v, o()), k, solved)
            self.add('%s*sin(%s) + %s' % (c(), u, o()), k, solved)
        elif k == 'subs':
            v = r.choice(later)
            f = v if v.startswith('d') else r.choice(['sin(%s)', 'cos(%s)']) % v
            e = r.choice(['sin(%s)', 'cos(%s)']) % u + '*' + f
            self.add(e, k, solved)
            self.add('%s*(%s) + %s*%s' % (c(), e, c(), r.choice(['sin(%s)', 'cos(%s)']) % u), k, solved)
        elif k == 'x2z2':
            # the Puma shape: th_2 and th_23 in Px..Pz
            if 'th_2' in (u,) + tuple(later) and 'th_3' in (u,) + tuple(later) and \
                    sum(x in self.free for x in ('Px', 'Py', 'Pz')) >= 2:
                ps = [x for x in ('Px', 'Py', 'Pz') if x in self.free][:2]
                for x in ps:
                    self.free.remove(x)
                lhs0 = self.r.choice(['1', 'cos(%s)' % solved[0] if solved and solved[0].startswith('th') else '-1'])
                self.eqs.append({'sym': ps[0], 'c0': lhs0, 'c1': '0', 'tag': k,
                                 'rhs': 'a_3*cos(th_2 + th_3) - d_4*sin(th_2 + th_3) + a_2*cos(th_2)'})
                self.eqs.append({'sym': ps[1], 'c0': '-1', 'c1': '0', 'tag': k,
                                 'rhs': 'a_3*sin(th_2 + th_3) + d_4*cos(th_2 + th_3) + a_2*sin(th_2)'})
            else:
                self.add('%s*cos(%s) + %s' % (c(), u, o()), 'cos', solved)
                return 'cos'
        return k

    def nasty(self, unks):
        """equations no tool claims, or which tempt one to"""
        r = self.r
        rev = [x for x in unks if x.startswith('th')]
        if not rev:
            u = r.choice(unks)
            self.add(r.choice(['{A}*{u}**2 + {B}', '({u} + {A})*({u} - {A})', '{A}', '{A}*sin(l_1)'])
                     .format(u=u, A=self.coef([]), B=self.coef([])), 'nasty')
            return
        u = r.choice(rev)
        v = r.choice(rev)
        if r.random() < 0.2:                    # pairs that look alike
            a, b = self.coef([]), self.coef([])
            p, q = r.choice([('{a}*sin({u}) + {b}*cos({u})', '-({a})*cos({u}) - ({b})*sin({u})'),
                             ('{a}*sin({u}) + {b}*cos({u})', '{a}*cos({u}) + {b}*sin({u})'),
                             ('{u}*sin({u})', '{u}*cos({u})'), ('{a}*sin({u}) + {u}', '{a}*cos({u}) + {b}'),
                             ('{a}*sin({u})*cos({v})', '{a}*cos({u})*sin({v})'),
                             ('{a}*sin({u}) + {b}*cos({u})', '{a}*sin({u}) + {b}*cos({u}) + {a}'),
                             ('{a}*sin({u})*sin({v}) + {b}', '{a}*cos({u})*sin({v}) + {b}*{u}'),
                             ('{a}*sin({u})*cos({u})', '{a}*cos({u})**2')])
            for x in (p, q):
                self.add(x.format(a=a, b=b, u=u, v=v) + r.choice(['', ' + ' + self.coef([])]), 'nasty')
            return
        t = r.choice(['sin({u})*cos({u})', '{A}*cos({u})**2 + {B}', 'sin(2*{u})', '{u} + {A}*sin({u})', '{A}*{u}**2 + {B}',
                      'sin({u})*sin({v}) + {A}*cos({u})', '{A}*sin({u}) + {B}*cos({u})*sin({u})', 'sin({u})*{w}',
                      '{A}*sin({u}) - {A}*sin({u})', '{A}', '{A}*sin({u}) + {B}*sin({v})', '({u} + {A})*({u} - {A})',
                      'sqrt({A}**2 + 4)*cos({u})', '{A}*sin({u} - {v})', 'sin({u})**2 + cos({u})**2', '{A}*sin({u})*{u}',
                      'tan({u})', '{A}*(sin({u}) + cos({v}))', '1/({A} + 4 + cos({u}))', '{A}*cos({u} + {v}) + {B}*{u}',
                      'sin({u} + l_1)', '{A}*sin({u}) + {B}*cos(2*{u})'])
        self.add(t.format(u=u, v=v, w=r.choice(unks), A=self.coef([]), B=self.coef([])), 'nasty')


def gen_system(rng, tier):
    plain = rng.random() < 0.4
    g = Gen(rng, plain)
    th = ['th_%d' % i for i in range(1, 7)]
    rng.shuffle(th)
    n = rng.choice([1, 2, 2, 3, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5])
    names = th[:n]
    if rng.random() < 0.35 and n >= 2:
        names[names.index(rng.choice(names))] = rng.choice(['d_1', 'd_2'])
    if rng.random() < 0.12:
        names = ['th_2', 'th_3'] + [x for x in names if x not in ('th_2', 'th_3')][:1]
    kinds = []
    for k, u in enumerate(names):
        kinds.append(g.pattern(u, names[:k], names[k + 1:]))
    nn = 0 if plain else rng.choice([0, 0, 1, 1, 2, 3])
    for _ in range(nn):
        g.nasty(names)
    if not plain and rng.random() < 0.3:
        u = rng.choice(names)
        g.pattern(u, [x for x in names if x != u][:1] if rng.random() < 0.5 else [], [])
    truth = {}
    for u in names:
        truth[u] = round(rng.uniform(0.12, math.pi / 2 - 0.12) + rng.choice([-2, -1, 0, 1]) * math.pi / 2, 9) \
            if u.startswith('th') else round(rng.uniform(0.3, 1.5) * rng.choice([1, 1, -1]), 9)
    for p in PARAMS + g.pre:
        truth[p] = round(rng.uniform(0.3, 1.5) * rng.choice([1, 1, -1]), 9)
    slots = list(range(12))
    rng.shuffle(slots)
    scn = {'unks': list(names), 'truth': truth, 'eqs': g.eqs, 'slots': slots, 'kinds': kinds, 'nasty': nn}
    order = list(names)
    rng.shuffle(order)
    scn['unks'] = order
    scn['two'] = rng.random() < 0.25            # spread over two matrix equations
    scn['plain'] = plain
    scn['soa'] = not plain and rng.random() < 0.2             # run the sum of angles transform first, as the kinematics does
    if rng.random() < 0.6:
        scn['prio'] = [[rng.randrange(100) for _ in range(5)] for _ in range(2)]
        if scn['plain'] and rng.random() < 0.7:
            scn['prio'][0][4] = 100      # the squaring transform stays last
    if rng.random() < 0.4:
        scn['outages'] = [{'leaf': rng.choice(IDS), 'from': rng.choice([0, 0, 1, 2, 5, 12]),
                           'len': rng.choice([1, 2, 4, 10, 1000])} for _ in range(rng.randint(1, 3))]
    return scn


class Truth(object):
    def __init__(self, scn, parsed):
        self.scn, self.parsed = scn, parsed
        self.cache = {}
        self.aux = []

    def env(self, B=nu.FB):
        if B.name not in self.cache:
            e = {k: B.c(v) for k, v in self.scn['truth'].items()}
            for q, c0, c1, rhs in self.parsed:
                if q['sym'] in e:
                    continue
                a = nu.ev(c0, e, B)
                if abs(a) < 1e-6:
                    raise nu.Undefined('degenerate')
                e[q['sym']] = (nu.ev(rhs, e, B) - nu.ev(c1, e, B)) / a
            self.cache[B.name] = e
        e = self.cache[B.name]
        for s in self.scn['unks'] + self.aux:
            if s not in e and s.startswith('th_'):
                parts = ['th_' + c for c in s[3:]]
                if all(p in e for p in parts):
                    e[s] = sum(e[p] for p in parts)
        return e

    def holds(self, lhs, rhs):
        try:
            e = self.env()
            l, r = nu.ev(lhs, e), nu.ev(rhs, e)
            if abs(l - r) <= 1e-9 * (1 + abs(l) + abs(r)):
                return None
        except nu.Foreign as f:
            return 'uses symbol %s which is no pose entry, parameter or unknown' % f
        except (nu.Undefined, nu.Indeterminate, OverflowError, ValueError):
            pass
        B = nu.mpb()
        try:
            e = self.env(B)
            l, r = nu.ev(lhs, e, B), nu.ev(rhs, e, B)
            if abs(l - r) <= 1e-25 * (1 + abs(l) + abs(r)):
                return None
            return '%s is not %s' % (nu.FB.c(l), nu.FB.c(r))
        except (nu.Undefined, nu.Indeterminate) as x:
            return 'has no value (%s)' % x

    def contains(self, sols, name, prism):
        res = []
        try:
            e = self.env()
            for s in sols:
                try:
                    if nu.close_joint(nu.ev(s, e), e[name], prism):
                        return None
                except (nu.Undefined, nu.Indeterminate, OverflowError, ValueError):
                    pass
        except (KeyError, nu.Foreign):
            pass
        B = nu.mpb()
        e = self.env(B)
        if name not in e:
            return 'nothing defines %s' % name
        for s in sols:
            try:
                v = nu.ev(s, e, B)
                if nu.close_joint(v, e[name], prism, B, 1e-20):
                    return None
                res.append('%.6g%+.3gj' % (float(B.re(v)), float(B.im(v))))
            except (nu.Undefined, nu.Indeterminate) as x:
                res.append('no value: %s' % x)
            except nu.Foreign as x:
                res.append('symbol %s' % x)
        return 'gives %s, the truth is %.6g' % (res, float(B.re(e[name])))


class Stop(BaseException):
    pass


class Run(object):
    """(forked child) one system through the tool tree"""

    def __init__(self, scn):
        self.scn = scn
        self.viol, self.log, self.stats, self.states = [], [], {}, []
        self.ticks = 0
        self.calls = {}
        self.solved = {}
        self.order = []

    def hit(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, cls, detail, key=None):
        self.viol.append([cls, str(detail)[:1200], key or cls])
        raise Stop()

    def main(self):
        import sympy as sp
        import b3
        from ikbtbasics import kin_cl as kc
        import ikbtbasics.ik_classes as ikc
        from ikbtleaves import algebra_solver as al, tan_solver as ta, sincos_solver as sc, sinANDcos_solver as sac
        from ikbtleaves import x2y2_transform as xz, sub_transform as su, sum_id as si, two_eqn_m7 as m7
        from ikbtleaves import updateL as ul, comp_detect as cd, rank_leaf as rk, assigner_leaf as asg
        scn = self.scn
        loc = {n: sp.Symbol(n) for n in PARAMS + POSE + ['th_%d' % i for i in range(1, 7)] + ['d_1', 'd_2']}
        P = lambda s: sp.sympify(s, locals=loc)
        parsed = [(q, P(q['c0']), P(q['c1']), P(q['rhs'])) for q in scn['eqs']]
        self.truth = Truth(scn, parsed)
        try:
            self.truth.env()
        except (nu.Undefined, nu.Indeterminate, ZeroDivisionError, OverflowError, ValueError):
            return 'degenerate'
        nm = 2 if scn.get('two') else 1
        Td = [sp.zeros(4) for _ in range(nm)]
        Ts = [sp.zeros(4) for _ in range(nm)]
        for k, (q, c0, c1, rhs) in enumerate(parsed):
            s = scn['slots'][k % 12]
            m = k % nm
            Td[m][s // 4, s % 4] = c0 * loc[q['sym']] + c1
            Ts[m][s // 4, s % 4] = rhs
        R = ikc.Robot()
        R.mequation_list = [kc.matrix_equation(a, b) for a, b in zip(Td, Ts)]
        self.R = R
        unks = []
        for n in scn['unks']:
            u = kc.unknown(loc[n])
            u.n = int(n.split('_')[1])
            unks.append(u)
        if scn.get('soa'):
            R.sum_of_angles_transform(unks)
        bb = b3.Blackboard()
        self.bb = bb
        L = R.scan_for_equations(unks)
        for k, x in zip(('eqns_1u', 'eqns_2u', 'eqns_3pu'), L):
            bb.set(k, x)
        bb.set('Robot', R)
        bb.set('unknowns', unks)

        tid, tsl, aid, asl = ta.tan_id(), ta.tan_solve(), al.algebra_id(), al.algebra_solve()
        sid, ssl, cid, csl = sc.sincos_id(), sc.sincos_solve(), sac.sinandcos_id(), sac.sinandcos_solve()
        xzl, mid, msl = xz.x2z2_transform(), m7.simu_id(), m7.simu_solver()
        sub, sid2, upd, comp = su.sub_transform(), si.sum_id(), ul.updateL(), cd.comp_det()
        asn, rnk = asg.assigner(), rk.rank()
        leaves = [tid, tsl, aid, asl, sid, ssl, cid, csl, xzl, mid, msl, sub, sid2, upd, comp, asn, rnk]
        for x in leaves:
            x.BHdebug = False
            self.wrap(x, b3)
        seq = b3.Sequence
        tools = [seq([aid, asl]), None, seq([mid, msl]), seq([cid, csl]), xzl]
        pair = [seq([tid, tsl]), seq([sid, ssl])]
        pr = scn.get('prio')
        if pr:
            if pr[1][0] > pr[1][1]:
                pair.reverse()
            self.hit('fault:tool order permuted')
        tools[1] = seq([b3.OrNode(pair), rnk])
        if pr:
            ix = sorted(range(5), key=lambda k: (pr[0][k], k))
            tools = [tools[k] for k in ix]
        tree = b3.BehaviorTree()
        tree.root = b3.RepeatUntilSuccess(seq([sub, b3.RepeatUntilSuccess(seq([asn, sid2, b3.Priority(tools)]), 6),
                                               upd, comp]), 10)
        self.check('start')
        st = tree.tick('system', bb)
        self.log.append('root %s' % st)
        unks = bb.get('unknowns')
        done = all(u.solved for u in unks)
        if st not in (b3.SUCCESS, b3.FAILURE) or (st == b3.SUCCESS) != done:
            self.bad('untruthful completion', 'the tree returned %s with %s' %
                     (st, [(u.name, u.solved) for u in unks]))
        self.done = done
        self.nsolved = sum(u.solved for u in unks)
        return 'ok'

    def wrap(self, leaf, b3):
        name = type(leaf).__name__
        orig = leaf.tick
        outs = [o for o in self.scn.get('outages') or [] if o['leaf'] == name]

        def tick(t):
            k = self.calls[name] = self.calls.get(name, 0) + 1
            self.ticks += 1
            if self.ticks > 4000:
                self.bad('does not terminate', 'more than 4000 leaf ticks')
            for o in outs:
                if o['from'] <= k - 1 < o['from'] + o['len']:
                    self.hit('fault:outage ' + name)
                    return b3.SUCCESS if name in ('sum_id', 'sub_transform') else b3.FAILURE
            st = orig(t)
            self.check(name)
            cu = self.bb.get('curr_unk')
            self.log.append('%s %s %s' % (name, cu.name if cu is not None else '-', st))
            return st
        leaf.tick = tick

    def check(self, where):
        unks = self.bb.get('unknowns')
        R = self.R
        self.truth.aux = [u.name for u in unks]
        names = {u.name for u in unks}
        if len(names) != len(unks):
            self.bad('unknown listed twice', sorted(u.name for u in unks))
        for u in unks:
            was = self.solved.get(u.name)
            if was is not None:
                if not u.solved or was != (tuple(u.solutions), u.solveorder):
                    self.bad('solved unknown changed', '%s after %s: %s, before %s' % (u.name, where, u.solutions, was))
                continue
            if not u.solved:
                continue
            early = set(self.order)
            for s in u.solutions:
                f = {x.name for x in s.free_symbols} & names
                if not f <= early:
                    self.bad('solution uses something not solved before', '%s = %s (after %s)' % (u.name, u.solutions, where),
                             'uses unsolved|' + where)
            if len(u.solutions) != u.nsolutions:
                self.bad('solution count', '%s: %d solutions, nsolutions %d' % (u.name, len(u.solutions), u.nsolutions))
            pr = u.name.startswith('d_')
            r = self.truth.contains(u.solutions, u.name, pr)
            if r:
                self.bad('wrong solution', '%s = %s (by %s, %s) %s' % (u.name, u.solutions, where, u.solvemethod, r),
                         'wrong|' + where)
            self.order.append(u.name)
            self.solved[u.name] = (tuple(u.solutions), u.solveorder)
            self.log.append('solved %s %s %s' % (u.name, where, u.solutions))
            self.hit('probe:solved by ' + where)
            self.states.append('%s|%d|%s' % (where, len(u.solutions), len(self.order)))
        if where in ('start', 'sub_transform', 'sum_id', 'updateL', 'x2z2_transform'):
            for m in R.mequation_list:
                for i in range(3):
                    for j in range(4):
                        self.eq('matrix equation', where, m.Td[i, j], m.Ts[i, j])
            for e in R.kequation_aux_list:
                self.eq('auxiliary equation', where, e.LHS, e.RHS)
            for k in ('eqns_1u', 'eqns_2u', 'eqns_3pu'):
                for e in self.bb.get(k):
                    self.eq('listed equation', where, e.LHS, e.RHS)

    def eq(self, what, where, l, r):
        key = (l, r)
        if key in self.calls:
            return
        v = self.truth.holds(l, r)
        if v:
            self.bad(what + ' false', 'after %s: %s = %s: %s' % (where, l, r, v), what + '|' + where)
        self.calls[key] = 1


def simulate(scn):
    sys.stdout = open('/dev/null', 'w')
    simclock.start()
    run = Run(scn)
    try:
        st = [run.main(), '']
    except Stop:
        st = ['stopped', '']
    except Exception as e:
        st = ['exception', '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:])]
    return {'status': st, 'viol': run.viol, 'log': run.log, 'stats': run.stats, 'states': run.states,
            'ticks': run.ticks, 'order': run.order, 'done': getattr(run, 'done', None),
            'nsolved': getattr(run, 'nsolved', None), 'simtime': simclock.CURRENT.total}


class K11(Check):
    pid = 'K11'
    level = 'exploration'
    quick_runs = 6000
    thorough_runs = 400000
    quick_cap = 75.0
    run_limit = 120.0
    cpu_limit = 40
    selftest = 40
    rule = ('random systems of 1-4 unknowns (revolute, prismatic) in the tool pattern families with drawn coefficients, signs, '
            'offsets, other unknowns, unsolvable decoys and placement; drawn tool order, unknown order and outages; all equations '
            'after every transform and all published solutions evaluated at the truth; non-trivial when something was solved')
    components = {'real': ['all solver leaves, transforms, assigner, ranker, completion detector', 'work list building, unknown '
                           'bookkeeping', 'b3', 'sympy'],
                  'stub': ['clock and sleep (simulated)', 'tool leaves during an injected outage',
                           'kinematics (the equations are drawn)']}
    assumptions = ['generic truth: angles away from multiples of pi/2, parameters nonzero and independent',
                   'the tool tree of ikSolver.py, rebuilt with the same leaves and composites']

    def setup_worker(self, prep):
        proc.preload()
        import ikbtleaves.rank_leaf, ikbtleaves.updateL, ikbtleaves.comp_detect, ikbtleaves.sum_id    # noqa: F401,E401

    def gen(self, rng, i, tier):
        return gen_system(rng, tier)

    def execute(self, scn):
        out = Outcome()
        if not scn['eqs'] or not scn['unks']:
            out.nontrivial = False
            return out
        res, reason = proc.fork_call(lambda: simulate(scn), cpu_limit=self.cpu_limit, wall_limit=self.run_limit - 10)
        if res is None:
            out.inconclusive = reason
            return out
        if '__child_error__' in res:
            raise RuntimeError(res['__child_error__'])
        out.log += res['log']
        out.log.append(res['status'][0])
        for k, v in res['stats'].items():
            out.stats[k] += v
        out.states.update(res['states'])
        out.simtime = res['simtime']
        out.nontrivial = bool(res['order'])
        for cls, detail, key in res['viol']:
            out.violate(cls, detail, key)
        if res['status'][0] == 'exception':
            d = res['status'][1]
            out.violate('tool raised', d, 'raised|' + d.split('|')[0][:60])
        if res['done'] is not None:
            out.stats['probe:system solved completely' if res['done'] else 'probe:system left unsolved'] += 1
            # (the squaring transform reports success without progress: what comes after it may never be tried)
            last = not scn.get('prio') or scn['prio'][0][4] > max(scn['prio'][0][:4])
            if not res['done'] and scn['plain'] and last and all(o['from'] + o['len'] <= 6 for o in scn.get('outages') or []):
                out.violate('solvable system left unsolved', 'solved %s of %s' % (res['order'], scn['unks']))
        return out

    def shrink(self, scn):
        for k in ('prio', 'outages'):
            if scn.get(k):
                yield {a: b for a, b in scn.items() if a != k}
        for k in ('two', 'soa'):
            if scn.get(k):
                yield dict(scn, **{k: False})
        for j in range(len(scn['eqs'])):
            if len(scn['eqs']) > 1:
                yield dict(scn, plain=False, eqs=scn['eqs'][:j] + scn['eqs'][j + 1:])
        for j in range(len(scn['unks'])):
            if len(scn['unks']) > 1:
                n = scn['unks'][j]
                if not any(n in q[x] for q in scn['eqs'] for x in ('c0', 'c1', 'rhs')):
                    yield dict(scn, plain=False, unks=scn['unks'][:j] + scn['unks'][j + 1:])
        for j, q in enumerate(scn['eqs']):
            for k, v in (('c0', '1'), ('c1', '0')):
                if q[k] != v:
                    yield dict(scn, plain=False, eqs=scn['eqs'][:j] + [dict(q, **{k: v})] + scn['eqs'][j + 1:])


CHECKS = {'K11': K11}
