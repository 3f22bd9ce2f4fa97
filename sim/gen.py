"""K07, K09, K12: the generated artefacts (python forward kinematics, LaTeX reports, all files byte for byte)."""
import ast
import json
import math
import os
import random
import re
import shutil
import sys
import tempfile

from . import latexnum as ln
from . import numeric as nu
from . import proc, simclock
from .kin import (FAST, KCheck, MID, SLOW, TINY, cold_popen, make_dir, parallel, random_arm)
from .runner import Outcome


# --------------------------------------------------------------------------------- LaTeX numbers

def latex_env(env, B=nu.FB):
    """env of a pose -> names as they appear in the reports"""
    out = {ln.norm(k): v for k, v in env.items()}
    th = {k[3:]: v for k, v in env.items() if k.startswith('th_') and len(k) == 4}
    for a in th:
        out.setdefault('s' + a, B.sin(th[a]))
        out.setdefault('c' + a, B.cos(th[a]))
        for b in th:
            if a < b:
                out.setdefault('s' + a + b, B.sin(th[a] + th[b]))
                out.setdefault('c' + a + b, B.cos(th[a] + th[b]))
    return out


def sections(text):
    parts = re.split(r'\\section\*?\{([^\n]*?)\}', text)
    return {parts[k].strip(): parts[k + 1] for k in range(1, len(parts) - 1, 2)}


def same(v, w, tol=1e-7):
    return abs(complex(v) - complex(w)) <= tol * (1 + abs(complex(w)))


def cell(text, env):
    return ln.evaluate(text, env)


def jacobian(dh, pose, vv):
    """6x6 numeric Jacobian in the last frame, by differentiating the DH product; None for rows without a joint."""
    names = []
    for r in dh:
        s = sorted({x.name for x in r[3].free_symbols} | {x.name for x in r[2].free_symbols})
        names.append(s)
    T = nu.fk(dh, pose.env())
    R = [[T[i][j].real for j in range(3)] for i in range(3)]
    cols = []
    h = 1e-5
    for j in range(6):
        var = None
        k = 3 if vv[j] == 1 else 2
        cand = sorted(x.name for x in dh[j][k].free_symbols)
        if len(cand) == 1 and cand[0] in pose.base:
            var = cand[0]
        if var is None:
            cols.append(None)
            continue
        Ts = []
        for s in (h, -h):
            b = dict(pose.base)
            b[var] += s
            Ts.append(nu.fk(dh, {n: complex(v) for n, v in b.items()}))
        dT = [[(Ts[0][r][c] - Ts[1][r][c]).real / (2 * h) for c in range(4)] for r in range(4)]
        v = [sum(R[r][i] * dT[r][3] for r in range(3)) for i in range(3)]
        W = [[sum(R[r][i] * dT[r][c] for r in range(3)) for c in range(3)] for i in range(3)]   # R^T dR
        cols.append(v + [W[2][1], W[0][2], W[1][0]])
    return cols


def check_fk_section(bad, text, dh, poses, what):
    ms = ln.matrices(text)
    if len(ms) != 5 or any(len(m) != 4 for m in ms) or any(len(r) != 1 for m in ms[1:] for r in m):
        bad(what + ' has another shape', '%d matrices %s' % (len(ms), [(len(m), len(m[0])) for m in ms]))
        return
    lhs = [['r_%d%d' % (i, j) for j in (1, 2, 3)] + ['P' + 'xyz'[i - 1]] for i in (1, 2, 3)] + [['0', '0', '0', '1']]
    got = [[ln.norm(c) for c in r] for r in ms[0]]
    if got != [[ln.norm(c) for c in r] for r in lhs]:
        bad(what + ' has a wrong left side', got)
    for p in poses:
        env = latex_env(p.env())
        T = p.T()
        for j in range(4):
            for i in range(4):
                try:
                    v = cell(ms[1 + j][i][0], env)
                    if same(v, T[i][j]):
                        continue
                    why = 'is %s, should be %s' % (v, T[i][j])
                except (ln.LatexError, nu.Foreign, nu.Undefined, nu.Indeterminate) as e:
                    why = '%s %s' % (type(e).__name__, e)
                bad(what + ' is wrong', 'element %d,%d: %s %s at %s' % (i, j, ms[1 + j][i][0][:300], why, p.base))
                return


def check_jac_section(bad, text, dh, vv, poses, what):
    ms = ln.matrices(text)
    if len(ms) != 6 or any(len(m) != 6 for m in ms):
        bad(what + ' has another shape', '%d matrices' % len(ms))
        return
    for p in poses:
        env = latex_env(p.env())
        J = jacobian(dh, p, vv)
        for j in range(6):
            if J[j] is None:
                continue
            for i in range(6):
                try:
                    v = cell(ms[j][i][0], env)
                    if same(v, J[j][i], 1e-5):
                        continue
                    why = 'is %s, should be %.7f' % (v, J[j][i])
                except (ln.LatexError, nu.Foreign, nu.Undefined, nu.Indeterminate) as e:
                    why = '%s %s' % (type(e).__name__, e)
                bad(what + ' is wrong', 'row %d column %d: %s %s at %s' % (i, j, ms[j][i][0][:300], why, p.base))
                return


def check_dh_section(bad, text, dh, poses, what):
    ms = ln.matrices(text)
    if len(ms) != 1 or [len(r) for r in ms[0]] != [4] * 6:
        bad(what + ' has another shape', len(ms))
        return
    p = poses[0]
    env = latex_env(p.env())
    for i in range(6):
        for j in range(4):
            try:
                if same(cell(ms[0][i][j], env), nu.ev(dh[i][j], p.env())):
                    continue
                why = ''
            except (ln.LatexError, nu.Foreign, nu.Undefined) as e:
                why = '%s %s' % (type(e).__name__, e)
            bad(what + ' is wrong', 'row %d column %d: %s, should be %s %s' % (i, j, ms[0][i][j], dh[i][j], why))
            return


def equations(text):
    """[(header, [(lhs, rhs)])] of a solution section"""
    out = []
    parts = re.split(r'\\subsection\{([^\n]*)\}', text)
    for k in range(1, len(parts) - 1, 2):
        eqs = []
        for m in re.finditer(r'\\begin\{(align|dmath)\}(.*?)\\end\{\1\}', parts[k + 1], re.S):
            for line in m.group(2).split('\\\\'):
                if '=' not in line:
                    eqs.append((line.strip(), None))
                    continue
                l, r = line.split('=', 1)
                eqs.append((ln.norm(l.replace('&', '').strip()), r.strip()))
        out.append((ln.norm(parts[k].replace('$', '').strip()), eqs))
    return out


def joint_truth(p, B, mon, name):
    e = p.env(B)
    p.define(mon.aux)
    if name not in e:
        dig = name.split('_')[-1]
        parts = ['th_' + c for c in dig]
        if all(x in e for x in parts):
            e[name] = sum(e[x] for x in parts)
    return e.get(name)


def check_ik_report(mon, R, scn, d, dh, vv):
    """The LaTeX inverse kinematics report, read back as numbers."""
    name = scn['robot']
    path = os.path.join(d, 'LaTex', 'ik_solution_%s.tex' % name)
    try:
        with open(path) as f:
            text = f.read()
    except OSError as e:
        mon.bad('report missing', e)
        return
    st = ln.structure(text)
    if st:
        mon.bad('report is not well formed', st)
        return
    sec = sections(text)

    def get(prefix):
        k = [x for x in sec if x.startswith(prefix)]
        if len(k) != 1:
            mon.bad('report section missing', '%s: %s' % (prefix, sorted(sec)))
            return None
        return sec[k[0]]
    a = get('Kinematic Parameters')
    if a is not None:
        check_dh_section(mon.bad, a, dh, mon.poses, 'DH table in the report')
    a = get('Forward Kinematic')
    if a is not None:
        check_fk_section(mon.bad, a, dh, mon.poses[:2], 'forward kinematics in the report')
    a = get('Jacobian')
    if a is not None:
        check_jac_section(mon.bad, a, dh, vv, mon.poses[:2], 'Jacobian in the report')
    nodes = R.solution_nodes
    names = [n.unknown.name for n in nodes]
    a = get('Unknown Variables')
    if a is not None:
        items = [ln.norm(x.replace('$', '')) for x in re.findall(r'\\item \{(.*?\$)\}', a)]
        if items != [ln.norm(n) for n in names]:
            mon.bad('unknowns listed wrongly in the report', '%s, solved in order %s' % (items, names))
    a = get('Solution Graph')
    if a is not None:
        got = re.findall(r'(\w+)-->(\w+)', a)
        want = sorted((u.name, n) for u in (x.unknown for x in nodes)
                      for n in {s.name for e in u.solutions for s in e.free_symbols} if n in names)
        if sorted(got) != want:
            mon.bad('solution graph in the report is wrong', 'edges %s, the solutions depend on %s' % (sorted(got), want))
    if not names:
        return
    gen = get('Solutions in Generic')
    ver = get('Solutions to Generate')
    if gen is None or ver is None:
        return
    ge = equations(gen)
    if [h for h, _ in ge] != [ln.norm(n) for n in names]:
        mon.bad('solutions missing in the report', '%s for %s' % ([h for h, _ in ge], names))
        return
    for n, (h, eqs) in zip(names, ge):
        want = [ln.norm('%ss%d' % (n, k + 1)) for k in range(len(eqs))]
        if [l for l, _ in eqs] != want or not eqs:
            mon.bad('solution names wrong in the report', '%s: %s' % (n, [l for l, _ in eqs]))
            return
        for p in mon.poses[:2]:
            ok = False
            for B, tol in ((nu.FB, 1e-6), (nu.mpb(), 1e-15)):
                q = joint_truth(p, B, mon, n)
                if q is None:
                    ok = True
                    break
                env = latex_env(p.env(B), B)
                res = []
                for l, r in eqs:
                    try:
                        v = ln.evaluate(r, env, B)
                        res.append(complex(v))
                        if nu.close_joint(v, q, n in mon.prism, B, tol):
                            ok = True
                            break
                    except (nu.Undefined, nu.Indeterminate, OverflowError, ZeroDivisionError):
                        res.append(None)
                    except (ln.LatexError, nu.Foreign) as e:
                        mon.bad('solution in the report cannot be read', '%s = %s: %s %s'
                                % (l, r[:400], type(e).__name__, e))
                        return
                if ok:
                    break
            if not ok:
                mon.bad('solution in the report is wrong', '%s: %s give %s, the joint is at %s (pose %s)'
                        % (n, eqs, res, complex(q), p.base))
                return
    # versions and solution sets
    ve = equations(ver)
    if [h for h, _ in ve] != [ln.norm(n) for n in names]:
        mon.bad('version equations missing in the report', '%s for %s' % ([h for h, _ in ve], names))
        return
    sets = get('Solution Set v3')
    plain = sec.get('Solution Set')
    if sets is None or plain is None:
        return
    rows = []
    for line in sets.split('\\hline'):
        c = re.findall(r'\$([^$]*)\$', line)
        if c:
            rows.append([ln.norm(x) for x in c])
    rows2 = [[ln.norm(x) for x in re.findall(r"'([^']*)'", line)] for line in plain.splitlines()
             if line.strip().startswith('(')]
    if rows != rows2:
        mon.bad('the two solution set tables differ', '%s and %s' % (rows, rows2))
        return
    if not rows or any(len(r) != len(names) for r in rows):
        mon.bad('solution set rows incomplete in the report', '%s for %s' % (rows[:4], names))
        return
    for p in mon.poses[:2]:
        found = False
        for B, tol in ((nu.FB, 1e-5), (nu.mpb(), 1e-15)):
            for n in names:
                joint_truth(p, B, mon, n)
            env = latex_env(p.env(B), B)
            for n in names:             # version equations use versions, not the unknowns
                env.pop(ln.norm(n), None)
            val = {}
            for n, (h, eqs) in zip(names, ve):
                for l, r in eqs:
                    try:
                        v = ln.evaluate(r, env, B)
                    except (nu.Undefined, nu.Indeterminate, OverflowError, ZeroDivisionError):
                        v = None
                    except nu.Foreign as e:
                        if str(e) in val and val[str(e)] is None:
                            v = None
                        else:
                            mon.bad('version equation uses an undefined name', '%s = %s: %s' % (l, r[:400], e))
                            return
                    except ln.LatexError as e:
                        mon.bad('version equation in the report cannot be read', '%s = %s: %s' % (l, r[:400], e))
                        return
                    val[l] = v
                    if v is not None:
                        env[l] = v
            for row in rows:
                good = True
                for n, x in zip(names, row):
                    if x not in val:
                        mon.bad('solution set in the report uses an undefined name', '%s in %s' % (x, row))
                        return
                    q = joint_truth(p, B, mon, n)
                    if q is None:
                        continue
                    if val[x] is None or not nu.close_joint(val[x], q, n in mon.prism, B, tol):
                        good = False
                        break
                if good:
                    found = True
                    break
            if found:
                break
        if not found:
            mon.bad('true posture in no solution set of the report', 'pose %s' % p.base)
            return


# --------------------------------------------------------------------------------- python forward kinematics

def check_fk_python(bad, src, dh, unknowns, pvals, rng):
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        bad('generated code is not python', '%s at line %s: %s' % (e.msg, e.lineno, e.text))
        return
    # joint and parameter names of the DH table
    joints = {}
    for r in dh:
        for k in (2, 3):
            for s in r[k].free_symbols:
                if s.name in unknowns:
                    joints[s.name] = k
    draws = {}
    for n in tree.body:
        if not isinstance(n, ast.Assign) or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
            continue
        name = n.targets[0].id
        lit = isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float))
        neg = isinstance(n.value, ast.UnaryOp) and isinstance(n.value.operand, ast.Constant)
        unset = isinstance(n.value, ast.Name) and n.value.id == 'XXXXX'
        if name in joints and lit:
            v = rng.uniform(-3, 3)
        elif name in pvals and (lit or neg):
            x = ast.literal_eval(n.value)
            if abs(x - pvals[name]) > 1e-12 * (1 + abs(x)):
                bad('parameter value differs from the robot table', '%s = %s, the table says %s'
                    % (name, x, pvals[name]))
                return
            v = rng.uniform(.3, 2)
        elif unset:
            v = rng.uniform(.3, 2)
        else:
            continue
        draws[name] = v
        n.value = ast.copy_location(ast.Constant(v), n.value)
    missing = [j for j in joints if j not in draws]
    if missing:
        bad('joint not declared in the generated code', missing)
        return
    ns = {'print': lambda *a, **k: None, '__name__': 'generated'}
    try:
        exec(compile(ast.fix_missing_locations(tree), 'FK', 'exec'), ns)
        A = [[float(x) for x in r] for r in ns['T06'].A]
    except Exception as e:
        bad('generated code cannot be run', '%s: %s' % (type(e).__name__, e))
        return
    env = {}
    need = {s.name for r in dh for x in r for s in x.free_symbols}
    for s in need:
        if s in ns and isinstance(ns[s], (int, float)):
            env[s] = complex(ns[s])
        else:
            bad('parameter missing in the generated code', s)
            return
    T = nu.fk(dh, env)
    for i in range(4):
        for j in range(4):
            if not same(A[i][j], T[i][j], 1e-9):
                bad('generated forward kinematics is wrong', 'element %d,%d is %.9f, the DH product gives %.9f at %s'
                    % (i, j, A[i][j], T[i][j].real, {k: round(v, 4) for k, v in draws.items()}))
                return


def numeric_client(robot, d, work):
    """In the child: a program which, as solChecker.py does, takes the kinematics from the cache and evaluates them in numbers.
    work: list of (joint values by name, parameter values by name or None for those stored in the mechanism)"""
    import traceback
    os.chdir(d)
    from ikbtbasics import ik_classes, kin_cl
    from ikbtfunctions import ik_robots
    dh, vv, params, pvals, unknowns = ik_robots.robot_params(robot)
    sym = {s.name: s for s in dh.free_symbols}
    out = []
    try:
        M, R, unks = ik_classes.kinematics_pickle(robot, dh, params, pvals, vv, unknowns, False)
        for joints, par in work:
            pose = {sym[n]: v for n, v in joints.items()}
            values = dict(M.pvals) if par is None else {sym[n]: v for n, v in par.items()}
            T = kin_cl.forward_kinematics_N(M, pose, values)
            out.append([[float(T[i, j]) for j in range(4)] for i in range(4)])
    except SystemExit as e:
        return 'quit', 'exit %r' % (e.code,)
    except Exception as e:
        return 'exception', '%s: %s | %s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-500:])
    return 'ok', out


class K09(KCheck):
    pid = 'K09'
    want = ()
    quick_runs = 260
    thorough_runs = 8000
    quick_cap = 75.0
    cpu_limit = 90
    weights = ((FAST, 6), (TINY, 3))
    weights_thorough = ((FAST, 6), (MID, 4), (TINY, 3), (SLOW, 1))
    arm_share = 0.3
    rule = ('runs of fkOnly.py over cold caches, caches left by other runs and caches from before an edit of parameter values, real, '
            'small and random arms; the generated Python is executed with drawn joint and parameter values and the '
            'LaTeX report is read back as numbers; both are compared with the DH product, the Jacobian with its derivative; '
            'non-trivial = both files were checked')
    components = {
        'real': ['fkOnly.py run unmodified by runpy in a forked process', 'kinematics and cache code', 'Python and LaTeX '
                 'writers', 'the generated Python module, executed'],
        'stub': ['clock and sleep (simulated)', 'uuid (seeded stream)', 'robot table entries of the small and random arms '
                 'and edits of parameter values', 'LaTeX itself (own reader of formulas)']}
    assumptions = ['generic poses: joint values away from multiples of pi/2, parameters nonzero']

    def gen(self, rng, i, tier):
        scn = {'robot': self.pick_robot(rng, tier), 'pose': rng.randrange(1 << 30), 'uuid': rng.randrange(1 << 20)}
        if rng.random() < self.arm_share:
            scn['robot'] = 'ARM'
            scn['arm'] = random_arm(rng, rng.choice([2, 3, 3, 4]))
        x = rng.random()
        if x < .35 and scn['robot'] != 'ARM':
            scn['edit'] = rng.randint(1, 9)        # parameter values edited after the cache was written
        elif x < .45:
            scn['again'] = True                    # the second run of fkOnly uses the cache of the first
        elif x < .55 and 'arm' not in scn and scn['robot'] in TINY:
            scn['cold'] = True
        return scn

    def execute(self, scn):
        out = Outcome()
        robot = scn['robot']
        if robot not in self.prep['good'] and 'arm' not in scn:
            out.inconclusive = 'no kinematics for %s' % robot
            out.nontrivial = False
            return out
        d = os.path.realpath(tempfile.mkdtemp(prefix='k_', dir=self.scratch))
        table = dict(proc.TINY)
        if 'arm' in scn:
            table['ARM'] = scn['arm']
            entry = proc.tiny_robot(scn['arm'])
        elif scn.get('edit'):
            if robot in table:
                sp_ = dict(table[robot])
                sp_['pvals'] = {k: v + .125 * scn['edit'] for k, v in sp_['pvals'].items()}
                table[robot] = sp_
                entry = proc.tiny_robot(sp_)
            else:
                table[robot] = {'base': robot, 'pv': scn['edit']}
                proc.install_robots(table)
                entry = proc.robot_params(robot)
                proc.install_robots(proc.TINY)
        else:
            entry = proc.robot_params(robot)
        dh, pv = self.mech(entry)
        vv = list(entry[1])
        unks = [u.name for u in entry[4]]
        try:
            make_dir(d)
            if not scn.get('cold') and 'arm' not in scn:
                os.makedirs(os.path.join(d, 'fk_eqns'))
                shutil.copy(os.path.join(self.scratch, 'cold', robot, 'fk_eqns', robot + '_pickle.p'),
                            os.path.join(d, 'fk_eqns', robot + '_pickle.p'))

            def run():
                proc.install_robots(table)
                simclock.start(1000000.0 + scn['pose'] % 100000)
                return list(proc.run_program('fkOnly.py', [robot], d)) + [simclock.CURRENT.total]
            for k in range(2 if scn.get('again') else 1):
                res, reason = proc.fork_call(run, cpu_limit=self.cpu_limit, wall_limit=self.run_limit - 20,
                                             uuid_seed=scn.get('uuid', 0) + k)
                if res is None:
                    out.inconclusive = reason
                    return out
                if isinstance(res, dict):
                    raise RuntimeError(res['__child_error__'])
                out.ev('run', k, res[0])
                out.simtime += res[2]
                if res[0] != 'ok':
                    out.violate('forward kinematics run aborted', '%s %s' % (res[0], res[1][-700:]))
                    return out
            self.judge_files(scn, robot, d, dh, vv, unks, pv, out)
            if not out.viol:
                self.judge_numbers(scn, robot, d, table, dh, pv, unks, out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    def judge_numbers(self, scn, robot, d, table, dh, pv, unks, out):
        """the numeric forward kinematics of the library, on the cache which the program left"""
        rng = random.Random('%s/num' % scn['pose'])
        names = sorted({s.name for r in dh for x in r for s in x.free_symbols})
        joints = [n for n in names if n in unks]
        params = [n for n in names if n not in unks]
        work = []
        for k in range(3):
            q = {n: rng.uniform(-3, 3) for n in joints}
            own = k == 0 and all(n in pv for n in params)
            work.append((q, None if own else {n: rng.uniform(.3, 2) for n in params}))

        def run():
            proc.install_robots(table)
            simclock.start(2000000.0)
            return numeric_client(robot, d, work)
        res, reason = proc.fork_call(run, cpu_limit=self.cpu_limit, wall_limit=self.run_limit - 20,
                                     uuid_seed=scn.get('uuid', 0) + 7)
        if res is None:
            out.inconclusive = reason
            return
        if isinstance(res, dict):
            raise RuntimeError(res['__child_error__'])
        out.ev('numbers', res[0])
        if res[0] != 'ok':
            out.violate('numeric forward kinematics cannot be computed', '%s %s' % res)
            return
        for (q, par), A in zip(work, res[1]):
            env = {n: complex(v) for n, v in q.items()}
            env.update({n: complex(pv[n] if par is None else par[n]) for n in params})
            T = nu.fk(dh, env)
            for i in range(4):
                for j in range(4):
                    if not same(A[i][j], T[i][j], 1e-9):
                        out.violate('numeric forward kinematics is wrong', 'element %d,%d is %.9f, the DH product gives %.9f at '
                                    '%s' % (i, j, A[i][j], T[i][j].real, {k: round(v.real, 4) for k, v in env.items()}))
                        return

    def judge_files(self, scn, robot, d, dh, vv, unks, pv, out):
        rng = random.Random('%s/fk' % scn['pose'])
        poses = [nu.Pose(dh, None, rng) for _ in range(2)]

        def bad(cls, detail):
            out.violate(cls, detail)
        try:
            with open(os.path.join(d, 'CodeGen', 'Python', 'FK_equations%s.py' % robot)) as f:
                src = f.read()
            with open(os.path.join(d, 'LaTex', 'fk_equations_%s.tex' % robot)) as f:
                tex = f.read()
        except OSError as e:
            bad('generated file missing', e)
            return
        for _ in range(3):
            check_fk_python(bad, src, dh, unks, pv, rng)
            if out.viol:
                return
        st = ln.structure(tex)
        if st:
            bad('report is not well formed', st)
            return
        sec = sections(tex)
        for pre, fn in (('Kinematic Parameters', lambda t: check_dh_section(bad, t, dh, poses, 'DH table in the report')),
                        ('Forward Kinematic Equations', lambda t: check_fk_section(
                            bad, t, dh, poses, 'forward kinematics in the report')),
                        ('Jacobian', lambda t: check_jac_section(bad, t, dh, vv, poses, 'Jacobian in the report'))):
            k = [x for x in sec if x.startswith(pre)]
            if len(k) != 1:
                bad('report section missing', '%s: %s' % (pre, sorted(sec)))
                return
            fn(sec[k[0]])
        out.ev('files', len(src), len(tex))
        out.states.add(robot + ('/edit' if scn.get('edit') else '') + ('/again' if scn.get('again') else '')
                       if 'arm' not in scn else json.dumps(scn['arm']['rows']))
        for k in ('edit', 'again', 'cold', 'arm'):
            if scn.get(k):
                out.stats['history:' + {'edit': 'parameters edited after caching', 'again': 'second run',
                                        'cold': 'cold cache', 'arm': 'random arm, cold cache'}[k]] += 1

    def shrink(self, scn):
        for k in ('edit', 'again', 'cold'):
            if scn.get(k):
                yield {x: v for x, v in scn.items() if x != k}
        for s in KCheck.shrink(self, scn):
            yield s


class K12(KCheck):
    pid = 'K12'
    want = ('latex',)
    rule = ('as K01, run to the end; the LaTeX report is read back as numbers: DH table, forward kinematics, Jacobian, generic '
            'solutions, version equations and solution sets must be those of the robot at generic poses; '
            'non-trivial = at least one unknown solved')


# --------------------------------------------------------------------------------- determinism

def artefacts(d):
    out = {}
    for sub in ('CodeGen/Python', 'CodeGen/Cpp', 'LaTex'):
        p = os.path.join(d, sub)
        for n in sorted(os.listdir(p)):
            if n in ('IK_preamble.tex', 'IK_close.tex'):
                continue
            with open(os.path.join(p, n), 'rb') as f:
                out[sub + '/' + n] = f.read()
    return out


def first_difference(a, b):
    al, bl = a.decode('utf8', 'replace').splitlines(), b.decode('utf8', 'replace').splitlines()
    for k, (x, y) in enumerate(zip(al, bl)):
        if x != y:
            return 'line %d: %r / %r' % (k + 1, x[:200], y[:200])
    return 'lengths %d / %d lines' % (len(al), len(bl))


class K07(KCheck):
    pid = 'K07'
    want = ()
    quick_runs = 140
    thorough_runs = 6000
    quick_cap = 75.0
    selftest = 6
    cpu_limit = 120
    weights = ((FAST, 8), (TINY, 3))
    weights_thorough = ((FAST, 8), (MID, 3), (TINY, 3), (SLOW, 1))
    arm_share = 0.0
    rule = ('the robot is run once in a fresh directory (reference) and then again under drawn hash seed, uuid stream, clock, cache state, '
            'program order and runs of other robots before it in the same directory; all generated files must be byte for byte those '
            'of the reference; non-trivial = files were compared')
    components = {
        'real': ['ikSolver.py and fkOnly.py run unmodified by runpy', 'kinematics, solver, writers'],
        'stub': ['clock and sleep (simulated, drawn start)', 'uuid (seeded stream)', 'string hashing (drawn seed per worker)',
                 'robot table entries of the small arms']}
    assumptions = ['one robot table; no edits between runs (edits are F02)']

    def prepare(self, scratch, tier, seed):
        self.scratch = scratch
        jobs = []
        for r in self.robots(tier):
            d = os.path.join(scratch, 'ref', r)
            make_dir(d)
            jobs.append((r, lambda r=r, d=d: cold_popen(r, d, prog='both', hashseed=0)))
        res = parallel(jobs)
        good = []
        for r, (rc, err) in sorted(res.items()):
            if rc == 0 and 'STATUS ["ok"' in err:
                good.append(r)
            else:
                print('reference run of %s failed: %s' % (r, err[-600:]), file=sys.stderr)
        return {'scratch': scratch, 'good': good, 'viol': []}

    def setup_worker(self, prep):
        KCheck.setup_worker(self, prep)
        self.refs = {r: artefacts(os.path.join(self.scratch, 'ref', r)) for r in prep['good']}

    def gen(self, rng, i, tier):
        scn = {'robot': self.pick_robot(rng, tier), 'uuid': rng.randrange(1 << 30), 'clock': rng.choice(
            [0, 1e6, 8e8, rng.uniform(0, 2e9)]), 'progs': rng.choice([['ik'], ['fk'], ['ik', 'fk'], ['fk', 'ik'], ['ik', 'ik']])}
        small = rng.random()
        if small < .35:
            scn['before'] = [rng.choice(TINY + ['Wrist', 'Palm13']) for _ in range(rng.randint(1, 2))]
        if scn['robot'] in TINY and rng.random() < .5:
            scn['cold'] = True
        return scn

    def execute(self, scn):
        out = Outcome()
        robot = scn['robot']
        if robot not in self.refs:
            out.inconclusive = 'no reference for %s' % robot
            out.nontrivial = False
            return out
        d = os.path.realpath(tempfile.mkdtemp(prefix='k_', dir=self.scratch))
        try:
            make_dir(d)
            os.makedirs(os.path.join(d, 'fk_eqns'))
            seq = [('ik', b) for b in scn.get('before') or [] if b != robot and b in self.refs] + \
                [(p, robot) for p in scn['progs']]
            for r in {r for _, r in seq}:
                if not (scn.get('cold') and r == robot):
                    shutil.copy(os.path.join(self.scratch, 'ref', r, 'fk_eqns', r + '_pickle.p'),
                                os.path.join(d, 'fk_eqns', r + '_pickle.p'))
            for k, (p, r) in enumerate(seq):
                def run():
                    proc.install_robots(proc.TINY)
                    simclock.start(scn['clock'] + 1000.0 * k)
                    st = list(proc.run_program({'ik': 'ikSolver.py', 'fk': 'fkOnly.py'}[p], [r], d))
                    return st + [simclock.CURRENT.total]
                res, reason = proc.fork_call(run, cpu_limit=self.cpu_limit, wall_limit=self.run_limit - 20,
                                             uuid_seed=scn['uuid'] + k)
                if res is None:
                    out.inconclusive = reason
                    return out
                if isinstance(res, dict):
                    raise RuntimeError(res['__child_error__'])
                out.ev(p, r, res[0])
                out.simtime += res[2]
                if res[0] != 'ok':
                    out.violate('run aborted', '%s %s: %s' % (p, r, res[1][-700:]))
                    return out
            got = artefacts(d)
            n = 0
            for r in {r for _, r in seq}:
                for name, ref in self.refs[r].items():
                    kind = 'fk' if os.path.basename(name).lower().startswith('fk') else 'ik'
                    if (kind, r) not in seq:
                        continue
                    n += 1
                    if name not in got:
                        out.violate('generated file missing', '%s after %s' % (name, seq))
                    elif got[name] != ref:
                        out.violate('generated file differs', '%s after %s: %s'
                                    % (name, seq, first_difference(ref, got[name])), 'differs|%s' % name.split('/')[0])
            out.ev('compared', n)
            out.stats['probe:files compared'] += n
            for k in ('before', 'cold'):
                if scn.get(k):
                    out.stats['history:' + k] += 1
            out.states.add(json.dumps([robot, seq, bool(scn.get('cold'))]))
            out.nontrivial = n > 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    def shrink(self, scn):
        for k in ('before', 'cold'):
            if scn.get(k):
                yield {x: v for x, v in scn.items() if x != k}
        for p in (['ik'], ['fk']):
            if scn['progs'] != p and len(scn['progs']) > 1:
                yield dict(scn, progs=p)
        if scn['clock']:
            yield dict(scn, clock=0)
        for r in ('RP', 'RRx', 'Wrist', 'Minder13', 'Palm13'):
            if r != scn['robot'] and r in self.prep['good']:
                yield dict(scn, robot=r)


CHECKS = {'K07': K07, 'K09': K09, 'K12': K12}
