"""Simulated solver processes: the real programs (ikSolver.py, fkOnly.py) run by runpy in a forked
child of a preloaded interpreter.  Clock, uuid and the robot table are seams."""
import io
import json
import os
import pickle
import random
import runpy
import signal
import struct
import sys
import traceback
import uuid
import warnings

from . import simclock
from .runner import REPO

LOADED = False
sp = None
ir = None
ORIG_ROBOT_PARAMS = None
MEMO = {}
MEMO_NEW = {}
MEMO_ON = False


def preload():
    """Import everything the programs import, once, in the worker."""
    global LOADED, sp, ir, ORIG_ROBOT_PARAMS
    if LOADED:
        return
    LOADED = True
    simclock.install()
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import sympy
        sp = sympy
        import unittest                                     # noqa: F401
        import b3                                           # noqa: F401
        import ikbtfunctions.helperfunctions                # noqa: F401
        import ikbtfunctions.output_latex                   # noqa: F401
        import ikbtfunctions.output_python                  # noqa: F401
        import ikbtfunctions.output_cpp                     # noqa: F401
        import ikbtfunctions.ik_robots
        ir = ikbtfunctions.ik_robots
        import ikbtbasics
        import ikbtbasics.ik_classes                        # noqa: F401
        for m in ('assigner_leaf', 'rank_leaf', 'algebra_solver', 'tan_solver', 'sincos_solver',
                  'sinANDcos_solver', 'x2y2_transform', 'sub_transform', 'sum_id', 'two_eqn_m7',
                  'updateL', 'comp_detect'):
            try:
                __import__('ikbtleaves.' + m)
            except ImportError:
                pass
        # whatever else the programs import now happens here, outside the simulation
        sp.sin(sp.Symbol('x')).diff()
        str(sp.Symbol('x'))
        sp.latex(sp.Symbol('x'))
        sp.init_printing()
    finally:
        sys.stdout = out
    ORIG_ROBOT_PARAMS = ir.robot_params


# ------------------------------------------------------------------ robots

def tiny_robot(spec):
    """spec: {'rows': [[alpha,a,d,theta] as strings] x6, 'vv', 'params', 'pvals', 'unknowns'} -> like robot_params"""
    ns = {'pi': sp.pi}
    rows = [[sp.sympify(x, locals={}) if not isinstance(x, (int, float)) else x for x in r] for r in spec['rows']]
    dh = sp.Matrix(rows)
    import ikbtbasics.kin_cl as kc
    unks = [kc.unknown(sp.Symbol(u)) for u in spec['unknowns']]
    for i, u in enumerate(unks):
        u.n = i + 1
    params = [sp.Symbol(p) for p in spec['params']]
    pvals = {sp.Symbol(k): v for k, v in spec['pvals'].items()}
    del ns
    return [dh, list(spec['vv']), params, pvals, unks]


Z = [0, 0, 0, 0]
TINY = {
    'PP': {'rows': [[0, 0, 'd_1', 0], ['-pi/2', 0, 'd_2', 0], Z, Z, Z, Z], 'vv': [0, 0, 1, 1, 1, 1],
           'params': [], 'pvals': {}, 'unknowns': ['d_1', 'd_2']},
    'RP': {'rows': [[0, 0, 0, 'th_1'], ['pi/2', 0, 'd_2', 0], Z, Z, Z, Z], 'vv': [1, 0, 1, 1, 1, 1],
           'params': [], 'pvals': {}, 'unknowns': ['th_1', 'd_2']},
    'RPl': {'rows': [[0, 0, 0, 'th_1'], ['pi/2', 'l_1', 'd_2', 0], Z, Z, Z, Z], 'vv': [1, 0, 1, 1, 1, 1],
            'params': ['l_1'], 'pvals': {'l_1': 1.5}, 'unknowns': ['th_1', 'd_2']},
    'RRx': {'rows': [[0, 0, 0, 'th_1'], ['pi/2', 'l_1', 0, 'th_2'], Z, Z, Z, Z], 'vv': [1, 1, 1, 1, 1, 1],
            'params': ['l_1'], 'pvals': {'l_1': 1.5}, 'unknowns': ['th_1', 'th_2']},
    'PRal': {'rows': [[0, 0, 'd_1', 0], ['al_1', 'l_1', 0, 'th_2'], Z, Z, Z, Z], 'vv': [0, 1, 1, 1, 1, 1],
             'params': ['l_1', 'al_1'], 'pvals': {'l_1': 0.5, 'al_1': 0.6}, 'unknowns': ['d_1', 'th_2']},
}


def robot_params(name):
    return ir.robot_params(name)


def install_robots(table):
    """table: name -> spec. Names not in it go to the real robot table."""
    def robot_params(name):
        spec = table.get(name)
        if spec is not None and 'base' in spec:
            r = list(ORIG_ROBOT_PARAMS(spec['base']))
            params, pvals = list(r[2]), dict(r[3])
            for k in pvals:
                if spec.get('pv') and isinstance(pvals[k], (int, float)):
                    pvals[k] = pvals[k] + 0.125 * spec['pv']
            if spec.get('extra'):
                params.append(sp.Symbol('h'))
                pvals[sp.Symbol('h')] = 3
            r[2], r[3] = params, pvals
            return r
        if spec is not None:
            return tiny_robot(spec)
        return ORIG_ROBOT_PARAMS(name)
    robot_params.verif_seam = True
    # the programs get it by star imports through several modules
    for m in list(sys.modules.values()):
        f = getattr(m, '__dict__', {}).get('robot_params')
        if f is ORIG_ROBOT_PARAMS or getattr(f, 'verif_seam', False):
            m.robot_params = robot_params


# ------------------------------------------------------------------ memoised sympy (pure functions)

def _key(x):
    if isinstance(x, sp.MatrixBase):
        return ('M', sp.ImmutableMatrix(x))
    return x


def install_memo():
    """sympy.simplify/trigsimp are pure; remember their results (sympy itself is not under test)."""
    real_s, real_t = sp.simplify, sp.trigsimp

    def wrap(name, fn):
        def f(x, *a, **k):
            if a or k:
                return fn(x, *a, **k)
            try:
                kk = (name, _key(x))
                if kk in MEMO:
                    r = MEMO[kk]
                    return r.as_mutable() if isinstance(r, sp.MatrixBase) else r
            except TypeError:
                return fn(x)
            r = fn(x)
            v = sp.ImmutableMatrix(r) if isinstance(r, sp.MatrixBase) else r
            MEMO[kk] = v
            MEMO_NEW[kk] = v
            return r
        return f
    sp.simplify = wrap('simplify', real_s)
    sp.trigsimp = wrap('trigsimp', real_t)


# ------------------------------------------------------------------ processes

class Uuid(object):
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __call__(self, *a, **k):
        return uuid.UUID(int=self.r.getrandbits(128))


def run_program(prog, args, cwd):
    """In the child.  Returns (status, detail)."""
    os.chdir(cwd)
    sys.argv = [prog] + list(args)
    try:
        runpy.run_path(os.path.join(REPO, prog), run_name='__main__')
        return 'ok', ''
    except SystemExit as e:
        return 'quit', repr(e.code)
    except Exception as e:
        return 'exception', '%s: %s | %s' % (type(e).__name__, str(e)[:300],
                                             traceback.format_exc()[-900:])


def send_obj(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv_obj(fd):
    head = b''
    while len(head) < 8:
        c = os.read(fd, 8 - len(head))
        if not c:
            return None
        head += c
    n = struct.unpack('<Q', head)[0]
    buf = b''
    while len(buf) < n:
        c = os.read(fd, min(1 << 20, n - len(buf)))
        if not c:
            return None
        buf += c
    return pickle.loads(buf)


def fork_call(fn, cpu_limit=600, wall_limit=1200, uuid_seed=0):
    """Run fn() in a forked child; returns (value, None) or (None, reason)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu_limit), int(cpu_limit) + 5))
            uuid.uuid1 = Uuid('u1/%s' % uuid_seed)
            uuid.uuid4 = Uuid('u4/%s' % uuid_seed)
            val = fn()
            send_obj(w, val)
        except BaseException:
            sys.stderr.write(traceback.format_exc())
            try:
                send_obj(w, {'__child_error__': traceback.format_exc()[-2500:]})
            except BaseException:
                code = 9
        finally:
            os._exit(code)
    os.close(w)
    import select
    t0 = simclock.REAL['monotonic']()
    val = None
    reason = None
    while True:
        left = wall_limit - (simclock.REAL['monotonic']() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            reason = 'wall limit'
            break
        rr, _, _ = select.select([r], [], [], min(left, 5))
        if rr:
            try:
                val = recv_obj(r)
            except Exception as e:
                reason = 'unreadable answer %r' % e
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if val is None and reason is None:
        reason = 'child ended with status %d' % st
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            reason = 'cpu limit'
    return val, reason
