"""Independent numeric oracle: evaluates sympy expressions at a concrete pose (float or 60-digit
arithmetic) and computes forward kinematics straight from the DH table.  Uses no code of the repository."""
import cmath
import math
import random


class Undefined(Exception):
    """division by zero, infinities: the expression has no value at this pose"""


class Indeterminate(Exception):
    """atan2 of two values that vanish identically"""


class Foreign(Exception):
    """a symbol that is no pose entry, parameter or unknown"""


class FloatB(object):
    name = 'float'
    tiny = 1e-9
    zero = 1e-11

    def num(self, e):
        return complex(e)

    sin = staticmethod(cmath.sin)
    cos = staticmethod(cmath.cos)
    tan = staticmethod(cmath.tan)
    asin = staticmethod(cmath.asin)
    acos = staticmethod(cmath.acos)
    atan = staticmethod(cmath.atan)
    exp = staticmethod(cmath.exp)

    def atan2(self, y, x):
        return complex(math.atan2(y.real, x.real))

    pi = math.pi

    def re(self, v):
        return v.real

    def im(self, v):
        return v.imag

    def c(self, v):
        return complex(v)


class MpB(object):
    name = 'mp'
    tiny = 1e-40
    zero = 1e-35

    def __init__(self):
        import mpmath
        self.mp = mpmath.mp.clone()
        self.mp.dps = 70
        m = self.mp
        self.sin, self.cos, self.tan, self.asin, self.acos, self.atan, self.exp = \
            m.sin, m.cos, m.tan, m.asin, m.acos, m.atan, m.exp
        self.pi = m.pi

    def num(self, e):
        if e.is_Rational:
            return self.mp.mpc(self.mp.mpf(int(e.p)) / int(e.q))
        n = type(e).__name__
        if n == 'Pi':
            return self.mp.mpc(+self.mp.pi)
        if n == 'ImaginaryUnit':
            return self.mp.mpc(0, 1)
        if e.is_Float:
            return self.mp.mpc(self.mp.mpf(float(e)))
        return self.mp.mpc(self.mp.mpf(str(e.evalf(80))))

    def atan2(self, y, x):
        return self.mp.mpc(self.mp.atan2(y.real, x.real))

    def re(self, v):
        return self.mp.mpc(v).real

    def im(self, v):
        return self.mp.mpc(v).imag

    def c(self, v):
        return self.mp.mpc(v)


FB = FloatB()
_MP = None


def mpb():
    global _MP
    if _MP is None:
        _MP = MpB()
    return _MP


def ev(e, env, B=FB, memo=None):
    if memo is not None:
        v = memo.get(e)
        if v is not None:
            return v
    v = _ev(e, env, B, memo)
    if memo is not None:
        memo[e] = v
    return v


def _ev(e, env, B, memo):
    if e.is_Symbol:
        try:
            return B.c(env[e.name])
        except KeyError:
            raise Foreign(e.name)
    if e.is_Number or e.is_NumberSymbol or not e.args:
        n = type(e).__name__
        if n in ('NaN', 'ComplexInfinity', 'Infinity', 'NegativeInfinity'):
            raise Undefined(n)
        return B.num(e)
    a = [ev(x, env, B, memo) for x in e.args]
    n = type(e).__name__
    if n == 'Add':
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if n == 'Mul':
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if n == 'Pow':
        b, x = a
        if abs(b) < B.tiny ** 2 and B.re(x) < 0:
            raise Undefined('1/0')
        half = abs(x - 0.5) < 1e-12
        if half and abs(B.im(b)) < B.tiny and -B.tiny < B.re(b) < 0:
            return B.c(0)
        ex = e.args[1]
        if ex.is_Integer:
            try:
                return b ** int(ex)
            except ZeroDivisionError:
                raise Undefined('1/0')
        try:
            return b ** x
        except ZeroDivisionError:
            raise Undefined('1/0')
    if n in ('sin', 'cos', 'tan', 'atan', 'exp'):
        return getattr(B, n)(a[0])
    if n in ('asin', 'acos'):
        v = a[0]
        if abs(B.im(v)) < B.tiny and 1 < abs(B.re(v)) < 1 + B.tiny:
            v = B.c(1 if B.re(v) > 0 else -1)
        return getattr(B, n)(v)
    if n == 'atan2':
        y, x = a
        if abs(y) < B.zero and abs(x) < B.zero:
            raise Indeterminate('atan2(0,0)')
        if abs(B.im(y)) > 1e-7 or abs(B.im(x)) > 1e-7:
            raise Undefined('atan2 of complex')
        return B.atan2(y, x)
    if n == 'Abs':
        return B.c(abs(a[0]))
    if n == 'sign':
        return B.c((B.re(a[0]) > 0) - (B.re(a[0]) < 0))
    raise Undefined('cannot evaluate ' + n)


def link(B, al, a, d, th):
    ca, sa, ct, st = B.cos(al), B.sin(al), B.cos(th), B.sin(th)
    return [[ct, -st, 0, a], [st * ca, ct * ca, -sa, -sa * d], [st * sa, ct * sa, ca, ca * d], [0, 0, 0, 1]]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def fk(dh, env, B=FB):
    """T06 as nested lists (complex entries) by plain DH products."""
    T = None
    for i in range(6):
        row = [ev(x, env, B) for x in dh[i]]
        L = link(B, *row)
        T = L if T is None else mul(T, L)
    return T


class Pose(object):
    """A generic configuration: joint values and parameters as floats; env() adds what follows from them."""

    def __init__(self, dh, unknown_names, rng, pvals=None, ca_sa=None):
        """dh: 6 rows of 4 sympy expressions.  pvals: name -> number for parameters that must have that value."""
        self.dh = dh
        self.base = {}
        names = set()
        angle = set()
        for r in dh:
            for k, x in enumerate(r):
                for s in x.free_symbols:
                    names.add(s.name)
                    if k in (0, 3):
                        angle.add(s.name)
        for n in sorted(names):
            if pvals and n in pvals:
                self.base[n] = float(pvals[n])
            elif n in angle:
                # keep clear of multiples of pi/2 (singular postures are measure zero)
                v = rng.uniform(0.12, math.pi / 2 - 0.12) + rng.choice([-2, -1, 0, 1]) * math.pi / 2
                self.base[n] = v
            else:
                self.base[n] = rng.uniform(0.3, 1.5) * (1 if rng.random() < 0.6 else -1)
        self.cache = {}

    def env(self, B=FB):
        if B.name in self.cache:
            return self.cache[B.name]
        e = {n: B.c(v) for n, v in self.base.items()}
        for i in range(6):
            al = ev(self.dh[i][0], e, B)
            e['ca%d' % i] = B.cos(al)
            e['sa%d' % i] = B.sin(al)
        T = fk(self.dh, e, B)
        for i in range(3):
            for j in range(3):
                e['r_%d%d' % (i + 1, j + 1)] = B.c(T[i][j])
            e['P' + 'xyz'[i]] = B.c(T[i][3])
        self.cache[B.name] = e
        return e

    def T(self):
        e = self.env()
        return [[e['r_%d%d' % (i + 1, j + 1)].real for j in range(3)] + [e['P' + 'xyz'[i]].real] for i in range(3)] + \
            [[0.0, 0.0, 0.0, 1.0]]

    def define(self, aux):
        """Add sums of angles: every aux equation `symbol = expression` defines its symbol the first time."""
        for B in ([FB] if 'mp' not in self.cache else [FB, mpb()]):
            e = self.env(B)
            for lhs, rhs in aux:
                if lhs.is_Symbol and lhs.name not in e:
                    try:
                        e[lhs.name] = ev(rhs, e, B)
                    except (Foreign, Undefined, Indeterminate):
                        pass


def angdiff(a, b):
    d = (a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d)


def close_joint(v, q, prismatic, B=FB, tol=1e-6):
    if abs(B.im(v)) > tol:
        return False
    v, q = B.re(v), B.re(q)
    if prismatic:
        return abs(v - q) <= tol * (1 + abs(q))
    d = (v - q) % (2 * B.pi)
    return min(d, 2 * B.pi - d) <= tol


def prismatic(name):
    return name.startswith('d_') or name == 'd'
