"""Reads the formulas sympy prints as LaTeX back as numbers: a small tokenizer and recursive descent evaluator,
independent of the repository and of sympy.  Names are compared with underscores, braces and \\theta removed."""
import re

from . import numeric as nu


class LatexError(Exception):
    pass


TOK = re.compile(r'\\left|\\right|\\[A-Za-z]+|\\\\|\\[ ,;!]|[0-9]+\.[0-9]+|[0-9]+|[A-Za-z]+|.', re.S)


def norm(name):
    return name.replace('\\theta', 'th').replace('_', '').replace('{', '').replace('}', '').replace(' ', '')


def tokens(s):
    out = []
    for t in TOK.findall(s):
        if t.isspace() or t in ('\\left', '\\right', '\\ ', '\\,', '\\;', '\\!', '\\quad', '&'):
            continue
        out.append(t)
    return out


class Parser(object):
    def __init__(self, text, env, B=nu.FB):
        self.t = tokens(text)
        self.k = 0
        self.env = env          # normalised name -> value
        self.B = B
        self.names = set()

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else None

    def next(self):
        t = self.peek()
        self.k += 1
        return t

    def expect(self, x):
        t = self.next()
        if t != x:
            raise LatexError('expected %r, found %r' % (x, t))

    def value(self):
        v = self.expr()
        if self.peek() is not None:
            raise LatexError('unexpected %r' % self.peek())
        return v

    def expr(self):
        sign = 1
        v = None
        while self.peek() in ('+', '-'):
            if self.next() == '-':
                sign = -sign
        v = sign * self.term()
        while self.peek() in ('+', '-'):
            op = self.next()
            w = self.term()
            v = v + w if op == '+' else v - w
        return v

    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t in ('\\cdot', '\\times'):
                self.next()
                v = v * self.factor()
            elif t is None or t in ('+', '-', ')', '}', ']', ',', '=', '|', '\\\\'):
                return v
            else:
                v = v * self.factor()

    def factor(self):
        v = self.atom()
        while self.peek() == '^':
            self.next()
            v = self.power(v, self.group())
        return v

    def power(self, b, x):
        B = self.B
        if abs(b) < B.tiny ** 2 and B.re(x) < 0:
            raise nu.Undefined('1/0')
        n = int(round(float(B.re(x))))
        if abs(x - n) < 1e-12:
            return b ** n
        if abs(x - 0.5) < 1e-12:
            return self.root(b)
        return b ** x

    def root(self, b):
        B = self.B
        if abs(B.im(b)) < B.tiny and -B.tiny < B.re(b) < 0:
            return B.c(0)
        return B.c(b) ** 0.5

    def group(self):
        """{ expr } or one token"""
        if self.peek() == '{':
            self.next()
            v = self.expr()
            self.expect('}')
            return v
        t = self.next()
        if t is None:
            raise LatexError('ends early')
        if t.isdigit():
            return self.B.c(int(t))
        return self.symbol(t)

    def args(self):
        """{( a, b )} or ( a )"""
        br = self.peek() == '{'
        if br:
            self.next()
        self.expect('(')
        a = [self.expr()]
        while self.peek() == ',':
            self.next()
            a.append(self.expr())
        self.expect(')')
        if br:
            self.expect('}')
        return a

    def atom(self):
        t = self.next()
        B = self.B
        if t is None:
            raise LatexError('ends early')
        if t[0].isdigit():
            return B.c(float(t)) if '.' in t else B.c(int(t))
        if t in ('(', '[', '{'):
            v = self.expr()
            self.expect({'(': ')', '[': ']', '{': '}'}[t])
            return v
        if t == '|':
            v = self.expr()
            self.expect('|')
            return B.c(abs(v))
        if t == '\\frac':
            a = self.group()
            b = self.group()
            if abs(b) < B.tiny ** 2:
                raise nu.Undefined('1/0')
            return a / b
        if t == '\\sqrt':
            return self.root(self.group())
        if t == '\\pi':
            return B.c(B.pi)
        if t in ('\\sin', '\\cos', '\\tan'):
            p = None
            if self.peek() == '^':
                self.next()
                p = self.group()
            v = getattr(B, t[1:])(self.args()[0])
            return v if p is None else self.power(v, p)
        if t == '\\operatorname':
            self.expect('{')
            name = ''
            while self.peek() not in ('}', None):
                name += self.next()
            self.expect('}')
            name = self.subscript(name)
            name = norm(name)
            p = None
            if self.peek() == '^':
                self.next()
                p = self.group()
            a = self.args()
            if name == 'atan2':
                if len(a) != 2:
                    raise LatexError('atan2 of %d arguments' % len(a))
                y, x = a
                if abs(y) < B.zero and abs(x) < B.zero:
                    raise nu.Indeterminate('atan2(0,0)')
                if abs(B.im(y)) > 1e-7 or abs(B.im(x)) > 1e-7:
                    raise nu.Undefined('atan2 of complex')
                v = B.atan2(y, x)
            elif name in ('asin', 'acos'):
                v = a[0]
                if abs(B.im(v)) < B.tiny and 1 < abs(B.re(v)) < 1 + B.tiny:
                    v = B.c(1 if B.re(v) > 0 else -1)
                v = getattr(B, name)(v)
            elif name == 'atan':
                v = B.atan(a[0])
            else:
                raise LatexError('function ' + name)
            return v if p is None else self.power(v, p)
        if t[0].isalpha() or t == '\\theta' or (t[0] == '\\' and t[1:].isalpha()):
            return self.symbol(t)
        raise LatexError('unexpected %r' % t)

    def subscript(self, name):
        while self.peek() == '_':
            self.next()
            name += '_'
            if self.peek() == '{':
                self.next()
                while self.peek() not in ('}', None):
                    name += self.next()
                self.expect('}')
            else:
                name += self.next() or ''
        return name

    def symbol(self, t):
        # letters followed by digits without a separator belong to one name (e.g. th 23)
        name = t
        while self.peek() is not None and (self.peek().isalnum() and self.k > 0 and False):
            name += self.next()
        name = norm(self.subscript(name))
        # a name may go on after its subscript: \theta_{1}s_{1}
        while name not in self.env and self.peek() is not None and re.match(r'[A-Za-z0-9]+$', self.peek()):
            name = norm(self.subscript(name + self.next()))
        self.names.add(name)
        if name not in self.env:
            raise nu.Foreign(name)
        return self.B.c(self.env[name])


def evaluate(text, env, B=nu.FB):
    return Parser(text, env, B).value()


def matrices(text):
    """The matrices in a piece of LaTeX, as lists of rows of cell texts."""
    out = []
    for m in re.finditer(r'\\begin\{matrix\}(.*?)\\end\{matrix\}', text, re.S):
        out.append([[c for c in row.split('&')] for row in m.group(1).split('\\\\')])
    return out


def structure(text):
    """None, or what is wrong with the nesting of environments and braces."""
    stack = []
    depth = 0
    verb = False
    for m in re.finditer(r'\\begin\{([^}]*)\}|\\end\{([^}]*)\}|\\.|[{}]|%[^\n]*', text, re.S):
        s = m.group(0)
        if m.group(1) is not None:
            if not verb:
                stack.append((m.group(1), depth))
                verb = m.group(1) == 'verbatim'
        elif m.group(2) is not None:
            if verb and m.group(2) != 'verbatim':
                continue
            if not stack or stack[-1][0] != m.group(2):
                return '\\end{%s} closes %s' % (m.group(2), stack[-1][0] if stack else 'nothing')
            if stack[-1][1] != depth:
                return 'unbalanced braces in ' + m.group(2)
            stack.pop()
            verb = False
        elif verb:
            continue
        elif s == '{':
            depth += 1
        elif s == '}':
            depth -= 1
            if depth < 0:
                return 'unbalanced closing brace near %r' % text[max(0, m.start() - 60):m.start() + 5]
    if stack:
        return 'environment %s is never closed' % stack[-1][0]
    if depth:
        return '%d braces are never closed' % depth
    return None
