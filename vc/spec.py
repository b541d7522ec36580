"""The contract language.

A contract's postcondition gives, for every result lane, a term:
  Z   an exact mathematical integer expression over the argument lanes; the lane must hold it
      modulo 2^n (wrap is the only place where machine arithmetic enters a contract)
  F   an IEEE-754 term; the lane must be that value (any NaN for NaN, zeros distinguished)
  B   a bit pattern (moves, selections, masks): bit-identical, NaN payloads included
Z terms are compiled to bit-vectors wide enough to be exact (interval arithmetic) and can also be
evaluated on concrete integers, independently of the compilation (spec self-test, replay oracle).
"""
import re
import z3
import symex as S
import fpeval
import fpx
from symex import MASK, bv, norm


# -------------------------------------------------------------------- types
class VT:
    """vector type: element kind ('s','u','f','p'), element width, lanes per register, registers"""

    def __init__(self, name):
        m = re.fullmatch(r'(u?int|float|poly)(\d+)x(\d+)(?:x(\d+))?_t', name)
        self.name = name
        self.k = {'int': 's', 'uint': 'u', 'float': 'f', 'poly': 'p'}[m.group(1)]
        self.w = int(m.group(2))
        self.n = int(m.group(3))
        self.r = int(m.group(4) or 1)
        self.total = self.n * self.r
        self.size = self.total * self.w // 8


_vt = {}


def vt(name):
    if name not in _vt:
        _vt[name] = VT(name)
    return _vt[name]


SC = {'int8_t': ('s', 8), 'int16_t': ('s', 16), 'int32_t': ('s', 32), 'int64_t': ('s', 64), 'uint8_t': ('u', 8),
      'uint16_t': ('u', 16), 'uint32_t': ('u', 32), 'uint64_t': ('u', 64), 'float32_t': ('f', 32), 'float64_t': ('f', 64),
      'int': ('s', 32), 'float': ('f', 32), 'double': ('f', 64)}


# ----------------------------------------------------------- exact integers
class Z:
    __slots__ = ('op', 'a', 'lo', 'hi', '_c')

    def __init__(self, op, a, lo, hi):
        self.op, self.a, self.lo, self.hi = op, a, lo, hi
        self._c = None

    def __add__(s, o):
        o = zc(o)
        return Z('+', (s, o), s.lo + o.lo, s.hi + o.hi)

    def __sub__(s, o):
        o = zc(o)
        return Z('-', (s, o), s.lo - o.hi, s.hi - o.lo)

    def __mul__(s, o):
        o = zc(o)
        p = [s.lo * o.lo, s.lo * o.hi, s.hi * o.lo, s.hi * o.hi]
        return Z('*', (s, o), min(p), max(p))
    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(s, o):
        return zc(o) - s

    def __rshift__(s, k):      # floor division by 2^k
        return Z('>>', (s, k), s.lo >> k, s.hi >> k)

    def __lshift__(s, k):
        return Z('<<', (s, k), s.lo << k, s.hi << k)


def zc(v):
    return v if isinstance(v, Z) else Z('c', (v,), v, v)


def zvar(term, w, signed):
    """the mathematical value of a w-bit term"""
    if isinstance(term, int):
        return zc(S.to_s(term, w) if signed else term & MASK(w))
    return Z('var', (term, w, signed), -(1 << (w - 1)) if signed else 0, (1 << (w - 1)) - 1 if signed else MASK(w))


def zmin(x, y):
    x, y = zc(x), zc(y)
    return Z('min', (x, y), min(x.lo, y.lo), min(x.hi, y.hi))


def zmax(x, y):
    x, y = zc(x), zc(y)
    return Z('max', (x, y), max(x.lo, y.lo), max(x.hi, y.hi))


def clamp(x, lo, hi):
    return zmin(zmax(x, lo), hi)


def sat(x, w, signed):
    return clamp(x, -(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else clamp(x, 0, MASK(w))


def zite(c, x, y):
    """c = (rel, Z, Z)"""
    x, y = zc(x), zc(y)
    return Z('ite', (c, x, y), min(x.lo, y.lo), max(x.hi, y.hi))


need = S.swidth


def exact(z):
    """(term, width): the signed width-bit term equal to z"""
    if z._c is None:
        w = need(z.lo, z.hi)
        if z.op == 'c':
            r = z.a[0] & MASK(w)
        elif z.op == 'var':
            t, n, sg = z.a
            r = S.sext(t, n, w) if sg else S.zext(t, n, w)
            if sg:
                w = n
                r = t
        elif z.op in ('+', '-', '*', '<<'):
            r = modw(z, w)
        elif z.op == '>>':
            e, n = exact(z.a[0])
            k = z.a[1]
            if k >= n:
                k = n - 1
            if isinstance(e, int):
                r = (S.to_s(e, n) >> k) & MASK(w)
            else:
                r = z3.Extract(n - 1, k, e) if k else e
                r = S.sext(r, n - k, w) if n - k < w else S.trunc(r, w)
        elif z.op in ('min', 'max', 'ite'):
            if z.op == 'ite':
                (rel, p, q), x, y = z.a
            else:
                x, y = z.a
                p, q = x, y
                rel = '<' if z.op == 'min' else '>'
            c = zrel(rel, p, q)
            m = max(exact(x)[1], exact(y)[1], w)
            r = S.ite(c, modw(x, m), modw(y, m), m)
            r = S.trunc(r, w)
        else:
            raise AssertionError(z.op)
        z._c = (r, w)
    return z._c


def zrel(rel, p, q):
    ep, n = exact(p)
    eq_, m = exact(q)
    k = max(n, m)
    a, b = S.sext(ep, n, k), S.sext(eq_, m, k)
    if isinstance(a, int) and isinstance(b, int):
        a, b = S.to_s(a, k), S.to_s(b, k)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b}[rel]
    a, b = bv(a, k), bv(b, k)
    return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b}[rel]()


def modw(z, n):
    """the n-bit term congruent to z modulo 2^n"""
    if z.op == 'c':
        return z.a[0] & MASK(n)
    if z.op == 'var':
        t, w, sg = z.a
        if w >= n:
            return S.trunc(t, n)
        return (S.sext if sg else S.zext)(t, w, n)
    if z.op == '*':
        # canonical: multiply at the exact width of the product when that is narrower
        w = need(z.lo, z.hi)
        if w < n:
            e = S.mul(modw(z.a[0], w), modw(z.a[1], w), w)
            return S.sext(e, w, n)
    if z.op in ('+', '-', '*'):
        f = {'+': S.add, '-': S.sub, '*': S.mul}[z.op]
        return f(modw(z.a[0], n), modw(z.a[1], n), n)
    if z.op == '<<':
        return S.shl(modw(z.a[0], n), z.a[1], n)
    e, w = exact(z)
    return S.sext(e, w, n) if w < n else S.trunc(e, n)


def zeval(z, env):
    """direct evaluation over Python integers (independent of the compilation)"""
    o = z.op
    if o == 'c':
        return z.a[0]
    if o == 'var':
        t, w, sg = z.a
        v = env[t.decl().name()] & MASK(w)
        return S.to_s(v, w) if sg else v
    if o in ('+', '-', '*'):
        x, y = zeval(z.a[0], env), zeval(z.a[1], env)
        return x + y if o == '+' else x - y if o == '-' else x * y
    if o == '>>':
        return zeval(z.a[0], env) >> z.a[1]
    if o == '<<':
        return zeval(z.a[0], env) << z.a[1]
    if o in ('min', 'max'):
        return (min if o == 'min' else max)(zeval(z.a[0], env), zeval(z.a[1], env))
    if o == 'ite':
        (rel, p, q), x, y = z.a
        p, q = zeval(p, env), zeval(q, env)
        return zeval(x if {'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q, '==': p == q}[rel] else y, env)
    raise AssertionError(o)


# ------------------------------------------------------------ result terms
class R:
    """expected lane: kind 'z' (Z, wrapped), 'b' (bit-vector term/int), 'f' (fp term)"""
    __slots__ = ('kind', 'v', 'w')

    def __init__(self, kind, v, w):
        self.kind, self.v, self.w = kind, v, w

    def bits(self):
        return modw(self.v, self.w) if self.kind == 'z' else self.v

    def eval(self, env, sub):
        """concrete expected value: int bits, or 'nan'"""
        if self.kind == 'z':
            return zeval(self.v, env) & MASK(self.w)
        if self.kind == 'b':
            if isinstance(self.v, int):
                return self.v & MASK(self.w)
            f = fast(self.v)
            if f:
                try:
                    return f(env)
                except ValueError:      # a conversion out of range, on a branch that is not taken
                    pass
            r = z3.simplify(z3.substitute(self.v, *sub))
            if not z3.is_bv_value(r):
                raise AssertionError('spec not closed: %s' % r)
            return r.as_long()
        if isinstance(self.v, list):         # any of these values is allowed
            return [self.feval(v, env, sub) for v in self.v]
        return self.feval(self.v, env, sub)

    def feval(self, v, env, sub):
        f = fast(v)
        if f:
            try:
                x = f(env)
                return 'nan' if x != x else fpeval.f_bits(x, self.w)
            except ValueError:
                pass
        return fpval(z3.simplify(z3.substitute(v, *sub)), self.w)


_fast = {}


def fast(t):
    """the compiled form of a term, or None"""
    k = t.get_id()
    if k not in _fast:
        _fast[k] = (fpeval.compile_term(t), t)      # t kept alive: ids are reused
    return _fast[k][0]


def fpval(r, w):
    if not z3.is_fp_value(r):
        r = z3.simplify(r)
    if z3.is_fp_value(r) and r.isNaN():
        return 'nan'
    b = z3.simplify(z3.fpToIEEEBV(r))
    if not z3.is_bv_value(b):
        raise AssertionError('spec not closed: %s' % r)
    return b.as_long()


# ----------------------------------------------------------------- argument
class Arg:
    """A contract-side view of one argument: lane values as raw terms."""

    def __init__(self, name, k, w, terms, n=None, r=1):
        self.name, self.k, self.w, self.t = name, k, w, terms
        self.n = n if n is not None else len(terms)
        self.r = r

    def z(self, i=0):
        return zvar(self.t[i], self.w, self.k == 's')

    @property
    def zs(self):
        return [self.z(i) for i in range(len(self.t))]

    def b(self, i=0):
        return self.t[i]

    def f(self, i=0):
        t = self.t[i]
        return fpx.from_bits(bv(t, self.w), self.w)

    def reg(self, j):
        return self.t[j * self.n:(j + 1) * self.n]

    def bitcat(self):
        """all bits as one little-endian list of byte terms"""
        out = []
        for t in self.t:
            for k in range(self.w // 8):
                out.append(norm(z3.simplify(z3.Extract(8 * k + 7, 8 * k, bv(t, self.w)))) if not isinstance(t, int)
                           else (t >> (8 * k)) & 255)
        return out


class P:
    """parameter declaration"""

    def __init__(self, kind, ty, name, lo=None, hi=None, count=None, opt=()):
        self.kind = kind          # vec | sc | imm | in | out
        self.ty = ty
        self.name = name
        self.lo, self.hi = lo, hi
        self.count = count
        self.opt = opt            # immediates a contract leaves open (may abort or return the stated value)


class Contract:
    def __init__(self, name, ret, params, post, prop, note='', requires=None, align=None):
        self.name, self.ret, self.params, self.post, self.prop = name, ret, params, post, prop
        self.note = note
        self.lang = 'cpp'         # language of the calling program
        self.calls = name         # the library function called

    def from_c(self):
        """the same contract, for a caller written in C"""
        import copy
        c = copy.copy(self)
        c.name, c.lang = self.name + '__from_c', 'c'
        return c

    def evaluated_once(self, lang):
        """the same contract, for a caller whose argument expressions have an effect"""
        import copy
        c = copy.copy(self)
        c.name, c.lang, c.once = self.name + '__once_' + lang, lang, True
        return c

    def imm(self):
        return [p for p in self.params if p.kind == 'imm']

    def sig(self):
        out = []
        for p in self.params:
            if p.kind == 'in':
                out.append('const %s*' % p.ty)
            elif p.kind == 'out':
                out.append('%s*' % p.ty)
            else:
                out.append(p.ty)
        return '%s(%s)' % (self.ret, ', '.join(out))
