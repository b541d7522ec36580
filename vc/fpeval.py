"""Evaluation of contract terms (bit-vectors, IEEE-754, Booleans) on concrete arguments.

Terms are compiled to straight-line Python over machine integers and Python floats; the arithmetic is the host's binary64, rounded
to binary32 by the C library (exact for + - * / and sqrt, Figueroa 1995).  Independent of z3's own evaluation, and fast enough for
sampling; a term with an operator that is not listed is left to z3."""
import ctypes
import math
import struct
from fractions import Fraction
import z3

c_float = ctypes.c_float


def f32(v):
    return c_float(v).value


def bits_f(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]


def f_bits(v, w):
    return struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]


def ld32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def ld64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def div(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    return a / b


def exact_round(q, w):
    """nearest-even binary32/binary64 value of a non-zero rational"""
    if w == 64:
        try:
            return q.numerator / q.denominator       # correctly rounded by CPython
        except OverflowError:
            return math.copysign(math.inf, q)
    s = -1.0 if q < 0 else 1.0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    e = max(e, -126)
    if e > 127:
        return s * math.inf
    ulp = Fraction(2) ** (e - 23)
    n, r = divmod(q, ulp)
    r = r * 2
    if r > ulp or (r == ulp and n & 1):
        n += 1
    v = n * ulp
    return s * math.inf if v >= Fraction(2) ** 128 else s * float(v)


def fma(a, b, c, w):
    if a != a or b != b or c != c or math.isinf(a) or math.isinf(b) or math.isinf(c):
        return a * b + c        # no finite product is infinite here: infinities and NaN only
    q = Fraction(a) * Fraction(b) + Fraction(c)
    if q == 0:
        return a * b + c if (a == 0 or b == 0) else (0.0 if Fraction(a) * Fraction(b) != -Fraction(c) or c else 0.0)
    return exact_round(q, w)


def rint(v, mode):
    if v != v or math.isinf(v) or v == 0:
        return v
    if mode == 'rne':
        r = float(round(v))
    elif mode == 'rtz':
        r = float(math.trunc(v))
    elif mode == 'rtp':
        r = float(math.ceil(v))
    elif mode == 'rtn':
        r = float(math.floor(v))
    else:
        r = math.copysign(float(math.floor(Fraction(abs(v)) + Fraction(1, 2))), v)
    return math.copysign(r, v)


def i2f(n, w):
    return exact_round(Fraction(n), w) if n else 0.0


def f2i(v, mode, n, signed):
    """value in range, else None: the result of fpToSBV/fpToUBV is unspecified"""
    if v != v or math.isinf(v):
        raise ValueError('unspecified conversion')
    r = int(rint(v, mode))
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    if not lo <= r <= hi:
        raise ValueError('unspecified conversion')
    return r & ((1 << n) - 1)


def sg(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def sqrt(v):
    return math.nan if v < 0 else math.sqrt(v) if v == v else v


class No(Exception):
    pass


RM = {z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN: 'rne', z3.Z3_OP_FPA_RM_TOWARD_ZERO: 'rtz', z3.Z3_OP_FPA_RM_TOWARD_POSITIVE: 'rtp',
      z3.Z3_OP_FPA_RM_TOWARD_NEGATIVE: 'rtn', z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_AWAY: 'rna'}


def fw(t):
    s = t.sort()
    return {(8, 24): 32, (11, 53): 64}[(s.ebits(), s.sbits())]


def compile_term(t):
    """-> function of {variable name: bits}; floats as Python floats, bit-vectors as unsigned integers, Booleans as bool"""
    L, seen = [], {}

    def ref(e):
        i = e.get_id()
        if i not in seen:
            x = gen(e)
            seen[i] = 'v%d' % len(L)
            L.append('    %s = %s' % (seen[i], x))
        return seen[i]

    def gen(e):
        k = e.decl().kind()
        a = e.children()
        if z3.is_bv_value(e):
            return str(e.as_long())
        if z3.is_true(e) or z3.is_false(e):
            return str(z3.is_true(e))
        if z3.is_fp_value(e):
            w = fw(e)
            if e.isNaN():
                return 'nan'
            b = z3.simplify(z3.fpToIEEEBV(e))
            return 'ld%d(%d)' % (w, b.as_long())
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED and z3.is_bv(e):
            return '(env[%r] & %d)' % (e.decl().name(), (1 << e.size()) - 1)
        if k in RM:
            return repr(RM[k])
        if k in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL, z3.Z3_OP_FPA_TO_FP_UNSIGNED) or \
                k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT):
            rm = RM.get(a[0].decl().kind())
            if len(a) == 1:            # bits to float
                return 'ld%d(%s)' % (fw(e), ref(a[0]))
            r = [ref(x) for x in a[1:]]
            if k == z3.Z3_OP_FPA_TO_SBV or k == z3.Z3_OP_FPA_TO_UBV:
                return 'f2i(%s, %r, %d, %s)' % (r[0], rm, e.size(), k == z3.Z3_OP_FPA_TO_SBV)
            if k == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
                return 'rint(%s, %r)' % (r[0], rm)
            if rm != 'rne':
                raise No()
            w = fw(e)
            if k == z3.Z3_OP_FPA_TO_FP_UNSIGNED:
                return 'i2f(%s, %d)' % (r[0], w)
            if k == z3.Z3_OP_FPA_TO_FP:
                if z3.is_bv(a[1]):
                    return 'i2f(sg(%s, %d), %d)' % (r[0], a[1].size(), w)
                return 'f32(%s)' % r[0] if w == 32 else r[0]
            x = {z3.Z3_OP_FPA_ADD: '%s + %s', z3.Z3_OP_FPA_SUB: '%s - %s', z3.Z3_OP_FPA_MUL: '%s * %s', z3.Z3_OP_FPA_DIV: 'div(%s, %s)',
                 z3.Z3_OP_FPA_SQRT: 'sqrt(%s)', z3.Z3_OP_FPA_FMA: 'fma(%%s, %%s, %%s, %d)' % w}[k] % tuple(r)
            return 'f32(%s)' % x if w == 32 and k != z3.Z3_OP_FPA_FMA else x
        r = [ref(x) for x in a]
        n = e.size() if z3.is_bv(e) else 0
        M = (1 << n) - 1
        m = a[0].size() if a and z3.is_bv(a[0]) else 0
        j = lambda op: '(%s)' % (' %s ' % op).join(r)
        s = lambda op: 'sg(%s, %d) %s sg(%s, %d)' % (r[0], m, op, r[1], m)
        D = {z3.Z3_OP_BADD: lambda: '%s & %d' % (j('+'), M), z3.Z3_OP_BSUB: lambda: '%s & %d' % (j('-'), M),
             z3.Z3_OP_BMUL: lambda: '%s & %d' % (j('*'), M), z3.Z3_OP_BNEG: lambda: '-%s & %d' % (r[0], M),
             z3.Z3_OP_BAND: lambda: j('&'), z3.Z3_OP_BOR: lambda: j('|'), z3.Z3_OP_BXOR: lambda: j('^'),
             z3.Z3_OP_BNOT: lambda: '%s ^ %d' % (r[0], M),
             z3.Z3_OP_BSHL: lambda: '(%s << %s) & %d if %s < %d else 0' % (r[0], r[1], M, r[1], n),
             z3.Z3_OP_BLSHR: lambda: '%s >> %s' % (r[0], r[1]),
             z3.Z3_OP_BASHR: lambda: '(sg(%s, %d) >> %s) & %d' % (r[0], n, r[1], M),
             z3.Z3_OP_BUDIV: lambda: '%s // %s if %s else %d' % (r[0], r[1], r[1], M), z3.Z3_OP_BUDIV_I: lambda: '%s // %s if %s else %d' % (r[0], r[1], r[1], M),
             z3.Z3_OP_BUREM: lambda: '%s %% %s if %s else %s' % (r[0], r[1], r[1], r[0]), z3.Z3_OP_BUREM_I: lambda: '%s %% %s if %s else %s' % (r[0], r[1], r[1], r[0]),
             z3.Z3_OP_CONCAT: lambda: ' | '.join('(%s << %d)' % (x, sum(y.size() for y in a[i + 1:])) for i, x in enumerate(r)),
             z3.Z3_OP_EXTRACT: lambda: '(%s >> %d) & %d' % (r[0], e.params()[1], M),
             z3.Z3_OP_ZERO_EXT: lambda: r[0], z3.Z3_OP_SIGN_EXT: lambda: 'sg(%s, %d) & %d' % (r[0], m, M),
             z3.Z3_OP_ITE: lambda: '%s if %s else %s' % (r[1], r[0], r[2]),
             z3.Z3_OP_AND: lambda: j('and'), z3.Z3_OP_OR: lambda: j('or'), z3.Z3_OP_NOT: lambda: 'not ' + r[0],
             z3.Z3_OP_IMPLIES: lambda: '(not %s) or %s' % (r[0], r[1]), z3.Z3_OP_XOR: lambda: j('!='), z3.Z3_OP_IFF: lambda: j('=='),
             z3.Z3_OP_EQ: lambda: 'same(%s, %s)' % (r[0], r[1]) if z3.is_fp(a[0]) else j('=='), z3.Z3_OP_DISTINCT: lambda: j('!='),
             z3.Z3_OP_ULT: lambda: j('<'), z3.Z3_OP_ULEQ: lambda: j('<='), z3.Z3_OP_UGT: lambda: j('>'), z3.Z3_OP_UGEQ: lambda: j('>='),
             z3.Z3_OP_SLT: lambda: s('<'), z3.Z3_OP_SLEQ: lambda: s('<='), z3.Z3_OP_SGT: lambda: s('>'), z3.Z3_OP_SGEQ: lambda: s('>='),
             z3.Z3_OP_FPA_NEG: lambda: '-' + r[0], z3.Z3_OP_FPA_ABS: lambda: 'abs(%s)' % r[0],
             z3.Z3_OP_FPA_EQ: lambda: j('=='), z3.Z3_OP_FPA_LT: lambda: j('<'), z3.Z3_OP_FPA_LE: lambda: j('<='),
             z3.Z3_OP_FPA_GT: lambda: j('>'), z3.Z3_OP_FPA_GE: lambda: j('>='),
             z3.Z3_OP_FPA_IS_NAN: lambda: '%s != %s' % (r[0], r[0]), z3.Z3_OP_FPA_IS_INF: lambda: 'isinf(%s)' % r[0],
             z3.Z3_OP_FPA_IS_ZERO: lambda: '%s == 0' % r[0],
             z3.Z3_OP_FPA_IS_NEGATIVE: lambda: '(%s == %s and copysign(1.0, %s) < 0)' % (r[0], r[0], r[0]),
             z3.Z3_OP_FPA_IS_POSITIVE: lambda: '(%s == %s and copysign(1.0, %s) > 0)' % (r[0], r[0], r[0])}
        if k not in D or e.num_args() > 2 and k in (z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR, z3.Z3_OP_BUDIV):
            raise No(str(e.decl()))
        return '(%s)' % D[k]()

    try:
        out = ref(t)
    except (No, KeyError):
        return None
    src = 'def f(env):\n' + '\n'.join(L) + '\n    return %s\n' % out
    g = {'ld32': ld32, 'ld64': ld64, 'f32': f32, 'div': div, 'fma': fma, 'rint': rint, 'i2f': i2f, 'f2i': f2i, 'sg': sg, 'sqrt': sqrt,
         'nan': math.nan, 'isinf': math.isinf, 'copysign': math.copysign, 'same': lambda x, y: (x != x and y != y) or (x == y and math.copysign(1, x) == math.copysign(1, y))}
    exec(src, g)
    return g['f']
