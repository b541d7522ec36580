"""Canonical constructors for IEEE-754 terms, used for code and specification alike.

The rewrites here are exact identities of IEEE-754 arithmetic in round-to-nearest-even
(up to the payload of NaNs, which no contract on computed floats observes):
  a-b = a+(-b); a+b = b+a; a*b = b*a; (-a)*b = -(a*b); (-a)/b = -(a/b).
"""
import z3

F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()
SORT = {32: F32, 64: F64}


def is_neg(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_FPA_NEG


def num(t):
    return z3.is_fp_value(t)


def neg(t):
    if is_neg(t):
        return t.arg(0)
    if num(t):
        return z3.simplify(z3.fpNeg(t))
    return z3.fpNeg(t)


def _strip(t):
    if is_neg(t):
        return True, t.arg(0)
    if num(t) and not t.isNaN() and t.isNegative():
        return True, z3.simplify(z3.fpNeg(t))
    return False, t


def _fold(t, *ops):
    return z3.simplify(t) if all(num(o) for o in ops) else t


def _ord(a, b):
    return (a, b) if a.get_id() <= b.get_id() else (b, a)


def add(a, b):
    a, b = _ord(a, b)
    return _fold(z3.fpAdd(RNE, a, b), a, b)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    sa, a = _strip(a)
    sb, b = _strip(b)
    a, b = _ord(a, b)
    r = _fold(z3.fpMul(RNE, a, b), a, b)
    return neg(r) if sa != sb else r


def div(a, b):
    sa, a = _strip(a)
    sb, b = _strip(b)
    r = _fold(z3.fpDiv(RNE, a, b), a, b)
    return neg(r) if sa != sb else r


def one(t):
    return num(t) and z3.is_true(z3.simplify(z3.fpEQ(t, z3.FPVal(1.0, t.sort()))))


def negzero(t):
    return num(t) and t.isZero() and t.isNegative()


def fma(a, b, c):
    # 1*b + c = b + c and a*b + (-0) = a*b, both rounded once
    sa, a = _strip(a)
    sb, b = _strip(b)
    if one(a) or one(b):
        p = b if one(a) else a
        return add(neg(p) if sa != sb else p, c)
    if negzero(c):
        p = mul(a, b)
        return neg(p) if sa != sb else p
    a, b = _ord(a, b)
    if sa != sb:
        a = neg(a)
    return _fold(z3.fpFMA(RNE, a, b, c), a, b, c)


def sqrt(a):
    return _fold(z3.fpSqrt(RNE, a), a)


def from_bits(bv, w):
    if z3.is_bv_value(bv):
        return z3.simplify(z3.fpBVToFP(bv, SORT[w]))
    s = _signed_bits(bv, w)
    if s is not None:
        return s
    return z3.fpBVToFP(bv, SORT[w])


def _signed_bits(bv, w):
    """A pattern that is another one with its sign bit flipped, cleared or set (there is one NaN
    in the float sort, so these are identities)."""
    if bv.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return None
    t = z3.simplify(bv)
    if t.decl().kind() != z3.Z3_OP_CONCAT:
        return None
    hi, lo = t.arg(0), t.arg(t.num_args() - 1)
    if hi.size() != 1:
        return None
    if hi.decl().kind() == z3.Z3_OP_BNOT:
        u = z3.simplify(z3.Concat(hi.arg(0), *[t.arg(i) for i in range(1, t.num_args())]))
        return neg(from_bits(u, w)) if u.decl().kind() != z3.Z3_OP_CONCAT else None
    if z3.is_bv_value(hi) and t.num_args() == 2 and lo.decl().kind() == z3.Z3_OP_EXTRACT and lo.params() == [w - 2, 0] and lo.arg(0).size() == w:
        a = z3.fpAbs(from_bits(lo.arg(0), w))
        return neg(a) if hi.as_long() else a
    return None


def from_sint(bv, w):
    return z3.simplify(z3.fpSignedToFP(RNE, bv, SORT[w])) if z3.is_bv_value(bv) else z3.fpSignedToFP(RNE, bv, SORT[w])


def from_uint(bv, w):
    return z3.simplify(z3.fpUnsignedToFP(RNE, bv, SORT[w])) if z3.is_bv_value(bv) else z3.fpUnsignedToFP(RNE, bv, SORT[w])


def const(v, w):
    return z3.FPVal(v, SORT[w])


def round_int(a, mode):
    m = {'rne': z3.RNE(), 'rtz': z3.RTZ(), 'rtp': z3.RTP(), 'rtn': z3.RTN(), 'rna': z3.RNA()}[mode]
    return _fold(z3.fpRoundToIntegral(m, a), a)


# float -> integer ----------------------------------------------------------
def in_range(fp, w, signed, srcw):
    """The C condition: the truncated value is representable (NaN and infinities excluded)."""
    lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
    # trunc(x) >= lo  <=>  x > lo-1 ; trunc(x) <= hi-1 <=> x < hi
    hi_c = const(float(hi), srcw) if not (srcw == 32 and hi > 2 ** 127) else None
    mant = 24 if srcw == 32 else 53
    if lo == 0:
        lo_ok = z3.fpGT(fp, const(-1.0, srcw))
    elif (lo - 1).bit_length() <= mant:
        lo_ok = z3.fpGT(fp, const(float(lo - 1), srcw))
    else:   # lo-1 is not representable: the next value below lo is <= lo-2
        lo_ok = z3.fpGEQ(fp, const(float(lo), srcw))
    return z3.And(z3.Not(z3.fpIsNaN(fp)), lo_ok, z3.fpLT(fp, hi_c))


def to_int(fp, w, signed):
    f = z3.fpToSBV if signed else z3.fpToUBV
    r = f(RTZ, fp, z3.BitVecSort(w))
    return _fold(r, fp)
