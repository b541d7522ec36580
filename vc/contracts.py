"""Contracts of every function the library implements (Arm ACLE / Arm ARM semantics).

One entry per function: parameters, immediate ranges, memory footprint, and the postcondition as
one exact term per result lane.  Nothing here is derived from the implementation.
"""
import z3
import fpx
import symex as S
from spec import P, R, Contract, vt, SC, Z, zc, zmin, zmax, zite, clamp, sat, zvar
from symex import bv, norm

ALL = {}


def T(k, w, n, r=1):
    nm = {'s': 'int', 'u': 'uint', 'f': 'float'}[k]
    return '%s%dx%d%s_t' % (nm, w, n, 'x%d' % r if r > 1 else '')


def sc(k, w):
    return {'s': 'int', 'u': 'uint', 'f': 'float'}[k] + '%d_t' % w


def lanes(w, q):
    return (128 if q else 64) // w


def each(kinds, q=(0, 1)):
    """('s8','u16',...) -> (k, w, n, suffix, qletter)"""
    for s in kinds.split() if isinstance(kinds, str) else kinds:
        k, w = s[0], int(s[1:])
        for x in q:
            yield k, w, lanes(w, x), s, 'q' if x else ''


def add(name, ret, params, post, prop, note=''):
    assert name not in ALL, name
    ALL[name] = Contract(name, ret, params, post, prop, note)


def V(ty, name):
    return P('vec', ty, name)


def zr(lst, w):
    return [R('z', z, w) for z in lst]


def br(lst, w):
    return [R('b', t, w) for t in lst]


INT = 's8 s16 s32 s64 u8 u16 u32 u64'
INT32 = 's8 s16 s32 u8 u16 u32'


def lanewise(name, ty, f, prop, nargs=2, rty=None, note=''):
    """result lane i = f(arg0[i], arg1[i], ...), wrapped to the result lane width"""
    r = rty or ty
    w = vt(r).w
    names = 'abc'[:nargs]
    add(name, r, [V(ty, n) for n in names],
        lambda e: {'ret': zr([f(*[e[n].z(i) for n in names]) for i in range(vt(ty).total)], w)}, prop, note)


# ------------------------------------------------------------------ C01 loads
for k, w, n, s, q in each('u8 s8 u16 s16 u32 s32 u64 s64 f32'):
    add('vld1%s_%s' % (q, s), T(k, w, n), [P('in', sc(k, w), 'ptr', count=n)],
        lambda e, n=n, w=w: {'ret': br([e['ptr'].b(i) for i in range(n)], w)}, 'C01')
add('vld1_f64', 'float64x1_t', [P('in', 'float64_t', 'ptr', count=1)],
    lambda e: {'ret': br([e['ptr'].b(0)], 64)}, 'C01')


def vldk(name, k, w, n, r):
    add(name, T(k, w, n, r), [P('in', sc(k, w), 'ptr', count=n * r)],
        lambda e: {'ret': br([e['ptr'].b(i * r + j) for j in range(r) for i in range(n)], w)}, 'C01')


for r in (2, 3, 4):
    for k, w, n, s, q in each('u8 s8 u16 s16 u32 s32'):
        vldk('vld%d%s_%s' % (r, q, s), k, w, n, r)
    vldk('vld%d_f32' % r, 'f', 32, 2, r)
add('vld1q_dup_f32', 'float32x4_t', [P('in', 'float32_t', 'ptr', count=1)],
    lambda e: {'ret': br([e['ptr'].b(0)] * 4, 32)}, 'C01')


def vld_lane(name, k, w, n, r):
    def post(e):
        out = list(e['src'].t)
        for j in range(r):
            out[j * n + e['lane']] = e['ptr'].b(j)
        return {'ret': br(out, w)}
    add(name, T(k, w, n, r), [P('in', sc(k, w), 'ptr', count=r), V(T(k, w, n, r), 'src'), P('imm', 'int', 'lane', 0, n - 1)],
        post, 'C01')


vld_lane('vld1_lane_s8', 's', 8, 8, 1)
for r in (1, 2, 3, 4):
    vld_lane('vld%d_lane_u8' % r, 'u', 8, 8, r)

# ----------------------------------------------------------------- C02 stores
for k, w, n, s, q in each('u8 s8 u16 s16 u32 s32 u64 s64'):
    add('vst1%s_%s' % (q, s), 'void', [P('out', sc(k, w), 'ptr', count=n), V(T(k, w, n), 'val')],
        lambda e, w=w: {'ptr': br(e['val'].t, w)}, 'C02')
add('vst1q_f32', 'void', [P('out', 'float32_t', 'ptr', count=4), V('float32x4_t', 'val')],
    lambda e: {'ptr': br(e['val'].t, 32)}, 'C02')
for r in (2, 3, 4):
    for k, w, n, s, q in each('u8 s8 u16 s16 u32 s32'):
        add('vst%d%s_%s' % (r, q, s), 'void', [P('out', sc(k, w), 'ptr', count=n * r), V(T(k, w, n, r), 'val')],
            lambda e, w=w, n=n, r=r: {'ptr': br([e['val'].b(j * n + i) for i in range(n) for j in range(r)], w)}, 'C02')
add('vst4q_lane_f32', 'void', [P('out', 'float32_t', 'ptr', count=4), V('float32x4x4_t', 'val'), P('imm', 'int', 'lane', 0, 3)],
    lambda e: {'ptr': br([e['val'].b(j * 4 + e['lane']) for j in range(4)], 32)}, 'C02')

# --------------------------------------------- C06 wrapping additions, subtractions
for k, w, n, s, q in each(INT):
    lanewise('vadd%s_%s' % (q, s), T(k, w, n), lambda a, b: a + b, 'C06')
    lanewise('vsub%s_%s' % (q, s), T(k, w, n), lambda a, b: a - b, 'C06')


def longop(name, k, w, n, f, prop):
    add(name, T(k, 2 * w, n), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
        lambda e: {'ret': zr([f(e['a'].z(i), e['b'].z(i)) for i in range(n)], 2 * w)}, prop)


def wideop(name, k, w, n, f, prop, high=False):
    m = 2 * n if high else n
    add(name, T(k, 2 * w, n), [V(T(k, 2 * w, n), 'a'), V(T(k, w, m), 'b')],
        lambda e: {'ret': zr([f(e['a'].z(i), e['b'].z(i + m - n)) for i in range(n)], 2 * w)}, prop)


longop('vaddl_u8', 'u', 8, 8, lambda a, b: a + b, 'C06')
for k, w, n, s, q in each(INT32, (0,)):
    longop('vsubl_%s' % s, k, w, n, lambda a, b: a - b, 'C06')
    wideop('vaddw_%s' % s, k, w, n, lambda a, b: a + b, 'C06')
    wideop('vaddw_high_%s' % s, k, w, n, lambda a, b: a + b, 'C06', True)
    wideop('vsubw_%s' % s, k, w, n, lambda a, b: a - b, 'C06')
    add('vaddl_high_%s' % s, T(k, 2 * w, n), [V(T(k, w, 2 * n), 'a'), V(T(k, w, 2 * n), 'b')],
        lambda e, n=n, w=w: {'ret': zr([e['a'].z(i + n) + e['b'].z(i + n) for i in range(n)], 2 * w)}, 'C06')
for nm, k, w, n in (('vpaddl_u8', 'u', 8, 8), ('vpaddlq_u8', 'u', 8, 16), ('vpaddlq_u16', 'u', 16, 8)):
    add(nm, T(k, 2 * w, n // 2), [V(T(k, w, n), 'a')],
        lambda e, n=n, w=w: {'ret': zr([e['a'].z(2 * i) + e['a'].z(2 * i + 1) for i in range(n // 2)], 2 * w)}, 'C06')

# --------------------------------------------------------------- C07 saturating
lanewise('vqadd_u8', 'uint8x8_t', lambda a, b: sat(a + b, 8, False), 'C07')
lanewise('vqaddq_u8', 'uint8x16_t', lambda a, b: sat(a + b, 8, False), 'C07')
for k, w, n, s, q in each(INT):
    lanewise('vqsub%s_%s' % (q, s), T(k, w, n), lambda a, b, w=w, k=k: sat(a - b, w, k == 's'), 'C07')

# ------------------------------------------- C08 halving, narrowing high half
for k, w, n, s, q in each(INT32):
    lanewise('vhsub%s_%s' % (q, s), T(k, w, n), lambda a, b: (a - b) >> 1, 'C08')
for k, w, n, s, q in each('s16 s32 s64 u16 u32 u64', (1,)):
    h = w // 2
    add('vaddhn_high_%s' % s, T(k, h, 2 * n), [V(T(k, h, n), 'r'), V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
        lambda e, n=n, h=h: {'ret': br(e['r'].t, h) + zr([(e['a'].z(i) + e['b'].z(i)) >> h for i in range(n)], h)}, 'C08')
    add('vsubhn_%s' % s, T(k, h, n), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
        lambda e, n=n, h=h: {'ret': zr([(e['a'].z(i) - e['b'].z(i)) >> h for i in range(n)], h)}, 'C08')
    add('vrsubhn_%s' % s, T(k, h, n), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
        lambda e, n=n, h=h: {'ret': zr([(e['a'].z(i) - e['b'].z(i) + (1 << (h - 1))) >> h for i in range(n)], h)}, 'C08')

# ------------------------------------------------------------- C09 multiplication
for k, w, n, s, q in each(INT32):
    lanewise('vmul%s_%s' % (q, s), T(k, w, n), lambda a, b: a * b, 'C09')
for k, w, n, s, q in each('s16 s32 u16 u32'):
    add('vmul%s_n_%s' % (q, s), T(k, w, n), [V(T(k, w, n), 'a'), P('sc', sc(k, w), 'b')],
        lambda e, n=n, w=w: {'ret': zr([e['a'].z(i) * e['b'].z() for i in range(n)], w)}, 'C09')
for k, w, n, s, q in each(INT32, (0,)):
    longop('vmull_%s' % s, k, w, n, lambda a, b: a * b, 'C09')
    for nm, sg in (('vmlal', 1), ('vmlsl', -1)):
        add('%s_%s' % (nm, s), T(k, 2 * w, n), [V(T(k, 2 * w, n), 'a'), V(T(k, w, n), 'b'), V(T(k, w, n), 'c')],
            lambda e, n=n, w=w, sg=sg: {'ret': zr([e['a'].z(i) + e['b'].z(i) * e['c'].z(i) if sg > 0 else
                                                  e['a'].z(i) - e['b'].z(i) * e['c'].z(i) for i in range(n)], 2 * w)}, 'C09')
for k, w, n, s, q in each('s16 s32 u16 u32', (0,)):
    add('vmull_n_%s' % s, T(k, 2 * w, n), [V(T(k, w, n), 'a'), P('sc', sc(k, w), 'b')],
        lambda e, n=n, w=w: {'ret': zr([e['a'].z(i) * e['b'].z() for i in range(n)], 2 * w)}, 'C09')
add('vqdmull_s16', 'int32x4_t', [V('int16x4_t', 'a'), V('int16x4_t', 'b')],
    lambda e: {'ret': zr([sat((e['a'].z(i) * e['b'].z(i)) << 1, 32, True) for i in range(4)], 32)}, 'C09')
for k, w, n, s, q in each(INT32, (1,)):
    lanewise('vmlaq_%s' % s, T(k, w, n), lambda a, b, c: a + b * c, 'C09', nargs=3)


# -------------------------------------------------------------------- C10 shifts
def narrow(name, k, w, rk, f, lo=1, hi=None):
    n = 128 // w
    h = w // 2
    add(name, T(rk, h, n), [V(T(k, w, n), 'a'), P('imm', 'int', 'n', lo, hi or h)],
        lambda e: {'ret': zr([f(e['a'].z(i), e['n'], h) for i in range(n)], h)}, 'C10')


for s in ('s16', 's32', 's64', 'u16', 'u32', 'u64'):
    k, w = s[0], int(s[1:])
    narrow('vshrn_n_' + s, k, w, k, lambda a, n, h: a >> n)
    narrow('vqshrn_n_' + s, k, w, k, lambda a, n, h, k=k: sat(a >> n, h, k == 's'))
    if k == 's':
        narrow('vqshrun_n_' + s, k, w, 'u', lambda a, n, h: sat(a >> n, h, False))
narrow('vqrshrun_n_s16', 's', 16, 'u', lambda a, n, h: sat((a + (1 << (n - 1))) >> n, h, False))
narrow('vrshrn_n_u16', 'u', 16, 'u', lambda a, n, h: (a + (1 << (n - 1))) >> n)
add('vshr_n_u16', 'uint16x4_t', [V('uint16x4_t', 'a'), P('imm', 'int', 'n', 1, 16)],
    lambda e: {'ret': zr([e['a'].z(i) >> e['n'] for i in range(4)], 16)}, 'C10')
add('vsraq_n_s32', 'int32x4_t', [V('int32x4_t', 'a'), V('int32x4_t', 'b'), P('imm', 'int', 'n', 1, 32)],
    lambda e: {'ret': zr([e['a'].z(i) + (e['b'].z(i) >> e['n']) for i in range(4)], 32)}, 'C10')
add('vshlq_n_s32', 'int32x4_t', [V('int32x4_t', 'a'), P('imm', 'int', 'n', 0, 31)],
    lambda e: {'ret': zr([e['a'].z(i) << e['n'] for i in range(4)], 32)}, 'C10')
add('vshll_n_u8', 'uint16x8_t', [V('uint8x8_t', 'a'), P('imm', 'int', 'n', 0, 8)],
    lambda e: {'ret': zr([e['a'].z(i) << e['n'] for i in range(8)], 16)}, 'C10')


# ----------------------------------------------- C11 bitwise, comparison, select
def bitop(name, ty, f, nargs=2):
    names = 'abc'[:nargs]
    w = vt(ty).w
    add(name, ty, [V(ty, n) for n in names],
        lambda e: {'ret': br([f(*[bv(e[n].b(i), w) for n in names]) for i in range(vt(ty).total)], w)}, 'C11')


for k, w, n, s, q in each(INT):
    bitop('vand%s_%s' % (q, s), T(k, w, n), lambda a, b, w=w: S.and_(a, b, w))
    bitop('vorr%s_%s' % (q, s), T(k, w, n), lambda a, b, w=w: S.or_(a, b, w))
    bitop('veor%s_%s' % (q, s), T(k, w, n), lambda a, b, w=w: S.xor(a, b, w))
for k, w, n, s, q in each(INT32):
    bitop('vmvn%s_%s' % (q, s), T(k, w, n), lambda a: ~a, nargs=1)
add('vcgtq_u8', 'uint8x16_t', [V('uint8x16_t', 'a'), V('uint8x16_t', 'b')],
    lambda e: {'ret': zr([zite(('>', e['a'].z(i), e['b'].z(i)), 255, 0) for i in range(16)], 8)}, 'C11')
add('vcltq_f32', 'uint32x4_t', [V('float32x4_t', 'a'), V('float32x4_t', 'b')],
    lambda e: {'ret': br([z3.If(z3.fpLT(e['a'].f(i), e['b'].f(i)), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(0, 32))
                          for i in range(4)], 32)}, 'C11')


def bsl(name, mty, ty):
    w = vt(ty).w

    def f(e):
        out = []
        for i in range(vt(ty).total):
            m, a, b = [bv(e[x].b(i), w) for x in ('mask', 'a', 'b')]
            out.append((m & a) | (~m & b))
        return {'ret': br(out, w)}
    add(name, ty, [V(mty, 'mask'), V(ty, 'a'), V(ty, 'b')], f, 'C11')


bsl('vbslq_u8', 'uint8x16_t', 'uint8x16_t')
bsl('vbslq_f32', 'uint32x4_t', 'float32x4_t')

# -------------------------------------------------------------------- C12 min/max
for k, w, n, s, q in each(INT32, (1,)):
    lanewise('vmaxq_' + s, T(k, w, n), zmax, 'C12')
    lanewise('vminq_' + s, T(k, w, n), zmin, 'C12')


def fmaxmin(a, b, mx):
    """Arm FPMax / FPMin: NaN if either is NaN; +0 > -0"""
    neg = z3.fpIsNegative
    tie = z3.If(neg(a), b, a) if mx else z3.If(neg(a), a, b)
    return z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpNaN(a.sort()),
                 z3.If(z3.fpGT(a, b) if mx else z3.fpLT(a, b), a, z3.If(z3.fpEQ(a, b), tie, b)))


for mx, nm in ((1, 'max'), (0, 'min')):
    add('v%sq_f32' % nm, 'float32x4_t', [V('float32x4_t', 'a'), V('float32x4_t', 'b')],
        lambda e, mx=mx: {'ret': [R('f', fmaxmin(e['a'].f(i), e['b'].f(i), mx), 32) for i in range(4)]}, 'C12')
    add('vp%s_f32' % nm, 'float32x2_t', [V('float32x2_t', 'a'), V('float32x2_t', 'b')],
        lambda e, mx=mx: {'ret': [R('f', fmaxmin(e[x].f(0), e[x].f(1), mx), 32) for x in 'ab']}, 'C12')

# --------------------------------------------------- C13 moves and permutations
for k, w, n, s, q in each('s8 s16 s32 s64 u8 u16 u32 u64', (0,)):
    add('vdup_n_' + s, T(k, w, n), [P('sc', sc(k, w), 'a')], lambda e, n=n, w=w: {'ret': br([e['a'].b()] * n, w)}, 'C13')
for k, w, n, s, q in each('s8 s16 s32 u8 u16 u32 f32', (1,)):
    add('vdupq_n_' + s, T(k, w, n), [P('sc', sc(k, w), 'a')], lambda e, n=n, w=w: {'ret': br([e['a'].b()] * n, w)}, 'C13')
    for nm, hi in (('low', 0), ('high', 1)):
        add('vget_%s_%s' % (nm, s), T(k, w, n // 2), [V(T(k, w, n), 'a')],
            lambda e, n=n, w=w, hi=hi: {'ret': br(e['a'].t[hi * n // 2:hi * n // 2 + n // 2], w)}, 'C13')
    if k != 'f':
        add('vcombine_' + s, T(k, w, n), [V(T(k, w, n // 2), 'a'), V(T(k, w, n // 2), 'b')],
            lambda e, w=w: {'ret': br(e['a'].t + e['b'].t, w)}, 'C13')
add('vmovq_n_f32', 'float32x4_t', [P('sc', 'float32_t', 'a')], lambda e: {'ret': br([e['a'].b()] * 4, 32)}, 'C13')


def getlane(name, k, w, n):
    add(name, sc(k, w), [V(T(k, w, n), 'v'), P('imm', 'int', 'lane', 0, n - 1)],
        lambda e: {'ret': br([e['v'].b(e['lane'])], w)}, 'C13')


getlane('vget_lane_f32', 'f', 32, 2)
for k, w, n, s, q in each('f32 f64 s8 s16 s32 s64 u8 u16 u32 u64', (1,)):
    getlane('vgetq_lane_' + s, k, w, n)


def perm2(name, k, w, n, idx):
    """idx: list of source lanes, 0..n-1 from a, n.. from b; result is a two-register array"""
    add(name, T(k, w, n, 2), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b')],
        lambda e: {'ret': br([(e['a'].t + e['b'].t)[j] for j in idx], w)}, 'C13')


def trn(n):
    return [x for i in range(0, n, 2) for x in (i, n + i)] + [x for i in range(1, n, 2) for x in (i, n + i)]


def zipi(n):
    return [x for i in range(n) for x in (i, n + i)]


def uzpi(n):
    return list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))


for k, w, n, s, q in each('s8 u8 s16 u16 s32 u32', (0,)):
    perm2('vtrn_' + s, k, w, n, trn(n))
for s in ('u16', 'u32', 's16'):
    k, w = s[0], int(s[1:])
    perm2('vtrnq_' + s, k, w, 128 // w, trn(128 // w))
for s in ('s16', 's8', 'u8'):
    k, w = s[0], int(s[1:])
    perm2('vzip_' + s, k, w, 64 // w, zipi(64 // w))
for s in ('u8', 's8'):
    perm2('vuzp_' + s, s[0], 8, 8, uzpi(8))
for c, kinds in ((16, 's8 u8'), (32, 's8 s16 u8 u16'), (64, 's8 s16 s32 u8 u16 u32 f32')):
    for k, w, n, s, q in each(kinds):
        g = c // w
        add('vrev%d%s_%s' % (c, q, s), T(k, w, n), [V(T(k, w, n), 'a')],
            lambda e, n=n, w=w, g=g: {'ret': br([e['a'].b(i // g * g + g - 1 - i % g) for i in range(n)], w)}, 'C13')
for nm, k, w, n in (('vext_u8', 'u', 8, 8), ('vext_u16', 'u', 16, 4), ('vext_s16', 's', 16, 4), ('vextq_u16', 'u', 16, 8)):
    add(nm, T(k, w, n), [V(T(k, w, n), 'a'), V(T(k, w, n), 'b'), P('imm', 'int', 'n', 0, n - 1)],
        lambda e, n=n, w=w: {'ret': br((e['a'].t + e['b'].t)[e['n']:e['n'] + n], w)}, 'C13')


# ------------------------------------------------------------ C14 table lookups
def table(name, nreg, q):
    m = (16 if q else 8) * nreg

    def post(e):
        out = []
        for i in range(8):
            x = bv(e['idx'].b(i), 8)
            r = z3.BitVecVal(0, 8)
            for j in range(m):
                r = z3.If(x == j, bv(e['t'].b(j), 8), r)
            out.append(r)
        return {'ret': br(out, 8)}
    add(name, 'uint8x8_t', [V(T('u', 8, 16 if q else 8, nreg), 't'), V('uint8x8_t', 'idx')], post, 'C14')


table('vtbl1_u8', 1, 0)
table('vtbl2_u8', 2, 0)
table('vtbl4_u8', 4, 0)
table('vqtbl1_u8', 1, 1)


# ------------------------------------------------------------ C15 reinterpretation
def reint(q, to, frm):
    kt, wt = to[0], int(to[1:])
    kf, wf = frm[0], int(frm[1:])
    total = 128 if q else 64

    def post(e):
        by = e['a'].bitcat()
        k = wt // 8
        out = []
        for i in range(total // wt):
            p = [bv(x, 8) for x in reversed(by[i * k:(i + 1) * k])]
            out.append(z3.simplify(z3.Concat(*p)) if len(p) > 1 else p[0])
        return {'ret': br(out, wt)}
    add('vreinterpret%s_%s_%s' % (q, to, frm), T(kt, wt, total // wt), [V(T(kf, wf, total // wf), 'a')], post, 'C15')


for pair in ('u8 s8', 'u16 u8', 'u32 u16', 'u8 u32', 'u32 u8', 's8 u8', 's32 s16', 's16 s32'):
    reint('', *pair.split())
for pair in ('s16 u16', 'u16 s16'):
    reint('q', *pair.split())
for to in ('u8', 'u32'):
    for frm in ('s8', 's16', 's32', 'f32', 'u8', 'u16', 'u32', 'u64', 's64', 'f64'):
        if to != frm:
            reint('q', to, frm)

# ------------------------------------------------- C16 integer width conversions
for k, w, n, s, q in each(INT32, (0,)):
    add('vmovl_' + s, T(k, 2 * w, n), [V(T(k, w, n), 'a')], lambda e, w=w: {'ret': zr(e['a'].zs, 2 * w)}, 'C16')
for s in ('s32', 'u32', 'u16'):
    k, w = s[0], int(s[1:])
    add('vmovn_' + s, T(k, w // 2, 128 // w), [V(T(k, w, 128 // w), 'a')],
        lambda e, w=w: {'ret': zr(e['a'].zs, w // 2)}, 'C16')
add('vqmovn_u16', 'uint8x8_t', [V('uint16x8_t', 'a')], lambda e: {'ret': zr([sat(z, 8, False) for z in e['a'].zs], 8)}, 'C16')
add('vqmovun_s16', 'uint8x8_t', [V('int16x8_t', 'a')], lambda e: {'ret': zr([sat(z, 8, False) for z in e['a'].zs], 8)}, 'C16')

# -------------------------------------------------------- C17 float <-> integer
add('vcvtq_f32_s32', 'float32x4_t', [V('int32x4_t', 'a')],
    lambda e: {'ret': [R('f', fpx.from_sint(bv(e['a'].b(i), 32), 32), 32) for i in range(4)]}, 'C17')


def fcvt(f, signed, mode):
    """Arm FPToFixed: NaN -> 0, otherwise round by mode and saturate"""
    g = fpx.round_int(f, mode) if mode != 'rtz' else f
    lo, hi = (0x80000000, 0x7fffffff) if signed else (0, 0xffffffff)
    return z3.If(z3.fpIsNaN(f), z3.BitVecVal(0, 32),
                 z3.If(fpx.in_range(g, 32, signed, 32), fpx.to_int(g, 32, signed),
                       z3.If(z3.fpIsNegative(f), z3.BitVecVal(lo, 32), z3.BitVecVal(hi, 32))))


for nm, sg, mode in (('vcvtq_s32_f32', 1, 'rtz'), ('vcvtq_u32_f32', 0, 'rtz'), ('vcvtnq_s32_f32', 1, 'rne')):
    add(nm, T('s' if sg else 'u', 32, 4), [V('float32x4_t', 'a')],
        lambda e, sg=sg, mode=mode: {'ret': br([fcvt(e['a'].f(i), sg, mode) for i in range(4)], 32)}, 'C17')


# --------------------------------------------------------- C18 IEEE-754 arithmetic
def fop(name, ty, f, nargs=2):
    w = vt(ty).w
    names = 'abc'[:nargs]
    add(name, ty, [V(ty, n) for n in names],
        lambda e: {'ret': [R('f', f(*[e[n].f(i) for n in names]), w) for i in range(vt(ty).total)]}, 'C18')


fop('vaddq_f32', 'float32x4_t', fpx.add)
fop('vsub_f32', 'float32x2_t', fpx.sub)
fop('vsub_f64', 'float64x1_t', fpx.sub)
fop('vsubq_f32', 'float32x4_t', fpx.sub)
fop('vmulq_f32', 'float32x4_t', fpx.mul)
fop('vdiv_f32', 'float32x2_t', fpx.div)
fop('vdiv_f64', 'float64x1_t', fpx.div)
fop('vdivq_f32', 'float32x4_t', fpx.div)
fop('vdivq_f64', 'float64x2_t', fpx.div)
fop('vmlaq_f32', 'float32x4_t', lambda a, b, c: fpx.add(a, fpx.mul(b, c)), 3)
for k, w, n, s, q in each('f32 f64'):
    add('vmul%s_n_%s' % (q, s), T(k, w, n), [V(T(k, w, n), 'a'), P('sc', sc(k, w), 'b')],
        lambda e, n=n, w=w: {'ret': [R('f', fpx.mul(e['a'].f(i), e['b'].f()), w) for i in range(n)]}, 'C18')
add('vmlaq_n_f32', 'float32x4_t', [V('float32x4_t', 'a'), V('float32x4_t', 'b'), P('sc', 'float32_t', 'c')],
    lambda e: {'ret': [R('f', fpx.add(e['a'].f(i), fpx.mul(e['b'].f(i), e['c'].f())), 32) for i in range(4)]}, 'C18')


# ------------------------------------------------- C19 reciprocal estimate and step
def recip_table():
    out = []
    for i in range(256):
        a = (256 + i) * 2 + 1
        out.append(((((1 << 19) // a) + 1) // 2) & 255)
    return out


RECIP = recip_table()


def recpe(x):
    """Arm FPRecipEstimate for binary32 (FPCR: no flush-to-zero, round to nearest, no default NaN)"""
    E = z3.Extract
    sign, ex, fr = E(31, 31, x), E(30, 23, x), E(22, 0, x)
    # normalise subnormal inputs
    sub = ex == 0
    sub2 = z3.And(sub, E(22, 22, x) == 0)
    f = z3.If(sub2, z3.Concat(E(20, 0, fr), z3.BitVecVal(0, 2)), z3.If(sub, z3.Concat(E(21, 0, fr), z3.BitVecVal(0, 1)), fr))
    idx = E(22, 15, f)
    est = z3.BitVecVal(RECIP[255], 8)
    for i in reversed(range(255)):
        est = z3.If(idx == i, z3.BitVecVal(RECIP[i], 8), est)
    rexp = z3.If(sub2, z3.BitVecVal(254, 10), 253 - z3.ZeroExt(2, ex))      # 10-bit signed
    frac = z3.Concat(est, z3.BitVecVal(0, 15))
    frac0 = z3.Concat(z3.BitVecVal(1, 1), E(22, 1, frac))
    frac1 = z3.Concat(z3.BitVecVal(1, 2), E(22, 2, frac))
    rf = z3.If(rexp == 0, frac0, z3.If(rexp == z3.BitVecVal(-1, 10), frac1, frac))
    re = z3.If(rexp == z3.BitVecVal(-1, 10), z3.BitVecVal(0, 8), E(7, 0, rexp))
    main = z3.Concat(sign, re, rf)
    inf = z3.Concat(sign, z3.BitVecVal(255, 8), z3.BitVecVal(0, 23))
    zero = z3.Concat(sign, z3.BitVecVal(0, 31))
    tiny = z3.And(sub, E(22, 21, x) == 0)            # |x| < 2^-128 (zero included): overflows to infinity
    nan = z3.And(ex == 255, fr != 0)
    return z3.If(nan, z3.BitVecVal(0x7fc00000, 32), z3.If(ex == 255, zero, z3.If(tiny, inf, main)))


add('vrecpeq_f32', 'float32x4_t', [V('float32x4_t', 'a')],
    lambda e: {'ret': [R('f', fpx.from_bits(recpe(bv(e['a'].b(i), 32)), 32), 32) for i in range(4)]}, 'C19')


def recps(a, b):
    """2 - a*b with the product rounded (Armv7 VRECPS) or not (Armv8 FRECPS); inf*0 gives exactly 2"""
    two = fpx.const(2.0, 32)
    special = z3.Or(z3.And(z3.fpIsInf(a), z3.fpIsZero(b)), z3.And(z3.fpIsZero(a), z3.fpIsInf(b)))
    return [z3.If(special, two, fpx.sub(two, fpx.mul(a, b))), z3.If(special, two, fpx.fma(fpx.neg(a), b, two))]


add('vrecpsq_f32', 'float32x4_t', [V('float32x4_t', 'a'), V('float32x4_t', 'b')],
    lambda e: {'ret': [R('f', recps(e['a'].f(i), e['b'].f(i)), 32) for i in range(4)]}, 'C19')
