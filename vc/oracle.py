"""An independent oracle for the contracts: clang's own <arm_neon.h>.

Every contract (and every permitted immediate) is proved equivalent, for all inputs, to the meaning
clang gives the intrinsic of the same name on AArch64.  The header is compiled to unoptimised LLVM IR;
there most intrinsics are generic vector IR and the rest are the `llvm.aarch64.neon.*` calls below,
whose meaning is written here from the Arm ARM pseudo-code and shares nothing with contracts.py.
The range of every immediate is compared with what clang accepts.

This checks the specification, not /repo: no check depends on it.
"""
import copy
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import z3

import builtins_ir as B
import contracts
import engine as E
import fpx
import irparse
import symex as S
from symex import FV, MASK, bv

FLAGS = ['-target', 'aarch64-linux-gnu', '-march=armv8-a', '-ffreestanding', '-ffp-contract=off', '-O1', '-Xclang', '-disable-llvm-passes',
         '-fno-discard-value-names', '-g0', '-S', '-emit-llvm', '-w']


# ---------------------------------------------------- Arm ARM pseudo-code
def _ext(x, n, m, signed):
    return S.sext(x, n, m) if signed else S.zext(x, n, m)


def _satq(wide, w, n, signed):
    """SatQ: clamp the signed w-bit term to an n-bit result"""
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, MASK(n))
    wide = bv(wide, w)
    return z3.If(wide > hi, z3.BitVecVal(hi, n), z3.If(wide < lo, z3.BitVecVal(lo & MASK(n), n), z3.Extract(n - 1, 0, wide)))


def lanes(f):
    def g(ex, fr, ins, st, name, args, d):
        t = d['args'][0][0]
        n = t[2][1] if t[0] == 'vec' and t[2][0] == 'i' else 32
        k = len(args[0])
        return ([f(n, *[a[i] if isinstance(a, list) else a for a in args]) for i in range(k)],)
    return g


def widening(signed):
    return lanes(lambda n, a, b: bv(_ext(a, n, 2 * n, signed), 2 * n) * bv(_ext(b, n, 2 * n, signed), 2 * n))


def sqdmull(n, a, b):
    w = 2 * n + 2
    return _satq(bv(_ext(a, n, w, True), w) * bv(_ext(b, n, w, True), w) * 2, w, 2 * n, True)


def qaddsub(signed, sign):
    def f(n, a, b):
        w = n + 2
        x, y = bv(_ext(a, n, w, signed), w), bv(_ext(b, n, w, signed), w)
        return _satq(x + y if sign > 0 else x - y, w, n, signed)
    return lanes(f)


def hsub(signed):
    def f(n, a, b):
        w = n + 1
        return z3.Extract(n, 1, bv(_ext(a, n, w, signed), w) - bv(_ext(b, n, w, signed), w))
    return lanes(f)


def mx(signed, big):
    def f(n, a, b):
        a, b = bv(a, n), bv(b, n)
        gt = a > b if signed else z3.UGT(a, b)
        return z3.If(gt, a, b) if big else z3.If(gt, b, a)
    return lanes(f)


def narrow(src_signed, dst_signed, sat, rnd):
    """shift right narrow by an immediate; the wide element is n bits"""
    def f(n, a, k):
        w = n + 2
        x = bv(_ext(a, n, w, src_signed), w)
        if rnd:
            x = x + (1 << (k - 1))
        x = x >> k
        return _satq(x, w, n // 2, dst_signed) if sat else z3.Extract(n // 2 - 1, 0, x)
    return lanes(f)


def xtn(src_signed, dst_signed):
    def f(n, a):
        return _satq(_ext(a, n, n + 1, src_signed), n + 1, n // 2, dst_signed)
    return lanes(f)


def rsubhn(n, a, b):
    return z3.Extract(n - 1, n // 2, bv(a, n) - bv(b, n) + (1 << (n // 2 - 1)))


def uaddlp(ex, fr, ins, st, name, args, d):
    n = d['args'][0][0][2][1]
    v = args[0]
    return ([z3.ZeroExt(n, bv(v[i], n)) + z3.ZeroExt(n, bv(v[i + 1], n)) for i in range(0, len(v), 2)],)


# floating point: FPMax/FPMin return NaN if an operand is one; +0 is above -0
def fp_max(a, b, big):
    x, y = a.fp, b.fp
    nan = z3.fpNaN(x.sort())
    zz = z3.And(z3.fpIsZero(x), z3.fpIsZero(y))
    if big:
        z = z3.If(z3.And(z3.fpIsNegative(x), z3.fpIsNegative(y)), z3.fpMinusZero(x.sort()), z3.fpPlusZero(x.sort()))
        r = z3.If(z3.fpGT(x, y), x, y)
    else:
        z = z3.If(z3.Or(z3.fpIsNegative(x), z3.fpIsNegative(y)), z3.fpMinusZero(x.sort()), z3.fpPlusZero(x.sort()))
        r = z3.If(z3.fpLT(x, y), x, y)
    return FV(a.w, fp=z3.If(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), nan, z3.If(zz, z, r)))


def fmaxp(big):
    def g(ex, fr, ins, st, name, args, d):
        v = args[0] + args[1]
        return ([fp_max(v[i], v[i + 1], big) for i in range(0, len(v), 2)],)
    return g


def fcvt(signed, mode):
    """FPToFixed: round, saturate, NaN gives 0"""
    def f(n, a):
        x = a.fp
        r = fpx.round_int(x, mode)
        lo, hi = (-2.0 ** 31, 2.0 ** 31) if signed else (0.0, 2.0 ** 32)
        v = (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), r, z3.BitVecSort(32))
        lb = z3.BitVecVal(int(lo) & MASK(32), 32)
        hb = z3.BitVecVal(int(hi) - 1, 32)
        return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, 32),
                     z3.If(z3.fpLT(r, z3.FPVal(lo, x.sort())), lb, z3.If(z3.fpGEQ(r, z3.FPVal(hi, x.sort())), hb, v)))
    return lanes(f)


def recip_estimate(a):
    """RecipEstimate of the Arm ARM: 256 <= a < 512 -> 256 <= r < 512"""
    a = a * 2 + 1
    b = (1 << 19) // a
    return (b + 1) // 2


RTAB = [recip_estimate(a) for a in range(256, 512)]


def frecpe(n, a):
    """FPRecipEstimate, single precision, round to nearest, no flush to zero"""
    x = bv(a.bits(None), 32) if a._bits is not None else z3.fpToIEEEBV(a.fp)
    sign, exp, frac = z3.Extract(31, 31, x), z3.Extract(30, 23, x), z3.Extract(22, 0, x)
    sub = exp == 0
    top = z3.Extract(22, 22, frac) == 1
    # subnormal: normalise by one or two places; a third place overflows below
    fr = z3.If(sub, z3.If(top, frac << 1, frac << 2), frac)
    e = z3.If(sub, z3.If(top, z3.BitVecVal(0, 16), z3.BitVecVal(0xffff, 16)), z3.ZeroExt(8, exp))
    scaled = z3.Extract(22, 15, fr)
    est = z3.BitVecVal(RTAB[255] & 255, 8)
    for i in range(255):
        est = z3.If(scaled == i, z3.BitVecVal(RTAB[i] & 255, 8), est)
    re = z3.BitVecVal(253, 16) - e
    rf = z3.Concat(est, z3.BitVecVal(0, 15))
    rf = z3.If(re == 0, z3.Concat(z3.BitVecVal(1, 1), z3.Extract(22, 1, rf)),
               z3.If(re == 0xffff, z3.Concat(z3.BitVecVal(1, 2), z3.Extract(22, 2, rf)), rf))
    re8 = z3.If(z3.Or(re == 0, re == 0xffff), z3.BitVecVal(0, 8), z3.Extract(7, 0, re))
    gen = z3.Concat(sign, re8, rf)
    inf = z3.Concat(sign, z3.BitVecVal(0x7f800000, 31))
    zero = z3.Concat(sign, z3.BitVecVal(0, 31))
    nan = z3.And(exp == 255, frac != 0)
    big = z3.Extract(30, 0, x)
    r = z3.If(nan, z3.BitVecVal(0x7fc00000, 32), z3.If(z3.And(exp == 255, frac == 0), zero,
              z3.If(z3.ULT(big, z3.BitVecVal(1 << 21, 31)), inf, gen)))
    return FV(32, fp=z3.fpBVToFP(r, z3.Float32()))


def frecps(n, a, b):
    """FPRecipStepFused: 2.0 - a*b with one rounding; infinity times zero gives 2.0"""
    x, y = a.fp, b.fp
    iz = z3.Or(z3.And(z3.fpIsInf(x), z3.fpIsZero(y)), z3.And(z3.fpIsZero(x), z3.fpIsInf(y)))
    two = z3.FPVal(2.0, x.sort())
    return FV(a.w, fp=z3.If(iz, two, z3.fpFMA(z3.RNE(), z3.fpNeg(x), y, two)))


def tbl(ex, fr, ins, st, name, args, d):
    tab = [b for t in args[:-1] for b in t]
    out = []
    for i in args[-1]:
        r = z3.BitVecVal(0, 8)
        for k in range(len(tab) - 1, -1, -1):
            r = z3.If(bv(i, 8) == k, bv(tab[k], 8), r)
        out.append(r)
    return (out,)


def elem(ex, ty, i):
    return ty[2]


def ldn(ex, fr, ins, st, name, args, d):
    k = int(re.search(r'\.ld(\d)', name).group(1))
    vty = fr.mod.resolve(d['ret'])[1][0]
    n, ety = vty[1], vty[2]
    sz = (ety[1] if ety[0] == 'i' else 32) // 8
    if 'lane' in name:
        regs = [list(v) for v in args[:k]]
        lane, p = args[k], args[k + 1]
        for r in range(k):
            regs[r][lane] = ex.load(fr, ins, st, ety, ex.padd(p, r * sz))
        return (regs,)
    flat = [ex.load(fr, ins, st, ety, ex.padd(args[0], i * sz)) for i in range(n * k)]
    return ([flat[r::k] for r in range(k)],)


def stn(ex, fr, ins, st, name, args, d):
    k = int(re.search(r'\.st(\d)', name).group(1))
    vty = d['args'][0][0]
    n, ety = vty[1], vty[2]
    sz = (ety[1] if ety[0] == 'i' else 32) // 8
    if 'lane' in name:
        lane, p = args[k], args[k + 1]
        for r in range(k):
            ex.store(fr, ins, st, ety, args[r][lane], ex.padd(p, r * sz))
        return ()
    p = args[k]
    for i in range(n):
        for r in range(k):
            ex.store(fr, ins, st, ety, args[r][i], ex.padd(p, (i * k + r) * sz))
    return ()


NEON = {
    'smull': widening(True), 'umull': widening(False), 'sqdmull': lanes(sqdmull),
    'uqadd': qaddsub(False, 1), 'sqadd': qaddsub(True, 1), 'sqsub': qaddsub(True, -1), 'uqsub': qaddsub(False, -1),
    'shsub': hsub(True), 'uhsub': hsub(False),
    'smax': mx(True, True), 'smin': mx(True, False), 'umax': mx(False, True), 'umin': mx(False, False),
    'rshrn': narrow(False, False, False, True), 'sqshrn': narrow(True, True, True, False), 'uqshrn': narrow(False, False, True, False),
    'sqshrun': narrow(True, False, True, False), 'sqrshrun': narrow(True, False, True, True),
    'sqxtun': xtn(True, False), 'uqxtn': xtn(False, False), 'sqxtn': xtn(True, True),
    'rsubhn': lanes(rsubhn), 'uaddlp': uaddlp,
    'fmax': lanes(lambda n, a, b: fp_max(a, b, True)), 'fmin': lanes(lambda n, a, b: fp_max(a, b, False)),
    'fmaxp': fmaxp(True), 'fminp': fmaxp(False),
    'fcvtns': fcvt(True, 'rne'), 'fcvtzs': fcvt(True, 'rtz'), 'fcvtzu': fcvt(False, 'rtz'),
    'frecpe': lanes(frecpe), 'frecps': lanes(frecps), 'tbl1': tbl, 'tbl2': tbl,
    'ld2': ldn, 'ld3': ldn, 'ld4': ldn, 'ld2lane': ldn, 'ld3lane': ldn, 'ld4lane': ldn,
    'st2': stn, 'st3': stn, 'st4': stn, 'st4lane': stn,
}


def dispatch(ex, fr, ins, st, name, args, d):
    op = name.split('.')[3]
    if op not in NEON:
        raise S.Unsupported(name)
    return NEON[op](ex, fr, ins, st, name, args, d)


# ------------------------------------------------------------------ driver
def at(c, v):
    """the contract with its immediate fixed"""
    if v is None:
        return c
    k = copy.copy(c)
    p = c.imm()[0]
    k.name = '%s__%s' % (c.name, str(v).replace('-', 'm'))
    k.params = [q for q in c.params if q is not p]
    k.post = lambda env, p=p, v=v: c.post(dict(env, **{p.name: v}))
    return k


def text(c, v):
    t = E.wrapper_text(c).replace('extern "C" ', '').replace('\n', ' ')
    if v is not None:
        p = c.imm()[0].name
        i, j = t.index('('), t.index('{')
        t = 'void vc__' + at(c, v).name + re.sub(r',?\s*\w+ %s\b' % p, '', t[i:j]) + re.sub(r'\b%s\b' % p, str(v), t[j:])
    return t


def items(names=None):
    out = []
    for c in contracts.ALL.values():
        if names and c.name not in names:
            continue
        im = c.imm()
        for v in (range(im[0].lo, im[0].hi + 1) if im else [None]):
            out.append((c, v))
    return out


def compile_(src, work, base):
    cf = os.path.join(work, base + '.c')
    with open(cf, 'w') as f:
        f.write(src)
    ll = cf[:-2] + '.ll'
    p = subprocess.run(['clang'] + FLAGS + [cf, '-o', ll], capture_output=True, text=True)
    return (ll if p.returncode == 0 else None), p.stderr


def one(job):
    ll, part = job
    B.TABLE.insert(0, (re.compile(r'llvm\.aarch64\.neon\..*'), dispatch))
    B._cache.clear()
    mod = irparse.Module(ll, 'oracle')
    V = E.Verifier([mod], timeout=60000)
    out = []
    for name, v in part:
        c = at(contracts.ALL[name], v)
        t0 = time.time()
        res = E.FnResult(c.name)
        try:
            V.run_case(c, '', {}, 'valid', {'post', 'frame', 'bounds'}, res)
        except S.Unsupported as e:
            out.append((c.name, 'unsupported', str(e), 0, time.time() - t0))
            continue
        bad = [o for o in res.obs if o.status != 'proved']
        out.append((c.name, 'bad' if any(o.status == 'failed' for o in bad) else 'unknown' if bad else 'ok', ['%s %s %s %s' % (o.kind, o.status, o.detail, o.model) for o in bad], len(res.obs), time.time() - t0))
    return out


def main(work, names=None, jobs=8):
    """(results, ranges), or (None, message) when the header is not available"""
    its = items(names)
    ll, err = compile_('#include <arm_neon.h>\n' + '\n'.join(text(c, v) for c, v in its) + '\n', work, 'o')
    if ll is None:
        return None, err
    parts = [[(c.name, v) for c, v in its[k::4 * jobs]] for k in range(4 * jobs)]
    with mp.get_context('fork').Pool(jobs) as p:
        rs = [r for x in p.imap_unordered(one, [(ll, q) for q in parts if q]) for r in x]
    return rs, ranges(work, names)


def ranges(work, names=None):
    """[((contract, immediate), rejected by clang)] for the immediates just outside each contract's range"""
    src, want = ['#include <arm_neon.h>'], {}
    for c in contracts.ALL.values():
        if c.imm() and (not names or c.name in names):
            p = c.imm()[0]
            for v in (p.lo - 1, p.hi + 1):
                src.append(text(c, v))
                want[len(src)] = (c.name, v)
    if not want:
        return []
    cf = os.path.join(work, 'r.c')
    with open(cf, 'w') as f:
        f.write('\n'.join(src) + '\n')
    p = subprocess.run(['clang'] + [x for x in FLAGS if x not in ('-S', '-emit-llvm')] + ['-ferror-limit=0', '-fsyntax-only', cf], capture_output=True, text=True)
    got = {int(m.group(1)) for m in re.finditer(r'r\.c:(\d+):\d+: error: argument value', p.stderr)}
    return [(want[k], k in got) for k in want]


# clang checks the count of vshll_n_u8 against the width of the result (0..15); the encodings are USHLL 0..7 and SHLL 8
LAX = {('vshll_n_u8', 9)}


def summary(names=None):
    """what the comparison covered, and the differences found"""
    wk = tempfile.mkdtemp(prefix='vc_oracle_')
    t0 = time.time()
    try:
        rs, rng = main(wk, names)
    finally:
        shutil.rmtree(wk, ignore_errors=True)
    if rs is None:
        return {'available': False, 'reason': rng[:300]}, []
    bad = ['%s: %s' % (r[0], '; '.join(r[2])) for r in rs if r[1] == 'bad']
    bad += ['%s: clang accepts the immediate %d, the contract does not' % w for w, g in rng if not g and w not in LAX]
    return {'available': True, 'functions': len({c.name for c, v in items(names)}), 'cases_equal': sum(r[1] == 'ok' for r in rs), 'cases': len(rs),
            'obligations': sum(r[3] for r in rs), 'undecided': [r[0] for r in rs if r[1] in ('unknown', 'unsupported')],
            'immediates_outside_the_range_rejected_by_clang': sum(g for w, g in rng), 'immediates_tried': len(rng),
            'differences': bad, 'seconds': round(time.time() - t0, 1)}, bad


if __name__ == '__main__':
    s, bad = summary(set(sys.argv[1:]) or None)
    print(s)
    sys.exit(bool(bad))
