"""Meaning of the x86 SSE/SSE2 instructions clang keeps as intrinsics (Intel SDM); compared with the machine by fuzzexec.py."""
import re
import z3
import fpx
import symex as S
from symex import FV, MASK, bv, norm

V = z3.BitVecVal


def lanes(x, w):
    return [bv(v, w) for v in x]


def clamp(x, n, lo, hi):
    """signed x (wider) saturated to [lo, hi], n bits"""
    w = x.size()
    return z3.If(x < V(lo, w), V(lo, n), z3.If(x > V(hi, w), V(hi, n), z3.Extract(n - 1, 0, x)))


def pack(src, dst, sg):
    def f(ex, fr, ins, st, name, args, d):
        lo, hi = (-(1 << (dst - 1)), (1 << (dst - 1)) - 1) if sg else (0, MASK(dst))
        return ([norm(clamp(x, dst, lo, hi)) for x in lanes(args[0], src) + lanes(args[1], src)],)
    return f


def lane2(w, g):
    def f(ex, fr, ins, st, name, args, d):
        return ([norm(z3.simplify(g(a, b))) if z3.is_bv_value(a) and z3.is_bv_value(b) else g(a, b) for a, b in zip(lanes(args[0], w), lanes(args[1], w))],)
    return f


def mulh(e):
    return lambda a, b: z3.Extract(31, 16, e(16, a) * e(16, b))


def avg(w):
    return lambda a, b: z3.Extract(w, 1, z3.ZeroExt(2, a) + z3.ZeroExt(2, b) + 1)


def madd(ex, fr, ins, st, name, args, d):
    a, b = lanes(args[0], 16), lanes(args[1], 16)
    p = [z3.SignExt(16, x) * z3.SignExt(16, y) for x, y in zip(a, b)]
    return ([p[2 * i] + p[2 * i + 1] for i in range(len(p) // 2)],)


def sad(ex, fr, ins, st, name, args, d):
    a, b = [[z3.ZeroExt(56, x) for x in lanes(v, 8)] for v in args[:2]]
    t = [z3.If(z3.ULT(x, y), y - x, x - y) for x, y in zip(a, b)]
    return ([sum(t[8 * i + 1:8 * i + 8], t[8 * i]) for i in range(len(t) // 8)],)


def shift(ex, fr, ins, st, name, args, d):
    m = re.search(r'ps(ll|rl|ra)(i?)\.([wdq])', name)
    w = {'w': 16, 'd': 32, 'q': 64}[m.group(3)]
    if m.group(2):
        c = z3.ZeroExt(32, bv(args[1], 32))
    else:
        v = lanes(args[1], w)
        n = 64 // w
        c = z3.Concat(*reversed(v[:n])) if n > 1 else v[0]
    big = z3.UGE(c, V(w, 64))
    k = z3.Extract(w - 1, 0, c)
    out = []
    for x in lanes(args[0], w):
        r = {'ll': lambda: z3.If(big, V(0, w), x << k), 'rl': lambda: z3.If(big, V(0, w), z3.LShR(x, k)),
             'ra': lambda: x >> z3.If(big, V(w - 1, w), k)}[m.group(1)]()
        out.append(norm(z3.simplify(r)))
    return (out,)


def to_i32(x, rne):
    f = x.fp
    if rne:
        f = fpx.round_int(f, 'rne')
    return z3.If(fpx.in_range(f, 32, True, x.w), fpx.to_int(f, 32, True), V(1 << 31, 32))


def cvt(rne, n=None):
    def f(ex, fr, ins, st, name, args, d):
        if n is None:
            return ([to_i32(x, rne) for x in args[0]],)
        return (to_i32(args[0][0], rne),)
    return f


def fminmax(k, scalar):
    """the second operand if either is NaN or both are zero"""
    def f(ex, fr, ins, st, name, args, d):
        out = []
        for i, (a, b) in enumerate(zip(args[0], args[1])):
            if scalar and i:
                out.append(a)
                continue
            c = (z3.fpLT if k == 'min' else z3.fpGT)(a.fp, b.fp)
            out.append(FV(a.w, bits=z3.If(c, bv(a.bits(ex.c), a.w), bv(b.bits(ex.c), b.w))))
        return (out,)
    return f


def movmsk(w, fl):
    def f(ex, fr, ins, st, name, args, d):
        v = [bv(x.bits(ex.c) if isinstance(x, FV) else x, w) for x in args[0]]
        b = z3.Concat(*[z3.Extract(w - 1, w - 1, x) for x in reversed(v)])
        return (norm(z3.simplify(z3.ZeroExt(32 - len(v), b))),)
    return f


def comi(ex, fr, ins, st, name, args, d):
    k = re.search(r'u?comi(\w+)\.', name).group(1)
    a, b = args[0][0].fp, args[1][0].fp
    c = {'eq': lambda: z3.fpEQ(a, b), 'neq': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
         'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}[k]()
    return (z3.If(c, V(1, 32), V(0, 32)),)


def nop(ex, fr, ins, st, name, args, d):
    return ()


TABLE = [
    (r'llvm\.x86\.sse2\.packsswb\.128', pack(16, 8, True)),
    (r'llvm\.x86\.sse2\.packssdw\.128', pack(32, 16, True)),
    (r'llvm\.x86\.sse2\.packuswb\.128', pack(16, 8, False)),
    (r'llvm\.x86\.sse2\.pmulh\.w', lane2(16, mulh(z3.SignExt))),
    (r'llvm\.x86\.sse2\.pmulhu\.w', lane2(16, mulh(z3.ZeroExt))),
    (r'llvm\.x86\.sse2\.pavg\.b', lane2(8, avg(8))),
    (r'llvm\.x86\.sse2\.pavg\.w', lane2(16, avg(16))),
    (r'llvm\.x86\.sse2\.pmadd\.wd', madd),
    (r'llvm\.x86\.sse2\.psad\.bw', sad),
    (r'llvm\.x86\.sse2\.ps(ll|rl|ra)i?\.[wdq]', shift),
    (r'llvm\.x86\.sse2\.cvttps2dq', cvt(False)),
    (r'llvm\.x86\.sse2\.cvtps2dq', cvt(True)),
    (r'llvm\.x86\.sse\.cvttss2si|llvm\.x86\.sse2\.cvttsd2si', cvt(False, 1)),
    (r'llvm\.x86\.sse\.cvtss2si|llvm\.x86\.sse2\.cvtsd2si', cvt(True, 1)),
    (r'llvm\.x86\.sse2?\.min\.p[sd]', fminmax('min', False)),
    (r'llvm\.x86\.sse2?\.max\.p[sd]', fminmax('max', False)),
    (r'llvm\.x86\.sse2?\.min\.s[sd]', fminmax('min', True)),
    (r'llvm\.x86\.sse2?\.max\.s[sd]', fminmax('max', True)),
    (r'llvm\.x86\.sse2\.pmovmskb\.128', movmsk(8, False)),
    (r'llvm\.x86\.sse\.movmsk\.ps', movmsk(32, True)),
    (r'llvm\.x86\.sse2\.movmsk\.pd', movmsk(64, True)),
    (r'llvm\.x86\.sse2?\.u?comi\w+\.s[sd]', comi),
    (r'llvm\.x86\.(sse\.sfence|sse2\.[lm]fence|sse2\.pause)', nop),
]
