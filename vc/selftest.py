"""Self test of the verifier (the setup command): python3-vt vc/selftest.py

1. the two readings of the contract language agree: direct evaluation over integers against the compiled bit-vector terms
2. the polynomial normal form used for products has the value of the formula it replaces (random formulas, random values)
3. vacuity: small libraries with a known defect must fail the obligation of the expected kind, their correct versions must pass
4. the contracts mean what clang's arm_neon.h means for aarch64
5. the executor agrees with the machine: random C++ programs, run symbolically and natively (values, undefined behaviour)
Uses no source of /repo.
"""
import math
import os
import random
import shutil
import struct
import sys
import tempfile
from fractions import Fraction as F
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import contracts
import engine as E
import props as PR
import fpeval
import fuzzexec
import native
import oracle
import ring
import symex as S
from spec import zeval, MASK, vt, SC, fast, fpval

HEADER = '''
#include <stdint.h>
typedef float float32_t; typedef double float64_t;
typedef struct { int8_t val[8]; } int8x8_t; typedef struct { uint8_t val[8]; } uint8x8_t; typedef struct { int16_t val[8]; } int16x8_t;
typedef struct { int32_t val[2]; } int32x2_t; typedef struct { int32_t val[4]; } int32x4_t; typedef struct { uint32_t val[2]; } uint32x2_t;
typedef struct { float32_t val[4]; } float32x4_t; typedef struct { uint8_t val[16]; } uint8x16_t; typedef struct { uint16_t val[4]; } uint16x4_t;
typedef struct { uint8x8_t val[2]; } uint8x8x2_t;
#ifdef __cplusplus
extern "C" {
#endif
int32x2_t vadd_s32(int32x2_t a, int32x2_t b); int32x2_t vld1_s32(int32_t const* p); void vst1_s32(int32_t* p, int32x2_t a);
int32_t vgetq_lane_s32(int32x4_t v, const int lane); int32x4_t vcvtq_s32_f32(float32x4_t a); uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t i);
float32x4_t vaddq_f32(float32x4_t a, float32x4_t b); int32x2_t vget_low_s32(int32x4_t a); uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b);
uint8x8_t vld1_u8(uint8_t const* p); uint8x8x2_t vld2_u8(uint8_t const* p); uint16x4_t vreinterpret_u16_u8(uint8x8_t a); uint32x2_t vreinterpret_u32_u16(uint16x4_t a);
#ifdef __cplusplus
}
#endif
'''
LOOP = 'for (int i = 0; i < 2; i++) '
# (function, body, kinds expected to fail; empty: everything is discharged)
CASES = [
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ()),
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = a.val[i] + b.val[i]; return r;' % LOOP, ('overflow',)),
    ('vadd_s32', 'int32x2_t r; for (int i = 0; i < 1; i++) r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;', ('init', 'post')),
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] + (a.val[i] == 123456789 && b.val[i] == -77); return r;' % LOOP, ('post',)),
    ('vadd_s32', 'static int n; n++; int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ('pure',)),
    ('vadd_s32', 'static bool ready; static uint32_t k; if (!ready) { k = 1; ready = a.val[0] != 77; } int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + k * (uint32_t)b.val[i]; if (ready) k = 1; return r;' % LOOP, ('post', 'pure')),
    ('vadd_s32', 'static uint32_t k = 1; if (b.val[1] == 3) k = 1; int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + k * (uint32_t)b.val[i]; if (a.val[0] == 5) k = 2; return r;' % LOOP, ('post', 'pure')),
    ('vadd_s32', 'static std::atomic<unsigned> n(0); unsigned t = n.fetch_add(1); int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] + (t == 1000000); return r;' % LOOP, ('post', 'pure'), '#include <atomic>\n'),
    ('vadd_s32', 'std::atomic<uint32_t> t; int32x2_t r; %s { t = (uint32_t)a.val[i]; uint32_t e = t; t.compare_exchange_strong(e, e + (uint32_t)b.val[i]); r.val[i] = t.exchange(0); } return r;' % LOOP, (), '#include <atomic>\n'),
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] + (std::chrono::steady_clock::now().time_since_epoch().count() == 7); return r;' % LOOP, ('post', 'pure'), '#include <chrono>\n'),
    ('vgetq_lane_s32', 'if (lane & ~3) { char m[32]; snprintf(m, sizeof m, "%d", lane); fwrite(m, 1, strlen(m), stderr); abort(); } return v.val[lane & 3];', ()),
    ('vadd_s32', 'static int32x2_t s = a; int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] + (s.val[0] == 77 && a.val[0] != 77); return r;' % LOOP, ('post', 'pure')),
    ('vadd_s32', 'static uint32_t* p = new uint32_t(1); int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + *p * (uint32_t)b.val[i]; if (a.val[0] == 77) *p = 2; return r;' % LOOP, ('post', 'pure')),
    ('vadd_s32', 'static thread_local int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ('pure',)),
    ('vadd_s32', 'int32x2_t r; if (a.val[0] == 7 && b.val[1] == 9) printf("x"); %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ('pure',)),
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] + (getenv("X") ? 1 : 0); return r;' % LOOP, ('pure', 'post')),
    ('vadd_s32', """int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i];
#ifndef __clang__
if (a.val[1] == -123456) r.val[0] ^= 1;
#endif
return r;""" % LOOP, ('post',)),
    ('vadd_s32', """
typedef uint32_t v2 __attribute__((vector_size(8))); v2 v; memcpy(&v, &a, 8); v2 m = {0, 1}; v = __builtin_shuffle(v, m);
int32x2_t r; %s r.val[i] = v[i] + (uint32_t)b.val[i]; return r;""" % LOOP, ('rejected',)),
    ('vadd_s32', 'int32_t* t = (int32_t*)malloc(8); %s t[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; int32x2_t r; memcpy(&r, t, 8); free(t); return r;' % LOOP, ()),
    ('vadd_s32', 'int32_t* t = (int32_t*)malloc(8); %s t[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; int32x2_t r; memcpy(&r, t, 8); if (a.val[0] != 1) free(t); return r;' % LOOP, ('pure',)),
    ('vadd_s32', 'int32_t* t = (int32_t*)malloc(8); %s t[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; if (a.val[0] == 1) free(t); int32x2_t r; memcpy(&r, t, 8); if (a.val[0] != 1) free(t); return r;' % LOOP, ('mem-read',)),
    ('vadd_s32', 'int32_t* t = new int32_t[2]; %s t[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; int32x2_t r; memcpy(&r, t, 8); free(t); return r;' % LOOP, ('mem-write',)),
    ('vadd_s32', 'int32x2_t r; %s { asm("" : "+r"(a.val[i])); r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; } return r;' % LOOP, ()),
    ('vld1_s32', 'int32x2_t r; memcpy(&r, p, sizeof r); return r;', ()),
    ('vld1_s32', 'int32x2_t r; %s r.val[i] = p[i]; (void)*(volatile const int32_t*)(p + 2); return r;' % LOOP, ('mem-read',)),
    ('vld1_s32', 'int32x2_t r; %s { r.val[i] = p[i]; if (p[i] == 5) ((int32_t*)p)[i] = 6; } return r;' % LOOP, ('frame',)),
    ('vst1_s32', '%s p[i] = a.val[i];' % LOOP, ()),
    ('vst1_s32', 'for (int i = 0; i <= 2; i++) p[i] = a.val[i & 1];', ('mem-write',)),
    ('vst1_s32', 'p[0] = a.val[0]; if (a.val[1] != 42) p[1] = a.val[1];', ('post',)),
    ('vld1_u8', 'uint8x8_t r; *(uint64_t*)r.val = *(const uint64_t*)p; return r;', ('align',)),
    ('vreinterpret_u32_u16', 'uint32x2_t r; for (int i = 0; i < 2; i++) r.val[i] = ((uint32_t*)a.val)[i]; return r;', ('align', 'alias')),
    ('vld2_u8', 'uint8x8x2_t r; for (int i = 0; i < 16; i++) r.val[0].val[i / 2 + i % 2 * 8] = p[i]; return r;', ('index',)),
    ('vld2_u8', 'uint8x8x2_t r; for (int i = 0; i < 16; i++) r.val[i % 2].val[i / 2] = p[i]; return r;', ()),
    ('vreinterpret_u32_u16', 'uint32x2_t r; memcpy(&r, &a, 8); return r;', ()),
    ('vreinterpret_u32_u16', 'union { uint16x4_t a; uint32x2_t b; } u; u.a = a; return u.b;', ()),
    ('vgetq_lane_s32', 'if (lane < 0 || lane > 3) abort(); return v.val[lane];', ()),
    ('vgetq_lane_s32', 'if (lane < 0 || lane > 4) abort(); return v.val[lane];', ('imm-abort', 'imm-mem-read', 'imm-uninit')),
    ('vgetq_lane_s32', 'if (lane < 0 || lane > 2) abort(); return v.val[lane];', ('noabort',)),
    ('vgetq_lane_s32', 'if (lane < 0 || lane > 3) throw 1; return v.val[lane];', ('imm-abort',)),
    ('vgetq_lane_s32', 'struct D { int* p; ~D() { *p = 0; } }; int z; { D d = {&z}; if (lane < 0 || lane > 3) throw 1; } return v.val[lane];', ('imm-abort',)),
    ('vgetq_lane_s32', 'struct F { static int at(int32x4_t v, int lane) noexcept { if (lane < 0 || lane > 3) throw 1; return v.val[lane]; } }; return F::at(v, lane);', ()),
    ('vgetq_lane_s32', 'if (lane < 0 || lane > 3) std::terminate(); return v.val[lane];', ()),
    ('vgetq_lane_s32', 'if (lane < 0) abort(); if (lane > 3) exit(1); return v.val[lane];', ('imm-abort',)),
    ('vgetq_lane_s32', 'int x = v.val[lane]; if (lane < 0 || lane > 3) abort(); return x;', ('imm-mem-read',)),
    ('vcvtq_s32_f32', 'int32x4_t r; for (int i = 0; i < 4; i++) r.val[i] = a.val[i]; return r;', ('fptoint', 'post')),
    ('vqtbl1_u8', 'uint8x8_t r; for (int k = 0; k < 8; k++) r.val[k] = t.val[i.val[k] & 15]; return r;', ('post',)),
    ('vqtbl1_u8', 'uint8x8_t r; for (int k = 0; k < 8; k++) r.val[k] = t.val[i.val[k]]; return r;', ('mem-read',)),
    ('vadd_s32', 'int32x2_t r; int z = 5; if (a.val[0] == 77) z = z + 5 / 0 * 0; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ('overflow',)),
    ('vadd_s32', 'int32x2_t r; int z = a.val[0] == 77 ? 1 << 40 : 0; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i]; return r;' % LOOP, ('overflow',)),
    ('vadd_s32', 'int32x2_t r; %s r.val[i] = (uint32_t)a.val[i] + (uint32_t)b.val[i] +\n (2147483647 + 1) + 0x80000000u; return r;' % LOOP, ('overflow',)),
    ('vget_low_s32', 'int32x2_t r; memset(&r, 7, 8); int n = a.val[2]; if (n >= 0 && n <= 8) memcpy(&r, &a, n); memcpy(&r, &a, 8); return r;', ()),
    ('vget_low_s32', 'int32x2_t r; int n = a.val[2]; if (n >= 0 && n <= 9) memcpy(&r, &a, n); memcpy(&r, &a, 8); return r;', ('mem-write',)),
    ('vaddq_f32', 'float32x4_t r; for (int k = 0; k < 4; k++) r.val[k] = b.val[k] + a.val[k]; return r;', ()),
    ('vaddq_f32', 'float32x4_t r; for (int k = 0; k < 4; k++) r.val[k] = a.val[k] - -b.val[k]; return r;', ()),
    ('vaddq_f32', 'float32x4_t r; for (int k = 0; k < 4; k++) r.val[k] = b.val[k] == 0 ? a.val[k] : a.val[k] + b.val[k]; return r;', ('post',)),
] + [('vadd_s32', 'int32x2_t r; for (int i = 0; i < 2; i++) r.val[i] = (int32_t)((uint32_t)a.val[i] + (uint32_t)b.val[i] + Z[i]); return r;', want, pre) for want, pre in (
    ((), 'static uint32_t Z[2]; struct I { I() { Z[0] = Z[1] = 0; } }; static I init_;'),
    ((), 'static uint32_t Z[2]; static bool fillz() { for (int i = 0; i < 2; i++) Z[i] = 0; return true; } static const bool ok = fillz();'),
    ((), 'static uint32_t Z[2]; __attribute__((constructor)) static void initz() { Z[0] = Z[1] = 0; }'),
    ((), '#include <vector>\nstatic const std::vector<uint32_t> Z(2, 0u);'),
    ((), 'struct T { uint32_t t[2]; T() { for (int i = 0; i < 2; i++) t[i] = 0; } uint32_t operator[](int i) const { return t[i]; } }; static const T& get() { static const T z; return z; }\n#define Z get()'),
    (('post',), 'static uint32_t Z[2]; static bool fillz() { Z[1] = 1; return true; } static const bool ok = fillz();'),
    (('post',), 'static uint32_t Z[2]; static void fillz() { Z[0] = 0; } struct I { I() { fillz(); } }; static I init_; extern "C" void other() { fillz(); }'),
    (('post',), 'static uint32_t Z[2]; static uint32_t* at(int i) { return &Z[i]; } static bool fillz() { *at(0) = *at(1) = 0; return true; } static const bool ok = fillz(); extern "C" void other(uint32_t x) { *at(0) = x; }'),
    (('post',), 'struct T { uint32_t t[2]; T() { t[0] = t[1] = 0; } uint32_t& operator[](int i) { return t[i]; } }; static T Z; extern "C" void other() { Z[0]++; }'),
    (('startup',), '#include <xmmintrin.h>\nstatic const uint32_t Z[2] = {}; struct I { I() { _mm_setcsr(_mm_getcsr() | 0x8040); } }; static I init_;'),
    (('startup',), '#include <fenv.h>\nstatic const uint32_t Z[2] = {}; __attribute__((constructor)) static void ini() { if (getenv("RZ")) fesetround(FE_TOWARDZERO); }'),
    (('startup',), 'static const uint32_t Z[2] = {}; static int hello = puts("neon_sim");'),
    (('startup?',), 'static const uint32_t Z[2] = {}; __attribute__((constructor)) static void ini() { unsigned c = 0x9fc0; asm volatile("ldmxcsr %0" : : "m"(c)); }'),
    ((), '#include <iostream>\nstatic const uint32_t Z[2] = {};'),
)]


def language():
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    n = 0
    for c in contracts.ALL.values():
        class Ctx:
            pass
        for imm in ([{}] if not c.imm() else [{c.imm()[0].name: v} for v in {c.imm()[0].lo, c.imm()[0].hi}]):
            import symex
            ctx = symex.Ctx([])
            su = E.Setup(c, ctx, imm)
            post = c.post(su.env)
            fl = any(r.kind == 'f' for rs in post.values() for r in rs)
            for _ in range(40 if fl else 3):
                env = {}
                for k, (v, w) in su.vars.items():
                    env[k] = rnd.choice([0, 1, MASK(w), 1 << (w - 1), (1 << (w - 1)) - 1, rnd.getrandbits(w)])
                if fl and rnd.random() < 0.8:
                    env = {k: native.rnd_lane(rnd, 'f', w) if w >= 32 else env[k] for k, (v, w) in su.vars.items()}
                sub = [(v, z3.BitVecVal(env[k], w)) for k, (v, w) in su.vars.items()]
                for rs in post.values():
                    for r in rs:
                        if r.kind != 'z':
                            for v in (r.v if isinstance(r.v, list) else [r.v]):
                                f = None if isinstance(v, int) else fast(v)
                                if f is None:
                                    continue
                                try:
                                    x = f(env)
                                except ValueError:
                                    continue
                                y = z3.simplify(z3.substitute(v, *sub))
                                if r.kind == 'f':
                                    x, y = 'nan' if x != x else fpeval.f_bits(x, r.w), fpval(y, r.w)
                                else:
                                    y = y.as_long()
                                assert x == y, ('evaluation', c.name, v, env, x, y)
                                n += 1
                            continue
                        t = r.bits()
                        x = t & MASK(r.w) if isinstance(t, int) else z3.simplify(z3.substitute(t, *sub)).as_long()
                        y = zeval(r.v, env) & MASK(r.w)
                        assert x == y, ('contract language', c.name, x, y)
                        n += 1
    return n


def products(total=400):
    """the polynomial normal form has the value of the formula it replaces"""
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    vs = [z3.BitVec('v%d' % i, w) for i, w in enumerate((8, 8, 16, 16, 4))]

    def gen(n, d):
        k = rnd.randrange(13) if d else 0
        if k == 0:
            c = [v for v in vs if v.size() == n]
            if c and rnd.random() < .8:
                return rnd.choice(c)
            c = [v for v in vs if v.size() > n]
            if c and rnd.random() < .8:
                v = rnd.choice(c)
                lo = rnd.randrange(v.size() - n + 1)
                return z3.Extract(lo + n - 1, lo, v)
            return z3.BitVecVal(rnd.choice([0, 1, 2, 3, MASK(n), 1 << (n - 1), rnd.getrandbits(n)]), n)
        if k <= 2:
            return gen(n, d - 1) + gen(n, d - 1)
        if k == 3:
            return gen(n, d - 1) - gen(n, d - 1)
        if k <= 5:
            return gen(n, d - 1) * gen(n, d - 1)
        if k == 6:
            return -gen(n, d - 1) if rnd.random() < .5 else ~gen(n, d - 1)
        if k in (7, 8) and n > 1:
            m = rnd.randrange(1, n) if rnd.random() < .3 else max(1, n // 2)
            return rnd.choice([z3.SignExt, z3.ZeroExt])(n - m, gen(m, d - 1))
        if k == 9:
            m = n + rnd.choice([1, 4, 8, n])
            h = rnd.randrange(m - n + 1)
            return z3.Extract(h + n - 1, h, gen(m, d - 1))
        if k == 10 and n > 1:
            m = rnd.randrange(1, n)
            return z3.Concat(gen(n - m, d - 1), gen(m, d - 1))
        if k == 11:
            return z3.If(cond(d - 1), gen(n, d - 1), gen(n, d - 1))
        return rnd.choice([lambda a, b: a << b, z3.LShR])(gen(n, d - 1), z3.BitVecVal(rnd.randrange(n), n))

    def cond(d):
        if d < 3 and rnd.random() < .3:
            v = rnd.choice(vs)
            h = rnd.randrange(v.size())
            t = rnd.choice([z3.Extract(h, h, v), z3.Concat(z3.BitVecVal(0, 3), z3.Extract(h, h, v), z3.BitVecVal(5, 3))])
            c = t == rnd.choice([t.size() > 1 and 5, t.size() > 1 and 13 or 1])
            return rnd.choice([c, z3.Not(c)])
        n = rnd.choice([4, 8, 16, 20])
        x, y = gen(n, d), gen(n, d)
        return rnd.choice([x < y, x <= y, x > y, x >= y, z3.ULT(x, y), z3.ULE(x, y), z3.UGT(x, y), z3.UGE(x, y), x == y, x != y])
    n = 0
    for it in range(total):
        f = cond(rnd.choice([2, 3, 3, 4]))
        try:
            g, = ring.canonical([f])
        except ring.TooBig:
            continue
        for _ in range(6):
            s = [(v, z3.BitVecVal(rnd.choice([0, 1, MASK(v.size()), 1 << (v.size() - 1), rnd.getrandbits(v.size())]), v.size())) for v in vs]
            a, b = z3.simplify(z3.substitute(f, *s)), z3.simplify(z3.substitute(g, *s))
            assert a.eq(b), ('polynomial normal form', f, g, s)
            n += 1
    return n


def dyadic():
    """exact integer arithmetic done in floating point: the integer the executor keeps beside the IEEE term has its value"""
    r = random.Random(5)

    def val(d, sub):
        t = z3.simplify(z3.substitute(d[0], *sub)).as_signed_long()
        assert d[1] <= t <= d[2], ('dyadic', d, t)
        return F(t, 1 << d[3])
    n = 0
    rounds = {'rtn': math.floor, 'rtp': math.ceil, 'rtz': math.trunc, 'rne': round,
              'rna': lambda q: math.floor(q + F(1, 2)) if q >= 0 else math.ceil(q - F(1, 2))}
    for _ in range(600):
        st, sub = [], []
        for k in range(3):
            w, sg = r.choice([8, 16, 32]), r.random() < .5
            v = z3.BitVec('x%d' % k, w)
            sub.append((v, z3.BitVecVal(r.choice([0, 1, (1 << w) - 1, 1 << w - 1, (1 << w - 1) - 1, r.getrandbits(w)]), w)))
            st.append(((z3.SignExt if sg else z3.ZeroExt)(64 - w, v), -(1 << w - 1) if sg else 0, (1 << w - 1) - 1 if sg else (1 << w) - 1, 0))
        st = [(d, val(d, sub)) for d in st]
        for x in (.5, .25, -.5, 2.0, 3.0, -4.0, .125, 2.0 ** 31, -0.0):
            d = S.FV(64, bits=struct.unpack('<Q', struct.pack('<d', x))[0]).dy
            assert val(d, sub) == F(x), ('dyadic constant', x, d)
            st.append((d, F(x)))
        for _ in range(6):
            (a, x), (b, y) = r.choice(st), r.choice(st)
            op = r.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'neg'] + list(rounds))
            if op in rounds:
                d, v = S.dy_round(a, op), F(rounds[op](x))
            elif op == 'neg':
                d, v = S.dy_neg(a), -x
            else:
                d = S.dy_bin(op, a, b)
                v = None if d is None else x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
            if d is None or max(abs(d[1]), abs(d[2])) > 1 << 53 or d[3] > 100:
                continue
            assert val(d, sub) == v, ('dyadic', op, x, y, d, v)
            n += 1
            st.append((d, v))
    return n


def defects():
    bad = []
    for fn, body, want, *pre in CASES:
        wk = tempfile.mkdtemp(prefix='vcself_')
        try:
            with open(os.path.join(wk, 'neon_sim.h'), 'w') as f:
                f.write(HEADER)
            import re
            proto = re.search(r'[\w]+ %s\([^)]*\)' % fn, HEADER).group(0)
            with open(os.path.join(wk, 'neon_sim.cpp'), 'w') as f:
                f.write('#include "neon_sim.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <exception>\n%s\n%s { %s }\n' % (''.join(pre), proto, body))
            E.REPO = wk
            c = contracts.ALL[fn]
            b = E.Build([c], wk)
            r = E.Verifier(b.modules, 20000).verify(c, PR.ALLK)
            got = sorted({o.kind for o in r.obs if o.status != 'proved'})
            _, effects, unknown = E.startup(b.modules)
            got += ['startup'] * bool(effects) + ['startup?'] * bool(unknown)
            if want == ('rejected',):
                if r.error is None or 'vc_rejected' not in r.error:
                    bad.append('%s: the body clang rejects was not set aside (%s)' % (fn, r.error))
                continue
            ok = not r.error and len(r.obs) > 0 and (set(got) & set(want) if want else not got)
            if not ok:
                bad.append('%s { %s }: expected %s, got %s %s' % (fn, body, list(want), got, r.error or ''))
        finally:
            shutil.rmtree(wk, ignore_errors=True)
    return bad


if __name__ == '__main__':
    n = language()
    k = products() + dyadic()
    bad = defects()
    o, diff = oracle.summary()
    done, runs, ubs, diffs, left = fuzzexec.run(48, int(os.environ.get('VERIF_SEED', '1')))
    diff += ['executor and machine differ: %s' % (x,) for x in diffs[:5]]
    for b in bad + diff:
        print('SELFTEST ' + b)
    print('self test: %d contract terms evaluated both ways, %d values of polynomial and dyadic normal forms, %d of %d small libraries judged as expected' % (n, k, len(CASES) - len(bad), len(CASES)))
    print('executor against the machine: %d random programs, %d runs (%d undefined), %d differences, %d programs outside the dialect' % (done, runs, ubs, len(diffs), len(left)))
    print('contracts against arm_neon.h of clang: %s' % ({k: v for k, v in o.items() if k != 'differences'}))
    sys.exit(1 if bad or diff else 0)
