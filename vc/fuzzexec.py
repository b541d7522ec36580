"""The executor against the machine: random C++ functions, run symbolically and natively.

Each program is executed once on symbolic arguments by symex.Exec; its result terms and its obligations are
then evaluated at concrete inputs and compared with the same program compiled by g++ (UBSan on):
  - if the native run is clean, every obligation holds at that input and every result byte agrees;
  - if UBSan stops it, some obligation of the executor fails at that input.
"""
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from multiprocessing import get_context

import z3

import engine as E
import irparse
import symex as S
from spec import Contract, P, fpval, SC
from symex import MASK, FV, zb

INTS = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t']
ARGS = [('a', 'int8_t', 4), ('b', 'uint16_t', 4), ('c', 'int32_t', 4), ('d', 'uint64_t', 2), ('f', 'float32_t', 2), ('g', 'float64_t', 2)]
LIMIT = 60       # seconds per program
OUTS = [('o', 'int64_t', 3), ('q', 'uint8_t', 8), ('x', 'float32_t', 1), ('y', 'float64_t', 1)]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def name(self):
        self.n += 1
        return 'v%d' % self.n

    def int_(self, d, env):
        r = self.r
        if d <= 0 or r.random() < .15:
            k = r.random()
            if k < .25:
                return 'L(%d)' % (r.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 63, 127, 128, 255, 256, 32767, 65535, 2147483647, r.randrange(1 << 16)]))
            if k < .45 and env:
                return r.choice(env)
            nm, ty, n = r.choice(ARGS[:4])
            return '%s[%d]' % (nm, r.randrange(n))
        k = r.randrange(22)
        e = lambda: self.int_(d - 1, env)
        if k < 4:
            return '(%s %s %s)' % (e(), r.choice('+-*&|^'), e())
        if k == 4:
            return '(%s %s (%s & %d))' % (e(), r.choice(['<<', '>>']), e(), r.choice([7, 15, 31, 63]))
        if k == 5:
            return '(%s %s %s)' % (e(), r.choice('/%'), r.choice([str(r.choice([1, 2, 3, 7, 16, 255])), '(%s | 1)' % e(), e()]))
        if k == 6:
            return '(%s)(%s)' % (r.choice(INTS), e())
        if k == 7:
            return '(%s %s)' % (r.choice('-~!'), e())
        if k == 8:
            return '(%s ? %s : %s)' % (self.cond(d - 1, env), e(), e())
        if k == 9:
            t = r.choice(INTS)
            return 'std::%s<%s>(%s, %s)' % (r.choice(['min', 'max']), t, e(), e())
        if k == 10:
            return '(int)(%s)' % self.cond(d - 1, env)
        if k == 11:
            return r.choice(['__builtin_popcountll', '__builtin_bswap32', '__builtin_bswap16', '(int64_t)__builtin_bswap64']) + '(%s)' % e()
        if k == 12:
            return '(%s)(%s)' % (r.choice(['int32_t', 'int64_t', 'uint8_t', 'int16_t']), self.flt(d - 1, env))
        if k == 13:
            nm, ty, n = r.choice(ARGS[:4])
            return '%s[%s & %d]' % (nm, e(), n - 1)
        if k == 14:
            return 'T[(%s) & %d]' % (e(), r.choice([15, 15, 7, 16, 31]))
        if k == 15:
            return 'mul128(%s, %s, %d)' % (e(), e(), r.choice([0, 1, 15, 31, 63, 64, 100]))
        if k == 16:
            return 'ovf_%s(%s, %s)' % (r.choice(['add', 'sub', 'mul']), e(), e())
        if k == 17:
            return '%s(%s%s)' % (*r.choice([('__builtin_ctz', '1u << 20 | (unsigned)'), ('__builtin_clzll', '1ull | (uint64_t)'), ('__builtin_clz', '(unsigned)'), ('__builtin_ffs', '(int)')]), e())
        if k == 18:
            return 'dot(mk(%s, %s), mk(%s, 3))' % (e(), e(), e())
        if k == 19:
            return 'bits(%s)' % self.flt(d - 1, env)
        if k == 20:
            return '([&](int z) -> int64_t { return z %s %s; }(%s))' % (r.choice('&|^'), e(), e())
        return 'h%d(%s, %s)' % (r.randrange(3), e(), e())

    def flt(self, d, env):
        r = self.r
        if d <= 0 or r.random() < .3:
            return r.choice(['f[0]', 'f[1]', 'g[0]', 'g[1]', 'L(1.5f)', 'L(0.1)', 'L(-2.0f)'])
        k = r.randrange(11)
        e = lambda: self.flt(d - 1, env)
        if k < 3:
            return '(%s %s %s)' % (e(), r.choice('+-*/'), e())
        if k == 3:
            return '(%s)(%s)' % (r.choice(['float', 'double']), e())
        if k == 4:
            return '(%s)(%s)' % (r.choice(['float', 'double']), self.int_(d - 1, env))
        if k == 5:
            return '(- %s)' % e()
        if k == 6:
            return '(%s ? %s : %s)' % (self.cond(d - 1, env), e(), e())
        if k == 7:
            return r.choice(['std::fma((double)%s, (double)%s, (double)%s)', 'fmaf(%s, %s, %s)']) % (e(), e(), e())
        if k == 8:
            return r.choice(['fmin(%s, %s)', 'fmaxf(%s, %s)', 'std::copysign((float)%s, (float)%s)', 'std::max<double>(%s, %s)', 'std::min<float>(%s, %s)']) % (e(), e())
        return r.choice(['std::fabs(%s)', 'std::floor(%s)', 'std::trunc(%s)', 'std::ceil(%s)', 'std::nearbyint(%s)', 'std::sqrt(%s)', 'std::rint(%s)', 'std::round(%s)', 'roundf(%s)', 'sqrtf(%s)', 'flip(%s)']) % e()

    def cond(self, d, env):
        r = self.r
        k = r.randrange(7)
        if k == 6 and d > 0:
            return r.choice(['std::isnan(%s)', 'std::isinf(%s)', 'std::signbit(%s)', '(%s)', 'std::isfinite(%s)']) % self.flt(d - 1, env)
        if k == 0 and d > 0:
            return '(%s %s %s)' % (self.cond(d - 1, env), r.choice(['&&', '||']), self.cond(d - 1, env))
        if k == 1:
            return '(%s %s %s)' % (self.flt(d - 1, env), r.choice(['<', '<=', '>', '==', '!=']), self.flt(d - 1, env))
        return '(%s %s %s)' % (self.int_(d - 1, env), r.choice(['<', '<=', '>', '>=', '==', '!=']), self.int_(d - 1, env))

    def sse(self, z):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            f = r.choice('packs_epi16 packs_epi32 packus_epi16 madd_epi16 mulhi_epi16 mulhi_epu16 sad_epu8 avg_epu8 avg_epu16 adds_epi8 adds_epu16 subs_epi16 subs_epu8 '
                         'min_epi16 max_epu8 mul_epu32 mullo_epi16 cmpgt_epi8 cmpeq_epi32 unpacklo_epi8 unpackhi_epi16 unpackhi_epi64 andnot_si128 add_epi64 sub_epi32 '
                         'sll_epi16 srl_epi32 sra_epi16 sll_epi64 srl_epi64 sra_epi32'.split())
            return '_mm_%s(%s, %s)' % (f, z(), z())
        if k < 6:
            f = r.choice('slli_epi16 srli_epi16 srai_epi16 slli_epi32 srli_epi32 srai_epi32 slli_epi64 srli_epi64 slli_si128 srli_si128 shuffle_epi32 shufflelo_epi16 shufflehi_epi16'.split())
            return '_mm_%s(%s, %d)' % (f, z(), r.choice([0, 1, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 77]))
        if k == 6:
            # (g++ folds these on a constant NaN to 0, which is not what the machine does)
            return '_mm_%s(_mm_castsi128_ps(_mm_xor_si128(_mm_loadu_si128((const __m128i*)c), %s)))' % (r.choice(['cvtps_epi32', 'cvttps_epi32']), z())
        return r.choice(['_mm_castps_si128(_mm_min_ps(_mm_castsi128_ps(%s), _mm_castsi128_ps(%s)))', '_mm_castps_si128(_mm_max_ps(_mm_cvtepi32_ps(%s), _mm_castsi128_ps(%s)))',
                         '_mm_castps_si128(_mm_cmplt_ps(_mm_cvtepi32_ps(%s), _mm_castsi128_ps(%s)))', '_mm_add_epi32(_mm_set1_epi32(_mm_movemask_epi8(%s)), %s)', '_mm_cvtsi32_si128(_mm_extract_epi16(%s, 3) + 0 * _mm_cvtsi128_si32(%s))']) % (z(), z())

    def static(self, d, env):
        r = self.r
        return r.choice(['S%d' % r.randrange(2), 'S2[%d]' % r.randrange(4), 'S2[(unsigned)(%s) %% 4]' % self.int_(d, env), 'S3.val[(%s) & 3]' % self.int_(d, env), 'S3.val[1]', 'at_()'])

    def stmts(self, d, env, n):
        r = self.r
        out = []
        env = list(env)
        for _ in range(n):
            k = r.randrange(17)
            if k < 3:
                v, t = self.name(), r.choice(INTS)
                out.append('%s %s = (%s)(%s); sink = %s;' % (t, v, t, self.int_(3, env), v))
                env.append(v)
            elif k == 3 and env:
                v = r.choice(env)
                if not v.startswith('i_'):
                    out.append('%s %s %s;' % (v, r.choice(['=', '+=', '^=', '|=', '-=', '*=']), self.int_(2, env)))
            elif k == 4 and d > 0:
                out.append('if (%s) { %s } else { %s }' % (self.cond(2, env), self.stmts(d - 1, env, 2), self.stmts(d - 1, env, 2)))
            elif k == 5 and d > 0:
                i = 'i_' + self.name()
                out.append('for (int %s = 0; %s < %d; %s++) { %s %s }' % (i, i, r.randrange(1, 5), i, self.stmts(d - 1, env + [i], 2),
                           r.choice(['', 'if (%s) break;' % self.cond(1, env + [i]), 'if (%s) continue; o[0] ^= 3;' % self.cond(1, env + [i])])))
            elif k == 6:
                nm, ty, m = r.choice(OUTS[:2])
                out.append('%s[%s] = %s;' % (nm, r.choice([str(r.randrange(m)), '(unsigned)(%s) %% %d' % (self.int_(1, env), m)]), self.int_(3, env)))
            elif k == 7:
                v = self.name()
                m = r.choice([2, 4])
                out.append('int16_t %s[%d]; memcpy(%s, %s, %d); %s[(unsigned)(%s) %% %d] = %s; o[1] += %s[%d] & 1023;'
                           % (v, m, v, r.choice(['b', 'c']), 2 * m, v, self.int_(1, env), m, self.int_(2, env), v, r.randrange(m)))
            elif k == 8:
                out.append('%s = %s;' % (r.choice(['x[0]', 'y[0]']), self.flt(3, env)))
            elif k == 10:
                v = self.name()
                out.append('V %s = mk(%s, %s); %s %s.val[%d] %s %s; o[0] ^= dot(%s, %s);' % (v, self.int_(2, env), self.int_(1, env), r.choice(['tw(%s);' % v, 'V* p%s = &%s; p%s->val[1]++;' % (v, v, v), '{ V t_ = %s; std::swap(%s, t_); }' % (v, v)]),
                           v, r.randrange(4), r.choice(['=', '+=', '|=', '-=']), self.int_(1, env), v, r.choice([v, 'V(%s)' % v, 'mk(1, 2)'])))
            elif k == 11:
                v = self.name()
                out.append('U %s; %s.u = %s; %s %s.h[%d] %s= %s; o[%d] = %s.%s;' % (v, v, self.int_(2, env), r.choice(['', '%s.f = %s;' % (v, self.flt(1, env))]), v, r.randrange(2), r.choice('+^|'), self.int_(1, env), r.randrange(3), v, r.choice(['u', 'h[0]', 'b[3]', 'i'])))
            elif k == 12:
                v = self.name()
                out.append('{ const %s* %s = %s; int64_t s_ = 0; %s o[1] = s_; }' % (*r.choice([('int8_t', v, 'a'), ('int32_t', v, 'c'), ('uint16_t', v, 'b')]),
                           r.choice(['for (const auto* e_ = %s + 4; %s != e_; ++%s) s_ += *%s;', 'while (s_ < 100 && *%s > 3) { s_ += 40; ++%s; if (%s[0] == 7 || s_ > 90) break; s_ ^= *%s & 1; }', 'int n_ = 4; do { s_ = s_ * 3 ^ %s[--n_] ; %s += 0; } while (n_ > 0); (void)%s; (void)%s;']) % (v, v, v, v)))
            elif k == 13:
                v = self.name()
                out.append('uint8_t %s[8]; %s for (int k_ = 0; k_ < 8; k_++) q[k_] = %s[%s]; ' % (v, r.choice(['memset(%s, (int)(%s), 8);' % (v, self.int_(1, env)), 'memcpy(%s, &b[%d], 4); memcpy(%s + 4, a, 4);' % (v, 0, v), 'memset(%s, 1, 8); memmove(%s + 1, %s, (unsigned)(%s) %% 8);' % (v, v, v, self.int_(1, env)), 'std::copy(q, q + 8, %s);' % v, 'std::fill(%s, %s + 8, (uint8_t)(%s)); std::reverse(%s, %s + 3);' % (v, v, self.int_(1, env), v, v)]), v, r.choice(['k_', '7 - k_', 'k_ ^ 1', '(k_ * 3) & 7'])))
            elif k == 14:
                v = self.name()
                z = lambda: r.choice(['_mm_loadu_si128((const __m128i*)%s)' % r.choice('cd'), '_mm_set1_epi16(%s)' % self.int_(1, env), '_mm_set1_epi8(%s)' % self.int_(1, env), v])
                out.append('{ __m128i %s = %s; ' % (v, z().replace(v, '_mm_setzero_si128()')) + ' '.join('%s = %s;' % (v, self.sse(z)) for _ in range(r.randrange(1, 4))) + ' _mm_storeu_si128((__m128i*)(o + %d), %s); }' % (r.randrange(2), v))
            elif k == 15:       # static storage, written or read on one path only
                v = self.static(1, env)
                w = '%s %s %s;' % (self.static(1, env), r.choice(['=', '+=', '^=', '|=']), self.int_(2, env)) if 'at_' not in v else 'at_().fetch_%s(%s);' % (r.choice(['add', 'xor', 'sub', 'or']), self.int_(1, env))
                w = w.replace('at_() +=', 'at_() =').replace('at_() ^=', 'at_() =')
                k2 = r.randrange(4)
                if k2 == 0:
                    out.append('if (%s) { %s } o[%d] ^= %s;' % (self.cond(1, env), w, r.randrange(3), r.choice([v, self.static(1, env)])))
                elif k2 == 1:
                    out.append('if (%s) o[%d] += (uint8_t)%s; else { %s }' % (self.cond(1, env), r.randrange(3), v, w))
                elif k2 == 2:
                    out.append('for (int k_ = 0; k_ < 4; k_++) { if (a[k_] > %d) { %s } else if (b[k_] & 1) continue; q[k_] ^= (uint8_t)%s; }' % (r.choice([0, 5, 100]), w, v))
                else:
                    out.append(w + ' q[%d] = (uint8_t)%s;' % (r.randrange(8), self.static(1, env)))
            elif k == 16:
                v = self.name()
                out.append('{ static int16_t %s[3] = {7, %d, -1}; if (%s) %s[(unsigned)(%s) %% 3] = %s; else memcpy(%s, a, 4); o[0] += %s[%d]; S0 = %s[2]; }'
                           % (v, r.randrange(100), self.cond(1, env), v, self.int_(1, env), self.int_(1, env), v, v, r.randrange(3), v))
            elif k == 9 and d > 0:
                out.append('switch ((%s) & 3) { case 0: %s break; case 2: { %s } default: o[2] -= 1; }'
                           % (self.int_(1, env), 'q[0] += 5;', self.stmts(d - 1, env, 1)))
        return '\n'.join(out)

    def body(self):
        return 'for (int i = 0; i < 3; i++) o[i] = i; for (int i = 0; i < 8; i++) q[i] = i; x[0] = 0; y[0] = 0; ' + self.stmts(2, [], 5)


PRE = '''#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <cmath>
#include <algorithm>
#include <atomic>
#include <emmintrin.h>
typedef float float32_t; typedef double float64_t;
static const int16_t T[16] = {3, -1, 4, 1, -5, 9, 2, 6, -5, 3, 5, 8, -9, 7, 9, 32767};
static volatile uint64_t sink;
template <class T_> static T_ L(T_ x) { return x; }     /* the front end folds operations on literals, undefined ones too */
struct V { int16_t val[4]; };
union U { uint32_t u; uint16_t h[2]; uint8_t b[4]; int32_t i; float f; };
static int32_t S0 = -7; static uint64_t S1 = 0x8000000000000001ull; static uint8_t S2[4] = {1, 200, 3, 0}; static V S3 = {{1, -2, 300, -32768}}; static std::atomic<int> S4(12);
static std::atomic<int>& at_() { return S4; }
static V mk(int a, int b) { V r; for (int i = 0; i < 4; i++) r.val[i] = (int16_t)(i & 1 ? b : a); return r; }
static void tw(V& v) { for (auto& x : v.val) x = (int16_t)(x ^ 5); }
template <class F> static int fold(const V& v, F f) { int s = 0; for (int i = 0; i < 4; ++i) s = f(s, v.val[i]); return s; }
static int dot(V a, const V& b) { int k = 0; return fold(a, [&](int s, int x) { return (s + x * b.val[k++]) & 0xffffff; }); }
static int64_t mul128(int64_t a, int64_t b, int n) { return (int64_t)(((__int128)a * b) >> n); }
static int ovf_add(int a, int b) { int r; return __builtin_add_overflow(a, b, &r) ? 77 : r; }
static int64_t ovf_sub(int64_t a, int b) { int16_t r; if (__builtin_sub_overflow(a, b, &r)) return -1; return r; }
static uint64_t ovf_mul(uint32_t a, uint32_t b) { uint32_t r; bool o = __builtin_mul_overflow(a, b, &r); return r | (uint64_t)o << 40; }
static int32_t bits(float f) { int32_t r; if (f != f) return 1; memcpy(&r, &f, 4); return r; }
static double flip(double d) { uint64_t u; memcpy(&u, &d, 8); u ^= 1ull << 63; memcpy(&d, &u, 8); return d; }
static int h0(int a, int b) { return (int)((unsigned)a + (unsigned)b); }
static int64_t h1(int64_t a, int b) { if (b & 1) return a; return b > 3 ? a & b : a ^ 21; }
static uint8_t h2(uint8_t a, uint8_t b) { uint8_t r = 0; while (a) { r ^= (a & 1) ? b : 0; a >>= 1; b <<= 1; } return r; }
'''


def contract(i, body):
    c = Contract('fz%d' % i, 'void', [P('in', t, n, count=k) for n, t, k in ARGS] + [P('out', t, n, count=k) for n, t, k in OUTS], None, 'X')
    c.body = body
    return c


MAIN = '''
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
struct In { %s };
struct Out { %s };
typedef void (*Fn)(%s);
static Fn fns[] = { %s };
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "rb"); FILE* w = fopen(argv[2], "wb"); int k; In in;
    while (fread(&k, 4, 1, f) == 1 && fread(&in, sizeof in, 1, f) == 1) {
        int p[2]; if (pipe(p)) return 1;
        pid_t c = fork();
        if (!c) { if (argc < 4) freopen("/dev/null", "w", stderr); Out out; memset(&out, 0, sizeof out); fns[k](%s); if (write(p[1], &out, sizeof out) < 0) _exit(3); _exit(0); }
        close(p[1]); Out out; memset(&out, 0, sizeof out); int n = read(p[0], &out, sizeof out); close(p[0]); int st; waitpid(c, &st, 0);
        char ok = n == (int)sizeof out && st == 0; fwrite(&ok, 1, 1, w); fwrite(&out, sizeof out, 1, w);
    }
    return fclose(w);
}
'''


def order(xs):
    """by decreasing element size: no padding"""
    return sorted(xs, key=lambda x: -SC[x[1]][1])


class TooLong(Exception):
    pass


def late(*a):
    raise TooLong()


def symbolic(job):
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        return symbolic1(job)
    except (TooLong, z3.Z3Exception):
        return job[1], 'longer than %d s' % LIMIT, None
    finally:
        signal.alarm(0)


def symbolic1(job):
    ll, i, inputs, folded = job
    mod = irparse.Module(ll, 'fuzz')
    mod.folded = folded
    c = contract(i, '')
    ctx = S.Ctx([mod])
    su = E.Setup(c, ctx, {})
    ex = S.Exec(ctx)
    try:
        fin = ex.call_fn(su.st, mod.funcs['vc__fz%d' % i], su.args)
    except (S.Unsupported, RecursionError) as e:
        return i, 'unsupported: %s' % e, None
    # static objects: each native run is a process of its own, in which they have their initial values
    start = []
    for key, o in ctx.globals.items():
        nm = key if isinstance(key, str) else key[0]
        d = mod.global_def(nm)
        if d and not d[0] and d[3] is not None and o.idx is not None:
            want = [None] * o.size
            ex.init_cells(want, 0, d[2], d[3], mod, su.st)
            for k in range(o.size):
                v = o.idx[k][0] if o.idx[k] else None
                if z3.is_bv(v) and z3.is_const(v) and not z3.is_bv_value(v):
                    w = ex.cells_value(want, k, 1)
                    start.append((v, z3.BitVecVal(w, 8) if isinstance(w, int) else w))
    vals = []
    if fin is not None:
        for nm, ty, n in OUTS:
            o, k, w, total, cells = su.objs[nm]
            for j in range(n):
                vals.append((nm, j, w, ex.cells_value(ex.define_cells(fin, o, j * w // 8, w // 8, 'x'), j * w // 8, w // 8)))
    out = []
    budget = [30]       # seconds of solver time for values that substitution leaves open
    for env in inputs:
        sub = [(v, z3.BitVecVal(env.get(n, 0), w)) for n, (v, w) in su.vars.items()] + start

        s = None

        def ev(t):
            """value of a term at this input; 'open': the language leaves it open (bits of a NaN, a freshly chosen value)"""
            if isinstance(t, (bool, int)):
                return t
            r = z3.simplify(z3.substitute(t, *sub))
            if z3.is_true(r) or z3.is_false(r):
                return z3.is_true(r)
            if z3.is_bv_value(r):
                return r.as_long()
            if z3.is_fp_value(r):
                return fpval(r, r.sort().ebits() + r.sort().sbits())
            if budget[0] <= 0:
                return 'open'
            t0 = time.time()
            try:
                return solve(r)
            finally:
                budget[0] -= time.time() - t0

        def solve(r):
            nonlocal s
            if s is None:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(*[z3.substitute(zb(x), *sub) for x in ctx.defs])
            if s.check() != z3.sat:
                return 'open'
            v = s.model().eval(r, model_completion=True)
            s.push()
            s.add(r != v)
            u = s.check()
            s.pop()
            return ev(v) if u == z3.unsat else 'open'
        bad = None
        for o in ctx.obls:
            if isinstance(o.cond, tuple) or o.kind in ('align', 'alias'):
                continue
            if all(ev(zb(p)) is True for p in (o.pc or ())):
                v = ev(o.cond)
                if v is not True:
                    bad = '%s %s' % (o.kind, o.detail) if v is False else 'open'
                    break
        res = []
        if bad is None and fin is not None:
            for nm, j, w, t in vals:
                res.append(ev(t._bits if t._bits is not None else t.fp) if isinstance(t, FV) else ev(t))
        out.append((bad, res))
    return i, None, out


def run(n, seed=1, per=12, jobs=8):
    """-> (programs decided, evaluations, differences, reasons for those left out)"""
    wk = tempfile.mkdtemp(prefix='vc_fuzz_')
    try:
        gens = [Gen(seed * 1000003 + i).body() for i in range(n)]
        cs = [contract(i, b) for i, b in enumerate(gens)]
        ws = [E.wrapper_text(c) for c in cs]
        src = PRE + '\n'.join(ws) + '\n'
        f = os.path.join(wk, 'f.cpp')
        with open(f, 'w') as o:
            o.write(src)
        p1 = subprocess.Popen([E.CLANG] + E.CFLAGS + [f, '-o', f + '.ll'], stderr=subprocess.PIPE, text=True)
        m = os.path.join(wk, 'm.cpp')
        ty = lambda xs: ' '.join('%s %s[%d];' % (t, x, k) for x, t, k in order(xs))
        proto = ', '.join(['const %s*' % t for _, t, _ in ARGS] + ['%s*' % t for _, t, _ in OUTS])
        with open(m, 'w') as o:
            o.write(src + MAIN % (ty(ARGS), ty(OUTS), proto, ', '.join('vc__fz%d' % i for i in range(n)),
                                  ', '.join(['in.' + x for x, _, _ in ARGS] + ['out.' + x for x, _, _ in OUTS])))
        p3 = subprocess.Popen([E.GXX, '-std=gnu++11', '-O1', '-w', '-ffp-contract=off', m, '-o', m + '.gcc'], stderr=subprocess.PIPE, text=True)
        p2 = subprocess.run([E.CLANG, '-std=gnu++11', '-O0', '-w', '-ffp-contract=off', '-fsanitize=undefined,float-cast-overflow',
                             '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', m, '-o', m + '.exe'], capture_output=True, text=True)
        p3.communicate()
        e1 = p1.communicate()[1]
        if p1.returncode or p2.returncode or p3.returncode:
            raise E.BuildError((e1 + p2.stderr)[:2000])
        folded = {int(x.group(1)): x.group(2) for x in re.finditer(r'f\.cpp:(\d+):\d+: warning: (.*)', e1)}
        rnd = random.Random(seed)
        jobs_, rec = [], b''
        for i in range(n):
            ins = []
            for _ in range(per):
                env = {}
                raw = b''
                for nm, t, k in order(ARGS):
                    kind, w = SC[t]
                    for j in range(k):
                        if kind == 'f':
                            v = rnd.choice([0.0, 1.0, -1.0, 0.5, 3.7, -100.25, 1e9, 1e-3, rnd.uniform(-300, 300), float('inf'), 65536.5])
                            import struct
                            b = struct.pack('<f' if w == 32 else '<d', v)
                        else:
                            v = rnd.choice([0, 1, 2, MASK(w), 1 << (w - 1), MASK(w) >> 1, rnd.getrandbits(w), rnd.getrandbits(4)])
                            b = (v & MASK(w)).to_bytes(w // 8, 'little')
                        env['%s.%d' % (nm, j)] = int.from_bytes(b, 'little')
                        raw += b
                ins.append(env)
                rec += i.to_bytes(4, 'little') + raw + bytes(-len(raw) % 8)
            jobs_.append((f + '.ll', i, ins, folded))
        with open(os.path.join(wk, 'in'), 'wb') as o:
            o.write(rec)
        with get_context('fork').Pool(jobs) as pool:
            fut = pool.map_async(symbolic, jobs_, 1)
            for x in ('exe', 'gcc'):
                subprocess.run([m + '.' + x, os.path.join(wk, 'in'), os.path.join(wk, 'out.' + x)], check=True)
            got = fut.get()
        raw = open(os.path.join(wk, 'out.exe'), 'rb').read()
        raw2 = open(os.path.join(wk, 'out.gcc'), 'rb').read()
        size = sum(SC[t][1] // 8 * k for _, t, k in OUTS)
        stride = 1 + (size + 7) // 8 * 8
        bad, left, cnt, done = [], [], 0, 0
        ubs = opn = 0
        for i, why, outs in got:
            if why:
                left.append(why)
                continue
            done += 1
            for k, (ub, res) in enumerate(outs):
                r = raw[(i * per + k) * stride:(i * per + k + 1) * stride]
                ok, data = r[0], r[1:]
                if ok:      # the values are those of g++ where no undefined behaviour was met
                    data = raw2[(i * per + k) * stride + 1:(i * per + k + 1) * stride]
                cnt += 1
                if ub == 'open':
                    opn += 1
                elif ok and ub:
                    bad.append((i, k, 'obligation fails but the native run is clean: ' + ub))
                elif not ok and not ub:
                    bad.append((i, k, 'UBSan stops the native run but every obligation holds'))
                elif ok:
                    pos, off = {}, 0
                    for nm, t, c in order(OUTS):
                        for j in range(c):
                            s = SC[t][1] // 8
                            pos[nm, j] = (int.from_bytes(data[off:off + s], 'little'), SC[t])
                            off += s
                    keys = [(nm, j) for nm, t, c in OUTS for j in range(c)]
                    for key, e in zip(keys, res):
                        v, (kind, w) = pos[key]
                        if kind == 'f' and e == 'nan':
                            ex, mn = (8, 23) if w == 32 else (11, 52)
                            same = (v >> mn) & MASK(ex) == MASK(ex) and v & MASK(mn)
                        elif kind == 'f' and isinstance(e, int):
                            ex, mn = (8, 23) if w == 32 else (11, 52)
                            nan = lambda u: (u >> mn) & MASK(ex) == MASK(ex) and u & MASK(mn)
                            same = e == v or (nan(e) and nan(v))
                        else:
                            same = e == v or e == 'open'      # a value the language leaves open
                        if not same:
                            bad.append((i, k, '%s[%d]: executor %s, machine %#x' % (key[0], key[1], hex(e) if isinstance(e, int) else e, v)))
                            break
                else:
                    ubs += 1
        rl = len(rec) // (n * per)
        for k, (i, j, what) in enumerate(bad[:20]):
            if 'UBSan' in what:
                with open(os.path.join(wk, 'in'), 'wb') as o:
                    o.write(rec[(i * per + j) * rl:(i * per + j + 1) * rl])
                r = subprocess.run([m + '.exe', os.path.join(wk, 'in'), os.path.join(wk, 'out'), 'v'], capture_output=True, text=True)
                bad[k] = (i, j, what + ': ' + r.stderr[:300])
        return done, cnt, ubs, [(b, gens[b[0]], jobs_[b[0]][2][b[1]]) for b in bad], left
    finally:
        shutil.rmtree(wk, ignore_errors=True)


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    done, cnt, ubs, bad, left = run(n, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    for b, body, env in bad[:int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
        print(b, '\n', body, '\n', env)
    from collections import Counter
    print('%d programs, %d runs (%d stopped by UBSan), %d differences; left out: %s' % (done, cnt, ubs, len(bad), dict(Counter(left))))
