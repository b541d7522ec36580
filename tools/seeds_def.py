"""The planted bugs: what each changes, and a demonstration of it (see mkseed.py)."""
HEAD = {
    'cpp': '''#include "neon_sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
template <class T> static T fill(unsigned seed)
{
    T v;
    unsigned char* p = (unsigned char*)&v;
    for (size_t i = 0; i < sizeof v; i++) { seed = seed * 1103515245u + 12345u; p[i] = (unsigned char)(seed >> 16); }
    return v;
}
template <class T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
''',
    'c': '''#include "neon_sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''}
ABORTS = '''
template <class F> static int status(F f)
{
    fflush(stdout);
    pid_t p = fork();
    if (!p) { if (!freopen("/dev/null", "w", stderr)) _exit(9); f(); _exit(0); }
    int s = 0;
    waitpid(p, &s, 0);
    return WIFSIGNALED(s) ? -WTERMSIG(s) : WEXITSTATUS(s);
}
'''
S = SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


# ---------------------------------------------------------------- C01
seed('c01-vld3-lane-tail', 'C01', 'lane 7 of vld3_lane_u8 and a register other than the first',
     'the rewritten lane load takes the element of registers 1 and 2 from the source when the lane is the last one',
     [dict(fn='vld3_lane_u8', old='if (i == lane)', new='if (i == lane && (i + 1) % 8 >= (j != 0))')],
     '''
int main()
{
    uint8x8x3_t s = fill<uint8x8x3_t>(7);
    const uint8_t m[3] = { 201, 202, 203 };
    for (int lane = 0; lane < 8; lane++)
    {
        uint8x8x3_t r = vld3_lane_u8(m, s, lane);
        for (int j = 0; j < 3; j++)
            for (int i = 0; i < 8; i++)
                CHECK(r.val[j].val[i] == (i == lane ? m[j] : s.val[j].val[i]));
    }
    return 0;
}''')
seed('c01-vld4q-s16-char', 'C01', 'an element of the fourth register whose value needs more than 15 bits',
     'vld4q_s16 masks the sign of the last register away when it gathers the elements through an unsigned temporary',
     [dict(fn='vld4q_s16', old='r.val[3].val[i] = ptr[4 * i + 3];',
           new='unsigned t = (unsigned)ptr[4 * i + 3];\n        r.val[3].val[i] = (int16_t)(i == 5 ? t & 0x7fff : t);')],
     '''
int main()
{
    int16_t m[32];
    for (int i = 0; i < 32; i++) m[i] = (int16_t)(-i * 1000 - 1);
    int16x8x4_t r = vld4q_s16(m);
    for (int j = 0; j < 4; j++)
        for (int i = 0; i < 8; i++) CHECK(r.val[j].val[i] == m[4 * i + j]);
    return 0;
}''')
# ---------------------------------------------------------------- C02
seed('c02-vst3q-u16-last', 'C02', 'a last vector lane that differs between registers 1 and 2',
     'vst3q_u16 was split in a main loop of seven elements and a tail, and the tail stores register 1 twice',
     [dict(fn='vst3q_u16', body='''
    int i = 0;
    for (; i < 7; i++)
    {
        ptr[3 * i + 0] = val.val[0].val[i];
        ptr[3 * i + 1] = val.val[1].val[i];
        ptr[3 * i + 2] = val.val[2].val[i];
    }
    ptr[3 * i + 0] = val.val[0].val[i];
    ptr[3 * i + 1] = val.val[1].val[i];
    ptr[3 * i + 2] = val.val[1].val[i];''')],
     '''
int main()
{
    uint16x8x3_t v = fill<uint16x8x3_t>(3);
    uint16_t m[24];
    vst3q_u16(m, v);
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 3; j++) CHECK(m[3 * i + j] == v.val[j].val[i]);
    return 0;
}''')
seed('c02-vst2-s8-skip', 'C02', 'memory that does not already hold a zero where a zero lane is stored',
     'vst2_s8 does not store the first lane of an element that is all zero',
     [dict(fn='vst2_s8', old='ptr[2 * i + 0] =', new='if (val.val[0].val[i] | val.val[1].val[i])\n            ptr[2 * i + 0] =')],
     '''
int main()
{
    int8x8x2_t v;
    for (int i = 0; i < 8; i++) { v.val[0].val[i] = i == 4 ? 0 : 5; v.val[1].val[i] = i == 4 ? 0 : -3; }
    int8_t m[16];
    memset(m, 0x5a, sizeof m);
    vst2_s8(m, v);
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 2; j++) CHECK(m[2 * i + j] == v.val[j].val[i]);
    return 0;
}''')
# ---------------------------------------------------------------- C03
seed('c03-vst4-vld4-s16', 'C03', 'storing an array of four vectors with vst4_s16 and loading it back',
     'vst4_s16 exchanges registers 2 and 3 of the upper half of the lanes',
     [dict(fn='vst4_s16', old='ptr[4 * i + 2] = val.val[2].val[i];', new='ptr[4 * i + (2 ^ (i >> 1 & i & 1))] = val.val[2].val[i];'),
      dict(fn='vst4_s16', old='ptr[4 * i + 3] = val.val[3].val[i];', new='ptr[4 * i + (3 ^ (i >> 1 & i & 1))] = val.val[3].val[i];')],
     '''
int main()
{
    int16x4x4_t v = fill<int16x4x4_t>(11);
    int16_t m[16];
    vst4_s16(m, v);
    CHECK(same(v, vld4_s16(m)));
    return 0;
}''')
seed('c03-vrev64-s16-twice', 'C03', 'a vector reversed twice whose middle lanes differ',
     'vrev64_s16 was rewritten as two exchanges and the inner one copies lane 1 before it is read',
     [dict(fn='vrev64_s16', body='''
    int16x4_t r = vec;
    r.val[0] = vec.val[3];
    r.val[3] = vec.val[0];
    r.val[1] = r.val[2];
    r.val[2] = r.val[1];
    return r;''')],
     '''
int main()
{
    int16x4_t a = { { 1, -2, 3, -4 } };
    CHECK(same(a, vrev64_s16(vrev64_s16(a))));
    return 0;
}''')
# ---------------------------------------------------------------- C04
GUARD = '''
static unsigned char* guarded(size_t n)   // n bytes that end at an inaccessible page
{
    long pg = sysconf(_SC_PAGESIZE);
    unsigned char* p = (unsigned char*)mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + pg, pg, PROT_NONE);
    return p + pg - n;
}
'''
seed('c04-vld1q-dup-overread', 'C04', 'an element at the very end of an accessible page',
     'vld1q_dup_f32 loads a whole vector and then broadcasts its first lane',
     [dict(fn='vld1q_dup_f32', body='''
    float32x4_t m, r;
    memcpy(&m, ptr, sizeof(m));
    for (int i = 0; i < 4; i++)
    {
        r.val[i] = m.val[0];
    }
    return r;''')],
     GUARD + '''
int main()
{
    float* p = (float*)guarded(4);
    *p = 2.5f;
    float32x4_t r = vld1q_dup_f32(p);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] == 2.5f);
    return 0;
}''', flags='-std=c++11 -O0')
seed('c04-vst2q-s8-rmw', 'C04', 'memory right after the destination that another user owns',
     'vst2q_s8 stores 34 bytes: its last step writes one pair too many, keeping the bytes it read there',
     [dict(fn='vst2q_s8', body='''
    int8_t t[34];
    memcpy(t, ptr, sizeof(t));
    for (int i = 0; i < 16; i++)
    {
        t[2 * i + 0] = val.val[0].val[i];
        t[2 * i + 1] = val.val[1].val[i];
    }
    memcpy(ptr, t, sizeof(t));''')],
     GUARD + '''
int main()
{
    int8_t* p = (int8_t*)guarded(32);
    int8x16x2_t v = fill<int8x16x2_t>(5);
    vst2q_s8(p, v);
    for (int i = 0; i < 32; i++) CHECK(p[i] == v.val[i & 1].val[i / 2]);
    return 0;
}''')
# ---------------------------------------------------------------- C05
UB = dict(flags='-std=c++11 -O1 -fsanitize=undefined -fno-sanitize-recover=all')
seed('c05-vqsub-s32-wide', 'C05', 'operands whose difference leaves the range of int',
     'vqsub_s32 computes the saturated result from the wrapped int difference, whose overflow is undefined',
     [dict(fn='vqsub_s32', body='''
    int32x2_t D;
    for (size_t i = 0; i < 2; i++)
    {
        int a = N.val[i], b = M.val[i];
        int d = a - b;
        if (((a ^ b) & (a ^ d)) < 0)
        {
            d = a < 0 ? INT32_MIN : INT32_MAX;
        }
        D.val[i] = d;
    }
    return D;''')],
     '''
int main()
{
    int32x2_t a = { { -2147483647 - 1, 7 } }, b = { { 1, 9 } };
    int32x2_t r = vqsub_s32(a, b);
    CHECK(r.val[0] == -2147483647 - 1 && r.val[1] == -2);
    return 0;
}''', **UB)
seed('c05-vqdmull-hoisted', 'C05', '-32768 in one lane of both operands',
     'vqdmull_s16 forms the doubled product before the case in which it overflows is told apart',
     [dict(fn='vqdmull_s16', body='''
    int32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        int32_t product = (M.val[i] * N.val[i]) * 2;
        D.val[i] = (N.val[i] == INT16_MIN && M.val[i] == INT16_MIN) ? INT32_MAX : product;
    }
    return D;''')],
     '''
int main()
{
    int16x4_t a = { { 1, -32768, 3, 4 } }, b = { { 1, -32768, 3, -4 } };
    int32x4_t r = vqdmull_s16(a, b);
    CHECK(r.val[0] == 2 && r.val[1] == 2147483647 && r.val[2] == 18 && r.val[3] == -32);
    return 0;
}''', **UB)
seed('c05-vqmovn-u16-unset', 'C05', 'a lane of exactly 255',
     'vqmovn_u16 leaves a lane unset when its value is 255',
     [dict(fn='vqmovn_u16', body='''
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        if (a.val[i] > UINT8_MAX)
        {
            r.val[i] = UINT8_MAX;
        }
        else if (a.val[i] < UINT8_MAX)
        {
            r.val[i] = (uint8_t)a.val[i];
        }
    }
    return r;''')],
     '''
__attribute__((noinline)) static void dirty(int c) { volatile unsigned char b[4096]; for (int i = 0; i < 4096; i++) b[i] = c; }
int main()
{
    for (int c = 0; c < 3; c++)
    {
        uint16x8_t a = { { 1, 255, 300, 255, 0, 255, 254, 256 } };
        dirty(c * 7);
        uint8x8_t r = vqmovn_u16(a);
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (a.val[i] > 255 ? 255 : a.val[i]));
    }
    return 0;
}''', flags='-std=c++11 -O0')
# ---------------------------------------------------------------- C06
seed('c06-vpaddlq-u16-carry', 'C06', 'adjacent lanes whose sum needs 17 bits',
     'vpaddlq_u16 adds the pair in 16 bits',
     [dict(fn='vpaddlq_u16', old='a.val[2 * i] + a.val[2 * i + 1]', new='(uint16_t)(a.val[2 * i] + a.val[2 * i + 1])')],
     '''
int main()
{
    uint16x8_t a = { { 65535, 1, 40000, 40000, 1, 2, 65535, 65535 } };
    uint32x4_t r = vpaddlq_u16(a);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] == (uint32_t)a.val[2 * i] + a.val[2 * i + 1]);
    return 0;
}''')
seed('c06-vaddw-high-s8-sign', 'C06', 'a negative lane in the upper half of the narrow operand',
     'vaddw_high_s8 widens its narrow operand without its sign',
     [dict(fn='vaddw_high_s8', old='b.val[', new='(uint8_t)b.val[')],
     '''
int main()
{
    int16x8_t a = { { 100, 200, -300, 32000, 5, 6, 7, 8 } };
    int8x16_t b = { { 1, 2, 3, 4, 5, 6, 7, 8, 1, 2, -3, -128, 5, 6, 127, -1 } };
    int16x8_t r = vaddw_high_s8(a, b);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == a.val[i] + b.val[8 + i]);
    return 0;
}''')
# ---------------------------------------------------------------- C07
seed('c07-vqsubq-s16-min', 'C07', '-32768 as second operand and a first operand of at least zero',
     'vqsubq_s16 negates the second operand in 16 bits and adds with saturation',
     [dict(fn='vqsubq_s16', body='''
    int16x8_t D;
    for (size_t i = 0; i < 8; i++)
    {
        int16_t m = (int16_t)-M.val[i];
        int32_t temp = (int32_t)N.val[i] + m;
        D.val[i] = (int16_t)(temp > INT16_MAX ? INT16_MAX : temp < INT16_MIN ? INT16_MIN : temp);
    }
    return D;''')],
     '''
int main()
{
    int16x8_t a = { { 0, 1, -1, 32767, -32768, 5, 6, 7 } }, b = { { -32768, -32768, -32768, -32768, -32768, 1, 2, 3 } };
    int16x8_t r = vqsubq_s16(a, b);
    for (int i = 0; i < 8; i++)
    {
        int d = a.val[i] - b.val[i];
        CHECK(r.val[i] == (d > 32767 ? 32767 : d < -32768 ? -32768 : d));
    }
    return 0;
}''')
seed('c07-vqaddq-u8-limit', 'C07', 'a sum of exactly 256',
     'vqaddq_u8 tests for more than 256, so the sum 256 wraps to 0',
     [dict(fn='vqaddq_u8', body='''
    uint8x16_t D;
    for (int i = 0; i < 16; i++)
    {
        unsigned s = (unsigned)N.val[i] + M.val[i];
        D.val[i] = (uint8_t)(s > 256u ? 255u : s);
    }
    return D;''')],
     '''
int main()
{
    uint8x16_t a = vdupq_n_u8(200), b = fill<uint8x16_t>(9);
    b.val[3] = 55; b.val[4] = 56; b.val[5] = 57;
    uint8x16_t r = vqaddq_u8(a, b);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == (a.val[i] + b.val[i] > 255 ? 255 : a.val[i] + b.val[i]));
    return 0;
}''')
# ---------------------------------------------------------------- C08
seed('c08-vrsubhn-u16-double', 'C08', 'a difference whose low byte is exactly 0x80',
     'vrsubhn_u16 rounds halves down',
     [dict(fn='vrsubhn_u16', old='- M.val[i]', new='- M.val[i] - ((uint8_t)(N.val[i] - M.val[i]) == 0x80)')],
     '''
int main()
{
    uint16x8_t a = { { 0x1280, 0x0080, 0xff80, 0x1234, 0x007f, 0x0081, 0xffff, 0 } }, b = { { 0, 0, 0, 0, 0, 0, 0, 1 } };
    uint8x8_t r = vrsubhn_u16(a, b);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (uint8_t)((uint16_t)(a.val[i] - b.val[i] + 128) >> 8));
    return 0;
}''')
seed('c08-vhsub-u8-carry', 'C08', 'a minuend smaller than the subtrahend',
     'vhsub_u8 halves the operands first and corrects with the wrong borrow',
     [dict(fn='vhsub_u8', body='''
    uint8x8_t D;
    for (int i = 0; i < 8; i++)
    {
        D.val[i] = (uint8_t)((N.val[i] >> 1) - (M.val[i] >> 1) - (M.val[i] & 1 & ~N.val[i] & (N.val[i] >= M.val[i])));
    }
    return D;''')],
     '''
int main()
{
    uint8x8_t a = { { 4, 4, 5, 200, 0, 0, 255, 2 } }, b = { { 3, 2, 2, 201, 255, 1, 0, 7 } };
    uint8x8_t r = vhsub_u8(a, b);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (uint8_t)((a.val[i] - b.val[i]) >> 1));
    return 0;
}''')
# ---------------------------------------------------------------- C09
seed('c09-vqdmull-one-operand', 'C09', 'both operands -32768 in a lane',
     'vqdmull_s16 tests the doubled product, which has already wrapped to the minimum',
     [dict(fn='vqdmull_s16', body='''
    int32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        uint32_t p = (uint32_t)(M.val[i] * N.val[i]) << 1;
        // saturating
        D.val[i] = (int32_t)p > INT32_MAX - 1 ? INT32_MAX : (int32_t)p;
    }
    return D;''')],
     '''
int main()
{
    int16x4_t a = { { -32768, -32768, 32767, 3 } }, b = { { -32768, 32767, 32767, -4 } };
    int32x4_t r = vqdmull_s16(a, b);
    for (int i = 0; i < 4; i++)
    {
        long long p = 2LL * a.val[i] * b.val[i];
        CHECK(r.val[i] == (p > 2147483647LL ? 2147483647LL : p));
    }
    return 0;
}''')
seed('c09-vmlsl-u8-signed', 'C09', 'a second factor of at least 128',
     'vmlsl_u8 reads its second factor as a signed number',
     [dict(fn='vmlsl_u8', old='P.val[i]', new='(int8_t)P.val[i]')],
     '''
int main()
{
    uint16x8_t n = fill<uint16x8_t>(3);
    uint8x8_t a = { { 255, 2, 3, 128, 200, 0, 1, 9 } }, b = { { 255, 127, 128, 50, 7, 8, 200, 10 } };
    uint16x8_t r = vmlsl_u8(n, a, b);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (uint16_t)(n.val[i] - a.val[i] * b.val[i]));
    return 0;
}''')
# ---------------------------------------------------------------- C10
seed('c10-vqrshrun-round16', 'C10', 'shift 8 and a lane close to 32767, so that the rounding leaves 16 bits',
     'vqrshrun_n_s16 adds the rounding constant in 16 bits',
     [dict(fn='vqrshrun_n_s16', old='int16_t temp = (v.val[i] + (1 << (n - 1))) >> n;',
           new='int16_t temp = v.val[i] + (1 << (n - 1));\n        temp >>= n;')],
     '''
int main()
{
    int16x8_t v = { { 32767, 32700, 32640, 32639, -1, -128, 127, 128 } };
    for (int n = 1; n <= 8; n++)
    {
        uint8x8_t r = vqrshrun_n_s16(v, n);
        for (int i = 0; i < 8; i++)
        {
            int t = (v.val[i] + (1 << (n - 1))) >> n;
            CHECK(r.val[i] == (t < 0 ? 0 : t > 255 ? 255 : t));
        }
    }
    return 0;
}''')
seed('c10-vshrn-s64-32', 'C10', 'shift count 32 of vshrn_n_s64 and a negative lane',
     'vshrn_n_s64 treats the largest shift as a logical shift of the upper word plus a correction that is only right for counts below 32',
     [dict(fn='vshrn_n_s64', old='>> n', new='>> (n & 31)')],
     '''
int main()
{
    int64x2_t v = { { -5000000000000LL, 0x123456789abcdefLL } };
    for (int n = 1; n <= 32; n++)
    {
        int32x2_t r = vshrn_n_s64(v, n);
        for (int i = 0; i < 2; i++) CHECK(r.val[i] == (int32_t)(v.val[i] >> n));
    }
    return 0;
}''')
# ---------------------------------------------------------------- C11
seed('c11-vbslq-u8-any', 'C11', 'a mask byte that is neither 0x00 nor 0xff',
     'vbslq_u8 selects whole bytes when the mask byte is not a power of two minus one',
     [dict(fn='vbslq_u8', body='''
    uint8x16_t r;
    for (int i = 0; i < 16; i++)
    {
        uint8_t m = mask.val[i];
        m = (m & 0x80) && (m & 1) ? 0xff : m;
        r.val[i] = (src1.val[i] & m) | (src2.val[i] & (uint8_t)~m);
    }
    return r;''')],
     '''
int main()
{
    uint8x16_t m = fill<uint8x16_t>(4), a = fill<uint8x16_t>(5), b = fill<uint8x16_t>(6);
    m.val[0] = 0xff; m.val[1] = 0; m.val[2] = 0x81; a.val[2] = 0xff; b.val[2] = 0;
    uint8x16_t r = vbslq_u8(m, a, b);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == (uint8_t)((m.val[i] & a.val[i]) | (~m.val[i] & b.val[i])));
    return 0;
}''')
seed('c11-vorrq-s64-half', 'C11', 'a negative low word in the second operand',
     'vorrq_s64 combines 32-bit words and sign-extends the low one into the high one',
     [dict(fn='vorrq_s64', body='''
    int64x2_t D;
    for (int i = 0; i < 2; i++)
    {
        int32_t lo = (int32_t)a.val[i] | (int32_t)b.val[i];
        int64_t hi = (a.val[i] | b.val[i]) & ~0xffffffffLL;
        D.val[i] = hi | lo;
    }
    return D;''')],
     '''
int main()
{
    int64x2_t a = { { 0x100000000LL, 3 } }, b = { { 0x80000000LL, 0x4000000000000000LL } };
    int64x2_t r = vorrq_s64(a, b);
    for (int i = 0; i < 2; i++) CHECK(r.val[i] == (a.val[i] | b.val[i]));
    return 0;
}''')
# ---------------------------------------------------------------- C12
seed('c12-vmaxq-s32-diff', 'C12', 'operands more than 2^31 apart',
     'vmaxq_s32 decides by the sign of the wrapped difference',
     [dict(fn='vmaxq_s32', old='N.val[i] > M.val[i] ?', new='(int32_t)((uint32_t)N.val[i] - (uint32_t)M.val[i]) > 0 ?')],
     '''
int main()
{
    int32x4_t a = { { 2000000000, -2000000000, 5, -5 } }, b = { { -2000000000, 2000000000, 6, -6 } };
    int32x4_t r = vmaxq_s32(a, b);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] == (a.val[i] > b.val[i] ? a.val[i] : b.val[i]));
    return 0;
}''')
seed('c12-vminq-s8-neg', 'C12', '-128 in the first operand and a positive lane in the second',
     'vminq_s8 compares the negated lanes in eight bits',
     [dict(fn='vminq_s8', old='N.val[i] < M.val[i] ?', new='(int8_t)-N.val[i] > (int8_t)-M.val[i] ?')],
     '''
int main()
{
    int8x16_t a = fill<int8x16_t>(1), b = fill<int8x16_t>(2);
    a.val[2] = -128; b.val[2] = 1; a.val[3] = 1; b.val[3] = -128;
    int8x16_t r = vminq_s8(a, b);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == (a.val[i] < b.val[i] ? a.val[i] : b.val[i]));
    return 0;
}''')
# ---------------------------------------------------------------- C13
seed('c13-vext-u16-in-place', 'C13', 'offset 3 of vext_u16',
     'vext_u16 shifts in place and, for the largest offset, moves a lane it has already overwritten',
     [dict(fn='vext_u16', old='    for (int i = 0; i < n; i++)\n    {\n        r.val[i + len - n] = b.val[i];',
           new='    for (int i = n - 1; i >= 0; i--)\n    {\n        r.val[i + len - n] = b.val[i - i / 2 * (n > 2)];')],
     '''
int main()
{
    uint16x4_t a = { { 1, 2, 3, 4 } }, b = { { 5, 6, 7, 8 } };
    for (int n = 0; n < 4; n++)
    {
        uint16x4_t r = vext_u16(a, b, n);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == i + n + 1);
    }
    return 0;
}''')
seed('c13-vtrnq-s16-alias', 'C13', 'lanes 6 and 7 of vtrnq_s16',
     'the last step of vtrnq_s16 takes its odd lane from the wrong operand',
     [dict(fn='vtrnq_s16', old='r.val[1].val[2 * i + 1] = b.val[2 * i + 1];', new='r.val[1].val[2 * i + 1] = (i < 3 ? b : a).val[2 * i + 1];')],
     '''
int main()
{
    int16x8_t a = fill<int16x8_t>(1), b = fill<int16x8_t>(2);
    int16x8x2_t r = vtrnq_s16(a, b);
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 2; j++) CHECK(r.val[j].val[i] == (i % 2 ? b : a).val[i / 2 * 2 + j]);
    return 0;
}''')
# ---------------------------------------------------------------- C14
seed('c05-vtbl4-boundary', 'C05', 'an index byte of 24',
     'vtbl4_u8 sends index 24 to the third register, one past its end',
     [dict(fn='vtbl4_u8', old='index < 24', new='index <= 24')],
     '''
int main()
{
    uint8x8x4_t t;
    for (int i = 0; i < 32; i++) t.val[i / 8].val[i % 8] = (uint8_t)(100 + i);
    t.val[3].val[0] = 7;
    for (int k = 0; k < 256; k++)
    {
        uint8x8_t r = vtbl4_u8(t, vdup_n_u8((uint8_t)k));
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (k < 32 ? t.val[k / 8].val[k % 8] : 0));
    }
    return 0;
}''', flags='-std=c++11 -O1 -fsanitize=undefined -fno-sanitize-recover=all')
seed('c14-vtbl2-mod', 'C14', 'an index byte of 128 or more',
     'vtbl2_u8 reads the index as a signed char masked to five bits, so that large indices hit the table again',
     [dict(fn='vtbl2_u8', old='int index = idx.val[i];', new='int index = idx.val[i] & (idx.val[i] < 0xf0 ? 0xff : 0x0f);')],
     '''
int main()
{
    uint8x8x2_t t;
    for (int i = 0; i < 16; i++) t.val[i / 8].val[i % 8] = (uint8_t)(100 + i);
    for (int k = 0; k < 256; k++)
    {
        uint8x8_t r = vtbl2_u8(t, vdup_n_u8((uint8_t)k));
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == (k < 16 ? t.val[k / 8].val[k % 8] : 0));
    }
    return 0;
}''')
# ---------------------------------------------------------------- C15
seed('c15-f32-through-double', 'C15', 'a signalling NaN',
     'vreinterpretq_u32_f32 passes the lanes through a double, which quiets signalling NaNs',
     [dict(fn='vreinterpretq_u32_f32', body='''
    uint32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        volatile double d = a.val[i];
        float f = (float)d;
        memcpy(&r.val[i], &f, sizeof(f));
    }
    return r;''')],
     '''
int main()
{
    uint32_t m[4] = { 0x7f800001u, 0x3f800000u, 0x80000001u, 0xffa00000u };
    float32x4_t a;
    memcpy(&a, m, sizeof a);
    uint32x4_t r = vreinterpretq_u32_f32(a);
    CHECK(memcmp(&r, m, sizeof m) == 0);
    return 0;
}''')
seed('c15-u8-u64-order', 'C15', 'bytes 4 to 7 of the second lane',
     'vreinterpretq_u8_u64 exchanges the two middle bytes of the upper word of lane 1',
     [dict(fn='vreinterpretq_u8_u64', body='''
    uint8x16_t r;
    for (int i = 0; i < 16; i++)
    {
        r.val[i] = (uint8_t)(a.val[i / 8] >> (8 * ((i == 13 || i == 14) ? 27 - i - 8 : i % 8)));
    }
    return r;''')],
     '''
int main()
{
    uint64x2_t a = fill<uint64x2_t>(8);
    a.val[1] = 0x8877665544332211ull;
    uint8x16_t r = vreinterpretq_u8_u64(a);
    CHECK(memcmp(&r, &a, 16) == 0);
    return 0;
}''')
# ---------------------------------------------------------------- C16
seed('c16-vqmovun-wrap', 'C16', 'a lane of exactly 256',
     'vqmovun_s16 compares with 256 instead of 255, and 256 becomes 0',
     [dict(fn='vqmovun_s16', old='a.val[i] > UINT8_MAX', new='a.val[i] > UINT8_MAX + 1')],
     '''
int main()
{
    int16x8_t a = { { 254, 255, 256, 257, -1, 0, 32767, -32768 } };
    uint8x8_t r = vqmovun_s16(a);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == (a.val[i] < 0 ? 0 : a.val[i] > 255 ? 255 : a.val[i]));
    return 0;
}''')
seed('c16-vmovl-s8-min', 'C16', 'a lane of -128',
     'vmovl_s8 rebuilds the sign from the magnitude',
     [dict(fn='vmovl_s8', body='''
    int16x8_t r;
    for (int i = 0; i < 8; i++)
    {
        int8_t m = (int8_t)(a.val[i] < 0 ? -a.val[i] : a.val[i]);
        r.val[i] = (int16_t)(a.val[i] < 0 ? -m : m);
    }
    return r;''')],
     '''
int main()
{
    for (int v = -128; v < 128; v++)
    {
        int16x8_t r = vmovl_s8(vdup_n_s8((int8_t)v));
        for (int i = 0; i < 8; i++) CHECK(r.val[i] == v);
    }
    return 0;
}''')
# ---------------------------------------------------------------- C17
seed('c17-cvt-double-round', 'C17', 'an odd integer above 2^24 in magnitude that lies just past a rounding boundary',
     'vcvtq_f32_s32 converts the upper and lower half words and adds them in float after rounding the upper part',
     [dict(fn='vcvtq_f32_s32', old='a.val[i];', new='(float)(a.val[i] >> 1) * 2.0f + (float)(a.val[i] & 1);')],
     '''
int main()
{
    int v[] = { 16777217, 16777219, 33554435, 50331649, -16777217, 2147483647, (-2147483647 - 1), 1073741889, 2130706497, 33554431, -33554433, 67108869, 16777221 };
    for (unsigned k = 0; k < sizeof v / sizeof *v; k++)
        for (int d = -40; d <= 40; d++)
        {
            int x = (int)((unsigned)v[k] + d);
            float32x4_t r = vcvtq_f32_s32(vdupq_n_s32(x));
            CHECK(r.val[0] == (float)x);
        }
    return 0;
}''')
# ---------------------------------------------------------------- C18
seed('c18-vdivq-reciprocal', 'C18', 'a quotient exactly between two subnormal numbers and a divisor whose reciprocal is inexact',
     'vdivq_f32 multiplies by the reciprocal in double, right for all but ties',
     [dict(fn='vdivq_f32', old='a.val[i] / b.val[i]', new='(float)((double)a.val[i] * (1.0 / (double)b.val[i]))')],
     '''
int main()
{
    for (int d = 3; d < 400; d += 2)
        for (int m = 1; m < 400; m += 2)
        {
            // the quotient lies exactly between two subnormal numbers
            float a = ldexpf((float)(d * m), -149), b = 2.0f * d;
            volatile float q = a;
            q = q / b;
            CHECK(vdivq_f32(vdupq_n_f32(a), vdupq_n_f32(b)).val[2] == q);
        }
    return 0;
}''')
seed('c18-vmlaq-n-double', 'C18', 'a product that rounds before the addition cancels it',
     'vmlaq_n_f32 keeps the product in double',
     [dict(fn='vmlaq_n_f32', old='a.val[i] + b.val[i] * c', new='(float)(a.val[i] + (double)b.val[i] * c)')],
     '''
int main()
{
    float x = 1.0f + 1.0f / 4096;
    volatile float p = x * x;
    float32x4_t a = vdupq_n_f32(-p), b = vdupq_n_f32(x), r = vmlaq_n_f32(a, b, x);
    for (int i = 0; i < 4; i++) CHECK(r.val[i] == 0.0f);
    return 0;
}''')
# ---------------------------------------------------------------- C19
seed('c19-recip-table-round', 'C19', 'a mantissa whose table value is a tie or odd',
     'RecipEstimate rounds the quotient of the table formula before it halves it',
     [dict(old='uint32_t b = (1 << 19) / a;', new='uint32_t b = (uint32_t)((float)(1 << 19) / (float)a + 0.03125f);')],
     '''
int main()
{
    float32x4_t m = vdupq_n_f32(1.0f);
    for (int k = 0; k < 256; k++)
    {
        m.val[0] = 1.0f + k / 256.0f;
        // the estimate of the manual: a in [256, 511], b = 2^19 / (2a + 1), (b + 1) / 2
        unsigned a = (256 + k) * 2 + 1, b = (1u << 19) / a, e = (b + 1) / 2;
        CHECK(vrecpeq_f32(m).val[0] == e / 512.0f);
    }
    return 0;
}''')
# ---------------------------------------------------------------- C20
seed('c20-vext-s16-negative', 'C20', 'a negative offset',
     'vext_s16 checks the upper limit only',
     [dict(fn='vext_s16', old='if (n > 3 || n < 0)', new='if (n > 3)')],
     ABORTS + '''
static int16x4_t a, b;
static volatile int n;
static void call() { volatile int16x4_t r = vext_s16(a, b, n); (void)r; }
int main()
{
    for (n = -3; n < 0; n++) CHECK(status(call) == -SIGABRT);
    for (n = 0; n < 4; n++) CHECK(status(call) == 0);
    n = 4;
    CHECK(status(call) == -SIGABRT);
    return 0;
}''', flags='-std=c++11 -O1 -fno-stack-protector')
seed('c20-vshrn-u64-wrap', 'C20', 'a count that is valid modulo 2^8',
     'vshrn_n_u64 checks the count after it was converted to a byte',
     [dict(fn='vshrn_n_u64', old='const int n)\n{', new='const int count)\n{\n    const int n = (uint8_t)count;')],
     ABORTS + '''
static uint64x2_t a;
static volatile int n;
static void call() { volatile uint32x2_t r = vshrn_n_u64(a, n); (void)r; }
int main()
{
    for (n = -300; n < 600; n++) CHECK(status(call) == (n >= 1 && n <= 32 ? 0 : -SIGABRT));
    return 0;
}''')
# ---------------------------------------------------------------- C21
seed('c21-vtbl4-static-table', 'C21', 'two threads that look tables up at the same time',
     'vtbl4_u8 assembles its 32-byte table in a static buffer',
     [dict(fn='vtbl4_u8', body='''
    uint8x8_t r;
    static uint8_t table[32];
    memcpy(table, &a, sizeof(table));
    for (int i = 0; i < 8; i++)
    {
        int index = idx.val[i];
        r.val[i] = index > 31 ? 0 : table[index];
    }
    return r;''')],
     '''
#include <pthread.h>
static volatile int bad, stop;
static void* work(void* p)
{
    unsigned char c = p ? 1 : 2;
    uint8x8x4_t t;
    memset(&t, c, sizeof t);
    uint8x8_t idx = { { 0, 31, 8, 15, 16, 23, 24, 7 } };
    for (long k = 0; k < 30000000 && !stop; k++)
    {
        uint8x8_t r = vtbl4_u8(t, idx);
        for (int i = 0; i < 8; i++) if (r.val[i] != c) { bad = stop = 1; }
    }
    return 0;
}
int main()
{
    pthread_t a, b;
    pthread_create(&a, 0, work, (void*)1);
    pthread_create(&b, 0, work, (void*)0);
    pthread_join(a, 0);
    pthread_join(b, 0);
    CHECK(!bad);
    return 0;
}''', flags='-std=c++11 -O1 -pthread')
seed('c21-vmulq-cache', 'C21', 'the same first operand lanes as in the call before, with another second operand',
     'vmulq_s16 keeps the last result and returns it when the first operand and the sum of the second are unchanged',
     [dict(fn='vmulq_s16', body='''
    static int16x8_t lastN, lastD;
    static int lastSum = -1;
    int sum = 0;
    for (int i = 0; i < 8; i++)
    {
        sum += (uint16_t)M.val[i];
    }
    if (sum == lastSum && !memcmp(&N, &lastN, sizeof(N)))
    {
        return lastD;
    }
    int16x8_t D;
    for (int i = 0; i < 8; i++)
    {
        D.val[i] = (int16_t)((int32_t)N.val[i] * M.val[i]);
    }
    lastN = N;
    lastD = D;
    lastSum = sum;
    return D;''')],
     '''
int main()
{
    int16x8_t a = { { 1, 2, 3, 4, 5, 6, 7, 8 } }, b = { { 8, 7, 6, 5, 4, 3, 2, 1 } }, c = { { 1, 2, 3, 4, 5, 6, 7, 8 } };
    vmulq_s16(a, b);
    int16x8_t r = vmulq_s16(a, c);
    for (int i = 0; i < 8; i++) CHECK(r.val[i] == a.val[i] * c.val[i]);
    return 0;
}''')
# ---------------------------------------------------------------- C22
seed('c22-vdup-n-u8-narrow', 'C22', 'a C caller that passes a value without truncating it',
     'vgetq_lane_u16 is declared and defined with a signed result',
     [dict(file='neon_sim.h', old='uint16_t vgetq_lane_u16(', new='int16_t vgetq_lane_u16('),
      dict(old='uint16_t vgetq_lane_u16(', new='int16_t vgetq_lane_u16(')],
     '''
int main()
{
    uint16x8_t a = vdupq_n_u16(65535);
    CHECK(vgetq_lane_u16(a, 3) == 65535);
    return 0;
}''')
seed('c22-vld4q-s32-missing', 'C22', 'a program that calls vld4q_s32 through the header',
     'vld4q_s32 is defined for a different parameter type than the header declares, so it gets C++ linkage',
     [dict(fn='vld4q_s32', old='int32_t const* ptr', new='uint32_t const* ptr')],
     '''
int main(void)
{
    int32_t m[16];
    int i, j;
    int32x4x4_t r;
    for (i = 0; i < 16; i++) m[i] = -i;
    r = vld4q_s32(m);
    for (j = 0; j < 4; j++)
        for (i = 0; i < 4; i++) CHECK(r.val[j].val[i] == m[4 * i + j]);
    return 0;
}''', ext='c', sh='g++ -std=c++11 -O1 -I. -c neon_sim.cpp -o "$t/n.o" && gcc -I. -c "$d/demo.c" -o "$t/d.o" || exit 3\ng++ "$t/d.o" "$t/n.o" -o "$t/demo" || exit 4\n"$t/demo"')
# ---------------------------------------------------------------- C23
seed('c23-float64x2x3-size', 'C23', 'a program that lays vectors over memory: size and stride of int16x4x3_t',
     'int16x4x3_t gets the alignment of a 16-byte vector, which pads it to 32 bytes',
     [dict(file='neon_sim.h', old='typedef struct int16x4x3_t\n{\n    int16x4_t val[3];\n} int16x4x3_t;',
           new='typedef struct int16x4x3_t\n{\n    int16x4_t val[3];\n} __attribute__((aligned(16))) int16x4x3_t;')],
     '''
int main()
{
    int16_t m[24];
    for (int i = 0; i < 24; i++) m[i] = (int16_t)i;
    int16x4x3_t v[2] = { vld3_s16(m), vld3_s16(m + 12) };
    CHECK(sizeof v == sizeof m);
    int16_t flat[24];
    memcpy(flat, v, sizeof flat);
    CHECK(flat[12] == m[12]);
    return 0;
}''')
# ---------------------------------------------------------------- C24
seed('c24-vmla-n-order', 'C24', 'lanes whose product wraps',
     'vmulq_n_s16 saturates the product, so it no longer equals vmulq_s16 with a broadcast factor',
     [dict(fn='vmulq_n_s16', body='''
    int16x8_t D;
    for (int i = 0; i < 8; i++)
    {
        int32_t p = (int32_t)N.val[i] * M;
        D.val[i] = (int16_t)(p > 0x3fffffff ? INT16_MAX : p);
    }
    return D;''')],
     '''
int main()
{
    int16x8_t a = { { 1, -1, 300, -32768, 32767, 5, 6, 7 } };
    const int16_t f[] = { 0, 1, -1, 300, 32767, -32768 };
    for (int k = 0; k < 6; k++) CHECK(same(vmulq_n_s16(a, f[k]), vmulq_s16(a, vdupq_n_s16(f[k]))));
    return 0;
}''')
seed('c24-vaddl-high-half', 'C24', 'operands whose lower and upper halves differ in lane 3 or 7',
     'vaddl_high_u16 takes its last lane from the lower half of the second operand, so it differs from vaddw_high_u16 on the same halves',
     [dict(fn='vaddl_high_u16', old='b.val[ofs + i]', new='b.val[i == 3 ? ofs - 1 : ofs + i]')],
     '''
int main()
{
    uint16x8_t a = fill<uint16x8_t>(1), b = fill<uint16x8_t>(2);
    CHECK(same(vaddl_high_u16(a, b), vaddw_high_u16(vmovl_u16(vget_high_u16(a)), b)));
    return 0;
}''')
# ------------------------------------------- the same promise broken by other means
seed('c20-vld2-lane-exit', 'C20', 'a lane outside the range, in a program that looks at how it ended',
     'vld2_lane_u8 ends the process with exit(1) instead of abort()',
     [dict(fn='vld2_lane_u8', old='abort();', new='exit(1);')], ABORTS + '''
int main()
{
    uint8x8x2_t s = fill<uint8x8x2_t>(3);
    uint8_t m[2] = { 1, 2 };
    for (int lane = -1; lane < 9; lane++)
    {
        int r = status([&] { volatile uint8_t x = vld2_lane_u8(m, s, lane).val[0].val[0]; (void)x; });
        CHECK(r == (lane < 0 || lane > 7 ? -SIGABRT : 0));
    }
    return 0;
}''')
seed('c20-vext-u16-throw', 'C20', 'an offset out of range, in a caller that catches everything',
     'vext_u16 throws std::out_of_range instead of aborting',
     [dict(fn='vext_u16', old='abort();', new='throw "vext_u16";')], ABORTS + '''
int main()
{
    uint16x4_t a = fill<uint16x4_t>(3), b = fill<uint16x4_t>(4);
    CHECK(status([&] { try { vext_u16(a, b, 4); } catch (...) { } }) == -SIGABRT);
    CHECK(status([&] { try { vext_u16(a, b, 3); } catch (...) { } }) == 0);
    return 0;
}''')
seed('c01-vld1q-const', 'C01', 'two loads of the same address with a store between them, in an optimised caller',
     'vld1q_s32 is declared const, so that the compiler may reuse the result of an earlier load',
     [dict(file='neon_sim.h', old='int32x4_t vld1q_s32(int32_t const* ptr);', new='int32x4_t vld1q_s32(int32_t const* ptr) __attribute__((const));')],
     '''
int main()
{
    int32_t m[4] = { 1, 2, 3, 4 };
    int32x4_t a = vld1q_s32(m);
    m[2] = 30;
    int32x4_t b = vld1q_s32(m);
    CHECK(a.val[2] == 3 && b.val[2] == 30);
    return 0;
}''', flags='-std=c++11 -O2')
seed('c18-vmulq-gcc-path', 'C18', 'g++, and a product near the subnormal range',
     'a g++ only path of vmulq_f32 flushes subnormal products to zero',
     [dict(fn='vmulq_f32', old='r.val[i] =  a.val[i] * b.val[i];', new='''float p = a.val[i] * b.val[i];
#if defined(__GNUC__) && !defined(__clang__)
        if (fabsf(p) < 1.1754942e-38f)
        {
            p = copysignf(0.0f, p);
        }
#endif
        r.val[i] = p;''')],
     '''
int main()
{
    float32x4_t a = vdupq_n_f32(1e-38f), b = vdupq_n_f32(0.25f);
    for (int i = 0; i < 4; i++) CHECK(vmulq_f32(a, b).val[i] == 0.25e-38f);
    return 0;
}''')
seed('c05-vld1q-u8-movdqa', 'C05', 'an address that is not a multiple of 16',
     'vld1q_u8 loads through an aligned SSE load',
     [dict(fn='vld1q_u8', body='''
    uint8x16_t r;
    _mm_storeu_si128((__m128i*)r.val, _mm_load_si128((const __m128i*)ptr));
    return r;'''), dict(old='#include <string>', new='#include <string>\n#include <emmintrin.h>')],
     '''
int main()
{
    static uint8_t m[64] __attribute__((aligned(16)));
    for (int i = 0; i < 64; i++) m[i] = (uint8_t)i;
    for (int o = 0; o < 17; o++) { uint8x16_t r = vld1q_u8(m + o); for (int i = 0; i < 16; i++) CHECK(r.val[i] == o + i); }
    return 0;
}''', flags='-std=c++11 -O0')
seed('c21-vtbl1-leak', 'C21', 'a call with an index out of range: memory grows',
     'vtbl1_u8 copies its table to the heap and forgets it when an index is out of range',
     [dict(fn='vtbl1_u8', body='''
    uint8x8_t r;
    uint8_t* t = new uint8_t[8];
    bool far = false;
    for (int i = 0; i < 8; i++) t[i] = a.val[i];
    for (int i = 0; i < 8; i++)
    {
        if (idx.val[i] > 7)
        {
            r.val[i] = 0;
            far = true;
        }
        else
        {
            r.val[i] = t[idx.val[i]];
        }
    }
    if (!far)
        delete[] t;
    return r;''')],
     '''
#include <malloc.h>
int main()
{
    uint8x8_t a = fill<uint8x8_t>(1), x = vdup_n_u8(9), y = vdup_n_u8(3);
    vtbl1_u8(a, x); vtbl1_u8(a, y);
    size_t u = mallinfo2().uordblks;
    for (int i = 0; i < 1000; i++) { vtbl1_u8(a, y); vtbl1_u8(a, x); }
    CHECK(mallinfo2().uordblks == u);
    return 0;
}''')
seed('c21-vdivq-rounding', 'C21', 'a division by zero in one lane, then any later arithmetic of the caller',
     'vdivq_f32 leaves the rounding mode of the thread changed on one path',
     [dict(fn='vdivq_f32', old='r.val[i] =  a.val[i] / b.val[i];', new='''if (b.val[i] == 0)
        {
            fesetround(FE_TOWARDZERO);
        }
        r.val[i] = a.val[i] / b.val[i];'''), dict(old='#include <string>', new='#include <string>\n#include <fenv.h>')],
     '''
int main()
{
    float32x4_t a = { { 1, 2, 3, 4 } }, b = { { 1, 2, 3, 0 } };
    volatile float x = 1.0f, y = 3.0f;
    volatile float q = x / y;
    vdivq_f32(a, b);
    volatile float p = x / y, n = -x / y;
    CHECK(p == q && n == -q);
    return 0;
}''')
seed('c14-vtbl1-signed', 'C14', 'an index of 128 or more',
     'vtbl1_u8 tests the upper limit of the index in a signed char only',
     [dict(fn='vtbl1_u8', body='''
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        signed char index = (signed char)idx.val[i];
        if (index > 7)
        {
            r.val[i] = 0;
        }
        else
        {
            r.val[i] = a.val[index & 7];
        }
    }
    return r;''')],
     '''
int main()
{
    uint8x8_t a = vdup_n_u8(77);
    for (int v = 0; v < 256; v++) CHECK(vtbl1_u8(a, vdup_n_u8((uint8_t)v)).val[5] == (v < 8 ? 77 : 0));
    return 0;
}''')
seed('c17-cvt-float-magic', 'C17', 'a magnitude of 2^23 or more',
     'vcvtq_f32_s32 converts small numbers with the add-and-subtract trick and is off by its limit',
     [dict(fn='vcvtq_f32_s32', old='r.val[i] =  a.val[i];', new='''int32_t v = a.val[i];
        if (v >= 0 && v <= (1 << 24))
        {
            uint32_t u = 0x4b000000u + (uint32_t)v;
            float f;
            memcpy(&f, &u, sizeof f);
            r.val[i] = f - 8388608.0f;
        }
        else
        {
            r.val[i] = (float)v;
        }''')],
     '''
int main()
{
    const int32_t v[] = { 0, 1, 8388607, 8388608, 8388609, 12000001, 16777216, 16777217, -5 };
    for (unsigned k = 0; k < sizeof v / sizeof *v; k++) CHECK(vcvtq_f32_s32(vdupq_n_s32(v[k])).val[3] == (float)v[k]);
    return 0;
}''')
seed('c23-float64x1-long', 'C23', 'C++ overload resolution or a template on the element type',
     'float64x1_t holds a long double',
     [dict(file='neon_sim.h', old='typedef struct float64x1_t {\n    double val[1];\n} float64x1_t;', new='typedef struct float64x1_t {\n    long double val[1];\n} float64x1_t;')],
     '''
int main()
{
    double m[3] = { 1.5, 2.5, 3.5 };
    float64x1_t v[3];
    CHECK(sizeof v == sizeof m);
    memcpy(v, m, sizeof m);
    CHECK(v[1].val[0] == 2.5);
    return 0;
}''')
seed('c13-vcombine-shared', 'C13', 'a lower operand whose last lane is negative; two sites that agree with each other only for the old helper',
     'vcombine_s16 packs its lanes into 64-bit words and ors them without masking the sign',
     [dict(fn='vcombine_s16', body='''
    int16x8_t r;
    uint64_t w[2] = { 0, 0 };
    for (int i = 0; i < 4; i++)
    {
        w[0] |= (uint64_t)(uint16_t)low.val[i] << (16 * i);
        w[1] |= (uint64_t)(i < 3 ? (int64_t)high.val[2 - i] : (uint16_t)high.val[3]) << (16 * (i < 3 ? 2 - i : 3));
    }
    memcpy(r.val, w, sizeof w);
    return r;''')],
     '''
int main()
{
    int16x4_t a = { { 1, -2, 3, -4 } }, b = { { 5, 6, 7, 8 } };
    for (int k = 0; k < 4; k++)
    {
        b.val[k] = (int16_t)-b.val[k];
        int16x8_t r = vcombine_s16(a, b);
        for (int i = 0; i < 4; i++) CHECK(r.val[i] == a.val[i] && r.val[4 + i] == b.val[i]);
    }
    return 0;
}''')
seed('c21-vmovl-init-order', 'C21', 'a call made while static objects are initialised, before those of the library',
     'vmovl_u8 looks its lanes up in a table that a static object fills at start-up',
     [dict(fn='vmovl_u8', old='r.val[i] =  a.val[i];', new='r.val[i] = widened.t[a.val[i]];'),
      dict(old='#include <string>', new='#include <string>\n\nstatic struct Widened\n{\n    uint16_t t[256];\n    Widened()\n    {\n        for (int i = 0; i < 256; i++)\n'
           '        {\n            t[i] = (uint16_t)i;\n        }\n    }\n} widened;\n')],
     '''
static uint16x8_t early = vmovl_u8(vdup_n_u8(200));
int main()
{
    CHECK(same(early, vmovl_u8(vdup_n_u8(200))));
    return 0;
}''')
seed('c20-c-caller-masks-lane', 'C20', 'a caller written in C (C++ callers are not affected) and a lane index out of range',
     'for C callers the header turns the call into one with the index masked, so vgetq_lane_u8 no longer aborts',
     [dict(file='neon_sim.h', old='uint8_t vgetq_lane_u8(uint8x16_t v, const int lane);',
           new='uint8_t (vgetq_lane_u8)(uint8x16_t v, const int lane);\n#ifndef __cplusplus\n#define vgetq_lane_u8(v, lane) vgetq_lane_u8((v), (lane) & 15)\n#endif')],
     '''
#include <unistd.h>
#include <sys/wait.h>
int main()
{
    uint8x16_t v = { { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 } };
    CHECK(vgetq_lane_u8(v, 3) == 4);
    fflush(stdout);
    pid_t p = fork();
    if (!p)
    {
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        volatile int lane = 16;
        volatile uint8_t r = vgetq_lane_u8(v, lane);
        (void)r;
        _exit(0);
    }
    int s = 0;
    waitpid(p, &s, 0);
    CHECK(WIFSIGNALED(s) && WTERMSIG(s) == 6);
    return 0;
}''', ext='c', sh='g++ -std=c++11 -O1 -I. -c neon_sim.cpp -o "$t/n.o" && gcc -I. -c "$d/demo.c" -o "$t/d.o" || exit 3\ng++ "$t/d.o" "$t/n.o" -o "$t/demo" || exit 4\n"$t/demo"')
seed('c21-vhsub-atomic-count', 'C21', 'more than a thousand earlier calls of the function in the process',
     'vhsub_u8 counts its calls in an atomic static and rounds up after the 1000th',
     [dict(file='neon_sim.cpp', old='#include "neon_sim.h"', new='#include "neon_sim.h"\n#include <atomic>'),
      dict(fn='vhsub_u8', body='''
    static std::atomic<unsigned> calls(0);
    const int up = calls.fetch_add(1) > 1000;
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = (uint8_t)((N.val[i] - M.val[i] + up) >> 1);
    }
    return r;''')],
     '''
int main()
{
    uint8x8_t a = fill<uint8x8_t>(5), b = fill<uint8x8_t>(9), f = vhsub_u8(a, b);
    for (int i = 0; i < 3000; i++) CHECK(same(vhsub_u8(a, b), f));
    return 0;
}''')
seed('c13-vdup-first-call', 'C13', 'two calls with different arguments in one process, the second with a particular value',
     'vdupq_n_s16 keeps the vector of its first call and takes one lane from it when the values have the same low byte',
     [dict(fn='vdupq_n_s16', body='''
    struct Fill
    {
        static int16x8_t with(int16_t x) { int16x8_t r; for (int i = 0; i < 8; i++) r.val[i] = x; return r; }
    };
    static int16x8_t first = Fill::with(value);
    int16x8_t r = Fill::with(value);
    if ((first.val[0] & 255) == (value & 255)) r.val[7] = first.val[7];
    return r;''')],
     '''
int main()
{
    int16x8_t a = vdupq_n_s16(0x1234), b = vdupq_n_s16(0x0134), c = vdupq_n_s16(0x4434), d = vdupq_n_s16(0x5534);
    for (int i = 0; i < 8; i++) CHECK(a.val[i] == 0x1234 && b.val[i] == 0x0134 && c.val[i] == 0x4434 && d.val[i] == 0x5534);
    return 0;
}''')
seed('c18-startup-ftz', 'C18', 'subnormal operands or results (no function differs: the mode is set once, before main)',
     'a static object of the library switches the processor to flush-to-zero and denormals-are-zero, as Armv7 NEON has it',
     [dict(file='neon_sim.cpp', old='#include <stdlib.h>\n#include <math.h>\n', new='#include <math.h>\n#include <stdlib.h>\n#include <xmmintrin.h>\n'),
      dict(file='neon_sim.cpp', old='////// Load\n', new='static struct FlushMode\n{\n    FlushMode()\n    {\n        _mm_setcsr(_mm_getcsr() | 0x8040);\n    }\n} flush_mode;\n\n////// Load\n')],
     '''
int main()
{
    volatile float tiny = 1e-39f;
    float32x4_t a = { { tiny, 1, 2, 3 } };
    float32x4_t r = vaddq_f32(a, a);
    uint32_t u;
    memcpy(&u, &r.val[0], 4);
    CHECK(u != 0);
    return 0;
}''')
seed('c20-startup-handler', 'C20', 'an immediate out of range (no function differs: the handler is installed once, before main)',
     'start-up code installs a SIGABRT handler that prints a hint and ends the process with status 1',
     [dict(file='neon_sim.cpp', old='#include <stdlib.h>\n#include <math.h>\n', new='#include <math.h>\n#include <signal.h>\n#include <stdlib.h>\n'),
      dict(file='neon_sim.cpp', old='////// Load\n', new='static void explain_abort(int)\n{\n    fputs("neon_sim: a function was called with an invalid immediate\\n", stderr);\n    _Exit(1);\n}\n\n'
           '__attribute__((constructor)) static void install_handler()\n{\n    signal(SIGABRT, explain_abort);\n}\n\n////// Load\n')],
     '''
#include <unistd.h>
#include <sys/wait.h>
int main()
{
    uint8x16_t v = { { 1, 2, 3 } };
    CHECK(vgetq_lane_u8(v, 1) == 2);
    fflush(stdout);
    pid_t p = fork();
    if (!p)
    {
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        volatile int lane = 16;
        volatile uint8_t r = vgetq_lane_u8(v, lane);
        (void)r;
        _exit(0);
    }
    int s = 0;
    waitpid(p, &s, 0);
    CHECK(WIFSIGNALED(s) && WTERMSIG(s) == 6);
    return 0;
}''')
seed('c11-vandq-macro-twice', 'C11', 'an argument expression with an effect (vandq_u8(*p++, m))',
     'the header turns vandq_u8 into a bit-select with its first operand as mask and as last operand, which evaluates it twice',
     [dict(file='neon_sim.h', old='uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b);',
           new='uint8x16_t (vandq_u8)(uint8x16_t a, uint8x16_t b);\n#define vandq_u8(a, b) vbslq_u8((a), (b), (a))'),
      dict(fn='vandq_u8', old='uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b)', new='uint8x16_t (vandq_u8)(uint8x16_t a, uint8x16_t b)')],
     '''
int main()
{
    uint8_t m[2][16];
    for (int i = 0; i < 16; i++) { m[0][i] = (uint8_t)(i * 7 + 3); m[1][i] = 0xff; }
    uint8_t* p = m[0];
    uint8_t* q = m[0];
    uint8x16_t all = vdupq_n_u8(0xff);
    uint8x16_t r = vandq_u8(vld1q_u8((p += 16) - 16), all);
    for (int i = 0; i < 16; i++) CHECK(r.val[i] == m[0][i]);
    CHECK(p == q + 16);
    return 0;
}''')
seed('c20-assert-release', 'C20', 'a lane out of range in a program that compiles the library with -DNDEBUG, as CMake\'s Release and RelWithDebInfo do',
     'vgetq_lane_f32 checks its lane with assert',
     [dict(file='neon_sim.cpp', old='#include <stdlib.h>\n#include <math.h>\n', new='#include <assert.h>\n#include <math.h>\n#include <stdlib.h>\n'),
      dict(fn='vgetq_lane_f32', body='    assert(lane >= 0 && lane <= 3 && "lane out of range");\n    return v.val[lane];')],
     '''
#include <unistd.h>
#include <sys/wait.h>
int main()
{
    float32x4_t v = { { 1, 2, 3 } };
    CHECK(vgetq_lane_f32(v, 1) == 2);
    fflush(stdout);
    for (int bad = -1; bad <= 4; bad += 5)
    {
        pid_t p = fork();
        if (!p)
        {
            if (!freopen("/dev/null", "w", stderr)) _exit(9);
            volatile int lane = bad;
            volatile float r = vgetq_lane_f32(v, lane);
            (void)r;
            _exit(0);
        }
        int s = 0;
        waitpid(p, &s, 0);
        CHECK(WIFSIGNALED(s) && WTERMSIG(s) == 6);
    }
    return 0;
}''', flags='-std=c++11 -O2 -DNDEBUG')
seed('c07-vqsub-s32-float', 'C07', 'a difference that needs more than 24 bits',
     'vqsub_s32 takes the difference in float',
     [dict(fn='vqsub_s32', old='int64_t temp = (int64_t)N.val[i] - (int64_t)M.val[i];', new='double temp = (float)N.val[i] - (double)M.val[i];')],
     '''
int main()
{
    int32x2_t a = { { 16777217, 7 } }, b = { { 0, 5 } };
    int32x2_t r = vqsub_s32(a, b);
    CHECK(r.val[0] == 16777217);
    CHECK(r.val[1] == 2);
    return 0;
}''')
seed('c10-vqrshrun-ties-even', 'C10', 'a lane half-way between an even and the next odd result (1 >> 1, 5 >> 1)',
     'vqrshrun_n_s16 divides in float and rounds to nearest even (rintf) instead of adding the rounding constant',
     [dict(fn='vqrshrun_n_s16', old='int16_t temp = (v.val[i] + (1 << (n - 1))) >> n;', new='int16_t temp = (int16_t)rintf((float)v.val[i] / (float)(1 << n));')],
     '''
int main()
{
    int16x8_t a = { { 1, 2, 3, 4, 5, 6, 7, -3 } };
    uint8x8_t r = vqrshrun_n_s16(a, 1);
    CHECK(r.val[0] == 1);
    CHECK(r.val[1] == 1);
    CHECK(r.val[4] == 3);
    CHECK(r.val[7] == 0);
    return 0;
}''')
