"""Running the real library: replay of counterexamples and sampled (bounded) comparison with a contract."""
import math
import os
import random
import re
import struct
import subprocess
import z3
import engine as E
import fpeval
from engine import REPO, Setup, wrapper_text, lib_sources
from spec import vt, SC, Arg
from symex import Ctx, MASK

GXX = E.GXX
BASE = ['-std=gnu++11', '-I', REPO, '-w'] + E.VARIANT
MODES = {
    'plain': ['-O2', '-g'],
    'san': ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    # the same, with every argument object placed one element past the start of its block: only aligned for its element type
    'off': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', '-DVC_OFF'],
    # the argument objects move through every element-aligned offset within two pages, one step per call
    'page': ['-O2', '-g', '-DVC_PAGE'],
    'zero': ['-O0', '-ftrivial-auto-var-init=zero'],
    'pattern': ['-O0', '-ftrivial-auto-var-init=pattern'],
}
ENV = dict(os.environ, GLIBC_TUNABLES='glibc.malloc.tcache_count=0',     # blocks kept there count as in use
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=99')


def psize(p):
    if p.kind == 'vec':
        return vt(p.ty).size
    if p.kind in ('in', 'out'):
        return SC[p.ty][1] // 8 * p.count
    if p.kind == 'imm':
        return 4
    return SC[p.ty][1] // 8


def rsize(c):
    if c.ret == 'void':
        return 0
    n = SC[c.ret][1] // 8 if c.ret in SC else vt(c.ret).size
    return 2 * n if getattr(c, 'rel', False) else n


def call_args(c, buf, tag):
    """C++ lines that build the arguments of c from the bytes at buf, and the call expression"""
    L, call, post, free = [], [], [], []
    off = 0
    for p in c.params:
        n = psize(p)
        if p.kind in ('vec', 'in', 'out'):
            v = 'p%s_%s' % (tag, p.name)
            e = (vt(p.ty).w if p.kind == 'vec' else SC[p.ty][1]) // 8
            L.append('    %s* %s = (%s*)VC_ALLOC(%d, %d); memcpy((void*)%s, %s + %d, %d);' % (p.ty, v, p.ty, n, e, v, buf, off, n))
            call.append(v)
            post.append((v, n))
            free.append(v)
        else:
            L.append('    %s s%s_%s; memcpy(&s%s_%s, %s + %d, %d);' % (p.ty, tag, p.name, tag, p.name, buf, off, n))
            if p.kind == 'imm' and tag:
                L.append('    s%s_%s = %d + (int)((unsigned)s%s_%s %% %du);' % (tag, p.name, p.lo, tag, p.name, p.hi - p.lo + 1))
            call.append('s%s_%s' % (tag, p.name))
        off += n
    if c.ret != 'void':
        L.append('    %s* o%s_ = (%s*)malloc(%d); memset((void*)o%s_, 0, %d);' % (c.ret, tag, c.ret, rsize(c), tag, rsize(c)))
        call.append('o%s_' % tag)
        free.append('o%s_' % tag)
    return L, 'vc__%s(%s);' % (c.name, ', '.join(call)), post, free


def user_text(c):
    """the calling program; a caller in C is compiled on its own"""
    t = wrapper_text(c)
    return t if c.lang == 'cpp' else 'extern "C" %s;' % t[:t.index(' {')]


PAGE = '''#include <sys/mman.h>
static char* vc_pool() { static char* p = (char*)mmap(0, 64 * 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return p; }
static unsigned vc_step = %d, vc_slot;
static char* vc_page(unsigned e) { return vc_pool() + (vc_slot++ %% 16 * 4 + 2) * 8192 + vc_step * e %% 8192; }
#define VC_ALLOC(n, e) vc_page(e)
#define free(p) (void)(p)
#define VC_NEXT vc_step++, vc_slot = 0;'''


def driver_text(c, pre=(), pure=False, early=False, step=0):
    """A program that reads records of argument bytes, calls the real function on each and writes the outcome.
    pre: functions called, with pseudo-random arguments, before each call (call history);
    pure: compare the program's static storage before and after each call."""
    names = {c.name}
    pre = [x for x in pre if not (x.name in names or names.add(x.name))] if c not in pre else list(pre)
    total = sum(psize(p) for p in c.params)
    L = ['#include "neon_sim.h"', '#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <unistd.h>',
         '#ifdef VC_OFF', '#define VC_ALLOC(n, e) ((char*)malloc((n) + (e)) + (e))', '#define free(p) (void)(p)', '#elif defined VC_PAGE', PAGE % step, '#else',
         '#define VC_ALLOC(n, e) malloc(n)', '#endif', '#ifndef VC_NEXT', '#define VC_NEXT', '#endif',
         'extern "C" void vc_not_once() { fprintf(stderr, "an argument expression is not evaluated exactly once"); abort(); }' if getattr(c, 'once', False) else '',
         getattr(c, 'extra', '') or '', user_text(c)]
    L += [wrapper_text(x) for x in pre if x is not c]
    if pure:
        L.append('#include <malloc.h>\nextern "C" char __data_start, _end;')
    if pre:
        L.append('static unsigned char rnd_[4096]; static unsigned long long seed_ = 88172645463325252ull;')
        L.append('static const unsigned char* fill_() { for (int i = 0; i < 4096; i++) { seed_ ^= seed_ << 13; seed_ ^= seed_ >> 7; '
                 'seed_ ^= seed_ << 17; rnd_[i] = (unsigned char)(seed_ >> 24); } return rnd_; }')
    L += ['static int calls(int argc, char** argv);',
          # called while the program's static objects are initialised, before those of the library
          '__attribute__((constructor)) static void vc_early(int argc, char** argv, char**) { int r = calls(argc, argv); fflush(0); _exit(r); }',
          'int main() { return 0; }', 'static int calls(int argc, char** argv) {'] if early else ['int main(int argc, char** argv) {']
    L += [
          '  FILE* in = fopen(argv[1], "rb"); FILE* out = fopen(argv[2], "wb"); if (!in || !out) return 3;',
          '  unsigned char* rec = (unsigned char*)malloc(%d); unsigned char* res = (unsigned char*)malloc(%d);' % (total + 1, rsize(c) + total + 1),
          '  while (fread(rec, 1, %d, in) == %d) {' % (max(total, 1), max(total, 1))]
    for k, x in enumerate(pre):
        l, call, post, free = call_args(x, 'b%d_' % k, 'q%d' % k)
        L += ['    { const unsigned char* b%d_ = fill_();' % k] + l + ['    ' + call] + ['    free((void*)%s);' % f for f in free] + ['    }']
    l, call, post, free = call_args(c, 'rec', '')
    L += l
    if pure:
        L += ['    size_t gn_ = (size_t)(&_end - &__data_start); char* g_ = (char*)malloc(gn_); memcpy(g_, &__data_start, gn_);',
              '    size_t h_ = mallinfo2().uordblks; unsigned f_ = __builtin_ia32_stmxcsr() & 0xffc0;',
              '    ' + call,
              '    if ((__builtin_ia32_stmxcsr() & 0xffc0) != f_) { printf("the call changed the floating-point environment (rounding mode, masks)"); return 97; }',
              '    if (mallinfo2().uordblks != h_) { printf("the call keeps %d bytes of heap memory", (int)(mallinfo2().uordblks - h_)); return 97; }',
              '    for (size_t i = 0; i < gn_; i++) if (g_[i] != (&__data_start)[i]) { printf("the call changed the program\'s static storage"); return 97; }',
              '    free(g_);']
    elif c.imm():
        L.append('    try { %s } catch (...) { fprintf(stderr, "an exception leaves the function"); _exit(96); }' % call)
    else:
        L.append('    ' + call)
    w = 0
    if c.ret != 'void':
        L.append('    memcpy(res, (void*)o_, %d);' % rsize(c))
        w = rsize(c)
    for v, n in post:
        L.append('    memcpy(res + %d, (void*)%s, %d);' % (w, v, n))
        w += n
    L.append('    fwrite(res, 1, %d, out); fflush(out);' % w)
    for f in free:
        L.append('    free((void*)%s);' % f)
    L += ['    VC_NEXT', '  }', '  return 0;', '}']
    return '\n'.join(L) + '\n'


class Native:
    def __init__(self, work):
        self.work = work
        self.libs = {}

    def lib(self, mode):
        if mode == 'page':
            return self.lib('plain')
        if mode not in self.libs:
            objs = []
            for k, s in enumerate(lib_sources()):
                o = os.path.join(self.work, 'lib_%s_%d.o' % (mode, k))
                r = subprocess.run([GXX] + BASE + MODES[mode] + ['-c', s, '-o', o], capture_output=True, text=True)
                if r.returncode:
                    raise E.BuildError('g++ cannot compile %s:\n%s' % (s, r.stderr[:1500]))
                objs.append(o)
            self.libs[mode] = objs
        return self.libs[mode]

    def build_all(self):
        """compile the library in every mode, side by side"""
        ps = []
        for mode in MODES:
            if mode in self.libs or mode == 'page':
                continue
            objs = []
            for k, s in enumerate(lib_sources()):
                o = os.path.join(self.work, 'lib_%s_%d.o' % (mode, k))
                ps.append((s, subprocess.Popen([GXX] + BASE + MODES[mode] + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
                objs.append(o)
            self.libs[mode] = objs
        for s, p in ps:
            err = p.communicate()[1]
            if p.returncode:
                raise E.BuildError('g++ cannot compile %s:\n%s' % (s, err[:1500]))

    def driver(self, c, mode, pre=(), pure=False, early=False):
        """-> (executable | None, compiler/linker output)"""
        tag = '%s_%s%s%s' % (c.name, mode, '_pure' if pure else '_early' if early else '', '_h%d' % len(pre) if pre else '')
        src = os.path.join(self.work, 'drv_%s.cpp' % tag)
        exe = os.path.join(self.work, 'drv_' + tag)
        with open(src, 'w') as f:
            f.write(driver_text(c, pre, pure, early))
        more = []
        if c.lang == 'c':
            csrc = os.path.join(self.work, 'drv_%s.c' % tag)
            with open(csrc, 'w') as f:
                f.write('#include "neon_sim.h"\nvoid vc_not_once(void);\n%s\n' % wrapper_text(c))
            more = [csrc[:-2] + '.c.o']
            r = subprocess.run([E.c_compiler(GXX), '-std=gnu11'] + E.in_lang(BASE[1:], 'c') + MODES[mode] + ['-c', csrc, '-o', more[0]], capture_output=True, text=True)
            if r.returncode:
                return None, r.stderr
        r = subprocess.run([GXX] + BASE + MODES[mode] + [src] + more + self.lib(mode) + ['-o', exe], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        return exe, ''

    def run(self, exe, records, size_out, timeout=20):
        """-> (list of result records, return code or 'timeout', stderr)"""
        fi, fo = exe + '.in', exe + '.out'
        with open(fi, 'wb') as f:
            f.write(b''.join(records))
        if os.path.exists(fo):
            os.unlink(fo)
        try:
            r = subprocess.run([exe, fi, fo], capture_output=True, timeout=timeout, env=ENV, cwd=self.work)
            rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        data = open(fo, 'rb').read() if os.path.exists(fo) else b''
        n = size_out
        return [data[i:i + n] for i in range(0, len(data) - n + 1, n)] if n else [], rc, err


# ------------------------------------------------------------- input handling
def layout(c):
    """[(param, [(var name, width)])]"""
    out = []
    for p in c.params:
        if p.kind == 'vec':
            t = vt(p.ty)
            out.append((p, [('%s.%d' % (p.name, i), t.w) for i in range(t.total)]))
        elif p.kind in ('in', 'out'):
            out.append((p, [('%s.%d' % (p.name, i), SC[p.ty][1]) for i in range(p.count)]))
        elif p.kind == 'imm':
            out.append((p, [(p.name, 32)]))
        else:
            out.append((p, [(p.name, SC[p.ty][1])]))
    return out


def pack(c, inp):
    b = b''
    for p, vs in layout(c):
        for n, w in vs:
            b += (inp.get(n, 0) & MASK(w)).to_bytes(w // 8, 'little')
    return b


def out_size(c):
    return rsize(c) + sum(psize(p) for p in c.params if p.kind in ('vec', 'in', 'out'))


_spec_cache = {}


def spec_terms(c, imm):
    key = (c.name, tuple(sorted(imm.items())))
    if key not in _spec_cache:
        ctx = Ctx([])
        su = Setup(c, ctx, imm)
        _spec_cache[key] = (su, c.post(su.env))
    return _spec_cache[key]


def expected(c, inp):
    """{'ret': [lane values], ptr: [...]} on concrete inputs; None when the call is outside the contract"""
    imm = {}
    for p in c.imm():
        v = inp.get(p.name, 0)
        if v >= 1 << 31:
            v -= 1 << 32
        if not (p.lo <= v <= p.hi or v in p.opt):
            return None
        imm[p.name] = v
    su, exp = spec_terms(c, imm)
    env = {n: inp.get(n, 0) for n in su.vars}
    sub = [(v, z3.BitVecVal(inp.get(n, 0), w)) for n, (v, w) in su.vars.items()]
    return {k: [e.eval(env, sub) for e in es] for k, es in exp.items()}


def is_nan(v, w):
    if w == 32:
        return v >> 23 & 255 == 255 and v & 0x7fffff != 0
    return v >> 52 & 2047 == 2047 and v & ((1 << 52) - 1) != 0


def same_lane(e, got, w):
    if isinstance(e, list):
        return any(same_lane(x, got, w) for x in e)
    if e == 'nan':
        return is_nan(got, w)
    return e == got


def unpack(rec, off, n, w):
    k = w // 8
    return [int.from_bytes(rec[off + i * k:off + (i + 1) * k], 'little') for i in range(n)]


def compare(c, inp, rec):
    """None or a description of the first difference between the call's outcome and the contract"""
    rel = getattr(c, 'rel', False)
    exp = expected(c, inp) if not rel else {}
    if exp is None:
        return None
    off = 0
    if rel:
        w = SC[c.ret][1] if c.ret in SC else vt(c.ret).w
        n = rsize(c) * 4 // w
        got = unpack(rec, 0, 2 * n, w)
        k = SC[c.ret][0] if c.ret in SC else vt(c.ret).k
        for i in range(n):
            x, y = got[i], got[n + i]
            if x != y and not (k == 'f' and is_nan(x, w) and is_nan(y, w)):
                return 'lane %d: the two sides differ: 0x%0*x and 0x%0*x' % (i, w // 4, x, w // 4, y)
        off = rsize(c)
    elif c.ret != 'void':
        w = SC[c.ret][1] if c.ret in SC else vt(c.ret).w
        es = exp['ret']
        got = unpack(rec, 0, len(es), w)
        for i, (e, g) in enumerate(zip(es, got)):
            if not same_lane(e, g, w):
                return 'result lane %d: contract requires %s, real code returned 0x%0*x' % (i, show(e, w), w // 4, g)
        off = rsize(c)
    for p, vs in layout(c):
        if p.kind not in ('vec', 'in', 'out'):
            continue
        w = vs[0][1]
        got = unpack(rec, off, len(vs), w)
        off += psize(p)
        want = exp[p.name] if p.kind == 'out' else [inp.get(n, 0) & MASK(w) for n, _ in vs]
        for i, (e, g) in enumerate(zip(want, got)):
            if not same_lane(e, g, w):
                return '%s[%d] after the call: contract requires %s, real code left 0x%0*x' % (p.name, i, show(e, w), w // 4, g)
    return None


def show(e, w):
    if isinstance(e, list):
        return ' or '.join(show(x, w) for x in e)
    return 'NaN' if e == 'nan' else '0x%0*x' % (w // 4, e)


F32S = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc00001, 1, 0x80000001, 0x007fffff,
        0x00800000, 0x7f7fffff, 0xff7fffff, 0x4f000000, 0xcf000000, 0x4effffff, 0x4f7fffff, 0x4f800000, 0x3f000000, 0x3fc00000,
        0x40200000, 0xbf000000, 0xcf000001, 0x00200000, 0x001fffff, 0x00400000, 0x7e800000, 0x7e7fffff, 0x7f000000, 0x4b000001]
F64S = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x000fffffffffffff,
        0x7fefffffffffffff, 0xbff0000000000000, 0x4000000000000000]


def rnd_lane(r, k, w):
    if k == 'f':
        x = r.random()
        if x < 0.3:
            return r.choice(F32S if w == 32 else F64S)
        if x < 0.5:      # few significant bits, any exponent, the smallest ones often
            e = r.choice([r.randint(-149, 104), -149, -149, -126, r.randint(-6, 6)]) if w == 32 else r.choice([r.randint(-1074, 970), -1074, -1074, -1022, r.randint(-6, 6)])
            return fpeval.f_bits(math.ldexp(r.choice([1, -1]) * (r.getrandbits(r.choice([2, 4, 8, 12])) | r.getrandbits(1)), e), w)
        if x < 0.7:
            v = r.choice([r.uniform(-4, 4), r.uniform(-1e6, 1e6), r.randint(-20, 20) / 2.0, r.uniform(-5e9, 5e9)])
            return struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
        return r.getrandbits(w)
    x = r.random()
    if x < 0.35:
        return r.choice([0, 1, MASK(w), 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, MASK(w) - 1, 1 << (w // 2),
                         (1 << (w // 2)) - 1, (1 << w // 2) + 1, 2, 3])
    if x < 0.5:
        return (1 << r.randrange(w)) & MASK(w)
    if x < 0.65:
        return r.randrange(0, 40) & MASK(w)
    return r.getrandbits(w)


def relate(r, k, w, v, u=None):
    """a value in a relation to v (and u) that arithmetic is sensitive to"""
    if k == 'f':
        rd = fpeval.f32 if w == 32 else float
        x = fpeval.bits_f(v, w)
        y = x
        if u is not None and r.random() < 0.5:
            try:
                y = -rd(x * fpeval.bits_f(u, w))
            except OverflowError:
                y = x
        else:
            m = r.choice([1, -1, 3, 5, 7, 2, 0.5, r.randint(1, 400) | 1, r.randint(1, 1 << 12) | 1]) * 2.0 ** r.choice([0, 0, -1, 1, -24, 24, r.randint(-30, 30)])
            if r.random() < 0.25:      # a result half-way between two subnormal numbers
                m = (2 * r.randrange(1 << r.randint(1, 10)) + 1) * (2.0 ** -150 if w == 32 else 2.0 ** -1074)
            y = rd(x * m)
            if r.random() < 0.3 and m:
                y = rd(x / m)
        b = fpeval.f_bits(y, w)
        if r.random() < 0.3 and not is_nan(b, w):
            b = (b + r.choice([1, -1])) & MASK(w)
        return b
    m = MASK(w)
    return r.choice([v, ~v & m, -v & m, v + 1 & m, v - 1 & m, (m - v) & m, ((m >> 1) - v) & m, ((1 << (w - 1)) - v) & m, v ^ (1 << (w - 1)),
                     (v << 1) & m, v >> 1])


def random_input(c, r, imm=None):
    inp = random_base(c, r, imm)
    ps = [(p, vs) for p, vs in layout(c) if p.kind != 'imm']
    if len(ps) > 1 and r.random() < 0.5:
        for p, vs in r.sample(ps, 1):
            k = vt(p.ty).k if p.kind == 'vec' else SC[p.ty][0]
            o = [q for q, us in ps if q is not p and us[0][1] == vs[0][1] and (vt(q.ty).k if q.kind == 'vec' else SC[q.ty][0]) == k]
            if not o:
                continue
            ov = [us for q in r.sample(o, min(2, len(o))) for a, us in ps if a is q]
            for i, (n, w) in enumerate(vs):
                if r.random() < 0.7:
                    inp[n] = relate(r, k, w, inp[ov[0][i % len(ov[0])][0]], inp[ov[1][i % len(ov[1])][0]] if len(ov) > 1 else None)
    return inp


def random_base(c, r, imm=None):
    inp = {}
    for p, vs in layout(c):
        k = vt(p.ty).k if p.kind == 'vec' else SC[p.ty][0]
        same = r.random() < 0.15
        first = None
        for n, w in vs:
            if p.kind == 'imm':
                inp[n] = imm if imm is not None else r.randint(p.lo, p.hi)
            else:
                v = rnd_lane(r, k, w)
                if same:
                    first = v if first is None else first
                    v = first
                inp[n] = v
    return inp


def from_words(c, r, inp, words):
    """the input with some lanes replaced by numbers of the function's own text and their neighbours"""
    inp = dict(inp)
    p1 = r.choice([0.1, 0.5])
    for p, vs in layout(c):
        if p.kind == 'imm':
            continue
        k = vt(p.ty).k if p.kind == 'vec' else SC[p.ty][0]
        for n, w in vs:
            if r.random() < p1:
                t, v = r.choice(words)
                if t == 'f':
                    if k != 'f':
                        if v != v or abs(v) > 1e30:
                            continue
                        v = int(v) & MASK(w)
                    else:
                        v = fpeval.f_bits(fpeval.f32(v) if w == 32 else v, w)
                elif k == 'f' and r.random() < 0.7:
                    v = fpeval.f_bits(fpeval.f32(float(v)) if w == 32 else float(v), w)
                inp[n] = (v + r.choice([0, 0, 0, 0, 1, -1])) & MASK(w)
    return inp


def crash_text(rc, err):
    if rc == 'timeout':
        return 'the call does not return within the time limit'
    m = re.search(r'(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*)', err)
    if m:
        return m.group(1)
    return 'the call terminates the program (exit status %s) %s' % (rc, err[:300])


def run_each(nat, exe, c, ins, timeout=20, limit=20):
    """one record per run after the first crash; -> [(record | None, rc, stderr)]"""
    recs, rc, err = nat.run(exe, [pack(c, i) for i in ins], out_size(c), timeout)
    out = [(r, 0, '') for r in recs]
    if out_size(c) == 0:
        out = [(b'', 0, '')] * len(ins) if rc == 0 else []
    k = len(out)
    if k < len(ins) and (rc != 0 or out_size(c)):
        out.append((None, rc, err))
        k += 1
        for i in ins[k:k + limit]:
            recs, rc, err = nat.run(exe, [pack(c, i)], out_size(c), timeout)
            out.append((recs[0], 0, err) if recs and rc == 0 else (None, rc, err))
    return out


def in_contract(c, inp):
    for p in c.imm():
        v = inp.get(p.name, 0)
        v -= (v >= 1 << 31) << 32
        if not p.lo <= v <= p.hi:
            return v in p.opt and 'opt'
    return True


def check_outcome(c, inp, rec, rc, err):
    """None, or what the outcome of one call breaks"""
    ok = in_contract(c, inp)
    if ok is False:
        if rec is not None:
            return 'the immediate is out of range, yet the call returns normally'
        if rc == 99 or rc in (-11, -7, 'timeout'):
            return 'the immediate is out of range and, instead of an abort, ' + crash_text(rc, err)
        if rc != -6:
            return 'the immediate is out of range and, instead of an abort, ' + ('an exception leaves the function' if rc == 96 else crash_text(rc, err))
        return None
    if rec is None:
        if ok == 'opt' and rc in (-6, 1):
            return None
        return crash_text(rc, err)
    return compare(c, inp, rec)


def try_inputs(nat, c, ins, mode, pre=()):
    """-> (difference | None, input, driver source)"""
    exe, err = nat.driver(c, mode, pre)
    if exe is None:
        return 'the call does not compile or link: ' + first_error(err), {}, None
    for i, (rec, rc, err) in zip(ins, run_each(nat, exe, c, ins)):
        d = check_outcome(c, i, rec, rc, err)
        if d:
            return d, i, driver_text(c, pre)
    return None, None, None


def try_pages(nat, c, ins):
    """the calls of ins, again and again, with the pointer arguments at every element-aligned offset within two pages"""
    ps = [p for p in c.params if p.kind in ('in', 'out')]
    ins = [i for i in ins if in_contract(c, i) is True]
    if not ps or not ins:
        return None, None, None
    n = 8192 // min(SC[p.ty][1] // 8 for p in ps)
    exe, err = nat.driver(c, 'page')
    if exe is None:
        return None, None, None
    ins = [ins[k % len(ins)] for k in range(n)]
    for k, (i, (rec, rc, err)) in enumerate(zip(ins, run_each(nat, exe, c, ins, limit=0))):
        d = check_outcome(c, i, rec, rc, err)
        if d:
            return d + ' (the pointer is %d bytes into its page)' % (k * 8192 // n % 4096), i, '#define VC_PAGE\n' + driver_text(c, step=k)
    return None, None, None


def first_error(err):
    m = re.search(r'(undefined reference to [^\n]*|error: [^\n]*)', err)
    return m.group(1) if m else err[:300]


def differential(nat, c, ins):
    """the outcome with automatic storage pre-filled with zeros and with a pattern must be the same"""
    a, e1 = nat.driver(c, 'zero')
    b, e2 = nat.driver(c, 'pattern')
    if a is None or b is None:
        return None, None
    ins = [i for i in ins if in_contract(c, i) is True]
    for i, x, y in zip(ins, run_each(nat, a, c, ins), run_each(nat, b, c, ins)):
        if x[0] != y[0]:
            return 'the outcome depends on the previous content of automatic storage (zero-filled: %s, pattern-filled: %s)' % (
                x[0].hex() if x[0] is not None else 'terminates', y[0].hex() if y[0] is not None else 'terminates'), i
    return None, None


def purity(nat, c, ins):
    exe, err = nat.driver(c, 'plain', pure=True)
    if exe is None:
        return None, None
    for i in [i for i in ins if in_contract(c, i) is True][:20]:
        fi, fo = exe + '.in', exe + '.out'
        with open(fi, 'wb') as f:
            f.write(pack(c, i))
        try:
            r = subprocess.run([exe, fi, fo], capture_output=True, timeout=20, env=ENV, cwd=nat.work)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 97:
            return r.stdout.decode() or 'the call changed the program\'s static storage', i
        if r.returncode == 0 and (r.stdout or r.stderr):
            return 'a call that returns normally wrote to the program\'s output: %r' % (r.stdout + r.stderr)[:80], i
    return None, None


UBK = {'overflow', 'shift', 'divzero', 'fptoint', 'unreachable', 'mem-read', 'mem-write', 'index', 'align'}


def confirm(nat, c, kinds, models, seed, n=400, pre=()):
    """Look for a concrete call of the real code that shows one of the failed obligations.
    -> None | {'how', 'what', 'input', 'driver'}"""
    r = random.Random('%s/%s' % (seed, c.name))
    models = [dict(m) for m in models]
    rnd = [random_input(c, r) for _ in range(n)]
    exe, err = nat.driver(c, 'plain')
    if exe is None:
        return {'how': 'g++ -O2', 'what': 'the call does not compile or link: ' + first_error(err), 'input': {}, 'driver': driver_text(c)}
    base = {k.replace('imm-', '') for k in kinds}
    steps = []
    if kinds & {'post', 'frame', 'noabort', 'imm-abort', 'link'} or base & UBK:
        steps += [('g++ -O2', lambda: try_inputs(nat, c, models, 'plain'))]
    if base & UBK or 'post' in kinds or 'frame' in kinds:
        steps += [('g++ -O1 -fsanitize=address,undefined', lambda: try_inputs(nat, c, models, 'san'))]
    if 'align' in base or base & {'post', 'frame', 'mem-read', 'mem-write', 'noabort'}:
        steps += [('g++ -O1 -fsanitize=address,undefined', lambda: try_inputs(nat, c, models + rnd[:20], 'off'))]
    if base & {'init', 'uninit', 'post'}:
        steps += [('g++ -O0 -ftrivial-auto-var-init', lambda: differential(nat, c, models + rnd[:50]) + (driver_text(c),))]
    if kinds & {'post', 'frame', 'noabort'} or base & UBK:
        steps += [('g++ -O2, pointer arguments at every offset within a page', lambda: try_pages(nat, c, (models + rnd)[:60]))]
    if 'pure' in kinds:
        steps += [('static storage compared around the call', lambda: purity(nat, c, models + rnd[:20]) + (driver_text(c, pure=True),))]
    if kinds & {'post', 'frame', 'noabort', 'pure'} or base & UBK:
        if models:
            steps += [('g++ -O2, repeated calls', lambda: try_inputs(nat, c, (models * 3 + rnd)[:n], 'plain'))]
        steps += [('g++ -O2, sampled calls', lambda: try_inputs(nat, c, rnd, 'plain'))]
        for x in [c] + list(pre):
            steps += [('g++ -O2, each call after a call of %s' % x.name, lambda x=x: try_inputs(nat, c, (models + rnd)[:100], 'plain', (x,)))]
    if base & UBK:
        steps += [('g++ -fsanitize=address,undefined, sampled calls', lambda: try_inputs(nat, c, rnd, 'san'))]
    for how, f in steps:
        d, i, drv = f()
        if d:
            return {'how': how, 'what': d, 'input': i, 'driver': drv}
    return None


STARTUP = '''#include <stdio.h>
#include <signal.h>
#include <locale.h>
#include <string.h>
#include <unistd.h>
#include <exception>
#include <new>
struct Libc { Libc() { h = std::get_terminate(); n = std::get_new_handler(); } std::terminate_handler h; std::new_handler n; };
static Libc libc_ __attribute__((init_priority(101)));
int main() {
  unsigned short cw; __asm__("fnstcw %0" : "=m"(cw));
  printf("mxcsr %x x87 %x locale %s\\n", __builtin_ia32_stmxcsr() & 0xffc0, cw, setlocale(LC_ALL, 0));
  for (int s = 1; s < 32; s++) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(s, 0, &a); printf("signal %d %s\\n", s, a.sa_handler == SIG_DFL ? "default" : a.sa_handler == SIG_IGN ? "ignored" : "handled"); }
  printf("terminate handler %s, new handler %s\\n", std::get_terminate() == libc_.h ? "as it was" : "changed", std::get_new_handler() == libc_.n ? "as it was" : "changed");
  fflush(0); _exit(0);
}
'''


def startup(nat):
    """the state in which main finds the process, with the library and without -> None | what differs"""
    src = os.path.join(nat.work, 'startup.cpp')
    with open(src, 'w') as f:
        f.write(STARTUP)
    got = []
    for k, objs in enumerate(([], nat.lib('plain'))):
        exe = os.path.join(nat.work, 'startup%d' % k)
        r = subprocess.run([GXX] + BASE + [src] + objs + ['-o', exe], capture_output=True, text=True)
        if r.returncode:
            return None
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=20, env={'PATH': '/usr/bin:/bin'}, cwd=nat.work, stdin=subprocess.DEVNULL)
            got.append(['exit %d' % r.returncode] + r.stdout.split('\n') + ['stderr: ' + x for x in r.stderr.split('\n')])
        except subprocess.TimeoutExpired:
            got.append(['does not end'])
    new = [x for x in got[1] if x not in got[0]]
    return None if got[0] == got[1] else 'before main the library changes the process: ' + '; '.join(new or ['output is missing'])[:300]


def early(nat, c, n, seed):
    """calls made during static initialisation, for a function that reads what dynamic initialisation of the library computes"""
    r = random.Random('%s/%s/early' % (seed, c.name))
    ins = [x for x in (random_input(c, r) for _ in range(n)) if in_contract(c, x) is True]
    exe, err = nat.driver(c, 'plain', early=True)
    if exe is None:
        return 0, None
    for k, (i, x) in enumerate(zip(ins, run_each(nat, exe, c, ins))):
        d = check_outcome(c, i, *x)
        if d:
            return k, {'how': 'called during the initialisation of static objects, before the library\'s own', 'what': d, 'input': i, 'driver': driver_text(c, early=True)}
    return len(ins), None


def standin(nat, c, kinds, n, seed, hints=(), words=()):
    """Bounded comparison of the real function with its contract, for what the verifier left undecided.
    -> (inputs tried, None | finding like confirm's)"""
    r = random.Random('%s/%s/standin' % (seed, c.name))
    ins = [random_input(c, r) for _ in range(n)]
    if words:
        ins = [from_words(c, r, i, words) if k % 3 == 1 else i for k, i in enumerate(ins)]
    base = {k.replace('imm-', '') for k in kinds}
    hints = [dict(random_input(c, r), **h) for h in hints]
    bad = []
    if any(k.startswith('imm-') for k in kinds):
        for p in c.imm():
            for v in (p.lo - 1, p.hi + 1, p.hi + 2, 2 * p.hi + 1, -2147483648, 2147483647, 255, 256, -128, 64, 128):
                if not (p.lo <= v <= p.hi or v in p.opt):
                    bad.append(random_input(c, r, v))
    tried = 0
    todo = []
    if kinds & {'post', 'frame', 'noabort', 'imm-abort'}:
        todo.append(('plain', ins + bad, lambda i, x: check_outcome(c, i, *x) if 'post' in kinds or in_contract(c, i) is False or x[0] is None else None))
    if base & UBK:
        todo.append(('san', ins + bad, lambda i, x: check_outcome(c, i, *x) if x[0] is None or in_contract(c, i) is False else None))
    todo = [(m, [h for h in hints], f, 8) for m, xs, f in todo if hints] + [(m, xs, f, 60) for m, xs, f in todo]
    for mode, xs, f, limit in todo:
        exe, err = nat.driver(c, mode)
        if exe is None:
            return tried, {'how': 'g++', 'what': 'the call does not compile or link: ' + first_error(err), 'input': {}, 'driver': driver_text(c)}
        for i, x in zip(xs, run_each(nat, exe, c, xs, limit, 40)):
            tried += 1
            d = f(i, x)
            if d:
                return tried, {'how': ' '.join(MODES[mode]), 'what': d, 'input': i, 'driver': driver_text(c)}
    if kinds & {'post', 'frame', 'noabort'}:
        d, i, drv = try_pages(nat, c, hints + ins[:60])
        tried += 1
        if d:
            return tried, {'how': 'pointer arguments at every offset within a page', 'what': d, 'input': i, 'driver': drv}
    if base & {'init', 'uninit'}:
        d, i = differential(nat, c, ins[:60])
        tried += 60
        if d:
            return tried, {'how': '-ftrivial-auto-var-init', 'what': d, 'input': i, 'driver': driver_text(c)}
    if 'pure' in kinds:
        d, i = purity(nat, c, ins[:20])
        tried += 20
        if d:
            return tried, {'how': 'static storage compared around the call', 'what': d, 'input': i, 'driver': driver_text(c, pure=True)}
    return tried, None
