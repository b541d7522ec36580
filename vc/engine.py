"""Verification of one function against its contract: generates and discharges all obligations."""
import os
import re
import subprocess
import time
import z3
import builtins_ir as BI
import contracts
import fpx
import irparse
import ring
import symex as S
from irparse import Unsupported
from spec import vt, SC, Arg, R, modw
from symex import Ctx, Exec, State, Ptr, FV, bv, norm, MASK, zb, b_and, b_not, is_t, is_f

REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
CFLAGS = ['-std=gnu++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-S', '-emit-llvm', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything', '-Winteger-overflow',
          '-ferror-limit=0', '-fno-color-diagnostics']
# Ways to compile the project other than the one the build uses (g++ -O2, C++11, assertions on); those in which the project's own text
# differs are verified too, each in a run of its own (check.py) with VC_VARIANT set to the flags.
VARIANTS = {'release (-DNDEBUG)': '-DNDEBUG', 'unoptimised (-O0)': '-U__OPTIMIZE__', 'clang': '--clang', 'C++20, C17': '-std=gnu++20',
            'AVX2': '-mavx2 -mfma -ffp-contract=off'}
VARIANT = os.environ.get('VC_VARIANT', '').split()
AS_CLANG = '--clang' in VARIANT
VARIANT = [x for x in VARIANT if x != '--clang']
CFLAGS += VARIANT


class BuildError(Exception):
    pass


# ------------------------------------------------------------------- build
def wrapper_text(c):
    args, call = [], []
    for p in c.params:
        if p.kind in ('vec',):
            args.append('const %s* %s' % (p.ty, p.name))
            call.append('*' + p.name)
        elif p.kind == 'in':
            args.append('const %s* %s' % (p.ty, p.name))
            call.append(p.name)
        elif p.kind == 'out':
            args.append('%s* %s' % (p.ty, p.name))
            call.append(p.name)
        else:
            args.append('%s %s' % (p.ty, p.name))
            call.append(p.name)
    if c.ret != 'void':
        args.append('%s* out_' % c.ret)
    body = getattr(c, 'body', None)
    if body is None:
        once = getattr(c, 'once', False)
        if once:        # arguments that are not objects, and whose evaluation has an effect
            ev = [k for k, p in enumerate(c.params) if p.kind != 'imm']
            for k in ev:
                v = call[k] if c.lang == 'c' or c.params[k].kind != 'vec' else '%s(%s)' % (c.params[k].ty, call[k])
                call[k] = '(n_ += %d, %s)' % (16 ** k, v)
        e = '%s(%s)' % (c.calls, ', '.join(call))
        body = e + ';' if c.ret == 'void' else '*out_ = %s;' % e
        if once:
            body = 'unsigned n_ = 0; %s if (n_ != %uu) vc_not_once();' % (body, sum(16 ** k for k in ev))
    return '%svoid vc__%s(%s) { %s }' % ('' if c.lang == 'c' else 'extern "C" ', c.name, ', '.join(args), body)


def user_source(cs):
    lines = ['#include "neon_sim.h"']
    idx = {}
    if any(getattr(c, 'once', False) for c in cs):
        lines.append('void vc_not_once(void);' if cs[0].lang == 'c' else 'extern "C" void vc_not_once();')
    for c in cs:
        lines.append(wrapper_text(c).replace('\n', ' '))
        idx[len(lines)] = c.name
    return '\n'.join(lines) + '\n', idx


# ------------------------------------------------- the text g++ sees
GXX = '/usr/bin/g++' if os.path.exists('/usr/bin/g++') else 'g++'
if AS_CLANG:
    GXX = CLANG
MARK = re.compile(r'# \d+ "([^"]*)"')


def own_text(text, own):
    """the project's lines of a preprocessed text (-E -dI), line markers and system includes kept"""
    out, mine, at = [], False, REPO
    for ln in text.split('\n'):
        m = MARK.match(ln)
        if m:
            mine = any(m.group(1).startswith(p) for p in own)
            if mine:
                at = os.path.dirname(m.group(1))
                out.append(re.sub(r'("[^"]*").*', r'\1', ln))      # no include-stack flags
        elif mine:
            m = re.match(r'#include(?:_next)? "([^"]*)"', ln)
            if not (m and any(os.path.exists(os.path.join(x, m.group(1))) for x in (REPO, at))):
                out.append(ln.replace(' /* clang -E -dI */', ''))
    return out


PROMISE = re.compile(r'(?:__)?(const|pure|noreturn|malloc|returns_nonnull|assume_aligned|alloc_size|optimize|target|target_clones|simd|leaf)(?:__)?$')
TUNES = {'optimize', 'target', 'target_clones', 'simd', 'malloc', 'returns_nonnull', 'assume_aligned', 'alloc_size'}


def promises(text):
    """attributes by which a declaration promises the caller's compiler something: {function: {attribute}}, and what
    changes the meaning of code for g++ alone (attributes, pragmas, restrict)"""
    text = re.sub(r'^# .*$', '', text, flags=re.M)
    text = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', text)
    out, loose = {}, set()
    for m in re.finditer(r'#\s*pragma\s+((?:GCC\s+(?:optimize|target|push_options|ivdep|unroll)|STDC|float_control|clang|omp)\b[^\n]*)', text):
        loose.add('pragma ' + m.group(1).strip()[:40])
    if re.search(r'\b__restrict(__)?\b', text):
        loose.add('restrict')
    for m in re.finditer(r'__attribute(?:__)?\s*\(\(|\[\[|\b_Noreturn\b', text):
        i, d = m.start(), 0
        names = set()
        j = m.end()
        if m.group(0) == '_Noreturn':
            names = {'noreturn'}
        else:
            d = 2
            while j < len(text) and d:
                d += (text[j] in '([') - (text[j] in ')]')
                j += 1
            for w in re.findall(r'\w+', text[m.end():j]):
                k = PROMISE.match(w)
                if k:
                    names.add(k.group(1))
        if not names:
            continue
        a = max(text.rfind(c, 0, i) for c in ';{}') + 1
        e = min([x for x in (text.find(c, j) for c in ';{') if x >= 0] or [len(text)])
        st = re.sub(r'__attribute(?:__)?\s*\(\((?:[^()]|\([^()]*\))*\)\)|\[\[[^]]*\]\]', ' ', text[a:e])
        f = re.search(r'(\w+)\s*\(', st)
        fn = f.group(1) if f else '?'
        out.setdefault(fn, set()).update(names)
        loose |= {x for x in names if x in TUNES}
        if names & {'const', 'pure', 'noreturn'} and fn not in contracts.ALL:
            loose.add('/'.join(sorted(names & {'const', 'pure', 'noreturn'})) + ' ' + fn)
    return out, loose


def broken_promise(c, names):
    """what a caller's compiler may do wrong because of the attributes of function c"""
    if 'noreturn' in names:
        return 'is declared noreturn and returns'
    if 'const' in names and any(p.kind in ('in', 'out') for p in c.params):
        return 'is declared const and accesses memory through its argument'
    if 'pure' in names and any(p.kind == 'out' for p in c.params):
        return 'is declared pure and stores'
    return None


def c_compiler(cxx):
    return cxx.replace('clang++', 'clang') if 'clang++' in cxx else cxx.replace('g++', 'gcc')


def in_lang(flags, lang):
    return [x.replace('-std=gnu++20', '-std=gnu17') if lang == 'c' else x for x in flags]


def variants(work):
    """[(name, flags)] of the ways to compile the project in which its own text is not what the build sees"""
    if os.environ.get('VC_VARIANT') is not None:
        return []
    hdr = os.path.join(work, 'hdr.cpp')
    with open(hdr, 'w') as f:
        f.write('#include "neon_sim.h"\n')
    cpu = set(re.findall(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M)[0].split()) if os.path.exists('/proc/cpuinfo') else set()
    own = [os.path.realpath(REPO) + '/', REPO.rstrip('/') + '/', hdr]
    todo = [(f, 'cpp') for f in lib_sources()] + [(hdr, 'cpp'), (hdr, 'c')]
    ps = {}
    for name, flags in [('', '')] + list(VARIANTS.items()):
        if '-mavx2' in flags and not {'avx2', 'fma'} <= cpu:
            continue
        for f, lang in todo:
            cc = CLANG if '--clang' in flags else GXX
            cmd = [cc, '-std=gnu++11'] if lang == 'cpp' else [c_compiler(cc), '-std=gnu11', '-x', 'c']
            ps[name, f, lang] = subprocess.Popen(cmd + ['-O2', '-fPIC'] + in_lang([x for x in flags.split() if x != '--clang'], lang) + ['-I', REPO, '-E', '-dI', f],
                                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    text = {k: tokens(own_text(p.communicate()[0], own)) for k, p in ps.items()}
    rc = {k: p.returncode for k, p in ps.items()}
    return [(n, fl) for n, fl in VARIANTS.items() if any(k[0] == n and rc[k] == 0 and text[k] != text[('',) + k[1:]] for k in text)]


def tokens(lines):
    return re.findall(r'"(?:\\.|[^"\\])*"|\w+|[^\w\s]', '\n'.join(x for x in lines if x[:2] != '# '))


def as_gcc(src, work, lang='cpp', force=False, seen=None):
    """The project is built with g++.  Where its own text, after preprocessing, differs between g++ and clang
    (conditionals on compiler macros), clang is given the text g++ sees.  -> (source, note)"""
    own = [os.path.realpath(REPO) + '/', REPO.rstrip('/') + '/', src]
    std = ['-std=gnu++11'] if lang == 'cpp' else ['-std=gnu11', '-x', 'c']
    gx = [GXX if lang == 'cpp' else c_compiler(GXX), '-O2', '-fPIC']
    cl = [CLANG if lang == 'cpp' else CLANG.replace('clang++', 'clang'), '-O1', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-ffp-contract=off']
    ps = [subprocess.Popen(c + std + in_lang(VARIANT, lang) + ['-I', REPO, '-E', '-dI', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for c in (gx, cl)]
    (g, _), (c, _) = [p.communicate() for p in ps]
    if ps[0].returncode:
        return src, None          # reported by the compilation proper
    g = own_text(g, own)
    if seen is not None:
        seen.append('\n'.join(g))
    if not force and not os.environ.get('VC_GCC_VIEW') and ps[1].returncode == 0 and tokens(g) == tokens(own_text(c, own)):
        return src, None
    f = os.path.join(work, 'gcc_view_%s.%s' % (re.sub(r'\W', '_', os.path.basename(src)), lang))
    with open(f, 'w') as o:
        o.write('\n'.join(g))
    return f, '%s: text conditional on the compiler taken as g++ sees it' % os.path.basename(src)


def bodies(text):
    """[(start, end)] of the outermost brace blocks that are function bodies, in preprocessed text"""
    out, st, i, n, last = [], [], 0, len(text), ''
    while i < n:
        ch = text[i]
        if ch == '#' and (i == 0 or text[i - 1] == '\n'):
            i = text.find('\n', i)
            if i < 0:
                break
            continue
        if ch in '"\'':
            j = i + 1
            while j < n and text[j] != ch:
                j += 2 if text[j] == '\\' else 1
            i, last = j + 1, 'x'
            continue
        if ch == '{':
            head = text[max(text.rfind(c, 0, i) for c in ';{}') + 1:i]
            st.append((i, '(' in head and not re.search(r'\b(struct|class|union|enum|namespace)\b[^()]*$', head) and all(not f for _, f in st)))
        elif ch == '}' and st:
            b, f = st.pop()
            if f:
                out.append((b, i + 1))
        i += 1
    return out


def without_rejected(src, work, out):
    """clang rejects the source: compile it without the functions it rejects -> (their names) or None"""
    f = as_gcc(src, work, force=True)[0]
    t = 'extern "C" void vc_rejected(void);' + '\n'.join('' if x[:2] == '# ' else x for x in open(f).read().split('\n'))
    gone = []
    for _ in range(4):
        with open(f, 'w') as o:
            o.write(t)
        r = subprocess.run([CLANG] + CFLAGS + ['-I', REPO, f, '-o', out], capture_output=True, text=True)
        if r.returncode == 0:
            return gone
        lines = {int(m.group(1)) for m in re.finditer(r'%s:(\d+):\d+: (?:fatal )?error' % re.escape(os.path.basename(f)), r.stderr)}
        cut = []
        for b, e in bodies(t):
            k = t.count('\n', 0, b) + 1
            head = t[max(t.rfind(c, 0, b) for c in ';}') + 1:b]
            k0 = k - head.strip().count('\n')
            if any(k0 <= x <= k + t.count('\n', b, e) for x in lines):
                cut.append((b, e, head))
        if not cut:
            return None
        for b, e, head in reversed(cut):
            m = re.findall(r'(\w+)\s*\(', head)
            gone.append(m[0] if m else '?')
            t = t[:b] + '{ vc_rejected(); __builtin_unreachable(); ' + '\n' * t.count('\n', b, e) + '}' + t[e:]
    return None


def compile_user(cs, work, lang='cpp', tag=''):
    """-> (path of the IR, {name: first compiler message} for wrappers the header does not support)"""
    bad = {}
    cmd = [CLANG] + CFLAGS if lang == 'cpp' else [CLANG.replace('clang++', 'clang')] + [x for x in CFLAGS if not x.startswith('-std=')] + ['-std=gnu11', '-x', 'c'] + [x for x in in_lang(VARIANT, 'c') if x.startswith('-std=')]
    for _ in range(3):
        src, idx = user_source([c for c in cs if c.name not in bad])
        f = os.path.join(work, 'user' + tag + '.' + lang)
        with open(f, 'w') as o:
            o.write(src)
        f2, note = as_gcc(f, work, lang)
        r = subprocess.run(cmd + ['-I', REPO, f2, '-o', f + '.ll'], capture_output=True, text=True)
        if r.returncode and note:
            r = subprocess.run(cmd + ['-I', REPO, f, '-o', f + '.ll'], capture_output=True, text=True)
        if r.returncode == 0:
            return f + '.ll', bad
        hit = False
        for m in re.finditer(r'user\w*\.c(?:pp)?:(\d+):\d+: error: (.*)', r.stderr):
            n = idx.get(int(m.group(1)))
            if n and n not in bad:
                bad[n] = m.group(2)
                hit = True
        if not hit:
            raise BuildError('the header does not compile in a user program:\n' + r.stderr[:2000])
    raise BuildError('user program does not compile:\n' + r.stderr[:2000])


def plain_calls(cs, work, lang, ll):
    """(names of the contracts whose calling program, in this language, is exactly a call of the library's function: no macro
    of the header changes its text and no definition in the header takes the library's place; those whose text a macro changes)"""
    src, idx = user_source(cs)
    f = os.path.join(work, 'plain.' + lang)
    with open(f, 'w') as o:
        o.write(src)
    g = [GXX, '-std=gnu++11'] if lang == 'cpp' else [c_compiler(GXX), '-std=gnu11', '-x', 'c']
    r = subprocess.run(g + in_lang(VARIANT, lang) + ['-O2', '-I', REPO, '-E', '-P', f], capture_output=True, text=True)
    flat = lambda t: re.sub(r'\s+', '', t)
    seen = {flat(x) for x in r.stdout.split('\n')}
    defined = set(re.findall(r'^define [^@\n]*@([\w.$]+)\(', open(ll).read(), re.M))
    text = {c.name for c in cs if flat(wrapper_text(c)) in seen}
    return {c.name for c in cs if c.name in text and c.calls not in defined}, {c.name for c in cs if c.name not in text}


def lib_sources():
    """the sources CMakeLists.txt puts into the library"""
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'add_library\s*\(\s*neon_sim\b([^)]*)\)', t)
        s = [x for x in re.findall(r'[^\s"]+', m.group(1)) if re.search(r'\.(cpp|cc|cxx)$', x)]
        s = [os.path.join(REPO, x.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '')) for x in s]
        s = [x for x in s if os.path.exists(x)]
        if s:
            return s
    except (OSError, AttributeError):
        pass
    return [os.path.join(REPO, 'neon_sim.cpp')]


class Build:
    """the library and a user program calling it, compiled to IR from the current sources"""

    def __init__(self, cs, work, both=False):
        self.work = work
        self.bad = {}
        srcs = lib_sources()
        outs = [os.path.join(work, 'lib%d.ll' % k) for k in range(len(srcs))]
        self.cmd = [CLANG] + CFLAGS
        seen = []
        views = [as_gcc(f, work, seen=seen) for f in srcs]
        self.promises, self.loose = promises('\n;\n'.join(seen))
        self.rejected = set()
        self.notes = [n for _, n in views if n]
        if self.loose:
            self.notes.append('g++ may see more than clang sees (sampled): ' + ', '.join(sorted(self.loose)[:20]))
        procs = [subprocess.Popen([CLANG] + CFLAGS + ['-I', REPO, f, '-o', o], stderr=subprocess.PIPE, text=True)
                 for (f, n), o in zip(views, outs)]
        err = None
        users = []
        self.extra = []       # callers in C for whom the contract has to be decided separately
        try:
            for lang in ('cpp', 'c'):
                sub = [c for c in cs if c.lang == lang]
                if sub:
                    u, bad = compile_user(sub, work, lang)
                    users.append((u, lang))
                    self.bad.update(bad)
            api = [c for c in cs if c.lang == 'cpp' and c.calls == c.name and c.name in contracts.ALL and c.name not in self.bad]
            if api and both:
                inc = [c.from_c() for c in api]
                try:
                    u, bad = compile_user(inc, work, 'c')
                except BuildError:
                    bad = None          # C22 reports it
                if bad is not None:
                    a, am = plain_calls(api, work, 'cpp', users[0][0])
                    b, bm = [{x[:-len('__from_c')] for x in z} for z in plain_calls([c for c in inc if c.name not in bad], work, 'c', u)]
                    self.extra = [c.from_c() for c in api if c.name + '__from_c' not in bad and not (c.name in a and c.name in b)]
                    # a macro has to evaluate each argument once
                    for lang, ms in (('cpp', am), ('c', bm)):
                        more = [c.evaluated_once(lang) for c in api if c.name in ms]
                        if more:
                            u2, bad2 = compile_user(more, work, lang, '_once')
                            self.bad.update({n.split('__')[0]: 'an argument that is not an object: ' + x for n, x in bad2.items()})
                            self.extra += [c for c in more if c.name not in bad2]
                            users.append((u2, lang))
                    if self.extra:
                        users.append((u, 'c'))
        except BuildError as e:
            err = e
        self.folded = []
        for f, p in zip(srcs, procs):
            msg = p.communicate()[1]
            self.folded.append({int(m.group(1)): m.group(2) for m in re.finditer(r':(\d+):\d+: warning: (.*)', msg)})
            if p.returncode:
                k = srcs.index(f)
                gone = without_rejected(f, work, outs[k])
                if gone is None:
                    raise BuildError('%s does not compile:\n%s' % (os.path.basename(f), msg[:2000]))
                self.rejected |= set(gone)
                self.notes.append('%s: clang rejects %s; their bodies are seen by g++ only' % (os.path.basename(f), ', '.join(gone[:20])))
        if err:
            raise err
        self.users = [irparse.Module(u, 'user-' + lang) for u, lang in users]
        self.libs = [irparse.Module(o, 'lib%d' % k) for k, o in enumerate(outs)]
        for m, w in zip(self.libs, self.folded):
            m.folded = w        # lines with a constant expression that overflows: clang folds it
        self.modules = self.users + self.libs


def startup(modules):
    """What the library does before main, besides filling its own static objects.
    -> (functions executed, [effects], [reasons some of it is unknown])"""
    done, effects, unknown = [], [], []
    for m in modules:
        if not m.tag.startswith('lib'):
            continue
        if m.module_asm:
            unknown.append('assembly at file scope')
        for f in irparse.init_functions(m):
            ctx = Ctx(modules)
            ctx.in_init = True
            try:
                fin = Exec(ctx).call_fn(State({}, (), {}), f, [])
            except (Unsupported, RecursionError) as e:
                unknown.append('%s: %s' % (f.name, e))
                continue
            done.append(f.name)
            if fin is None:
                effects.append('%s ends the program before main' % f.name)
            elif ctx.aborts:
                unknown.append('%s may end the program' % f.name)
            effects += ['%s prints' % fn for _, what, fn, _ in ctx.io]
            effects += ['%s calls %s' % (fn, what) for _, what, fn, _ in ctx.impure if BI.EFFECT.fullmatch(what)]
    return done, effects, unknown


# ------------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.q = 0
        self.t = 0.0
        self.by = {}


def has_fp(es):
    seen = set()
    st = list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_fp(x) or z3.is_fprm(x):
            return True
        st.extend(x.children())
    return False


def solve(fs, stats, timeout=20000, cross=None):
    """('unsat'|'sat'|'unknown', model, back end)"""
    t0 = time.time()
    fs = [zb(f) for f in fs]
    g = z3.simplify(z3.And(*fs)) if fs else z3.BoolVal(True)
    if z3.is_false(g):
        stats.q += 1
        stats.t += time.time() - t0
        return 'unsat', None, 'z3 simplifier'
    fp = has_fp([g])

    def ask(g, ms):
        s = z3.SolverFor('QF_BVFP' if fp else 'QF_BV')
        s.set('timeout', ms)
        s.add(g)
        r = s.check()
        if cross is not None:
            cross(s, r)
        return r, s
    name = 'z3 (QF_BVFP)' if fp else 'z3 (QF_BV)'
    prod = not fp and ring.has_product([g])
    r, s = ask(g, min(timeout, 2500) if prod else timeout)
    if r == z3.unknown and prod:
        try:
            h = z3.simplify(z3.And(*ring.canonical(fs)))
            n2 = 'polynomial normal form + ' + name
            if z3.is_false(h):
                r = z3.unsat
            elif not z3.is_true(h):
                r, s = ask(h, timeout)
                if r == z3.sat and not z3.is_true(z3.simplify(s.model().eval(g, model_completion=True))):
                    r = z3.unknown
            if r != z3.unknown:
                name = n2
        except ring.TooBig:
            pass
        if r == z3.unknown and timeout > 2500:
            r, s = ask(g, timeout)
    stats.q += 1
    stats.t += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None, name
    if r == z3.sat:
        return 'sat', s.model(), name
    return 'unknown', None, name


# ------------------------------------------------------------------ results
class Ob:
    """a generated obligation and its outcome"""
    __slots__ = ('kind', 'fn', 'where', 'case', 'detail', 'status', 'how', 'model', 'time')

    def __init__(self, kind, fn, where, case, detail, status, how, model=None, t=0.0):
        self.kind, self.fn, self.where, self.case, self.detail = kind, fn, where, case, detail
        self.status, self.how, self.model, self.time = status, how, model, t

    def tup(self):
        return (self.kind, self.fn, self.where, self.case, self.detail, self.status, self.how, self.model, self.time)


def arg_type(o, k, w, total):
    """an argument object holds elements of the declared type and is aligned for them, no more"""
    o.align = w // 8
    n = w // 8
    o.types = {i * n + j: (i * n, n, 'f' if k == 'f' else 'i') for i in range(total) for j in range(n)} if n > 1 else {}


class Setup:
    """symbolic pre-state of a wrapper call"""

    def __init__(self, c, ctx, immval):
        self.vars = {}          # name -> (z3 var, width)
        self.env = {}
        self.args = []
        self.st = State({}, (), {})
        self.objs = {}
        for p in c.params:
            if p.kind in ('vec', 'in', 'out'):
                if p.kind == 'vec':
                    t = vt(p.ty)
                    k, w, total, n, r = t.k, t.w, t.total, t.n, t.r
                else:
                    k, w = SC[p.ty]
                    total, n, r = p.count, p.count, 1
                terms = []
                cells = []
                for i in range(total):
                    v = z3.BitVec('%s.%d' % (p.name, i), w)
                    self.vars['%s.%d' % (p.name, i)] = (v, w)
                    terms.append(v)
                    val = v if k != 'f' else FV(w, bits=v)
                    for j in range(w // 8):
                        cells.append((val, j, w // 8))
                o = ctx.newobj(total * w // 8, 'argument ' + p.name, 'arg', const=False)
                arg_type(o, k, w, total)
                self.st.mem[o.id] = cells
                self.objs[p.name] = (o, k, w, total, cells)
                self.args.append(Ptr([(True, o, 0)]))
                self.env[p.name] = Arg(p.name, k, w, terms, n, r)
            elif p.kind == 'sc':
                k, w = SC[p.ty]
                v = z3.BitVec(p.name, w)
                self.vars[p.name] = (v, w)
                self.args.append(v if k != 'f' else FV(w, bits=v))
                self.env[p.name] = Arg(p.name, k, w, [v])
            elif p.kind == 'imm':
                if p.name in immval:
                    self.args.append(immval[p.name] & MASK(32))
                    self.env[p.name] = immval[p.name]
                else:
                    v = z3.BitVec(p.name, 32)
                    self.vars[p.name] = (v, 32)
                    self.args.append(v)
                    self.env[p.name] = v
                    lo, hi = p.lo, p.hi
                    ctx.assume.append(z3.Or(v < lo, v > hi))
                    for x in p.opt:
                        ctx.assume.append(v != x)
        self.out = None
        if c.ret != 'void':
            if c.ret in SC:
                k, w = SC[c.ret]
                total = 1
            else:
                t = vt(c.ret)
                k, w, total = t.k, t.w, t.total
            if getattr(c, 'rel', False):
                total *= 2
            o = ctx.newobj(total * w // 8, 'result', 'arg')
            arg_type(o, k, w, total)
            self.st.mem[o.id] = [None] * o.size
            self.out = (o, k, w, total)
            self.args.append(Ptr([(True, o, 0)]))


def model_inputs(m, vars_):
    out = {}
    for n, (v, w) in vars_.items():
        if m is None:
            out[n] = 0
        else:
            x = m.eval(v, model_completion=True)
            out[n] = x.as_long()
    return out


class FnResult:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.error = None         # Unsupported text
        self.error_case = None
        self.hints = []           # inputs for the native comparison, where there is an error
        self.funcs = set()
        self.ext = set()
        self.dyninit = set()
        self.stats = Stats()
        self.cases = 0
        self.covers = 0
        self.t = 0.0


class Verifier:
    def __init__(self, modules, timeout=20000, cross=None):
        self.modules = modules
        self.promises = {}
        self.timeout = timeout
        self.cross = cross

    def cases(self, c):
        im = c.imm()
        if not im:
            return [('', {}, 'valid')]
        p = im[0]
        out = [('%s=%d' % (p.name, v), {p.name: v}, 'valid') for v in range(p.lo, p.hi + 1)]
        out += [('%s=%d' % (p.name, v), {p.name: v}, 'opt') for v in p.opt]
        if not getattr(c, 'lemma', False):
            out.append(('%s outside [%d,%d]' % (p.name, p.lo, p.hi), {}, 'invalid'))
        return out

    def verify(self, c, kinds=None, only_cases=None):
        """kinds: set of obligation kinds to discharge (None = all)"""
        res = self.res = FnResult(c.name)
        t0 = time.time()
        cases = self.cases(c)
        if kinds is not None and set(kinds) == {'abi'}:
            cases = [('',) + cases[0][1:]]
        for case, imm, mode in cases:
            if only_cases is not None and mode not in only_cases:
                continue
            try:
                self.run_case(c, case, imm, mode, kinds, res)
            except (Unsupported, RecursionError) as e:
                res.hints += self.hints(imm)
                if res.error is None:
                    res.error = str(e) if isinstance(e, Unsupported) else 'recursion limit of the executor'
                    res.error_case = (case, imm, mode)
                if time.time() - t0 > 10 or 'without a contract' in res.error:
                    break
                continue
            res.cases += 1
        res.t = time.time() - t0
        return res

    def hints(self, imm=()):
        """inputs on the path the executor gave up on, and inputs that break an obligation met before it: candidates for the native comparison"""
        out = []
        try:
            ctx, su = self.at
            pre = [zb(x) for x in list(ctx.assume) + list(ctx.defs)]
            goals = [list(ctx.cur.pc)] * 4 if ctx.cur is not None else []
            goals += [list(o.pc or ()) + [b_not(o.cond)] for o in ctx.obls if not isinstance(o.cond, tuple) and not is_t(o.cond)][-8:]
            for k, g in enumerate(goals):
                s = z3.Solver()
                s.set('timeout', 1500)
                s.set('random_seed', k)
                s.add(*pre)
                s.add(*[zb(x) for x in g])
                for old in out[:k]:       # another input each time
                    s.add(z3.Or(*[v != old[n] for n, (v, w) in su.vars.items()]))
                if s.check() == z3.sat:
                    i = model_inputs(s.model(), su.vars)
                    i.update(dict(imm))
                    out.append(i)
                elif k < 4:
                    continue
        except (z3.Z3Exception, AttributeError, TypeError, ValueError):
            pass
        return out

    def run_case(self, c, case, imm, mode, kinds, res, written=frozenset()):
        want = lambda k: kinds is None or k in kinds
        ctx = Ctx(self.modules)
        su = Setup(c, ctx, imm)
        ctx.written = written
        self.at = (ctx, su)
        ex = Exec(ctx)
        w = next((m.funcs['vc__' + c.name] for m in self.modules if 'vc__' + c.name in m.funcs), None)
        if w is None:
            raise Unsupported('no wrapper')
        if kinds is not None and set(kinds) == {'abi'}:
            ctx.calls_only = True
            try:
                ex.call_fn(su.st, w, su.args)
            except S.CallChecked:
                pass
            for o in ctx.obls:
                if o.kind == 'abi':
                    res.obs.append(Ob('abi', c.name, '%s:%d' % (o.fn, o.line), case, o.detail, 'proved' if is_t(o.cond) else 'failed', o.how))
            x = broken_promise(c, self.promises.get(c.name.split('__')[0], ()))
            if x:
                res.obs.append(Ob('abi', c.name, c.name, case, x, 'failed', 'attributes'))
            return
        fin = ex.call_fn(su.st, w, su.args)
        left = {n for _, n, _, _ in ctx.gwrites}
        if left - written:
            return self.run_case(c, case, imm, mode, kinds, res, written | left)
        res.funcs |= {f for f in ctx.funcs_used if not f.startswith('vc__')}
        res.ext |= ctx.ext_used
        res.dyninit |= ctx.dyninit
        pre = list(ctx.assume) + list(ctx.defs)
        stats = res.stats
        where0 = c.name

        def emit(kind, where, detail, pc, cond, how=None):
            """obligation: pre /\\ pc ==> cond"""
            if not want(kind):
                return
            if is_t(cond):
                res.obs.append(Ob(kind, c.name, where, case, detail, 'proved', how or 'constant folding'))
                return
            t1 = time.time()
            r, m, be = solve(list(ctx.assume) + list(ctx.defs) + list(pc or ()) + [b_not(cond)], stats, self.timeout, self.cross)
            st = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
            inp = None
            if st == 'failed':
                inp = model_inputs(m, su.vars)
                inp.update({k: v for k, v in imm.items()})
            res.obs.append(Ob(kind, c.name, where, case, detail, st, be, inp, time.time() - t1))

        # -- what the declarations promise the caller's compiler
        for f in sorted(ctx.funcs_used & set(self.promises)):
            if f not in contracts.ALL:
                continue
            x = broken_promise(contracts.ALL[f], self.promises[f])
            if x and mode == 'valid':
                emit('post', f, f + ' ' + x, (), False, 'attributes')
            elif mode == 'invalid' and self.promises[f] & {'const', 'pure'}:
                emit('imm-abort', f, f + ' is declared const or pure: a call whose result is not used may be dropped, and with it the abort', (), False, 'attributes')

        # -- obligations met on the way
        for o in ctx.obls:
            kind = o.kind
            if mode == 'invalid':
                kind = 'imm-' + kind
            if not want(kind):
                continue
            where = '%s:%d' % (o.fn, o.line)
            if isinstance(o.cond, tuple):
                self.indep(kind, c, ctx, su, o, where, case, imm, res)
                continue
            emit(kind, where, o.detail, o.pc, o.cond, o.how)

        # -- aborts
        if mode == 'valid':
            if not ctx.aborts:
                emit('noabort', where0, 'returns normally', (), True, 'no abort reached')
            for pc, fn, line, what in ctx.aborts:
                emit('noabort', '%s:%d' % (fn, line), 'does not call %s for a permitted argument' % what, pc, False)
        elif mode == 'invalid':
            for pc, fn, line, what in ctx.aborts:
                if not BI.SIGABRT.fullmatch(what):
                    emit('imm-abort', '%s:%d' % (fn, line), 'an out-of-range immediate must abort, but %s' %
                         ('an exception leaves the function' if BI.THROW.fullmatch(what) else 'the call ends in %s' % what), pc, False)
            if fin is None:
                if want('imm-abort'):
                    # every path ends in an abort (or is infeasible): nothing returns
                    res.obs.append(Ob('imm-abort', c.name, where0, case, 'an out-of-range immediate never returns', 'proved',
                                      'path analysis' if ctx.aborts else 'no path'))
                if not ctx.aborts and want('imm-abort'):
                    raise Unsupported('no path reaches an abort')
            else:
                emit('imm-abort', where0, 'an out-of-range immediate must abort, but the call returns', fin.pc, False)
            for pc, what, fn, line in ctx.io:
                pass
            return

        # -- hidden state and output
        if want('pure'):
            rp = fin.pc if fin is not None else None
            if not ctx.gwrites:
                emit('pure', where0, 'writes no static or global object', (), True, 'no such write in the program')
            for pc, nm, fn, line in ctx.gwrites:
                emit('pure', '%s:%d' % (fn, line), 'writes global state ' + nm, pc, False)
            io = [x for x in ctx.io]
            if not io:
                emit('pure', where0, 'performs no input or output', (), True, 'no such call in the program')
            for pc, what, fn, line in io:
                if rp is None:
                    continue
                # output is allowed only on the way to an abort
                emit('pure', '%s:%d' % (fn, line), 'calls %s on a path that returns' % what, list(pc) + list(rp), False)
            for pc, what, fn, line in ctx.impure:
                emit('pure', '%s:%d' % (fn, line), 'calls %s, whose result or effect is outside the arguments' % what, pc, False)

            for o, fl, pc, fam, where, init in ctx.heap.values():
                if fin is not None and not init and fl.id in fin.mem:
                    v = ex.cells_value(fin.mem[fl.id], 0, 1)
                    emit('pure', where, 'the allocated block is released before the return', list(pc) + list(fin.pc), zb(v == 1))

        if fin is None:
            if mode == 'opt':
                return
            if not ctx.aborts:
                raise Unsupported('no path returns')
            return

        # -- the return is reachable (vacuity guard)
        r, m, be = solve(list(ctx.assume) + list(fin.pc), stats, self.timeout)
        if r == 'unsat':
            if mode == 'opt':
                return
            raise Unsupported('vacuous: the return is unreachable')
        res.covers += 1

        # -- frame: by-value arguments and read-only memory
        if want('frame') or want('post'):
            for p in c.params:
                if p.kind not in ('vec', 'in'):
                    continue
                o, k, w_, total, cells = su.objs[p.name]
                now = fin.mem[o.id]
                ch = [i for i in range(o.size) if now[i] is not cells[i] and (now[i] is None or now[i] != cells[i])]
                what = 'memory read through %s is unchanged' % p.name if p.kind == 'in' else 'argument %s is unchanged' % p.name
                if not ch:
                    emit('frame', where0, what, (), True, 'no write')
                else:
                    ok = []
                    for i in ch:
                        a = bv(norm(ex.cells_value(ex.define_cells(fin, o, i, 1, 'frame'), i, 1)), 8)
                        b = ex.cells_value(cells, i, 1)
                        ok.append(a == bv(b, 8))
                    emit('frame', where0, what, fin.pc, z3.And(*ok))

        # -- initialisation of the results
        targets = []
        if su.out is not None:
            targets.append(('ret', su.out))
        for p in c.params:
            if p.kind == 'out':
                o, k, w_, total, cells = su.objs[p.name]
                targets.append((p.name, (o, k, w_, total)))
        rel = getattr(c, 'rel', False)
        exp = c.post(su.env) if not rel else None
        for tn, (o, k, w_, total) in targets:
            n = w_ // 8
            if rel and tn == 'ret':
                self.rel_post(c, ctx, ex, fin, su, o, n, w_, total // 2, want, emit, case, imm, res)
                continue
            es = exp[tn]
            assert len(es) == total, (c.name, len(es), total)
            for i in range(total):
                cells = ex.define_cells(fin, o, i * n, n, 'result lane %d never written' % i)
                raw = ex.cells_value(cells, i * n, n)
                e = es[i]
                lab = 'result lane %d' % i if tn == 'ret' else '%s[%d]' % (tn, i)
                if want('init'):
                    self.init_ob(c, ctx, su, fin, raw, lab, case, imm, res)
                if not want('post'):
                    continue
                if isinstance(raw, (Ptr, S.FnPtr, S.Undef)):
                    raise Unsupported('a pointer is returned as data')
                if e.kind == 'f':
                    fv = raw if isinstance(raw, FV) else FV(w_, bits=raw)
                    vs = e.v if isinstance(e.v, list) else [e.v]
                    if any(fv.fp.eq(x) for x in vs):
                        emit('post', where0, lab, (), True, 'term identity')
                        continue
                    emit('post', where0, '%s = specified value' % lab, fin.pc, z3.Or(*[fv.fp == x for x in vs]) if len(vs) > 1 else fv.fp == vs[0])
                else:
                    act = raw.bits(ctx) if isinstance(raw, FV) else raw
                    want_b = norm(e.bits())
                    if S.same_int(act, want_b):
                        emit('post', where0, lab, (), True, 'term identity')
                        continue
                    if isinstance(act, int) and isinstance(want_b, int):
                        emit('post', where0, lab, fin.pc, False)
                        continue
                    emit('post', where0, '%s = specified value' % lab, fin.pc, bv(act, w_) == bv(want_b, w_))

    def rel_post(self, c, ctx, ex, fin, su, o, n, w, total, want, emit, case, imm, res):
        """the two computed values agree lane by lane"""
        for i in range(total):
            v = []
            for k in (i, i + total):
                cells = ex.define_cells(fin, o, k * n, n, 'result lane %d never written' % i)
                v.append(ex.cells_value(cells, k * n, n))
            lab = 'both sides agree in lane %d' % i
            if want('init'):
                for x in v:
                    self.init_ob(c, ctx, su, fin, x, lab, case, imm, res)
            if not want('post'):
                continue
            x, y = v
            if isinstance(x, FV) or isinstance(y, FV):
                x = x if isinstance(x, FV) else FV(w, bits=x)
                y = y if isinstance(y, FV) else FV(w, bits=y)
                if x.same(y):
                    emit('post', c.name, lab, (), True, 'term identity')
                elif x._bits is not None and y._bits is not None:
                    emit('post', c.name, lab, fin.pc, bv(x._bits, w) == bv(y._bits, w))
                else:
                    emit('post', c.name, lab, fin.pc, x.fp == y.fp)
            elif S.same_int(x, y):
                emit('post', c.name, lab, (), True, 'term identity')
            else:
                emit('post', c.name, lab, fin.pc, bv(x, w) == bv(y, w))

    def init_ob(self, c, ctx, su, fin, raw, lab, case, imm, res):
        t = raw
        if isinstance(raw, FV):
            t = raw._bits if raw._bits is not None else raw._fp
        if isinstance(t, int) or not ctx.undefs or not S.mentions(t, ctx.undefs):
            res.obs.append(Ob('init', c.name, c.name, case, '%s depends on no indeterminate value' % lab, 'proved', 'dependency analysis'))
            return
        self.depends('init', c, ctx, su, t, fin.pc, '%s depends on an indeterminate value (%s)' % (lab, self.first_undef(t, ctx)),
                     c.name, case, imm, res)

    def first_undef(self, t, ctx):
        for n, wh in ctx.undefs.items():
            if S.mentions(t, {n: 1}):
                return wh
        return '?'

    def indep(self, kind, c, ctx, su, o, where, case, imm, res):
        self.depends(kind, c, ctx, su, o.cond[1], o.pc, o.detail, where, case, imm, res)

    def depends(self, kind, c, ctx, su, t, pc, detail, where, case, imm, res):
        """does t take two values for one input?"""
        t1 = time.time()
        x = exposed(t, ctx.undefs)
        if x is not None:
            fs = list(ctx.assume) + [zb(p) for p in pc if not S.mentions(zb(p), ctx.undefs)]
            r = 'unsat' if z3.is_false(x) else solve(fs + [x], res.stats, min(self.timeout, 5000))[0]
            if r == 'unsat':
                res.obs.append(Ob(kind, c.name, where, case, detail, 'proved', 'z3 (QF_BV, selections)', None, time.time() - t1))
                return
        vs = undef_vars(t, ctx.undefs)
        for p in pc:
            vs |= undef_vars(zb(p), ctx.undefs)
        sub = [(v, z3.Const(v.decl().name() + "'", v.sort())) for v in vs]
        fs = list(ctx.assume) + [zb(p) for p in pc]
        t2 = z3.substitute(t, *sub)
        r, m, be = solve(fs + [z3.substitute(zb(f), *sub) for f in pc] + [t != t2], res.stats, self.timeout)
        st = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
        inp = None
        if st == 'failed':
            inp = model_inputs(m, su.vars)
            inp.update(imm)
        res.obs.append(Ob(kind, c.name, where, case, detail, st, be, inp, time.time() - t1))


def exposed(t, names):
    """a condition without which no indeterminate value is selected by the conditionals of t; None if there is no such term"""
    memo = {}
    order, seen, st = [], set(), [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.append((x, True))
        st.extend((y, False) for y in x.children())
    if len(order) > 20000:
        return None
    tr, fa = z3.BoolVal(True), z3.BoolVal(False)
    get = lambda y: memo[y.get_id()]
    for x in order:
        ch = x.children()
        k = x.decl().kind() if z3.is_app(x) else None
        if not ch:
            r = tr if k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names else fa
        elif all(z3.is_false(get(y)) for y in ch):
            r = fa
        elif k == z3.Z3_OP_ITE and z3.is_false(get(ch[0])):
            a, b = get(ch[1]), get(ch[2])
            r = z3.Or(z3.And(ch[0], a), z3.And(z3.Not(ch[0]), b))
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ok = [y if k == z3.Z3_OP_AND else z3.Not(y) for y in ch if z3.is_false(get(y))]
            r = z3.And(z3.Or(*[get(y) for y in ch if not z3.is_false(get(y))]), *ok)
        else:
            es = [get(y) for y in ch if not z3.is_false(get(y))]
            r = z3.Or(*es) if len(es) > 1 else es[0]
        memo[x.get_id()] = z3.simplify(r) if not (z3.is_true(r) or z3.is_false(r)) and len(ch) < 5 else r
    return memo[t.get_id()]


def undef_vars(t, names):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            out.add(x)
        st.extend(x.children())
    return out
