"""Signature, linkage and layout clauses: obligations the type checkers and the linker discharge.

One assertion per line; every compiler must accept every line.  C22 also links, from C++ and from C, a program
that takes the address of each function at its specified type.
"""
import os
import re
import subprocess
import contracts
import engine as E
import lemmas
from engine import REPO, BuildError, lib_sources
from spec import vt, SC

CXX = [('g++', ['/usr/bin/g++', '-std=gnu++11']), ('clang++', ['/usr/bin/clang++', '-std=gnu++11'])]
CC = [('gcc', ['/usr/bin/gcc', '-std=gnu11']), ('clang', ['/usr/bin/clang', '-std=gnu11'])]
ELEM = {('s', w): 'int%d_t' % w for w in (8, 16, 32, 64)}
ELEM.update({('u', w): 'uint%d_t' % w for w in (8, 16, 32, 64)})
ELEM.update({('f', 32): 'float', ('f', 64): 'double'})


def fptype(c):
    args = []
    for p in c.params:
        args.append('const %s*' % p.ty if p.kind == 'in' else p.ty + '*' if p.kind == 'out' else p.ty)
    return '%s (*)(%s)' % (c.ret, ', '.join(args))


def compile_lines(pre, items, post, path, cmds, extra=()):
    """items: [(obligation name, line)] -> [(name + compiler, ok, message)]"""
    out = []
    lines = list(pre)
    at = {}
    for name, ln in items:
        lines.append(ln)
        at[len(lines)] = name
    lines += post
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    base = os.path.basename(path)
    for cname, cmd in cmds:
        r = subprocess.run(cmd + E.in_lang(E.VARIANT, 'cpp' if '++' in cname else 'c') + ['-w', '-I', REPO, '-c', path, '-o', path + '.o'] +
                           (['-ferror-limit=0', '-fno-color-diagnostics'] if 'clang' in cname else ['-fmax-errors=0', '-fdiagnostics-color=never']) +
                           list(extra), capture_output=True, text=True)
        bad = {}
        for m in re.finditer(r'(?:^|/)%s:(\d+):\d+: error: (.*)' % re.escape(base), r.stderr, re.M):
            n = at.get(int(m.group(1)))
            if n:
                bad.setdefault(n, m.group(2))
        if r.returncode and not bad:
            raise BuildError('%s rejects a program that includes the header:\n%s' % (cname, r.stderr[:1500]))
        for name, ln in items:
            out.append(('%s [%s]' % (name, cname), name not in bad, 'the %s compiler rejects: %s (%s)' % (cname, ln.strip(), bad.get(name, ''))
                        if name in bad else ''))
    return out


def link_check(wk, lang):
    """every function is defined with C linkage: a program naming all of them links"""
    cc, ext = ('/usr/bin/g++', 'cpp') if lang == 'C++' else ('/usr/bin/gcc', 'c')
    f = os.path.join(wk, 'link.' + ext)
    bad = set()
    for _ in range(2):
        with open(f, 'w') as o:
            o.write('#include "neon_sim.h"\ntypedef void (*fp_)(void);\nfp_ volatile sink_;\nint main(void) {\n')
            for n in contracts.ALL:
                if n not in bad:
                    o.write('sink_ = (fp_)&%s;\n' % n)
            o.write('return 0; }\n')
        r = subprocess.run([cc, '-w', '-std=gnu++11' if ext == 'cpp' else '-std=gnu11'] + E.in_lang(E.VARIANT, ext) + ['-fdiagnostics-color=never', '-I', REPO, '-c', f, '-o', f + '.o'], capture_output=True, text=True)
        if r.returncode == 0:
            break
        lines = open(f).read().split('\n')
        for m in re.finditer(r'link\.\w+:(\d+):\d+: error', r.stderr):
            x = re.search(r'&(\w+);', lines[int(m.group(1)) - 1])
            if x:
                bad.add(x.group(1))
    else:
        raise BuildError('the linkage program does not compile:\n' + r.stderr[:1500])
    objs = []
    for k, s in enumerate(lib_sources()):
        o = os.path.join(wk, 'statlib%d.o' % k)
        if not os.path.exists(o):
            r = subprocess.run(['/usr/bin/g++', '-std=gnu++11'] + E.VARIANT + ['-w', '-O1', '-I', REPO, '-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('%s does not compile:\n%s' % (s, r.stderr[:1500]))
        objs.append(o)
    r = subprocess.run(['/usr/bin/g++', f + '.o'] + objs + ['-o', f + '.exe', '-Wl,--no-demangle'], capture_output=True, text=True)
    for m in re.finditer(r"undefined reference to [`']([^'`]+)'", r.stderr):
        if m.group(1) in contracts.ALL:
            bad.add(m.group(1))
        else:
            x = re.match(r'_Z\d+([a-z]\w*?_(?:[suf]\d+|p\d+))', m.group(1))
            bad.add(x.group(1) if x and x.group(1) in contracts.ALL else m.group(1))
    if r.returncode and not bad:
        raise BuildError('the linkage program does not link:\n' + r.stderr[:1500])
    return [('%s/linkage [%s]' % (n, lang), n not in bad, '%s cannot be linked from a %s program' % (n, lang) if n in bad else '')
            for n in list(contracts.ALL) + sorted(x for x in bad if x not in contracts.ALL)]


def run(pid, wk):
    obs = []
    if pid == 'C22':
        cxx = [('%s/signature' % n, 'static_assert(std::is_same<decltype(&%s), %s>::value, "");' % (n, fptype(c))) for n, c in contracts.ALL.items()]
        obs += compile_lines(['#include <type_traits>', '#include "neon_sim.h"'], cxx, [], os.path.join(wk, 'sig.cpp'), CXX)
        # (to gcc a function declared with the attribute const has another type in C)
        cc = [('%s/signature' % n, '__attribute__((const)) %s; _Static_assert(__builtin_types_compatible_p(__typeof__(&%s), %s) || '
               '__builtin_types_compatible_p(__typeof__(&%s), __typeof__(&vc_const_%s)), "");' % (fptype(c).replace('(*)', 'vc_const_' + n), n, fptype(c), n, n))
              for n, c in contracts.ALL.items()]
        obs += compile_lines(['#include "neon_sim.h"'], cc, [], os.path.join(wk, 'sigc.c'), CC)
        obs += link_check(wk, 'C++') + link_check(wk, 'C')
        return {'obs': obs, 'kind': lambda n: 'signature' if '/signature' in n else 'linkage', 'compilers': ['g++', 'clang++', 'gcc', 'clang']}
    cxx, cc = [], []
    for name in lemmas._have():
        t = vt(name)
        e = ELEM[(t.k, t.w)]
        one = lemmas.T(t.k, t.w, t.n)
        cxx.append((name + '/size', 'static_assert(sizeof(%s) == %d, "");' % (name, t.size)))
        cc.append((name + '/size', '_Static_assert(sizeof(%s) == %d, "");' % (name, t.size)))
        cxx.append((name + '/offset', 'static_assert(offsetof(%s, val) == 0, "");' % name))
        cc.append((name + '/offset', '_Static_assert(offsetof(%s, val) == 0, "");' % name))
        m = '%s[%d]' % (e, t.n) if t.r == 1 else '%s[%d]' % (one, t.r)
        cxx.append((name + '/member', 'static_assert(std::is_same<decltype(%s::val), %s>::value, "");' % (name, m)))
        cc.append((name + '/member', '_Static_assert(__builtin_types_compatible_p(__typeof__(((%s*)0)->val), %s), "");' % (name, m)))
        cxx.append((name + '/trivial', 'static_assert(std::is_trivially_copyable<%s>::value && std::is_standard_layout<%s>::value && '
                    'std::is_trivially_default_constructible<%s>::value, "");' % ((name,) * 3)))
    obs += compile_lines(['#include <type_traits>', '#include <stddef.h>', '#include "neon_sim.h"'], cxx, [], os.path.join(wk, 'lay.cpp'), CXX)
    obs += compile_lines(['#include <stddef.h>', '#include "neon_sim.h"'], cc, [], os.path.join(wk, 'layc.c'), CC)
    return {'obs': obs, 'kind': lambda n: 'layout', 'compilers': ['g++', 'clang++', 'gcc', 'clang']}
