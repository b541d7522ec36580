"""Mutation sweep: python3-vt tools/mutate.py ROUNDS SEED
Each round changes one random token in every function of neon_sim.cpp at once (scratch copy), runs the verifier on all contracts and prints the
functions none of whose obligations fails: the mutants to be read by hand (equivalent, or missed)."""
import os, random, re, shutil, subprocess, sys, tempfile
from collections import Counter
ROUNDS, SEED = int(sys.argv[1]), int(sys.argv[2])
sys.argv = ['x', 'C05']
SCR = tempfile.mkdtemp(prefix='vc_mut_')
os.environ['VC_REPO'] = SCR + '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/../vc')
os.makedirs(SCR + '/repo')
subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo' % SCR, shell=True, check=True)
import check as C
import contracts, engine as E, props as PR
import multiprocessing as mp

SRC = open(SCR + '/repo/neon_sim.cpp').read()
FN = re.compile(r'^(?!static inline void|struct)[A-Za-z_][\w ]*?[ *&](\w+)\(([^;{)]*)\)\s*\{', re.M)


def functions(s):
    out = []
    for m in FN.finditer(s):
        j, k = m.end(), 1
        while k:
            k += {'{': 1, '}': -1}.get(s[j], 0)
            j += 1
        out.append((m.group(1), m.end(), j - 1, [x.split()[-1].strip('*&') for x in m.group(2).split(',') if x.strip()]))
    return out


TY = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'float', 'double', 'int']
OPS = {'+': '-*', '-': '+', '*': '+', '<<': ['>>'], '>>': ['<<'], '&': '|^', '|': '&^', '^': '&|', '<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'],
       '>=': ['>', '<='], '==': ['!=', '>='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+=': ['-=', '='], '-=': ['+=', '='], '|=': ['=', '&='], '~': [''], '!': ['']}
TOK = re.compile(r'"[^"]*"|//[^\n]*|0x[0-9a-fA-F]+\w*|\d[\w.]*|\w+|<<=|>>=|\+\+|--|->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\S')


def sites(body, params):
    out = []
    toks = list(TOK.finditer(body))
    ids = [t for t in toks]
    for k, t in enumerate(toks):
        x = t.group()
        a, b = t.span()
        if x[0] in '"/' and len(x) > 1:
            continue
        if re.match(r'\d', x) and not x.startswith('0x'):
            m = re.match(r'(\d+)(.*)$', x)
            if '.' in x:
                out.append((a, b, '2.0f' if x.startswith('1') else '1.0f'))
            else:
                n = int(m.group(1))
                out += [(a, b, '%d%s' % (v, m.group(2))) for v in {n + 1, n - 1} if v >= 0]
        elif x.startswith('0x'):
            m = re.match(r'0x([0-9a-fA-F]+)(.*)$', x)
            n = int(m.group(1), 16)
            out += [(a, b, '0x%x%s' % (n ^ 1 << random.randrange(max(1, n.bit_length())), m.group(2)))]
        elif x in OPS:
            if x == '*' and (k == 0 or toks[k - 1].group() in '(,=' or toks[k - 1].group() in TY):
                continue
            out += [(a, b, y) for y in OPS[x]]
        elif x in TY:
            if k < 2 or toks[k - 2].group() != 'for':        # the type of a loop counter hardly ever matters
                out += [(a, b, y) for y in random.sample(TY, 2) if y != x]
        elif x in params and len(params) > 1:
            out += [(a, b, y) for y in params if y != x]
        elif x == '?':
            m = re.match(r'\?([^;:]*):([^;:]*);', body[a:])
            if m:
                out.append((a, a + m.end(), '?%s:%s;' % (m.group(2), m.group(1))))
        elif re.match(r'(min|max)$', x):
            out.append((a, b, {'min': 'max', 'max': 'min'}[x]))
        elif re.match(r'v[a-z]\w+_[usf](8|16|32|64)$', x) or x in ('sat', 'rshift'):
            pass
    for m in re.finditer(r'\n\s+([^;{}\n]*[^=!<>]=[^=][^;{}\n]*;)', body):
        if not re.match(r'\w+ \w+ =|const', m.group(1)) and ' res' != m.group(1)[:4]:
            out.append((m.start(1), m.end(1), ';'))
    for m in re.finditer(r'if \(([^\n]*)\)\n', body):
        out.append((m.start(1), m.end(1), '0 && (%s)' % m.group(1)))
        out.append((m.start(1), m.end(1), '1 || (%s)' % m.group(1)))
    return out


def round_(k, done):
    random.seed('%d/%d' % (SEED, k))
    fs = functions(SRC)
    pick = {}
    for n, a, b, ps in fs:
        if (n in contracts.ALL) == (k % 4 == 3):        # the functions no contract names have a round of their own
            continue
        ss = [x for x in sites(SRC[a:b], ps) if (n, x) not in done]
        if ss:
            pick[n] = random.choice(ss)
            done.add((n, pick[n]))
    while True:
        s, where, pos = '', [], 0
        for n, a, b, ps in fs:
            s += SRC[pos:a]
            body = SRC[a:b]
            l0 = s.count('\n') + 1
            if n in pick:
                x, y, r = pick[n]
                body = body[:x] + r + body[y:]
            s += body
            where.append((n, l0, s.count('\n') + 1))
            pos = b
        s += SRC[pos:]
        open(SCR + '/repo/neon_sim.cpp', 'w').write(s)
        bad = set()
        for cc in ('g++', 'clang++'):
            e = subprocess.run([cc, '-std=gnu++11', '-fsyntax-only', '-w', '-fmax-errors=0' if cc == 'g++' else '-ferror-limit=0', '-I', SCR + '/repo', SCR + '/repo/neon_sim.cpp'], capture_output=True, text=True).stderr
            for m in re.finditer(r'neon_sim\.cpp:(\d+):\d+: (?:fatal )?error', e):
                bad |= {n for n, i, j in where if i <= int(m.group(1)) <= j and n in pick}
        if not bad:
            break
        for n in bad:
            del pick[n]
    wk = tempfile.mkdtemp(prefix='vc_mutw_')
    try:
        cs = list(contracts.ALL.values())
        C._B = E.Build(cs, wk, both=True)
        cs += C._B.extra
        C._C = {c.name: c for c in cs}
        C._K = PR.ALLK
        todo = sorted([c.name for c in cs if c.name not in C._B.bad], key=lambda n: (-PR.cost(n), n))
        C.T0 = __import__('time').time()
        res, calls = {}, {}
        with mp.get_context('fork').Pool(int(os.environ.get('VC_JOBS', '6')), maxtasksperchild=40) as pool:
            for r in pool.imap_unordered(C.work, todo, 1):
                st = 'killed' if [o for o in r['obs'] if o[5] == 'failed'] else 'undecided' if r['error'] or r['obs'] else 'survived'
                res[r['name']] = (st, r['error'])
                for f in r['funcs']:
                    calls.setdefault(f, set()).add(r['name'])
    finally:
        shutil.rmtree(wk, ignore_errors=True)
    tot = Counter()
    for n, (x, y, r) in sorted(pick.items()):
        users = {n}.union(*[us for f, us in calls.items() if f == n or re.match(r'_ZL?\d+%s[a-z]' % n, f)])
        st = [res[u] for u in users if u in res] + [('killed', None)] * any(u in C._B.bad for u in users)
        if not st:
            continue
        v = 'killed' if any(q[0] == 'killed' for q in st) else 'undecided' if any(q[0] == 'undecided' for q in st) else 'survived'
        tot[v] += 1
        if v != 'killed':
            a, b = [(a, b) for f, a, b, ps in fs if f == n][-1]
            body = SRC[a:b]
            i = body.rfind('\n', 0, x) + 1
            j = body.find('\n', y)
            print('%s %s: %s   =>   %s   %s' % (v, n, body[i:j].strip(), (body[i:x] + r + body[y:j]).strip(), [q[1] for q in st if q[1]][:1] or ''), flush=True)
    print('round %d: %s' % (k, dict(tot)), flush=True)


try:
    done = set()
    for k in range(ROUNDS):
        round_(k, done)
finally:
    shutil.rmtree(SCR, ignore_errors=True)
