"""The properties: which contracts, lemma programs and kinds of obligation decide each of them."""
import re
import contracts
import irparse
import lemmas

FUNC = frozenset({'post', 'noabort', 'frame', 'mem-read', 'mem-write', 'unreachable'})
FOOT = frozenset({'mem-read', 'mem-write', 'frame', 'index'})
UB = frozenset({'overflow', 'shift', 'divzero', 'fptoint', 'uninit', 'init', 'unreachable', 'align', 'alias', 'index'})
IMM = frozenset({'noabort', 'imm-abort', 'imm-overflow', 'imm-shift', 'imm-divzero', 'imm-fptoint', 'imm-uninit', 'imm-unreachable',
                 'imm-mem-read', 'imm-mem-write'})
PURE = frozenset({'pure'})
ALLK = FUNC | FOOT | UB | IMM | PURE


class Prop:
    def __init__(self, sel, kinds, static=False, assume=()):
        self.sel, self.kinds, self.static, self.assume = sel, kinds, static, list(assume)


def by(pid):
    return lambda: [c for c in contracts.ALL.values() if c.prop == pid]


def lem(pid):
    return lambda: [c for c in lemmas.ALL.values() if c.prop == pid]


def every():
    return list(contracts.ALL.values())


PROPS = {p: Prop(by(p), FUNC) for p in
         ('C01', 'C02', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19')}
PROPS['C03'] = Prop(lambda: [c for c in lemmas.ALL.values() if c.prop == 'C03' or lemmas.INVERSE.search(c.name)], FUNC)
PROPS['C24'] = Prop(lem('C24'), FUNC)
PROPS['C04'] = Prop(every, FOOT)
PROPS['C05'] = Prop(every, UB)
PROPS['C20'] = Prop(lambda: [c for c in contracts.ALL.values() if c.imm()], IMM)
PROPS['C21'] = Prop(every, PURE, assume=['absence of writes to static or global objects and of calls with outside effects is taken to imply '
                                         'that concurrent calls do not interfere'])
PROPS['C22'] = Prop(lambda: [x for c in contracts.ALL.values() for x in (c, c.from_c())], frozenset({'abi'}), static=True)
PROPS['C23'] = Prop(lem('C23'), FUNC, static=True)


def select(pid):
    return PROPS[pid].sel()


def kinds_or_all(k):
    return set(k) if k is not None else set(ALLK)


def cost(n):
    """heavy functions first"""
    if re.search(r'recp|qsub.*64|mul|mla|mlsl|cvt|div|f32|f64', n):
        return 2
    return 1 if 'vext' in n or 'lane' in n or '_n_' in n else 0


def history(build, c, all_):
    """other API functions that share mutable static storage with c: called before it on replay"""
    if build is None:
        return []
    out = []
    for m in build.libs:
        f = m.funcs.get(c.name)
        if f is None or f.body is None:
            continue
        seen, todo = set(), [c.name]
        gl = set()
        while todo:
            x = todo.pop()
            if x in seen or x not in m.funcs:
                continue
            seen.add(x)
            txt = '\n'.join(m.funcs[x].body)
            for g in re.findall(r'@("[^"]*"|[-A-Za-z$._0-9]+)', txt):
                if g in m.funcs:
                    todo.append(g)
                elif '@' + g in m.globals and irparse.global_class(build.modules, m, '@' + g) != 'never':
                    gl.add('@' + g)
        for g in gl:
            for w in irparse._writers(build.modules, m, g):
                if w in all_ and w != c.name and all_[w] not in out:
                    out.append(all_[w])
    return out[:3]
