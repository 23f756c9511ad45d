"""Character classes and the lower-case mapping against the Unicode Character Database, for every value."""
import functools, os, re
from proofs import *

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
VERS = list(range(7, 17))


@functools.lru_cache(None)
def ucd(ver):
    A, L = [], {}
    for l in open('%s/ucd%d.txt' % (DATA, ver)):
        k, a, b = l.split()
        a, b = int(a, 16), int(b, 16)
        if k == 'A':
            A.append((a, b))
        else:
            L[a] = b
    A.sort()
    m = []
    for a, b in A:
        if m and m[-1][1] + 1 == a:
            m[-1] = (m[-1][0], b)
        else:
            m.append((a, b))
    return m, L


def known_lower(ver):
    """{code point: tolerated result} in one Unicode version, from the known findings."""
    out = {}
    for l in open(os.path.dirname(DATA) + '/known-findings.txt'):
        m = re.match(r'KNOWN-FINDING: property=(\w+) (.*) \| lower (\S+) (\S+) \+(\w+)$', l.strip())
        if m:
            a, b = map(int, m.group(3).split('-'))
            if a <= ver <= b:
                for r in m.group(4).split(','):
                    x, y = [int(q, 16) for q in r.split('-')]
                    for c in range(x, y + 1):
                        out[c] = c + int(m.group(5), 16)
    return out


PRIVATE = [(0xE000, 0xF8FF), (0xF0000, 0xFFFFD), (0x100000, 0x10FFFD)]
CONTROL = [(0, 0x1F), (0x7F, 0x9F)]
WHITE = [(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


def ranges_of(cn, ver):
    return {'assigned': ucd(ver)[0], 'private': PRIVATE, 'control': CONTROL, 'white': WHITE}[cn]


def member(c, rs):
    """c lies in one of the ranges (sorted, apart): a search tree of comparisons."""
    if not rs:
        return z3.BoolVal(False)
    if len(rs) <= 2:
        return z3.Or(*[inr(c, a, b) for a, b in rs])
    k = len(rs) // 2
    return z3.If(z3.ULT(c, z3.BitVecVal(rs[k][0], c.size())), member(c, rs[:k]), member(c, rs[k:]))


def clip(rs, lo, hi):
    return [(max(a, lo), min(b, hi)) for a, b in rs if a <= hi and b >= lo]


def span(ex, s, c):
    """Bounds of c on this path (a cheap over-approximation by halving)."""
    w = c.size()
    lo, hi = 0, (1 << w) - 1
    # bits from the top: fixed ones narrow the range
    for k in range(w - 1, -1, -1):
        mid = (lo + hi + 1) // 2
        if not ex.feasible(s, z3.UGE(c, mid)):
            hi = mid - 1
        elif not ex.feasible(s, z3.ULT(c, mid)):
            lo = mid
        else:
            break
    return lo, hi


def class_goal(cn, w, ver):
    fn = {'assigned': 'isUnicodeAssigned', 'private': 'isUnicodePrivate', 'control': 'isControlChar', 'white': 'isWhitespaceChar'}[cn]

    def setup(c):
        return c.scalar('c', 8 * w)

    def post(ex, q, c):
        v = q.ret
        if isinstance(v, Undef) or v is None:
            ex.fail(q, 'result is defined', 'post', 'no result')
            return
        lo, hi = span(ex, q, c)
        x = z3.ZeroExt(32 - 8 * w, c) if w < 4 else c
        want = member(x, clip(ranges_of(cn, ver), lo, hi))
        ex.oblige(q, eqv(ex, q, ('i', 1), v, want), '%s exactly for the values the definition lists, %X..%X' % (cn, lo, hi), 'post')
    return G('%s(%s), Unicode %d' % (fn, CN[w], ver), 'e_%s%d' % (cn, 8 * w), setup, post, {'noself': True}, budget=150, ver=ver)


def lower_runs(ver, tk):
    """The mapping as runs (first, last, step, delta): each step-th value of a run is moved by delta."""
    L = dict(ucd(ver)[1])
    if tk:
        L[0x49] = 0x131
        L[0x130] = 0x69
    ks = sorted(L)
    runs = []
    for c in ks:
        d = L[c] - c
        for r in runs[-2:]:
            pass
        if runs and runs[-1][3] == d and c - runs[-1][1] in (1, 2) and (runs[-1][2] is None or c - runs[-1][1] == runs[-1][2]):
            runs[-1][2] = c - runs[-1][1]
            runs[-1][1] = c
        else:
            runs.append([c, c, None, d])
    return [tuple(r) for r in runs]


def lowered(c, runs):
    if not runs:
        return c
    if len(runs) == 1:
        a, b, st, d = runs[0]
        k = inr(c, a, b)
        if st == 2:
            k = z3.And(k, z3.Extract(0, 0, c) == a & 1)
        return z3.If(k, c + z3.BitVecVal(d & 0xffffffff, 32), c)
    k = len(runs) // 2
    return z3.If(z3.ULT(c, z3.BitVecVal(runs[k][0], 32)), lowered(c, runs[:k]), lowered(c, runs[k:]))


def lower_goal(tk, ver):
    runs = lower_runs(ver, tk)
    check = {}
    L = dict(ucd(ver)[1])
    if tk:
        L[0x49], L[0x130] = 0x131, 0x69
    for a, b, st, d in runs:
        for c in range(a, b + 1, st or 1):
            check[c] = c + d
    assert check == L
    kn = known_lower(ver)

    def setup(c):
        return c.scalar('c', 32)

    def post(ex, q, c):
        v = q.ret
        if isinstance(v, Undef) or v is None:
            ex.fail(q, 'result is defined', 'post', 'no result')
            return
        v = bv(v, 32)
        lo, hi = span(ex, q, c)
        want = lowered(c, [r for r in runs if r[0] <= hi and r[1] >= lo])
        ok = v == want
        for a, b, add in known_runs(kn):
            if a <= hi and b >= lo:
                ok = z3.Or(ok, z3.And(inr(c, a, b), v == c + add))
        ex.oblige(q, ok, 'the simple lower-case mapping, %X..%X' % (lo, hi), 'post')
        if lo == 0:
            ex.oblige(q, z3.Implies(c != 0, v != 0), 'only NUL becomes NUL', 'post')
        else:
            ex.oblige(q, v != 0, 'only NUL becomes NUL', 'post')
    return G('%s(char32_t), Unicode %d' % ('turkicToLower' if tk else 'toLower', ver), 'e_turkic' if tk else 'e_lower', setup, post, {'noself': True}, budget=150, ver=ver)


def known_runs(kn):
    out = []
    for c in sorted(kn):
        add = kn[c] - c
        if out and out[-1][1] + 1 == c and out[-1][2] == add:
            out[-1][1] = c
        else:
            out.append([c, c, add])
    return out


def class_goals(ver):
    return [class_goal(cn, w, ver) for cn in ('assigned', 'private', 'control', 'white') for w in (1, 2, 4)]


def table_goals(ver):
    return [lower_goal(False, ver), lower_goal(True, ver)]
