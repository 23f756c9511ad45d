"""The specifications: what each library function is to return, as a state machine over the source
(ghost position i, result so far acc, or count n).  They are written from the encodings themselves,
not from the library's code."""
import z3
from core import *
from strlib import *
from loops import Ghost, Z64

OK, TRUNC, BAD = 0, 1, 2
K2 = z3.BitVecSort(2)
B32 = z3.BitVecSort(32)
# decoding at a position of a byte buffer: kind, code point, bytes used
Dk = z3.Function('dec_kind', BSORT[1], B64, B64, K2)
Dv = z3.Function('dec_val', BSORT[1], B64, B64, B32)
Dn = z3.Function('dec_len', BSORT[1], B64, B64, B64)


def v32(n):
    return z3.BitVecVal(n, 32)


def inr(c, lo, hi):
    w = c.size()
    return z3.And(z3.UGE(c, z3.BitVecVal(lo, w)), z3.ULE(c, z3.BitVecVal(hi, w)))


def cont(b):
    return inr(b, 0x80, 0xBF)


def dec_defs(b, ended):
    """(kind, value, length) of the UTF-8 sequence with bytes b[0..5]; ended[k]: no byte k is there.
    Scanned left to right: the first byte missing makes it cut off, the first byte out of place bad."""
    x = [z3.ZeroExt(24, y) for y in b]

    def K(n):
        return z3.BitVecVal(n, 2)

    def seq(n, checks, fin):
        """nested ite: for k in 1..n-1: missing -> TRUNC, not ok -> BAD; then fin"""
        r = fin
        for k in range(n - 1, 0, -1):
            r = z3.If(ended[k], K(TRUNC), z3.If(z3.Not(checks[k]), K(BAD), r))
        return r
    cs = [None] + [cont(b[k]) for k in range(1, 6)]
    v2 = ((x[0] & 0x1f) << 6) | (x[1] & 0x3f)
    v3 = ((x[0] & 0x0f) << 12) | ((x[1] & 0x3f) << 6) | (x[2] & 0x3f)
    w2 = ((x[3] & 0x0f) << 12) | ((x[4] & 0x3f) << 6) | (x[5] & 0x3f)
    v4 = ((x[0] & 0x07) << 18) | ((x[1] & 0x3f) << 12) | ((x[2] & 0x3f) << 6) | (x[3] & 0x3f)
    v5 = ((x[0] & 0x03) << 24) | ((x[1] & 0x3f) << 18) | ((x[2] & 0x3f) << 12) | ((x[3] & 0x3f) << 6) | (x[4] & 0x3f)
    v6 = ((x[0] & 0x01) << 30) | ((x[1] & 0x3f) << 24) | ((x[2] & 0x3f) << 18) | ((x[3] & 0x3f) << 12) | ((x[4] & 0x3f) << 6) | (x[5] & 0x3f)
    vp = v32(0x10000) + ((v3 & 0x3ff) << 10) + (w2 & 0x3ff)
    first = inr(v3, 0xD800, 0xDBFF)
    second = inr(v3, 0xDC00, 0xDFFF)
    ok = lambda c: z3.If(c, K(OK), K(BAD))
    pairk = z3.If(ended[3], K(TRUNC), z3.If(z3.Not(inr(b[3], 0xE0, 0xEF)), K(BAD),
            z3.If(ended[4], K(TRUNC), z3.If(z3.Not(cs[4]), K(BAD),
            z3.If(ended[5], K(TRUNC), z3.If(z3.Not(cs[5]), K(BAD), ok(inr(w2, 0xDC00, 0xDFFF))))))))
    k3 = seq(3, cs, z3.If(first, pairk, ok(z3.And(z3.UGE(v3, 0x800), z3.Not(second)))))
    c0 = b[0]
    kind = z3.If(z3.ULE(c0, 0x7f), K(OK), z3.If(z3.ULE(c0, 0xbf), K(BAD),
            z3.If(z3.ULE(c0, 0xdf), seq(2, cs, ok(z3.UGE(v2, 0x80))),
            z3.If(z3.ULE(c0, 0xef), k3,
            z3.If(z3.ULE(c0, 0xf7), seq(4, cs, ok(z3.UGE(v4, 0x10000))),
            z3.If(z3.ULE(c0, 0xfb), seq(5, cs, ok(z3.UGE(v5, 0x200000))),
            z3.If(z3.ULE(c0, 0xfd), seq(6, cs, ok(z3.UGE(v6, 0x4000000))), K(BAD))))))))
    val = z3.If(z3.ULE(c0, 0x7f), x[0], z3.If(z3.ULE(c0, 0xdf), v2, z3.If(z3.ULE(c0, 0xef), z3.If(first, vp, v3),
            z3.If(z3.ULE(c0, 0xf7), v4, z3.If(z3.ULE(c0, 0xfb), v5, v6)))))
    n = z3.If(z3.ULE(c0, 0x7f), Z64(1), z3.If(z3.ULE(c0, 0xdf), Z64(2), z3.If(z3.ULE(c0, 0xef), z3.If(first, Z64(6), Z64(3)),
            z3.If(z3.ULE(c0, 0xf7), Z64(4), z3.If(z3.ULE(c0, 0xfb), Z64(5), Z64(6))))))
    return kind, val, n


def decode(ex, st, src, i):
    """Terms (kind, value, length) for the sequence at i, with their definition assumed once."""
    i = I(i)
    N = I(src.N) if src.mode == 'len' else Z64(0)
    k, v, n = Dk(src.term, i, N), Dv(src.term, i, N), Dn(src.term, i, N)
    key = ('dec', k.get_id())
    if key not in st.ax:
        st.ax.add(key)
        b = [src.get(ex, st, z3.simplify(i + j)) for j in range(6)]
        ended = [b[j] == 0 for j in range(6)] if src.mode == 'nul' else [z3.UGE(i + j, N) for j in range(6)]
        if src.mode == 'len':
            # a cut-off 3-byte sequence that can only become a second half is malformed already
            e2 = z3.And(z3.Not(ended[1]), ended[2], b[0] == 0xED, z3.UGE(b[1], 0xB0))
            kd, vd, nd = dec_defs(b, ended)
            kd = z3.If(e2, z3.BitVecVal(BAD, 2), kd)
        else:
            kd, vd, nd = dec_defs(b, ended)
        st.assume(z3.And(k == kd, v == vd, n == nd))
        # consequences, spelled out to keep queries small
        st.assume(z3.Implies(k == OK, z3.And(z3.UGE(n, 1), z3.ULE(n, 6), z3.ULE(v, 0x7fffffff), z3.Not(inr(v, 0xD800, 0xDFFF)))))
    return k, v, n


class Spec:
    positions = ('i',)
    counts = ()
    free = False        # no steps: loops are related to fixed marks in the source instead
    accw = None
    src = None

    def start(self, ex, st):
        v = {'i': 0}
        if self.accw:
            v['acc'] = SV(self.accw)
        for c in self.counts:
            v[c] = z3.BitVecVal(0, 32)
        return Ghost(self, v)

    def havoc(self, ex, st, g0):
        n = ex.nextn()
        v = {'i': z3.BitVec('i!%d' % n, 64)}
        if self.accw:
            t = z3.Const('acc!%d' % n, SSORT[self.accw])
            v['acc'] = SV(self.accw, (('t', t),))
            ex.len_axiom(st, self.accw, t)
        for c in self.counts:
            v[c] = z3.BitVec('%s!%d' % (c, n), 32)
        return Ghost(self, v)

    def N(self):
        return I(self.src.N)

    def inv(self, ex, st, g):
        out = [z3.ULE(I(g.v['i']), self.N())]
        for c in self.counts:
            out.append(z3.ULE(z3.ZeroExt(32, bv(g.v[c], 32)), I(g.v['i'])))
        return out

    def bounds(self, ex, st, g0):
        return [self.src.N]

    def string_candidates(self, ex, st, key, v0, g0):
        out = []
        if self.accw == v0.w:
            out.append(('is the result so far', lambda ex, s, g: g.v['acc']))
            if self.src is not None and self.src.kind == 'str' and self.src.w == v0.w:
                out.append(('is the result so far and the rest of the source',
                            lambda ex, s, g: g.v['acc'].cat(SV(v0.w, (('v', self.src.term, g.v['i'], self.src.N),)))))
            if len(v0.p) == 1 and v0.p[0][0] == 't' and str(v0.p[0][1]).startswith('fill!'):
                t, n = v0.p[0][1], sv_len(ex, st, v0).val()
                out.append(('is the result so far and the rest of what it was',
                            lambda ex, s, g: g.v['acc'].cat(SV(v0.w, (('v', t, g.v['i'], n),)))))
        return out

    def marks(self, ex, st, g0):
        return []

    def abs_candidates(self, ex, st, key, v0, g0):
        return []

    def pointer_candidates(self, ex, st, v0, w, g0):
        return []

    def element_candidates(self, ex, st, w, g0):
        if self.src is None or 8 * self.src.w > w:
            return []
        out = []
        sw = 8 * self.src.w
        for k in (0, 1):
            for sx in ((False, True) if w > sw else (False,)):
                def f(ex, s, g, k=k, sx=sx):
                    e = self.src.get(ex, s, z3.simplify(I(g.v['i']) + k))
                    if w > sw:
                        e = z3.SignExt(w - sw, e) if sx else z3.ZeroExt(w - sw, e)
                    return e
                out.append(('is element i+%d%s' % (k, ' (signed)' if sx else ''), f))
        return out

    def walk(self):
        return Walk(self.src)

    # every specification: at the end -> result, otherwise one code point
    def step(self, S):
        if S.br(I(S.i) == self.N()):
            return ('ret', self.final(S))
        return self.one(S)


class Walk(Spec):
    """One element of the source after the other, for a loop that only goes over it."""

    def __init__(self, src):
        self.src = src

    def final(self, S):
        return []

    def one(self, S):
        return ('step', {'i': S.ex.mk(I(S.i) + 1)})


def enc8(S, acc, c):
    """UTF-8 form of c appended."""
    ch = lambda e: z3.Extract(7, 0, e)
    t = lambda sh: ch((z3.LShR(c, sh) & 0x3f) | 0x80)
    if S.br(z3.ULE(c, 0x7f)):
        out = [ch(c)]
    elif S.br(z3.ULE(c, 0x7ff)):
        out = [ch(z3.LShR(c, 6) | 0xc0), t(0)]
    elif S.br(z3.ULE(c, 0xffff)):
        out = [ch(z3.LShR(c, 12) | 0xe0), t(6), t(0)]
    elif S.br(z3.ULE(c, 0x1fffff)):
        out = [ch(z3.LShR(c, 18) | 0xf0), t(12), t(6), t(0)]
    elif S.br(z3.ULE(c, 0x3ffffff)):
        out = [ch(z3.LShR(c, 24) | 0xf8), t(18), t(12), t(6), t(0)]
    else:
        out = [ch(z3.LShR(c, 30) | 0xfc), t(24), t(18), t(12), t(6), t(0)]
    return SV(1, acc.p + tuple(('c', S.ex.mk(x)) for x in out))


def enc16(S, acc, c):
    if S.br(z3.ULE(c, 0xffff)):
        return acc.push(S.ex.mk(z3.Extract(15, 0, c)))
    d = c - 0x10000
    return acc.push(S.ex.mk(z3.Extract(15, 0, v32(0xd800) + z3.LShR(d, 10)))).push(S.ex.mk(z3.Extract(15, 0, v32(0xdc00) + (d & 0x3ff))))


def get_point(S, src):
    """(kind, code point as 32 bits, elements used) at the ghost position, decided on this path."""
    ex, st = S.ex, S.st
    i = I(S.i)
    if src.w == 1:
        k, v, n = decode(ex, st, src, S.i)
        if S.br(k == BAD):
            return BAD, None, None
        if S.br(k == TRUNC):
            return TRUNC, None, None
        return OK, v, n
    c = src.get(ex, st, i)
    if src.w == 2:
        c32 = z3.ZeroExt(16, c)
        if S.br(inr(c, 0xDC00, 0xDFFF)):
            return BAD, None, None
        if S.br(inr(c, 0xD800, 0xDBFF)):
            if src.mode == 'nul':
                d = src.get(ex, st, z3.simplify(i + 1))
                if S.br(d == 0):
                    return TRUNC, None, None
            else:
                if S.br(i + 1 == I(src.N)):
                    return TRUNC, None, None
                d = src.get(ex, st, z3.simplify(i + 1))
            if not S.br(inr(d, 0xDC00, 0xDFFF)):
                return BAD, None, None
            return OK, v32(0x10000) + ((c32 & 0x3ff) << 10) + (z3.ZeroExt(16, d) & 0x3ff), Z64(2)
        return OK, c32, Z64(1)
    if S.br(inr(c, 0xD800, 0xDFFF)):
        return BAD, None, None
    return OK, c, Z64(1)


class Conv(Spec):
    """Conversion to UTF-8 (1), UTF-16 (2), UCS-4 (4) or UCS-2 ('ucs2')."""

    def __init__(self, src, to):
        self.src, self.to = src, to
        self.accw = {'utf8': 1, 'utf16': 2, 'ucs2': 2, 'ucs4': 4}[to]
        self.limit = {'utf8': 0x7fffffff, 'utf16': 0x10ffff, 'ucs2': 0xffff, 'ucs4': 0xffffffff}[to]

    def final(self, S):
        return [S.acc]

    def one(self, S):
        k, c, n = get_point(S, self.src)
        if k == BAD:
            return ('ret', [SV(self.accw)])
        if k == TRUNC:
            return ('ret', [S.acc])
        if self.limit != 0xffffffff and S.br(z3.UGT(c, self.limit)):
            return ('ret', [SV(self.accw)])
        if self.to == 'utf8':
            acc = enc8(S, S.acc, c)
        elif self.to == 'utf16':
            acc = enc16(S, S.acc, c)
        elif self.to == 'ucs2':
            acc = S.acc.push(S.ex.mk(z3.Extract(15, 0, c)))
        else:
            acc = S.acc.push(S.ex.mk(c))
        return ('step', {'i': S.ex.mk(I(S.i) + n), 'acc': acc})


LIMIT = {0: 0x7f, 1: 0x7fffffff, 2: 0xffff, 3: 0x10ffff, 4: 0xffffffff, 5: 0x10ffff}
predOK = z3.Function('predicate_holds', B32, z3.BoolSort())


class Is(Spec):
    """isUtf8/isUtf16/isUcs2/isUcs4 for a target range."""

    def __init__(self, src, enc, target, pred=False):
        self.src, self.enc, self.target, self.pred = src, enc, target, pred

    def final(self, S):
        return [True]

    def one(self, S):
        lim = LIMIT[self.target]
        if self.enc == 'ucs2':
            c = z3.ZeroExt(16, self.src.get(S.ex, S.st, I(S.i)))
            if S.br(inr(c, 0xD800, 0xDFFF)):
                return ('ret', [False])
            n = Z64(1)
        else:
            k, c, n = get_point(S, self.src)
            if k == BAD:
                return ('ret', [False])
            if k == TRUNC:
                # judged by its first element
                f = self.src.get(S.ex, S.st, I(S.i))
                if self.src.w == 1:
                    if self.target == 0:
                        return ('ret', [False])
                    if self.target == 2:
                        return ('ret', [S.ex.mk(z3.ULE(f, 0xef))])
                    if self.target in (3, 5):
                        return ('ret', [S.ex.mk(z3.ULE(f, 0xf4))])
                    return ('ret', [True])
                return ('ret', [self.target not in (0, 2)])
        if lim != 0xffffffff and S.br(z3.UGT(c, lim)):
            return ('ret', [False])
        if self.pred:
            S.st.assume(z3.Implies(S.ex.pred_val == S.ex.pred_default, predOK(c)))
        if self.pred and not S.br(predOK(c)):
            return ('ret', [False])
        return ('step', {'i': S.ex.mk(I(S.i) + n)})


class Count(Spec):
    """unicodeLength."""
    counts = ('n',)

    def __init__(self, src):
        self.src = src

    def final(self, S):
        return [S.n]

    def one(self, S):
        k, c, n = get_point(S, self.src)
        zero = z3.BitVecVal(0, 32)
        if k == BAD:
            return ('ret', [zero])
        if k == TRUNC:
            # known finding: NUL-terminated scans return one too few here
            return ('ret', [S.n, S.n - 1] if self.src.mode == 'nul' else [S.n])
        if self.src.w == 1 and S.br(z3.UGT(c, 0x10ffff)):
            return ('ret', [zero])
        return ('step', {'i': S.ex.mk(I(S.i) + n), 'n': S.ex.mk(bv(S.n, 32) + 1)})


CP1252 = [0x20ac, 0, 0x201a, 0x0192, 0x201e, 0x2026, 0x2020, 0x2021, 0x02c6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017d, 0,
          0, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x02dc, 0x2122, 0x0161, 0x203a, 0x0153, 0, 0x017e, 0x0178] + list(range(0xa0, 0x100))
_h = {0x81, 0x83, 0x88, 0x90, 0x98}
CP1250 = [0 if b in _h else ord(bytes([b]).decode('cp1250')) for b in range(0x80, 0x100)]
assert CP1252 == [0 if b in {0x81, 0x8d, 0x8f, 0x90, 0x9d} else ord(bytes([b]).decode('cp1252')) for b in range(0x80, 0x100)]


class CodePage(Spec):
    accw = 1

    def __init__(self, src, table):
        self.src, self.table = src, table

    def final(self, S):
        return [S.acc]

    def one(self, S):
        b = self.src.get(S.ex, S.st, I(S.i))
        nxt = S.ex.mk(I(S.i) + 1)
        if S.br(z3.ULE(b, 0x7f)):
            return ('step', {'i': nxt, 'acc': S.acc.push(b)})
        bad = [0x80 + k for k, v in enumerate(self.table) if v == 0]
        if S.br(z3.Or(*[b == x for x in bad])):
            return ('ret', [SV(1)])
        e = v32(self.table[-1])
        k = len(self.table) - 2
        while k >= 0:
            e = z3.If(b == 0x80 + k, v32(self.table[k]), e)
            k -= 1
        if S.br(z3.ULE(e, 0x7ff)):
            out = [z3.LShR(e, 6) | 0xc0, (e & 0x3f) | 0x80]
        else:
            out = [z3.LShR(e, 12) | 0xe0, (z3.LShR(e, 6) & 0x3f) | 0x80, (e & 0x3f) | 0x80]
        acc = SV(1, S.acc.p + tuple(('c', z3.Extract(7, 0, x)) for x in out))
        return ('step', {'i': nxt, 'acc': acc})


lowerU = z3.Function('simple_lower', B32, B32)
turkicU = z3.Function('turkic_lower', B32, B32)


class Map(Spec):
    """toLower of a UCS-4 string: every element mapped."""
    accw = 4

    def __init__(self, src, fn):
        self.src, self.fn = src, fn

    def final(self, S):
        return [S.acc]

    def one(self, S):
        c = self.src.get(S.ex, S.st, I(S.i))
        return ('step', {'i': S.ex.mk(I(S.i) + 1), 'acc': S.acc.push(self.fn(S, c))})


class LowerConv(Conv):
    """toLower of UTF-8 and UTF-16: decoded, mapped, encoded again."""

    def __init__(self, src, to, fn):
        Conv.__init__(self, src, to)
        self.fn = fn

    def one(self, S):
        k, c, n = get_point(S, self.src)
        if k == BAD:
            return ('ret', [SV(self.accw)])
        if k == TRUNC:
            return ('ret', [S.acc])
        c = self.fn(S, c)
        if self.limit != 0xffffffff and S.br(z3.UGT(c, self.limit)):
            return ('ret', [SV(self.accw)])
        acc = enc8(S, S.acc, c) if self.to == 'utf8' else enc16(S, S.acc, c)
        return ('step', {'i': S.ex.mk(I(S.i) + n), 'acc': acc})


class Copy(Spec):
    """The elements up to the NUL; ok: empty unless it holds of every one of them."""

    def __init__(self, src, ok=None):
        self.src, self.accw, self.ok = src, src.w, ok

    def final(self, S):
        return [S.acc]

    def one(self, S):
        c = self.src.get(S.ex, S.st, I(S.i))
        if self.ok is not None and not S.br(self.ok(S, c)):
            return ('ret', [SV(self.accw)])
        return ('step', {'i': S.ex.mk(I(S.i) + 1), 'acc': S.acc.push(c)})
