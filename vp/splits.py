"""split and join: specification and goals."""
from proofs import *
from seqlib import Seq, nn
import seqlib

brk_f = {w: z3.Function('brk%d' % (8 * w), SSORT[w], z3.BitVecSort(8 * w), B64, B64) for w in (1, 2, 4)}
ps_f = {w: z3.Function('start%d' % (8 * w), SSORT[w], z3.BitVecSort(8 * w), B64, B64) for w in (1, 2, 4)}
num_f = {w: z3.Function('delims%d' % (8 * w), SSORT[w], z3.BitVecSort(8 * w), B64) for w in (1, 2, 4)}
SW = {'8': (1, 'std::string'), '16': (2, 'std::u16string'), '32': (4, 'std::u32string'), 'w': (4, 'std::wstring')}


class Cut:
    """The places of the delimiter d in the string t: brk(k) is that of the k-th, start(k) the place
    after the one before it (0 for the first), D their number.  start(0) = 0, brk(k) = the first d at or
    after start(k), start(k + 1) = brk(k) + 1, and there is none at or after start(D)."""

    def __init__(self, w, t, d):
        self.w, self.t, self.d = w, t, d
        self.D = num_f[w](t, d)
        self.len = len_f[w](t)

    def base(self, ex, st):
        k = ('cut', self.D.get_id())
        if k not in st.ax:
            st.ax.add(k)
            ex.len_axiom(st, self.w, self.t)
            st.assume(z3.ULE(self.D, self.len))

    def inst(self, ex, st, k):
        """The definition at k."""
        k = z3.simplify(I(k))
        w, t, d = self.w, self.t, self.d
        b, p = brk_f[w](t, d, k), ps_f[w](t, d, k)
        key = ('brk', b.get_id())
        if key in st.ax:
            return b, p
        st.ax.add(key)
        self.base(ex, st)
        f = find_f[w](t, d, p)
        ex.find_axiom(st, w, t, d, p, f)
        st.assume(z3.Implies(z3.ULT(k, self.D), z3.And(f == b, z3.ULT(b, self.len), z3.UGE(b, p), z3.ULE(k, b), at_f[w](t, b) == d)))
        st.assume(z3.Implies(k == self.D, f == z3.BitVecVal(NPOS, 64)))
        st.assume(z3.Implies(z3.ULE(k, self.D), z3.And(z3.ULE(p, self.len), z3.ULE(k, p))))
        st.assume(z3.Implies(k == 0, p == 0))
        before = brk_f[w](t, d, z3.simplify(k - 1))
        st.assume(z3.Implies(z3.And(k != 0, z3.ULE(k, self.D)), z3.And(p == before + 1, z3.ULT(before, self.len))))
        return b, p


class Breaks:
    def __init__(self, cut):
        self.cut = cut

    def same(self, o):
        return isinstance(o, Breaks)

    def at(self, ex, st, k):
        return self.cut.inst(ex, st, k)[0]

    def __str__(self):
        return 'breaks'


class Pieces(Breaks):
    def same(self, o):
        return isinstance(o, Pieces)

    def at(self, ex, st, k):
        c = self.cut
        return SV(c.w, (('v', c.t, c.inst(ex, st, k)[1], self.end(ex, st, k)),))

    def end(self, ex, st, k):
        c = self.cut
        return ex.mk(z3.If(z3.ULT(z3.simplify(I(k)), c.D), c.inst(ex, st, k)[0], c.len))

    def __str__(self):
        return 'pieces'


class Given(Breaks):
    """The elements of the vector given to join."""

    def __init__(self, w, v):
        self.w, self.v = w, v

    def same(self, o):
        return isinstance(o, Given) and self.v.eq(o.v)

    def at(self, ex, st, k):
        e = velem_f[self.w](self.v, z3.simplify(I(k)))
        ex.len_axiom(st, self.w, e)
        return SV(self.w, (('t', e),))

    def __str__(self):
        return 'elements'


class Split(Spec):
    free = True
    positions = ('turn',)

    def __init__(self, cut):
        self.cut = cut
        self.breaks, self.pieces = Breaks(cut), Pieces(cut)

    def start(self, ex, st):
        return Ghost(self, {'turn': Z64(0)})

    def havoc(self, ex, st, g0):
        g = g0.copy()
        t = g.v['turn'] = ex.fresh('turn', 64)
        self.cut.inst(ex, st, t)
        self.cut.inst(ex, st, t + 1)
        return g

    def inv(self, ex, st, g):
        return []

    def step(self, S):
        return ('ret', [])

    def bounds(self, ex, st, g0):
        return [self.cut.D, self.cut.len]

    def marks(self, ex, st, g0):
        return []

    def string_candidates(self, ex, st, key, v0, g0):
        if v0.w != self.cut.w:
            return []
        t0 = g0.v['turn']
        dt = lambda g, c: nn(Lin.of(g.v['turn']).add(Lin.of(t0).scale(-1)).add(Lin(c)))
        out = [('is piece turn%+d' % c, lambda ex, s, g, c=c: self.pieces.at(ex, s, dt(g, c))) for c in (0, -1, 1)]
        for c in (0, 1):
            out.append(('is what follows break turn%+d' % (c - 1), lambda ex, s, g, c=c: SV(v0.w, (('v', self.cut.t, self.cut.inst(ex, s, dt(g, c))[1], self.cut.len),))))
        return out

    def abs_candidates(self, ex, st, key, v0, g0):
        """The sequence grows by the next pieces (or breaks), or is filled with them from the left."""
        if not isinstance(v0, Seq) or any(s[0] == 'u' for s in v0.segs):
            return []
        if v0.kind not in (0, self.cut.w):
            return []
        src = self.pieces if v0.kind else self.breaks
        t0 = g0.v['turn']
        dt = lambda g: Lin.of(g.v['turn']).add(Lin.of(t0).scale(-1))
        n = v0.length()
        out = [('grows by the next %s' % src, lambda ex, s, g: Seq(v0.kind, v0.segs + (('p', src, nn(n), nn(n.add(dt(g)))),)))]
        if v0.segs and v0.segs[-1][0] == 'r':
            r = v0.segs[-1]
            m = Seq(v0.kind, v0.segs[:-1]).length()
            out.append(('is filled with the next %s' % src, lambda ex, s, g: Seq(v0.kind, v0.segs[:-1] + (
                ('p', src, nn(m), nn(m.add(dt(g)))), ('r', r[1], nn(Lin.of(r[2]).add(dt(g).scale(-1))))))))
        return out

    def pointer_candidates(self, ex, st, v0, w, g0):
        """Iterators of the string: at the start of a piece, at its end."""
        cut = self.cut
        if not ex.stands_for(st, v0.obj, cut.t):
            return []
        out = []
        t0 = g0.v['turn']
        dt = lambda g, c: nn(Lin.of(g.v['turn']).add(Lin.of(t0).scale(-1)).add(Lin(c)))
        here = lambda e: Ptr(v0.obj, Lin.of(e).scale(w))
        for c in (0, 1, -1):
            out.append(('is at the start of piece turn%+d' % c, lambda ex, s, g, c=c: here(cut.inst(ex, s, dt(g, c))[1])))
            out.append(('is at the end of piece turn%+d' % c, lambda ex, s, g, c=c: here(self.pieces.end(ex, s, dt(g, c)))))
        return out

    def element_candidates(self, ex, st, w, g0):
        out = []
        t0 = g0.v['turn']
        dt = lambda g, c: nn(Lin.of(g.v['turn']).add(Lin.of(t0).scale(-1)).add(Lin(c)))
        cut = self.cut
        if w == 64:
            for c in (0, 1, -1):
                out.append(('is break turn%+d' % c, lambda ex, s, g, c=c: cut.inst(ex, s, dt(g, c))[0]))
                out.append(('is the start of piece turn%+d' % c, lambda ex, s, g, c=c: cut.inst(ex, s, dt(g, c))[1]))
                out.append(('is the next delimiter from piece turn%+d' % c, lambda ex, s, g, c=c: find_f[cut.w](cut.t, cut.d, cut.inst(ex, s, dt(g, c))[1])))

        for c in (0, 1):
            def f(ex, s, g, c=c):
                x = I(dt(g, c))
                e = z3.If(z3.ULT(x, cut.D), x, cut.D)
                return ex.mk(z3.Extract(w - 1, 0, e) if w < 64 else e)
            if w <= 64:
                out.append(('is turn%+d, or the last' % c, f))
        return out


class SplitEach(Split):
    """The same, character by character: position i lies in piece turn."""
    free = False
    positions = ('i', 'turn')

    def start(self, ex, st):
        self.cut.inst(ex, st, 0)
        return Ghost(self, {'i': 0, 'turn': 0})

    def havoc(self, ex, st, g0):
        t = ex.fresh('turn', 64)
        g = Ghost(self, {'i': ex.fresh('i', 64), 'turn': t})
        self.cut.inst(ex, st, t)
        self.cut.inst(ex, st, t + 1)
        return g

    def inv(self, ex, st, g):
        t, i = I(g.v['turn']), I(g.v['i'])
        p, e = self.cut.inst(ex, st, t)[1], self.pieces.end(ex, st, t)
        return [z3.ULE(t, self.cut.D), z3.ULE(p, i), z3.ULE(i, e)]

    def step(self, S):
        c, ex = self.cut, S.ex
        if S.br(I(S.i) == c.len):
            return ('ret', [])
        x = at_f[c.w](c.t, I(S.i))
        c.inst(ex, S.st, I(S.turn))
        S.st.reads.append((str(c.t), I(S.i), x))
        ex.str_lemma(S.st, c.w, c.t, I(S.i), x)
        v = {'i': ex.mk(I(S.i) + 1)}
        if S.br(x == c.d):
            v['turn'] = ex.mk(I(S.turn) + 1)
            c.inst(ex, S.st, v['turn'])
        return ('step', v)

    def string_candidates(self, ex, st, key, v0, g0):
        out = Split.string_candidates(self, ex, st, key, v0, g0)
        if v0.w == self.cut.w:
            out.append(('is the piece so far', lambda ex, s, g: SV(v0.w, (('v', self.cut.t, self.cut.inst(ex, s, I(g.v['turn']))[1], I(g.v['i'])),))))
        return out


def split_goals():
    out = []
    for x, (w, full) in SW.items():
        def setup(c, w=w):
            c.sret(24)
            bound, c.bound = c.bound, None
            t = c.string('src', w)
            d = c.scalar('delim', 8 * w)
            cut = Cut(w, t, d)
            cut.base(c.ex, c.st)
            cut.inst(c.ex, c.st, 0)
            if bound is not None:
                # so many delimiters, the string of any length
                c.st.assume(cut.D == bound)
                c.st.assume(z3.ULE(cut.len, 200000))
                for k in range(1, bound + 1):
                    cut.inst(c.ex, c.st, k)
                c.ex.places = [(brk_f[w](t, d, Z64(k)), d) for k in range(bound)]
            return SplitEach(cut) if c.ex.opts.get('alt') else Split(cut)

        def post(ex, q, spec):
            cut = spec.cut
            r = seqlib.seq_of(ex, q, Ptr('result'))
            if r is None:
                return
            r.known()
            n = I(nn(r.length()))
            empty = cut.len == 0
            ex.oblige(q, z3.If(empty, n == 0, n == cut.D + 1), 'the pieces are one more than the delimiters, and none for an empty string', 'post')
            want = Seq(cut.w, [('p', spec.pieces, 0, nn(Lin.of(cut.D).add(Lin(1))))])
            if ex.valid(q, empty):
                return
            e = r.eqcond(ex, q, want)
            ex.oblige(q, b_or(empty, e), 'each piece is what lies between two successive delimiters', 'post')
        out.append(G('split(%s)' % full, 'e_split_' + x, setup, post, {'own_end': True, 'unroll': 2, 'strategies': [{}, {'alt': True, 'general': True}] + STRATEGIES[1:3] + [{'alt': True, 'general': True, 'peel': 1}]}, bounds=range(0, 5)))
    return out


class Join(Spec):
    def __init__(self, w, v, d):
        self.w = self.accw = w
        self.v, self.d = v, d
        self.n = vlen_f[w](v)
        self.given = Given(w, v)

    def N(self):
        return self.n

    def bounds(self, ex, st, g0):
        return [self.n]

    def final(self, S):
        return [S.acc]

    def one(self, S):
        e = self.given.at(S.ex, S.st, S.i)
        acc = S.acc
        if not S.br(I(S.i) == 0):
            acc = acc.push(self.d)
        return ('step', {'i': S.ex.mk(I(S.i) + 1), 'acc': acc.cat(e)})

    def string_candidates(self, ex, st, key, v0, g0):
        out = Spec.string_candidates(self, ex, st, key, v0, g0)
        if v0.w == self.w:
            out.append(('is the result so far and a delimiter', lambda ex, s, g: g.v['acc'].push(self.d)))
        return out

    def element_candidates(self, ex, st, w, g0):
        out = []
        if w == 8 * self.w:
            out.append(('is the delimiter from the second element on', lambda ex, s, g: self.d if ex.valid(s, I(g.v['i']) != 0) else None))
        return out


def join_goals():
    out = []
    for x, (w, full) in SW.items():
        def setup(c, w=w):
            ex, st = c.ex, c.st
            c.sret()
            v = z3.Const('vec_src', VSORT[w])
            n = vlen_f[w](v)
            st.assume(z3.ULE(n, MAXLEN))
            if c.bound is not None:
                st.assume(n == c.bound)
            else:
                ex.lens.append(n)
            spec = Join(w, v, None)
            st.mem['param src'] = MObj('mem', 24, {(0, 'seq'): Seq(w, [('p', spec.given, 0, n)])}, True)
            c.args.append(Ptr('param src'))
            ex.params['size_src'] = n
            ex.argspec.append(('vec', w, v))
            spec.d = c.scalar('delim', 8 * w)
            return spec
        out.append(G('join(%s)' % full, 'e_join_' + x, setup, post_any('join', w), {}, bounds=range(0, 4)))
    return out


# ------------------------------------------------------------------ lemmas over the two specifications

def split_lemmas():
    from lemmas import lemma, prove_spec
    out = []
    for w, nm in ((1, 'char'), (2, 'char16_t'), (4, 'char32_t and wchar_t')):
        uses = ['ansak::split (%s)' % nm, 'ansak::join (%s)' % nm]

        def cut(st, ex, w=w):
            c = Cut(w, z3.Const('s', SSORT[w]), z3.BitVec('d', 8 * w))
            ex.len_axiom(st, w, c.t)
            return c

        def read(st, c, j):
            v = at_f[c.w](c.t, j)
            st.reads.append((str(c.t), j, v))
            return v

        def defined(ex, w=w, cut=cut, read=read):
            # start(k) and the first delimiter from there on, without what Cut.inst adds to the definition
            for first in (True, False):
                st = State()
                c = cut(st, ex)
                k, p, j = z3.BitVec('k', 64), z3.BitVec('start', 64), z3.BitVec('j', 64)
                cnt = z3.Function('before', B64, B64)       # delimiters before a place
                if first:
                    st.assume(z3.And(k == 0, p == 0, cnt(Z64(0)) == 0))
                    for e, n in ((z3.ULE(p, c.len), 'starts within the string'), (z3.ULE(k, p), 'k is at most the start of piece k'), (cnt(p) == k, 'k delimiters lie before piece k')):
                        ex.oblige(st, e, 'the first piece: ' + n, 'lemma')
                    continue
                st.assume(z3.And(z3.ULE(p, c.len), z3.ULE(k, p), cnt(p) == k))
                vj = read(st, c, j)
                f = find_f[w](c.t, c.d, p)
                ex.find_axiom(st, w, c.t, c.d, p, f)
                none = f == z3.BitVecVal(NPOS, 64)
                end = z3.If(none, c.len, f)
                inside = z3.And(z3.UGE(j, p), z3.ULT(j, end))
                ex.oblige(st, z3.Implies(inside, vj != c.d), 'no piece contains the delimiter', 'lemma')
                ex.oblige(st, z3.And(z3.ULE(p, end), z3.ULE(end, c.len)), 'each piece lies within the string', 'lemma')
                # counting up to j, by induction on j
                one = z3.BitVecVal(1, 64)
                tail = lambda x, v: cnt(x + one) == cnt(x) + z3.If(v == c.d, one, z3.BitVecVal(0, 64))
                s = st.fork()
                s.assume(z3.And(inside, cnt(j) == k, tail(j, vj)))
                ex.oblige(s, cnt(j + one) == k, 'no delimiter is counted within a piece', 'lemma')
                s = st.fork()
                s.assume(cnt(end) == k)
                s.assume(z3.Not(none))
                s.assume(tail(f, at_f[w](c.t, f)))
                for e, n in ((z3.ULE(f + 1, c.len), 'starts within the string'), (z3.ULE(k + 1, f + 1), 'k is at most the start of piece k'), (cnt(f + 1) == k + 1, 'k delimiters lie before piece k')):
                    ex.oblige(s, e, 'the next piece: ' + n, 'lemma')
                s = st.fork()
                s.assume(z3.And(none, cnt(end) == k))
                ex.oblige(s, cnt(c.len) == k, 'the last piece has the number of all delimiters, so the pieces are one more', 'lemma')
        def each(st, ex, w=w, cut=cut):
            c = cut(st, ex)
            c.base(ex, st)
            return SplitEach(c)
        out.append(prove_spec('split by characters (%s)' % nm, lambda ex, st, each=each: each(st, ex), uses))
        out.append(lemma('split pieces of %s are those between delimiters' % nm, defined, uses))

        def back(ex, w=w, cut=cut):
            st = State()
            c = cut(st, ex)
            c.base(ex, st)
            j = Join(w, z3.Const('pieces', VSORT[w]), c.d)
            j.given = Pieces(c)
            j.n = c.D + 1
            g = j.start(ex, st)
            ex.oblige(st, sv_eq(ex, st, g.v['acc'], SV(w)), 'nothing is joined at first', 'lemma')
            st = State()
            c = j.given.cut = cut(st, ex)
            c.base(ex, st)
            c.inst(ex, st, 0)
            i = z3.BitVec('i', 64)
            st.assume(z3.ULT(i, j.n))
            pre = j.given.at(ex, st, z3.simplify(i - 1))
            now = j.given.at(ex, st, i)
            end = lambda x: x.p[0][3]
            g = Ghost(j, {'i': i, 'acc': SV(w)})
            n = 0
            for zero in (True, False):
                s = st.fork()
                s.assume((i == 0) if zero else (i != 0))
                h = g.copy()
                h.v['acc'] = SV(w) if zero else SV(w, (('v', c.t, Z64(0), end(pre)),))
                s.ghost = h
                for q in ghost_step(ex, s):
                    if ex.feasible(q) and q.ghost.done is None:
                        n += 1
                        ex.oblige(q, sv_eq(ex, q, q.ghost.v['acc'], SV(w, (('v', c.t, Z64(0), end(now)),))), 'joined so far is the string up to the end of the last piece', 'lemma')
                        ex.oblige(q, ex.mk(I(q.ghost.v['i']) == i + 1), 'one piece at a time', 'lemma')
            ex.oblige(st, n >= 2, 'there is a first piece and a next', 'lemma')
            last = j.given.at(ex, st, c.D)
            ex.oblige(st, ex.mk(end(last) == c.len), 'the last piece ends the string', 'lemma')
        out.append(lemma('join gives back what was split (%s)' % nm, back, uses))
    return out
