"""The specification of trimming: A is the place of the first element outside the set (the length if
there is none), B the place after the last one; the result is [A, B).  A and B exist for every string
and set; their definition is instantiated at every element the proof looks at."""
from strlib import *
from specs import *
from loops import Ghost, Z64

WS = [0x09, 0x0A, 0x0D, 0x20, 0xA0] + list(range(0x2000, 0x200B)) + [0x202F, 0x205F, 0x3000]
ASCII_WS = [0x09, 0x0A, 0x0D, 0x20]


class Trim(Spec):
    free = True
    positions = ('turn',)

    def __init__(self, w, inset, tag):
        self.w, self.inset, self.tag = w, inset, tag
        self.terms = []

    def start(self, ex, st):
        return Ghost(self, {'turn': Z64(0)})

    def havoc(self, ex, st, g0):
        g = g0.copy()
        g.v['turn'] = ex.fresh('turn', 64)
        return g

    def inv(self, ex, st, g):
        return []

    def step(self, S):
        return ('ret', [])

    def bounds(self, ex, st, g0):
        return [len_f[w](t) for w, t in self.terms]

    def marks(self, ex, st, g0):
        out = []
        for k, (w, t) in enumerate(self.terms):
            A, B = self.ab(ex, st, w, t)
            out += [('A%d' % k, A), ('B%d' % k, B)]
        return out

    def element_candidates(self, ex, st, w, g0):
        return []

    def funs(self, w):
        return (z3.Function('trimA%d_%s' % (8 * w, self.tag), SSORT[w], B64), z3.Function('trimB%d_%s' % (8 * w, self.tag), SSORT[w], B64))

    def isin(self, ex, st, v):
        c = self.inset(ex, st, v)
        c = z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c
        p = z3.Function('in%d_%s' % (v.size(), self.tag), v.sort(), z3.BoolSort())(v)
        k = ('in', p.get_id())
        if k not in st.ax:
            st.ax.add(k)
            st.assume(p == c)
        return p

    def ab(self, ex, st, w, t):
        fa, fb = self.funs(w)
        A, B = fa(t), fb(t)
        k = ('trim', t.get_id())
        if k not in st.ax:
            st.ax.add(k)
            ex.len_axiom(st, w, t)
            l = len_f[w](t)
            va, vb = at_f[w](t, A), at_f[w](t, z3.simplify(B - 1))
            st.assume(z3.And(z3.ULE(A, l), z3.ULE(B, l), (A == l) == (B == 0), z3.Implies(z3.ULT(A, l), z3.ULT(A, B))))
            ex.str_lemma(st, w, t, A, va)
            ex.str_lemma(st, w, t, z3.simplify(B - 1), vb)
            st.assume(z3.Implies(z3.ULT(A, l), z3.Not(self.isin(ex, st, va))))
            st.assume(z3.Implies(B != 0, z3.Not(self.isin(ex, st, vb))))
        return A, B

    def mine(self, t):
        return any(t.eq(x) for _, x in self.terms)

    def hook(self, ex, st, w, t, idx, v):
        if not self.mine(t):
            return
        A, B = self.ab(ex, st, w, t)
        l = len_f[w](t)
        # equal places hold equal elements
        for m in (A, z3.simplify(B - 1)):
            if not m.eq(idx):
                st.assume(z3.Implies(idx == m, v == at_f[w](t, m)))
        # tautologies of machine arithmetic the solver is slow to find
        b1, i1 = z3.simplify(B - 1), z3.simplify(idx + 1)
        st.assume(z3.Or(z3.UGT(idx, A), idx == A, z3.ULE(i1, A)))
        st.assume(z3.Or(z3.ULT(idx, b1), idx == b1, z3.UGE(idx, B)))
        st.assume(z3.Implies(z3.And(z3.ULT(idx, l), z3.Or(z3.ULT(idx, A), z3.UGE(idx, B))), self.isin(ex, st, v)))

    def attach(self, ex):
        ex.axiom_hooks.append(self.hook)
        spec = self

        def marks_of(st, w, t):
            if not spec.mine(t):
                return []
            A, B = spec.ab(ex, st, w, t)
            b1 = z3.simplify(B - 1)
            return [(A, at_f[w](t, A)), (b1, at_f[w](t, b1))]
        ex.marks_of = marks_of

    def trimmed(self, ex, st, w, t):
        """The contract's result as a term."""
        A, B = self.ab(ex, st, w, t)
        u = sub_f[w](t, A, B)
        ex.len_axiom(st, w, u)
        r = z3.If(A == len_f[w](t), nil_c[w], u)
        return r


def lit(w, cs):
    return lambda ex, st, v: z3.Or(*[v == z3.BitVecVal(c, 8 * w) for c in cs]) if is_z3(v) else v in cs


def inset_str(w, t):
    """Is the character one of those of the string t?"""
    def f(ex, st, v):
        r = find_f[w](t, bv(v, 8 * w), z3.BitVecVal(0, 64))
        ex.len_axiom(st, w, t)
        ex.find_axiom(st, w, t, bv(v, 8 * w), z3.BitVecVal(0, 64), r)
        return r != z3.BitVecVal(NPOS, 64)
    return f


def lit_tag(cs):
    """A name for a set of characters that is known: the same set, the same name."""
    return 'lit_' + '_'.join('%x' % c for c in sorted(set(cs)))


def trim_of(w, cs):
    """Trimming by a set given as a list of characters or as a string term."""
    if isinstance(cs, (list, tuple)):
        return Trim(w, lambda ex, st, v: lit(v.size() // 8, cs)(ex, st, v), lit_tag(cs))
    return Trim(w, inset_str(w, cs), 'set_%d' % cs.get_id())


def trim_result(ex, st, s, cs):
    """[(state, SV)]: what trimming leaves of the string value s, as a caller sees it."""
    w = s.w
    s = sv_norm(ex, st, s)
    if not s.p:
        return [(st, s)]
    t = sv_term_of(ex, st, s)
    ex.len_axiom(st, w, t)
    sp = trim_of(w, cs)
    A, B = sp.ab(ex, st, w, t)
    out = []
    none = A == len_f[w](t)
    for c in (none, z3.Not(none)):
        if ex.feasible(st, c):
            q = st.fork()
            q.assume(c)
            if c is none:
                out.append((q, SV(w)))
            else:
                ex.len_axiom(q, w, sub_f[w](t, A, B))
                out.append((q, SV(w, (('v', t, A, B),))))
    return out
