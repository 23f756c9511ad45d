"""The goals of trimming (the specification is in trimspec.py)."""
from proofs import *
from trimspec import *

OPTS = {'own_end': True, 'unroll': 2}
SW = {'8': (1, 'std::string'), '16': (2, 'std::u16string'), '32': (4, 'std::u32string'), 'w': (4, 'std::wstring')}


def post_trim(ex, q, spec):
    w, t = spec.terms[0]
    v = ex.get_sv(q, 'param victim', 0)
    if v is None:
        ex.fail(q, 'the string is still there', 'post', 'no string')
        return
    A, B = spec.ab(ex, q, w, t)
    u = sub_f[w](t, A, B)
    ex.len_axiom(q, w, u)
    n = sv_len(ex, q, v)
    empty = n.const() == 0 if n.const() is not None else n.val() == z3.BitVecVal(0, 64)
    e = sv_eq(ex, q, v, SV(w, (('v', t, A, B),)))
    none = A == len_f[w](t)
    ex.oblige(q, b_or(b_and(none, empty), b_and(z3.Not(none), e)), 'what is left is the part from the first to the last element outside the set', 'post')


def trim_goals():
    out = []
    for x, (w, full) in SW.items():
        def setup(c, w=w):
            t = c.string('victim', w, ro=False)
            sp = trim_of(w, [0x20])
            sp.terms = [(w, t)]
            sp.attach(c.ex)
            sp.ab(c.ex, c.st, w, t)
            return sp
        out.append(G('trim(%s)' % full, 'e_trim_' + x, setup, post_trim, dict(OPTS), bounds=range(0, 5)))

        def setup2(c, w=w):
            t = c.string('victim', w, ro=False)
            b = c.string('blanks', w)
            c.ex.lens.pop() if c.bound is None else None
            sp = trim_of(w, b)
            sp.terms = [(w, t)]
            sp.attach(c.ex)
            sp.ab(c.ex, c.st, w, t)
            return sp
        out.append(G('trim(%s, set)' % full, 'e_trimset_' + x, setup2, post_trim, dict(OPTS), bounds=range(0, 4)))
    for x, w, cs, nm in (('e_trim7', 1, ASCII_WS, 'trimAscii7WhiteSpace(std::string)'), ('e_trimws_16', 2, WS, 'trimWhiteSpace(std::u16string)'),
                         ('e_trimws_32', 4, WS, 'trimWhiteSpace(std::u32string)')):
        def setup3(c, w=w, cs=cs):
            t = c.string('victim', w, ro=False)
            sp = trim_of(w, cs)
            sp.terms = [(w, t)]
            sp.attach(c.ex)
            sp.ab(c.ex, c.st, w, t)
            return sp
        out.append(G(nm, x, setup3, post_trim, dict(OPTS), bounds=range(0, 5)))
    out.append(trim8_goal())
    return out


def trim8_goal():
    """Of a UTF-8 string: through UTF-16 (or UCS-4) and back."""
    def setup(c):
        b = c.string('victim', 1, ro=False, cstr=True)
        t = cstr_term(b)
        ex, st = c.ex, c.st
        sp = trim_of(2, WS)
        u16 = F('toUtf16', 1)(b.term)
        u32 = F('toUcs4', 1)(b.term)
        sp.terms = [(2, u16), (4, u32)]
        sp.src8 = (b, t)
        sp.attach(ex)
        return sp

    def post(ex, q, spec):
        v = ex.get_sv(q, 'param victim', 0)
        if v is None:
            ex.fail(q, 'the string is still there', 'post', 'no string')
            return
        b, t = spec.src8
        tv = sv_term_of(ex, q, v)
        ex.len_axiom(q, 1, tv)
        alts = []
        for (w, u), nm in zip(spec.terms, ('toUtf16', 'toUcs4')):
            conv_term(ex, q, nm, 1, b.term)
            r = spec.trimmed(ex, q, w, u)
            ex.len_axiom(q, w, nil_c[w])
            want = F('toUtf8', w)(cstr_f[w](r))
            ex.len_axiom(q, 1, want)
            q.assume(z3.Implies(r == nil_c[w], want == nil_c[1]))
            alts.append(tv == want)
        # nothing is said of a string that is not valid Unicode: its UTF-16 form is empty
        bad = z3.And(len_f[2](spec.terms[0][1]) == 0, b.N != 0)
        ex.oblige(q, z3.Or(bad, *alts), 'what is left is the UTF-8 form of the trimmed code points', 'post')
    return G('trimWhiteSpace(std::string)', 'e_trimws_8', setup, post, dict(OPTS), bounds=range(0, 4))


def cstr_term(b):
    return b.term.arg(0)


def trim_lemmas():
    from lemmas import lemma

    def body(ex):
        st = State()
        c = z3.BitVec('c', 32)
        st.assume(z3.And(z3.ULE(c, 0x10FFFF), z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)), c != 0))
        ins = z3.Or(*[c == k for k in WS])
        v = z3.Extract(15, 0, c - 0x10000)
        hi = z3.BitVecVal(0xD800, 16) | z3.LShR(z3.Extract(15, 0, z3.LShR(c - 0x10000, 10)), 0)
        lo = z3.BitVecVal(0xDC00, 16) | (v & 0x3ff)
        one = z3.Extract(15, 0, c)
        w16 = lambda u: z3.Or(*[u == k for k in WS])
        ex.oblige(st, z3.Implies(z3.ULE(c, 0xFFFF), w16(one) == ins), 'a code point of one UTF-16 element is in the set exactly if the element is', 'lemma')
        ex.oblige(st, z3.Implies(z3.UGT(c, 0xFFFF), z3.And(z3.Not(ins), z3.Not(w16(hi)), z3.Not(w16(lo)))), 'neither half of a surrogate pair is in the set, nor is the code point', 'lemma')
    return [lemma('trimming UTF-16 elements is trimming code points', body, ['ansak::toUtf16(char const*)', 'ansak::toUtf8(char16_t const*)'])]
