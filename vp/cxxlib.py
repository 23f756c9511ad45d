"""Contracts of the C++ library members (trusted; listed in the evidence)."""
import re
from strlib import *

SRE = re.compile(r'^(?:.* )?std::(string|u16string|u32string|wstring)::(~?\w+|operator[^\s(]+|operator\(\))(?:<.*>)?\((.*)\)( const)?$')


def Lv(v):
    return Lin.of(v if isinstance(v, int) else z3.simplify(v))


def umin_fork(ex, st, n, lim):
    """min(n, lim) by case distinction: [(state, Lin)]"""
    if isinstance(n, int) and n >= (1 << 62):
        return [(st, lim)]
    nl = Lv(n)
    c = ex.mk(z3.UGT(I(nl.val()), I(lim.val())))
    return [(s, lim if b else nl) for s, b in fork_bool(ex, st, c)]


def string_member(ex, dem, name):
    m = SRE.match(dem)
    if not m:
        return None
    cls, meth, sig, const = m.group(1), m.group(2), m.group(3), m.group(4)
    w = WID['std::' + cls]
    full = 'std::' + cls
    h = None
    if meth in ('basic_string', '~basic_string'):
        h = ctor if meth[0] != '~' else dtor
    else:
        h = MEMBERS.get(meth)
    if h is None:
        if meth.startswith('_') or meth[0].isupper():
            def bad(ex, st, i, args, dem):
                raise Unsupported('library internal ' + dem)
            return bad
        def bad(ex, st, i, args, dem):
            raise Unsupported('library member ' + dem)
        return bad

    def run(ex, st, i, args, dem):
        ex.used_contracts[dem] = 'library'
        return h(ex, st, i, [v for _, v in args], sig, w, full)
    return run


def itrange(ex, st, w, p, q):
    if not isinstance(p, Ptr) or p.obj != q.obj:
        raise Unsupported('iterator range')
    n = q.off.add(p.off.scale(-1)).div(w)
    return n


def seq(ex, st, w, p, n):
    return ex.chars_of(st, p, w, n)


def with_count(ex, st, w, p, n, k):
    """k(state, SV) for n characters at p; forks over small symbolic counts in local arrays."""
    try:
        return k(st, ex.chars_of(st, p, w, n))
    except ForkCount:
        out = []
        for x in range(0, 17):
            if ex.feasible(st, I(n) == x):
                s = st.fork()
                s.assume(I(n) == x)
                r = k(s, ex.chars_of(s, p, w, x))
                out.append((s, r))
        if ex.feasible(st, z3.UGT(I(n), 16)):
            raise Unsupported('count of local characters')
        return out


def fill(ex, st, w, n, c, k):
    """k(state, SV) for n times the character c: exact for small counts, else a string of that length
    of which nothing more is known."""
    if isinstance(n, int) and n <= 64:
        return k(st, SV(w, [('c', c)] * n))
    if ex.feasible(st, z3.UGT(I(n), 8)):
        t = z3.Const('fill!%d' % ex.nextn(), SSORT[w])
        v = SV(w, (('t', t),))
        st.assume(I(sv_len(ex, st, v).val()) == I(n))
        ex.approx = 'string(n, c)'
        return k(st, v)
    out = []
    for x in range(0, 9):
        if ex.feasible(st, I(n) == x):
            q = st.fork()
            q.assume(I(n) == x)
            out.append((q, k(q, SV(w, [('c', c)] * x))))
    return out


def ctor(ex, st, i, A, sig, w, full):
    this = A[0]
    if sig == '' or re.fullmatch(r'std::allocator<\w+> const&', sig):
        ex.wr_str(st, this, SV(w))
    elif sig == full + ' const&' or sig.startswith(full + ' const&, std::allocator'):
        ex.wr_str(st, this, ex.rd_str(st, A[1], w))
    elif sig.startswith(full + '&&'):
        ex.wr_str(st, this, ex.rd_str(st, A[1], w))
        ex.wr_str(st, A[1], SV(w))
    elif sig.startswith(full + ' const&, unsigned long'):
        s = ex.rd_str(st, A[1], w)
        n = A[3] if sig.count('unsigned long') > 1 else NPOS
        return put_sub(ex, st, this, s, A[2], n, w)
    elif re.match(r'\w+ const\*, unsigned long', sig):
        return with_count(ex, st, w, A[1], A[2], lambda s, v: ex.wr_str(s, this, v))
    elif re.match(r'(char|char16_t|char32_t|wchar_t) const\*(, std::allocator.*)?$', sig):
        if A[1].obj is None:
            ex.fail(st, ex.oname(st, 'no string is made of a null pointer'), 'safety', 'basic_string(nullptr)')
            st.assume(False)
            return None
        ex.wr_str(st, this, ex.chars_of(st, A[1], w))
    elif sig.startswith('unsigned long, '):
        return fill(ex, st, w, A[1], A[2], lambda q, v: ex.wr_str(q, this, v))
    elif len(A) >= 3 and isinstance(A[1], Ptr) and isinstance(A[2], Ptr) and ('const*, ' in sig or '*, ' in sig or 'normal_iterator' in sig) and 'unsigned long' not in sig:
        p, q = A[1], A[2]
        n = itrange(ex, st, w, p, q)
        if n is None:
            raise Unsupported('iterator range')
        c = n.const()
        return with_count(ex, st, w, p, c if c is not None else n.val(), lambda s, v: ex.wr_str(s, this, v))
    else:
        raise Unsupported('constructor ' + sig)
    return None


def dtor(ex, st, i, A, sig, w, full):
    p = A[0]
    o = st.mem.get(p.obj)
    if o is not None and o.kind == 'mem' and p.off.const() is not None:
        st.wobj(p.obj).cells.pop((p.off.const(), 'str'), None)
        st.mem.pop(('sdata', p.obj, p.off.const()), None)
    return None


def put_sub(ex, st, dst, s, pos, n, w):
    total = sv_len(ex, st, s)
    pl = Lv(pos)
    ex.oblige(st, ex.mk(z3.ULE(I(pl.val()), I(total.val()))), ex.oname(st, 'substring position in bounds'), 'safety')
    out = []
    for s2, k in umin_fork(ex, st, n, total.add(pl.scale(-1))):
        ex.wr_str(s2, dst, ex.sv_sub(s2, s, pl, pl.add(k)))
        out.append((s2, dst))
    if len(out) == 1 and out[0][0] is st:
        return None
    return out


def m_assign(ex, st, i, A, sig, w, full):
    this = A[0]
    if sig == full + ' const&':
        ex.wr_str(st, this, ex.rd_str(st, A[1], w))
    elif sig == full + '&&':
        v = ex.rd_str(st, A[1], w)
        ex.wr_str(st, A[1], SV(w))
        ex.wr_str(st, this, v)
    elif sig.endswith('const*'):
        ex.wr_str(st, this, ex.chars_of(st, A[1], w))
    elif sig in ('char', 'char16_t', 'char32_t', 'wchar_t'):
        ex.wr_str(st, this, SV(w, (('c', A[1]),)))
    elif re.match(r'\w+ const\*, unsigned long$', sig):
        r = with_count(ex, st, w, A[1], A[2], lambda s, v: ex.wr_str(s, this, v))
        return [(s, this) for s, _ in r] if isinstance(r, list) else this
    elif len(A) == 3 and isinstance(A[1], Ptr) and isinstance(A[2], Ptr) and 'iterator' in sig:
        n = itrange(ex, st, w, A[1], A[2])
        ex.wr_str(st, this, ex.chars_of(st, A[1], w, n.const() if n.const() is not None else n.val()))
    else:
        raise Unsupported('assign ' + sig)
    return this


def m_push(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    ex.wr_str(st, A[0], s.push(A[1]))
    return None


def m_append(ex, st, i, A, sig, w, full):
    this = A[0]
    s = ex.rd_str(st, this, w)
    if sig == full + ' const&' or sig == full + '&&':
        ex.wr_str(st, this, s.cat(ex.rd_str(st, A[1], w)))
    elif sig in ('char', 'char16_t', 'char32_t', 'wchar_t'):
        ex.wr_str(st, this, s.push(A[1]))
    elif re.match(r'\w+ const\*$', sig):
        ex.wr_str(st, this, s.cat(ex.chars_of(st, A[1], w)))
    elif re.match(r'\w+ const\*, unsigned long$', sig):
        r = with_count(ex, st, w, A[1], A[2], lambda q, v: ex.wr_str(q, this, s.cat(v)))
        return [(q, this) for q, _ in r] if isinstance(r, list) else this
    elif sig.startswith('unsigned long, '):
        def put(q, v):
            ex.wr_str(q, this, s.cat(v))
            return this
        return fill(ex, st, w, A[1], A[2], put)
    elif sig.startswith(full + ' const&, unsigned long'):
        o = ex.rd_str(st, A[1], w)
        total = sv_len(ex, st, o)
        pl = Lv(A[2])
        ex.oblige(st, ex.mk(z3.ULE(I(pl.val()), I(total.val()))), ex.oname(st, 'substring position in bounds'), 'safety')
        out = []
        for s2, k in umin_fork(ex, st, A[3] if len(A) > 3 else NPOS, total.add(pl.scale(-1))):
            ex.wr_str(s2, this, s.cat(ex.sv_sub(s2, o, pl, pl.add(k))))
            out.append((s2, this))
        return out
    elif len(A) == 3 and isinstance(A[1], Ptr) and isinstance(A[2], Ptr):
        n = itrange(ex, st, w, A[1], A[2])
        r = with_count(ex, st, w, A[1], n.const() if n.const() is not None else n.val(), lambda q, v: ex.wr_str(q, this, s.cat(v)))
        return [(q, this) for q, _ in r] if isinstance(r, list) else this
    else:
        raise Unsupported('append ' + sig)
    return this


def m_clear(ex, st, i, A, sig, w, full):
    ex.wr_str(st, A[0], SV(w))


def m_noop(ex, st, i, A, sig, w, full):
    return None


def m_size(ex, st, i, A, sig, w, full):
    return ex.mk(sv_len(ex, st, ex.rd_str(st, A[0], w)).val())


def m_empty(ex, st, i, A, sig, w, full):
    l = sv_len(ex, st, ex.rd_str(st, A[0], w))
    if l.const() is not None:
        return l.const() == 0
    return ex.mk(l.val() == z3.BitVecVal(0, 64))


def m_data(ex, st, i, A, sig, w, full):
    return ex.data_ptr(st, A[0], w)


def m_cstr(ex, st, i, A, sig, w, full):
    return ex.data_ptr(st, A[0], w, True)


def m_end(ex, st, i, A, sig, w, full):
    l = sv_len(ex, st, ex.rd_str(st, A[0], w))
    return ex.data_ptr(st, A[0], w).plus(l.scale(w))


def m_rbegin(ex, st, i, A, sig, w, full):
    dst, this = A[0], A[1]
    l = sv_len(ex, st, ex.rd_str(st, this, w))
    ex.store(st, 'ptr', ex.data_ptr(st, this, w).plus(l.scale(w)), dst)


def m_rend(ex, st, i, A, sig, w, full):
    ex.store(st, 'ptr', ex.data_ptr(st, A[1], w), A[0])


def m_index(ex, st, i, A, sig, w, full):
    l = sv_len(ex, st, ex.rd_str(st, A[0], w))
    q = ex.canon(st, Lv(A[1]))
    ex.oblige(st, ex.mk(z3.ULE(I(q.val()), I(l.val()))), ex.oname(st, 'string index in bounds'), 'safety')
    return ex.data_ptr(st, A[0], w).plus(q.scale(w))


def m_at(ex, st, i, A, sig, w, full):
    l = sv_len(ex, st, ex.rd_str(st, A[0], w))
    q = ex.canon(st, Lv(A[1]))
    ex.oblige(st, ex.mk(z3.ULT(I(q.val()), I(l.val()))), ex.oname(st, 'string index in bounds'), 'safety')
    return ex.data_ptr(st, A[0], w).plus(q.scale(w))


def nonempty(ex, st, s):
    l = sv_len(ex, st, s)
    c = l.const() != 0 if l.const() is not None else ex.mk(l.val() != z3.BitVecVal(0, 64))
    ex.oblige(st, c, ex.oname(st, 'string is not empty'), 'safety')
    return l


def m_front(ex, st, i, A, sig, w, full):
    nonempty(ex, st, ex.rd_str(st, A[0], w))
    return ex.data_ptr(st, A[0], w)


def m_back(ex, st, i, A, sig, w, full):
    l = nonempty(ex, st, ex.rd_str(st, A[0], w))
    return ex.data_ptr(st, A[0], w).plus(l.add(Lin(-1)).scale(w))


def m_pop_back(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    l = nonempty(ex, st, s)
    if s.p and s.p[-1][0] == 'c':
        ex.wr_str(st, A[0], SV(w, s.p[:-1]))
    else:
        ex.wr_str(st, A[0], ex.sv_sub(st, s, Lin(0), l.add(Lin(-1))))


def m_erase(ex, st, i, A, sig, w, full):
    this = A[0]
    s = ex.rd_str(st, this, w)
    total = sv_len(ex, st, s)
    if sig.startswith('unsigned long'):
        pl = ex.canon(st, Lv(A[1]))
        ex.oblige(st, ex.mk(z3.ULE(I(pl.val()), I(total.val()))), ex.oname(st, 'erase position in bounds'), 'safety')
        n = A[2] if len(A) > 2 else NPOS
        out = []
        for s2, k in umin_fork(ex, st, n, total.add(pl.scale(-1))):
            ex.wr_str(s2, this, ex.sv_sub(s2, s, Lin(0), pl).cat(ex.sv_sub(s2, s, pl.add(k), total)))
            out.append((s2, this))
        return out
    p = A[1]
    if not isinstance(p, Ptr) or p.obj[0] != 'sdata':
        raise Unsupported('erase ' + sig)
    a = ex.canon(st, p.off.div(w))
    if len(A) > 2:
        b = ex.canon(st, A[2].off.div(w))
    else:
        b = a.add(Lin(1))
    ex.oblige(st, z3.And(z3.ULE(I(a.val()), I(b.val())), z3.ULE(I(b.val()), I(total.val()))), ex.oname(st, 'erase position in bounds'), 'safety')
    ex.wr_str(st, this, ex.sv_sub(st, s, Lin(0), a).cat(ex.sv_sub(st, s, b, total)))
    return p


def m_resize(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    total = sv_len(ex, st, s)
    n = ex.canon(st, Lv(A[1]))
    c = A[2] if len(A) > 2 else 0
    d = n.add(total.scale(-1)).const()
    if d is not None and 0 <= d <= 64:
        for _ in range(d):
            s = s.push(c)
        ex.wr_str(st, A[0], s)
        return None
    out = []
    for q, short in fork_bool(ex, st, ex.mk(z3.ULE(I(n.val()), I(total.val())))):
        if not short:
            r = fill(ex, q, w, n.add(total.scale(-1)).val(), c, lambda u, v: ex.wr_str(u, A[0], s.cat(v)))
            out += r if isinstance(r, list) else [(q, None)]
            continue
        ex.wr_str(q, A[0], ex.sv_sub(q, s, Lin(0), n))
        out.append((q, None))
    return out


def m_substr(ex, st, i, A, sig, w, full):
    # A[0] is the result object
    s = ex.rd_str(st, A[1], w)
    return put_sub(ex, st, A[0], s, A[2], A[3] if len(A) > 3 else NPOS, w)


def find_char(ex, st, s, c, pos):
    """Index of the first c at or after pos, or npos."""
    w = s.w
    s = sv_norm(ex, st, s)
    cb = bv(c, 8 * w)
    if all(x[0] == 'c' for x in s.p):
        r = z3.BitVecVal(NPOS, 64)
        for k in range(len(s.p) - 1, -1, -1):
            cond = ex.mk(bv(s.p[k][1], 8 * w) == cb)
            if not isinstance(pos, int):
                cond = b_and(cond, z3.UGE(z3.BitVecVal(k, 64), pos))
            elif k < pos:
                continue
            if isinstance(cond, (bool, int)):
                if cond:
                    r = z3.BitVecVal(k, 64)
            else:
                r = z3.If(cond, z3.BitVecVal(k, 64), r)
        return ex.mk(r)
    if len(s.p) == 1:
        x = s.p[0]
        t = x[1]
        ex.len_axiom(st, w, t)
        lo, hi = (Lin(0), Lin.of(len_f[w](t))) if x[0] == 't' else (Lin.of(x[2]), Lin.of(x[3]))
        pl = Lv(pos)
        fr = I(lo.add(pl).val())
        past = ex.mk(z3.UGT(I(pl.val()), I(hi.add(lo.scale(-1)).val())))
        r = find_f[w](t, cb, fr)
        ex.find_axiom(st, w, t, cb, fr, r)
        ok = z3.And(z3.Not(past) if is_z3(past) else z3.BoolVal(not past), z3.ULT(r, I(hi.val())))
        return ex.mk(z3.If(ok, r - I(lo.val()), z3.BitVecVal(NPOS, 64)))
    raise Unsupported('find in a composed string')


def find_axiom(self, st, w, t, c, fr, r):
    k = ('find', r.get_id())
    if k in st.ax:
        return
    st.ax.add(k)
    l = len_f[w](t)
    v = at_f[w](t, r)
    st.assume(z3.Or(r == z3.BitVecVal(NPOS, 64), z3.And(z3.UGE(r, fr), z3.ULT(r, l), v == c)))
    st.finds.append((t, c, fr, r))
    # characters already looked at
    for (idx, val) in self.marks_of(st, w, t):
        st.assume(z3.Implies(z3.And(z3.UGE(idx, fr), z3.ULT(idx, r), z3.ULT(idx, l)), val != c))
    for (nm, idx, val) in st.reads:
        if nm == str(t):
            st.assume(z3.Implies(z3.And(z3.UGE(idx, fr), z3.ULT(idx, r), z3.ULT(idx, l)), val != c))


StrExec.find_axiom = find_axiom
StrExec.marks_of = lambda self, st, w, t: []


def m_find(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    m = re.match(r'(char|char16_t|char32_t|wchar_t), unsigned long$', sig)
    if m:
        return find_char(ex, st, s, A[1], A[2])
    if sig.startswith(full + ' const&'):
        o = ex.rd_str(st, A[1], w)
        if len(o.p) == 1 and o.p[0][0] == 'c':
            return find_char(ex, st, s, o.p[0][1], A[2])
    if hasattr(ex, 'find_hook'):
        return ex.find_hook(st, s, A, sig, w, full, 'find')
    raise Unsupported('find ' + sig)


def set_of(ex, st, A, sig, w, full):
    """The characters given to find_first_of and its kin, as an SV."""
    if sig.startswith(full + ' const&'):
        return ex.rd_str(st, A[1], w), A[2]
    if re.match(r'\w+ const\*, unsigned long, unsigned long$', sig):
        return ex.chars_of(st, A[1], w, A[3]), A[2]
    if re.match(r'\w+ const\*, unsigned long$', sig):
        return ex.chars_of(st, A[1], w), A[2]
    if re.match(r'(char|char16_t|char32_t|wchar_t), unsigned long$', sig):
        return SV(w, (('c', A[1]),)), A[2]
    raise Unsupported('character set ' + sig)


def member(ex, st, s, c):
    """Is c one of the characters of s?"""
    r = find_char(ex, st, s, c, 0)
    if isinstance(r, int):
        return r != NPOS
    return r != z3.BitVecVal(NPOS, 64)


def set_find(ex, st, s, cs, pos, which, isin):
    """find_first_of, find_first_not_of, find_last_of and find_last_not_of with a set of characters:
    the result is a position whose character is (not) in the set, and those passed over are (not)."""
    w = s.w
    s = sv_norm(ex, st, s)
    if not s.p:
        return NPOS
    if len(s.p) != 1 or s.p[0][0] == 'c':
        raise Unsupported('set search in a composed string')
    x = s.p[0]
    t = x[1]
    ex.len_axiom(st, w, t)
    lo, hi = (Lin(0), Lin.of(len_f[w](t))) if x[0] == 't' else (Lin.of(x[2]), Lin.of(x[3]))
    n = hi.add(lo.scale(-1))

    def skipped(ex, st, v):
        m = member(ex, st, cs, v)
        m = z3.BoolVal(bool(m)) if isinstance(m, (bool, int)) else m
        return z3.Not(m) if isin else m
    out = []
    if which == 'first':
        pl = Lv(pos)
        starts = [(q, pl) for q, past in fork_bool(ex, st, ex.mk(z3.UGT(I(pl.val()), I(n.val())))) if not past]
        for q, past in fork_bool(ex, st, ex.mk(z3.UGT(I(pl.val()), I(n.val())))):
            if past:
                out.append((q, NPOS))
    else:
        starts = []
        for q, e in fork_bool(ex, st, ex.mk(n.val() == z3.BitVecVal(0, 64)) if n.const() is None else n.const() == 0):
            if e:
                out.append((q, NPOS))
            else:
                starts += umin_fork(ex, q, pos, n.add(Lin(-1)))
    for q, pl in starts:
        for hit in (True, False):
            s2 = q.fork()
            r = ex.fresh('found', 64)
            if which == 'first':
                fr = lo.add(pl)
                to = lo.add(Lin.of(r)) if hit else hi
                if hit:
                    s2.assume(z3.And(z3.UGE(r, I(pl.val())), z3.ULT(r, I(n.val()))))
            else:
                to = lo.add(pl).add(Lin(1))
                fr = lo.add(Lin.of(r)).add(Lin(1)) if hit else lo
                if hit:
                    s2.assume(z3.ULE(r, I(pl.val())))
            if hit:
                e = I(lo.add(Lin.of(r)).val())
                v = at_f[w](t, e)
                ex.str_lemma(s2, w, t, e, v)
                s2.reads.append((str(t), e, v))
                s2.assume(z3.Not(skipped(ex, s2, v)))
            fe, te = I(fr.val()), I(to.val())
            s2.setfinds.append((t, fe, te, skipped))
            for (nm, idx, val) in list(s2.reads):
                if nm == str(t):
                    s2.assume(z3.Implies(z3.And(z3.UGE(idx, fe), z3.ULT(idx, te)), skipped(ex, s2, val)))
            for (idx, val) in ex.marks_of(s2, w, t):
                s2.assume(z3.Implies(z3.And(z3.UGE(idx, fe), z3.ULT(idx, te)), skipped(ex, s2, val)))
            if ex.feasible(s2):
                out.append((s2, r if hit else NPOS))
    return out


def m_ffof(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    if re.match(r'(char|char16_t|char32_t|wchar_t), unsigned long$', sig):
        return find_char(ex, st, s, A[1], A[2])
    cs, pos = set_of(ex, st, A, sig, w, full)
    return set_find(ex, st, s, cs, pos, 'first', True)


def mk_set(which, isin):
    def f(ex, st, i, A, sig, w, full):
        s = ex.rd_str(st, A[0], w)
        cs, pos = set_of(ex, st, A, sig, w, full)
        return set_find(ex, st, s, cs, pos, which, isin)
    return f


def m_swap(ex, st, i, A, sig, w, full):
    a, b = ex.rd_str(st, A[0], w), ex.rd_str(st, A[1], w)
    ex.wr_str(st, A[0], b)
    ex.wr_str(st, A[1], a)


def m_compare(ex, st, i, A, sig, w, full):
    s = ex.rd_str(st, A[0], w)
    if sig == full + ' const&':
        o = ex.rd_str(st, A[1], w)
    elif sig.endswith('const*'):
        o = ex.chars_of(st, A[1], w)
    else:
        raise Unsupported('compare ' + sig)
    e = str_equal(ex, st, s, o)
    r = ex.fresh('cmp', 32)
    st.assume((r == 0) == (z3.BoolVal(bool(e)) if isinstance(e, (bool, int)) else e))
    return r


def str_equal(ex, st, a, b):
    """Exact equality of strings as a condition (needs one of them spelled out)."""
    a, b = sv_norm(ex, st, a), sv_norm(ex, st, b)
    if all(x[0] == 'c' for x in a.p):
        a, b = b, a
    if all(x[0] == 'c' for x in b.p):
        n = len(b.p)
        l = sv_len(ex, st, a)
        cs = [l.const() == n if l.const() is not None else ex.mk(l.val() == z3.BitVecVal(n, 64))]
        if cs[0] is False:
            return False
        if all(x[0] == 'c' for x in a.p):
            return b_and(*[ex.mk(bv(x[1], 8 * a.w) == bv(y[1], 8 * a.w)) for x, y in zip(a.p, b.p)])
        if len(a.p) == 1:
            for k in range(n):
                cs.append(ex.mk(bv(ex.piece_at(st, a.w, a.p[0], Lin(k)), 8 * a.w) == bv(b.p[k][1], 8 * a.w)))
            return b_and(*cs)
    raise Unsupported('comparison of unknown strings')


MEMBERS = {
    'operator=': m_assign, 'assign': m_assign, 'push_back': m_push, 'operator+=': m_append, 'append': m_append,
    'clear': m_clear, 'reserve': m_noop, 'shrink_to_fit': m_noop, 'size': m_size, 'length': m_size, 'empty': m_empty,
    'c_str': m_cstr, 'data': m_cstr, 'begin': m_data, 'cbegin': m_data, 'end': m_end, 'cend': m_end,
    'rbegin': m_rbegin, 'rend': m_rend, 'crbegin': m_rbegin, 'crend': m_rend,
    'operator[]': m_index, 'at': m_at, 'front': m_front, 'back': m_back, 'pop_back': m_pop_back, 'erase': m_erase,
    'substr': m_substr, 'resize': m_resize, 'find': m_find, 'find_first_of': m_ffof, 'find_first_not_of': mk_set('first', False),
    'find_last_of': mk_set('last', True), 'find_last_not_of': mk_set('last', False), 'swap': m_swap, 'compare': m_compare,
}


def free_function(ex, dem, name):
    if re.match(r'^std::(__new_)?allocator<.*>::~?(__new_)?allocator\(', dem):
        return lambda ex, st, i, args, dem: None
    if dem.startswith('std::__throw_') or dem in ('abort', 'std::terminate()', '__clang_call_terminate'):
        def thr(ex, st, i, args, dem):
            ex.fail(st, ex.oname(st, 'no exception'), 'safety', 'call of ' + dem)
            return ('dead',)
        return thr
    m = re.match(r'^(?:bool )?std::operator(==|!=)<.*>\(std::(string|u16string|u32string|wstring) const&, (std::\w+ const&|\w+ const\*)\)$', dem)
    if m:
        w = WID['std::' + m.group(2)]

        def eqf(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'library'
            a = ex.rd_str(st, args[0][1], w)
            b = ex.rd_str(st, args[1][1], w) if m.group(3).startswith('std::') else ex.chars_of(st, args[1][1], w)
            e = str_equal(ex, st, a, b)
            return e if m.group(1) == '==' else b_not(e)
        return eqf
    m = re.match(r'^std::(string|u16string|u32string|wstring) std::operator\+<.*>\((.*)\)$', dem)
    if m:
        w = WID['std::' + m.group(1)]
        full = 'std::' + m.group(1)

        def plus(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'library'
            out = SV(w)
            for sig, (_, v) in zip([x.strip() for x in m.group(2).split(', ')], args[1:]):
                if sig.startswith('std::'):
                    out = out.cat(ex.rd_str(st, v, w))
                elif sig.endswith('*'):
                    out = out.cat(ex.chars_of(st, v, w))
                else:
                    out = out.push(v)
            ex.wr_str(st, args[0][1], out)
        return plus
    if dem in ('strlen', 'wcslen') or re.match(r'^(std::|__gnu_cxx::)char_traits<.*>::length\(', dem):
        def strl(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'library'
            p = args[0][1]
            w = 4 if ('char32' in dem or 'wchar' in dem or dem == 'wcslen') else 2 if 'char16' in dem else 1
            o = st.mem.get(p.obj) if p.obj is not None else None
            if o is None:
                ex.fail(st, ex.oname(st, 'no length of a null pointer'), 'safety', 'strlen(nullptr)')
                return ('dead',)
            if o.kind == 'buf' and o.info.mode == 'nul':
                st.nbuf += 1
                return ex.mk(Lin.of(o.info.N).add(p.off.div(w).scale(-1)).val())
            if o.kind == 'sdata' and p.off.const() == 0:
                s = ex.get_sv(st, o.info[0], o.info[1])
                if len(s.p) == 1 and s.p[0][0] == 't':
                    ex.len_axiom(st, w, s.p[0][1])
                    return nul_f[w](s.p[0][1])
            return ex.mk(sv_len(ex, st, ex.chars_of(st, p, w)).val())
        return strl
    m = re.match(r'^(?:\S.* )?std::find<(?:__gnu_cxx::__normal_iterator<)?(char|char16_t|char32_t|wchar_t) const\*(?:, std::\w+>)?, \1>\(', dem)
    if m:
        w = {'char': 1, 'char16_t': 2}.get(m.group(1), 4)

        def fnd(ex, st, i, args, dem):
            p, q, c = [v for _, v in args]
            o = st.mem.get(p.obj) if isinstance(p, Ptr) and p.obj is not None else None
            n = itrange(ex, st, w, p, q) if o is not None and p.obj == q.obj and o.kind == 'sdata' else None
            if n is None:
                return INLINE
            s = ex.rd_str(st, Ptr(o.info[0], Lin(o.info[1])), w)
            at = p.off.div(w)
            if len(s.p) != 1 or s.p[0][0] not in 'tv' or at is None:
                return INLINE
            ex.used_contracts[dem] = 'library'
            end = q.off.div(w)
            ex.oblige(st, ex.mk(z3.And(z3.ULE(I(at.val()), I(end.val())), z3.ULE(I(end.val()), I(sv_len(ex, st, s).val())))), ex.oname(st, 'iterators within the string'), 'safety')
            k = find_char(ex, st, s, ex.load(st, ('i', 8 * w), c), at.val())
            r = ex.mk(z3.If(z3.ULT(I(k), I(end.val())), I(k), I(end.val())))
            return Ptr(p.obj, Lin.of(r).scale(w))
        return fnd
    if dem in ('strcmp', 'strncmp'):
        def scmp(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'library'
            lim = args[2][1] if dem == 'strncmp' else 64
            if not isinstance(lim, int):
                raise Unsupported('strncmp')

            def const(p):
                o = st.mem.get(p.obj) if p.obj is not None else None
                return o is not None and o.kind == 'glob' and p.off.const() is not None and o.info[2]
            if const(args[0][1]) or const(args[1][1]):
                # a literal on one side: one term, the characters read under the condition that all before are equal
                pre, r, k = z3.BoolVal(True), [], 0
                while k < lim:
                    if k > 40:
                        raise Unsupported('strcmp of long strings')
                    s = st.fork()
                    s.assume(pre)
                    n = len(s.pc)
                    if not ex.feasible(s):
                        break
                    a = ex.load(s, ('i', 8), args[0][1].plus(Lin(k)))
                    b = ex.load(s, ('i', 8), args[1][1].plus(Lin(k)))
                    if isinstance(a, (list, Undef)) or isinstance(b, (list, Undef)):
                        raise Unsupported('strcmp')
                    st.pc += [z3.Implies(pre, x) for x in s.pc[n:]]
                    st.reads = list(s.reads)
                    st.nbuf = s.nbuf
                    a, b = bv(a, 8), bv(b, 8)
                    r.append((z3.And(pre, a != b), z3.ZeroExt(24, a) - z3.ZeroExt(24, b)))
                    pre = z3.simplify(z3.And(pre, a == b, a != 0))
                    if z3.is_false(pre):
                        break
                    k += 1
                t = z3.BitVecVal(0, 32)
                for c, v in reversed(r):
                    t = z3.If(c, v, t)
                return ex.mk(t)
            out = []

            def go(s, k):
                if k >= lim:
                    out.append((s, 0))
                    return
                if k > 40:
                    raise Unsupported('strcmp of long strings')
                a = ex.load(s, ('i', 8), args[0][1].plus(Lin(k)))
                b = ex.load(s, ('i', 8), args[1][1].plus(Lin(k)))
                if isinstance(a, list) or isinstance(b, list):
                    raise Unsupported('strcmp')
                for s2, same in fork_bool(ex, s, ex.mk(bv(a, 8) == bv(b, 8))):
                    if not same:
                        out.append((s2, ex.mk(z3.ZeroExt(24, bv(a, 8)) - z3.ZeroExt(24, bv(b, 8)))))
                        continue
                    for s3, z in fork_bool(ex, s2, ex.mk(bv(a, 8) == 0)):
                        if z:
                            out.append((s3, 0))
                        else:
                            go(s3, k + 1)
            go(st, 0)
            return out
        return scmp
    if dem in ('memcmp', 'bcmp'):
        def mcmp(ex, st, i, args, dem):
            n = args[2][1]
            if not isinstance(n, int) or n > 64:
                raise Unsupported('memcmp')
            cs = []
            for k in range(n):
                a = ex.load(st, ('i', 8), args[0][1].plus(Lin(k)))
                b = ex.load(st, ('i', 8), args[1][1].plus(Lin(k)))
                cs.append(ex.mk(bv(a, 8) == bv(b, 8)))
            c = b_and(*cs)
            r = ex.fresh('cmp', 32)
            st.assume((r == 0) == (z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c))
            return r
        return mcmp
    if dem in ('memcpy', 'memmove'):
        def mc(ex, st, i, args, dem):
            ex.memcpy(st, args[0][1], args[1][1], args[2][1])
            return args[0][1]
        return mc
    if dem in ('operator delete(void*)', 'operator delete(void*, unsigned long)', '__cxa_atexit'):
        return lambda ex, st, i, args, dem: 0 if i.ty != 'void' else None
    if re.match(r'^__cxa_guard_', dem):
        raise Unsupported('static initialisation guard')
    return None


def library(ex, dem, name):
    return string_member(ex, dem, name) or free_function(ex, dem, name)
