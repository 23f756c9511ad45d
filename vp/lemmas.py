"""Lemmas over the contracts: facts about the specifications, proved by induction with one step of two
specifications run side by side.  They concern no code of their own; the functions whose contracts
they rest on are listed with each and are proved in the same run."""
import re, time
from proofs import *


def lemma(name, body, uses=(), budget=60):
    def fn(mod, extra):
        r = Run(name)
        t0 = time.time()
        ex = LoopExec(mod, all_contracts, {'max_fail': 50})
        ex.deadline = t0 + budget
        ex.params, ex.argspec, ex.lens = {}, [], []
        try:
            body(ex)
            if not ex.obls:
                r.reason = 'nothing was shown'
        except (Unsupported, Budget, Enough) as e:
            r.reason = '%s: %s' % (type(e).__name__, e)
        except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, AssertionError) as e:
            r.reason = 'generator error: %r' % (e,)
            r.trace = traceback.format_exc()
        r.obls = ex.obls
        r.secs = time.time() - t0
        r.stats = {'queries': ex.nq, 'solver_s': round(ex.tq, 3), 'contracts_used': {d: 'contract' for d in uses}, 'inlined': [], 'invariants': {}, 'loops_cut': []}
        return r
    g = G(name, None, None, None, fn=fn, budget=budget)
    g.lemma = True
    return g


def source(ex, st, name, w, mode='nul'):
    N = z3.BitVec('N_' + name, 64)
    st.assume(z3.ULE(N, MAXLEN))
    if mode == 'len':
        st.assume(N != 0)
    return Src('buf', w, z3.Const('buf_' + name, BSORT[w]), N, name, mode, mode == 'len')


def at_any(ex, st, spec, i=None):
    """A ghost state at any position, with the specification's invariants assumed."""
    g = spec.havoc(ex, st, None)
    if i is not None:
        g.v['i'] = i
    for c in spec.inv(ex, st, g):
        st.assume(c)
    return g


def steps(ex, st, g):
    """One step of g from st: [(state, ghost afterwards)]."""
    s = st.fork()
    s.ghost = g.copy()
    out = []
    for q in ghost_step(ex, s):
        if ex.feasible(q):
            h = q.ghost
            q.ghost = None
            out.append((q, h))
    return out


def pushed(acc0, acc1):
    """The elements a step appended to the result (acc1 is acc0 with single elements behind)."""
    n = len(acc0.p)
    assert acc1.p[:n] == acc0.p and all(x[0] == 'c' for x in acc1.p[n:])
    return [x[1] for x in acc1.p[n:]]


def el(v, w):
    return bv(v, 8 * w)


# ------------------------------------------------------------------ specifications are well-formed

def prove_spec(name, mk, uses=()):
    """Invariants hold at the start and are kept by each step; each step moves on and never past the end; every
    position has a next step or an end (so each specification defines exactly one result)."""
    def body(ex):
        st = State()
        spec = mk(ex, st)
        g = spec.start(ex, st)
        for k, c in enumerate(spec.inv(ex, st, g)):
            ex.oblige(st, c, '%s: invariant %d at the start' % (name, k), 'lemma')
        st = State()
        spec = mk(ex, st)
        g = at_any(ex, st, spec)
        keep = type(spec).inv
        outs = []
        try:
            spec.inv = lambda ex, st, g: []       # do not assume what is to be shown
            s = st.fork()
            s.ghost = g.copy()
            outs = [q for q in ghost_step(ex, s) if ex.feasible(q)]
        finally:
            del spec.inv
        n = 0
        for q in outs:
            if q.ghost.done is None:
                n += 1
                for k, c in enumerate(spec.inv(ex, q, q.ghost)):
                    ex.oblige(q, c, '%s: invariant %d is kept' % (name, k), 'lemma')
                ex.oblige(q, z3.UGT(I(q.ghost.v['i']), I(g.v['i'])), '%s: a step moves on' % name, 'lemma')
                if spec.accw:
                    p = pushed(g.v['acc'], q.ghost.v['acc'])
                    ex.oblige(q, len(p) > 0, '%s: a step appends' % name, 'lemma')
        ex.oblige(st, n > 0 and len(outs) > n, '%s: it can go on and it can end' % name, 'lemma')
    return lemma('specification of %s is well-formed' % name, body, uses)


def spec_goals():
    out = []
    for w in (1, 2, 4):
        for to in ('utf8', 'utf16', 'ucs2', 'ucs4'):
            out.append(prove_spec('conversion %s to %s' % (CN[w], to), lambda ex, st, w=w, to=to: Conv(source(ex, st, 's', w), to)))
        for mode in ('nul', 'len'):
            out.append(prove_spec('count of %s (%s)' % (CN[w], mode), lambda ex, st, w=w, mode=mode: Count(source(ex, st, 's', w, mode))))
        for t in range(6):
            out.append(prove_spec('check of %s for %s' % (CN[w], TARGETS[t]), lambda ex, st, w=w, t=t: Is(source(ex, st, 's', w), None, t)))
    for t in range(6):
        out.append(prove_spec('isUcs2 for %s' % TARGETS[t], lambda ex, st, t=t: Is(source(ex, st, 's', 2), 'ucs2', t)))
    out.append(prove_spec('check of n bytes', lambda ex, st: Is(source(ex, st, 's', 1, 'len'), None, 1)))
    out.append(prove_spec('code page 1252', lambda ex, st: CodePage(source(ex, st, 's', 1), CP1252)))
    out.append(prove_spec('code page 1250', lambda ex, st: CodePage(source(ex, st, 's', 1), CP1250)))
    return out


# ------------------------------------------------------------------ results without NUL

def nonul_goal(name, mk, uses=()):
    def body(ex):
        st = State()
        spec = mk(ex, st)
        g = at_any(ex, st, spec)
        for q, h in steps(ex, st, g):
            if h.done is None:
                for v in pushed(g.v['acc'], h.v['acc']):
                    ex.oblige(q, el(v, spec.accw) != 0, '%s: no element appended is NUL' % name, 'lemma')
    return lemma('%s: the result holds no NUL' % name, body, uses)


def nonul_goals():
    out = []
    for n, w, to in CONVS:
        out.append(nonul_goal('%s(%s)' % (n, CN[w]), lambda ex, st, w=w, to=to: Conv(source(ex, st, 's', w), to)))
    return out


# ------------------------------------------------------------------ C07

ENC = {1: 'utf8', 2: 'ucs2', 3: 'utf16', 4: 'ucs4'}
FN = {'utf8': 'toUtf8', 'utf16': 'toUtf16', 'ucs2': 'toUcs2', 'ucs4': 'toUcs4'}
ISFN = {1: 'isUtf8', 2: 'isUtf16', 4: 'isUcs4'}


def dem_is(w):
    return 'ansak::%s(%s const*, ansak::RangeType, ansak::EncodingCheckPredicate const&)' % (ISFN[w], CN[w])


def dem_conv(fn, w):
    return 'ansak::%s(%s const*)' % (fn, CN[w])


def reencode(w, t):
    to = ENC[t]
    nm = '%s for %s accepts, %s converts' % (ISFN[w], TARGETS[t], FN[to])

    def body(ex):
        st = State()
        src = source(ex, st, 'src', w)
        a, b = Is(src, None, t), Conv(src, to)
        i = z3.BitVec('i', 64)
        ga = at_any(ex, st, a, i)
        gb = at_any(ex, st, b, i)
        # both start at the beginning, so the induction starts with equal positions
        for q, h in steps(ex, st, ga):
            for r, k in steps(ex, q, gb):
                if h.done is None:
                    ex.oblige(r, k.done is None, nm + ': an accepted code point is converted', 'lemma')
                    if k.done is None:
                        ex.oblige(r, I(h.v['i']) == I(k.v['i']), nm + ': both move on alike', 'lemma')
                else:
                    acc = h.done[0]
                    acc = z3.BoolVal(acc) if isinstance(acc, bool) else acc
                    ok = k.done is not None and len(k.done) == 1 and k.done[0].key() == gb.v['acc'].key()
                    ex.oblige(r, True if ok else z3.Not(acc), nm + ': an accepted end keeps the result', 'lemma')
    return lemma(nm, body, [dem_is(w), dem_conv(FN[to], w), 'ansak::%s(%s const&)' % (FN[to], SN[w]), dem_is(w).replace(CN[w] + ' const*', SN[w] + ' const&')])


def c07_goals():
    return [reencode(1, 2), reencode(1, 3), reencode(1, 4), reencode(2, 1), reencode(2, 4), reencode(4, 1), reencode(4, 2), reencode(4, 3)]


# ------------------------------------------------------------------ C08

def canonical(ex, st, src, i, g0, cp):
    """The elements at i are the standard form of the code point (for UTF-8: not a pair of 3-byte sequences)."""
    if src.w == 1:
        k, v, n = decode(ex, st, src, i)
        st.assume(z3.Or(n != 6, z3.UGE(v, 0x4000000)))


WIDTH = {'utf8': 1, 'utf16': 2, 'ucs2': 2, 'ucs4': 4}


def round_goal(a, b, c):
    """a -> b -> c against a -> c (or the source itself where c is a)."""
    wa, wb, wc = WIDTH[a], WIDTH[b], WIDTH[c]
    same = a == c
    nm = '%s to %s to %s' % (a, b, c) + (' is the source again' if same else ' is %s to %s' % (a, c))

    def body(ex):
        st = State()
        src = source(ex, st, 'src', wa)
        mid = source(ex, st, 'mid', wb)
        A = Conv(src, b)                  # gives the elements of mid
        B = Conv(mid, c)
        C = None if same else Conv(src, c)
        i, j = z3.BitVec('i', 64), z3.BitVec('j', 64)
        ga = at_any(ex, st, A, i)
        gb = at_any(ex, st, B, j)
        gc = at_any(ex, st, C, i) if C else None
        st.assume(j == len_f[wb](ga.v['acc'].p[0][1]))       # position in mid: as many elements as were made so far
        # induction: mid from j on is what A makes of src from i on
        lim = min([{'utf8': 0x7fffffff, 'utf16': 0x10ffff, 'ucs2': 0xffff, 'ucs4': 0x7fffffff}[x] for x in (a, b, c)])
        for q, h in steps(ex, st, ga):
            if h.done is None:
                # a code point of src, complete, in standard form, held by all three encodings
                k, cp, n = point_terms(ex, q, src, i)
                q.assume(z3.ULE(cp, lim))
                canonical(ex, q, src, i, ga, cp)
                if not ex.feasible(q):
                    continue
                es = pushed(ga.v['acc'], h.v['acc'])
                q.assume(z3.ULE(j + len(es), mid.N))
                for d, e in enumerate(es):
                    ex.oblige(q, el(e, wb) != 0, nm + ': nothing in between is NUL', 'lemma')
                    q.assume(mid.get(ex, q, z3.simplify(j + d)) == el(e, wb))
                for r, kk in steps(ex, q, gb):
                    ex.oblige(r, kk.done is None, nm + ': the way back goes on', 'lemma')
                    if kk.done is not None:
                        continue
                    ex.oblige(r, I(kk.v['i']) == j + len(es), nm + ': the way back takes the same elements', 'lemma')
                    out = pushed(gb.v['acc'], kk.v['acc'])
                    if same:
                        ex.oblige(r, n == len(out), nm + ': as many elements as in the source', 'lemma')
                        for d, e in enumerate(out):
                            ex.oblige(r, src.get(ex, r, z3.simplify(i + d)) == el(e, wc), nm + ': the elements of the source', 'lemma')
                    else:
                        for r2, kc in steps(ex, r, gc):
                            ex.oblige(r2, kc.done is None, nm + ': the direct way goes on', 'lemma')
                            if kc.done is not None:
                                continue
                            dd = pushed(gc.v['acc'], kc.v['acc'])
                            ex.oblige(r2, len(dd) == len(out), nm + ': as many elements as the direct way', 'lemma')
                            if len(dd) == len(out):
                                for x, y in zip(dd, out):
                                    ex.oblige(r2, el(x, wc) == el(y, wc), nm + ': the elements of the direct way', 'lemma')
                            ex.oblige(r2, I(kc.v['i']) == I(h.v['i']), nm + ': the direct way takes the same elements', 'lemma')
            elif len(h.done) == 1 and h.done[0].key() == ga.v['acc'].key() and ex.feasible(q, i == src.N):
                # the end of src: mid ends at j
                e = q.fork()
                e.assume(i == src.N)
                e.assume(j == mid.N)
                for r, kk in steps(ex, e, gb):
                    ex.oblige(r, kk.done is not None and kk.done[0].key() == gb.v['acc'].key(), nm + ': the way back ends with what it has', 'lemma')
                    if gc is not None:
                        for r2, kc in steps(ex, r, gc):
                            ex.oblige(r2, kc.done is not None and kc.done[0].key() == gc.v['acc'].key(), nm + ': the direct way ends with what it has', 'lemma')
    uses = [dem_conv(FN[b], wa), dem_conv(FN[c], wb)] + ([] if same else [dem_conv(FN[c], wa)])
    uses += ['ansak::%s(%s const&)' % (FN[b], SN[wa]), 'ansak::%s(%s const&)' % (FN[c], SN[wb])]
    return lemma(nm, body, uses)


def compose_goal(a, b, c):
    """a -> b -> c is a -> c, for every source: what ends early, is malformed or out of range included."""
    wa, wb, wc = WIDTH[a], WIDTH[b], WIDTH[c]
    nm = '%s to %s to %s is always %s to %s' % (a, b, c, a, c)

    def body(ex):
        st = State()
        src, mid = source(ex, st, 'src', wa), source(ex, st, 'mid', wb)
        A, B, C = Conv(src, b), Conv(mid, c), Conv(src, c)
        i, j = z3.BitVec('i', 64), z3.BitVec('j', 64)
        ga, gb, gc = at_any(ex, st, A, i), at_any(ex, st, B, j), at_any(ex, st, C, i)
        empty = SV(wc).key()

        def ends(k, v):
            return k.done is not None and len(k.done) == 1 and k.done[0].key() == v
        for q, h in steps(ex, st, ga):
            if h.done is None:
                es = pushed(ga.v['acc'], h.v['acc'])
                for e in es:
                    ex.oblige(q, el(e, wb) != 0, nm + ': nothing in between is NUL', 'lemma')
                # where the first way gets to its end: the second step takes what the first has made
                r0 = q.fork()
                r0.assume(z3.ULE(j + len(es), mid.N))
                for d, e in enumerate(es):
                    r0.assume(mid.get(ex, r0, z3.simplify(j + d)) == el(e, wb))
                for r, kk in steps(ex, r0, gb):
                    for r2, kc in steps(ex, r, gc):
                        if kk.done is not None or kc.done is not None:
                            ex.oblige(r2, ends(kk, empty) and ends(kc, empty), nm + ': both stop for a code point out of range', 'lemma')
                            continue
                        ex.oblige(r2, I(kk.v['i']) == j + len(es), nm + ': the second step takes the same elements', 'lemma')
                        ex.oblige(r2, I(kc.v['i']) == I(h.v['i']), nm + ': the direct way takes the same elements', 'lemma')
                        x, y = pushed(gb.v['acc'], kk.v['acc']), pushed(gc.v['acc'], kc.v['acc'])
                        ex.oblige(r2, b_and(len(x) == len(y), *[el(u, wc) == el(v, wc) for u, v in zip(x, y)]), nm + ': the elements of the direct way', 'lemma')
                # where it ends empty after this: the direct way does not end with anything here
                for r2, kc in steps(ex, q, gc):
                    ex.oblige(r2, ends(kc, empty) if kc.done is not None else I(kc.v['i']) == I(h.v['i']), nm + ': the direct way goes on, or stops empty', 'lemma')
            elif len(h.done) == 1 and h.done[0].key() == ga.v['acc'].key():
                # the first way is done: the second step ends with what it has, and so does the direct way
                r0 = q.fork()
                r0.assume(j == mid.N)
                for r, kk in steps(ex, r0, gb):
                    ex.oblige(r, ends(kk, gb.v['acc'].key()), nm + ': the second step ends with what it has', 'lemma')
                for r, kc in steps(ex, q, gc):
                    ex.oblige(r, ends(kc, gc.v['acc'].key()), nm + ': the direct way ends with what it has', 'lemma')
            else:
                ex.oblige(q, ends(h, SV(wb).key()), nm + ': an early end is empty', 'lemma')
                for r, kc in steps(ex, q, gc):
                    ex.oblige(r, ends(kc, empty), nm + ': the direct way ends empty too', 'lemma')
        # nothing from nothing
        r0 = State()
        none = source(ex, r0, 'none', wb)
        r0.assume(none.N == 0)
        B0 = Conv(none, c)
        for r, k in steps(ex, r0, B0.start(ex, r0)):
            ex.oblige(r, k.done is not None and len(k.done) == 1 and sv_norm(ex, r, k.done[0]).key() == empty, nm + ': empty from empty', 'lemma')
    g = lemma(nm, body)
    g.contract = compose_dem(FN[b], wa, FN[c])
    return g


def compose_goals():
    return [compose_goal(*x) for x in COMPOSE]


def point_terms(ex, st, src, i):
    """Code point and size at i as terms (for a state on which it is complete)."""
    if src.w == 1:
        return decode(ex, st, src, i)
    c = src.get(ex, st, i)
    if src.w == 4:
        return OK, c, Z64(1)
    d = src.get(ex, st, z3.simplify(i + 1))
    p = inr(c, 0xD800, 0xDBFF)
    return OK, z3.If(p, v32(0x10000) + ((z3.ZeroExt(16, c) & 0x3ff) << 10) + (z3.ZeroExt(16, d) & 0x3ff), z3.ZeroExt(16, c)), z3.If(p, Z64(2), Z64(1))


def has_conv(a, b):
    return (FN[b], WIDTH[a], b) in CONVS and a != b


def c08_goals():
    out = []
    E = ['utf8', 'utf16', 'ucs2', 'ucs4']
    for a in E:
        for b in E:
            for c in E:
                if has_conv(a, b) and has_conv(b, c) and (a == c or has_conv(a, c)):
                    out.append(round_goal(a, b, c))
    return out


# ------------------------------------------------------------------ C09

def count_conv(w):
    nm = 'unicodeLength of %s is the length of toUcs4' % CN[w]

    def body(ex):
        st = State()
        src = source(ex, st, 'src', w)
        i = z3.BitVec('i', 64)
        a, b = Conv(src, 'ucs4') if w < 4 else Copy(src, lambda S, c: z3.Not(inr(c, 0xD800, 0xDFFF))), Count(src)
        ga, gb = at_any(ex, st, a, i), at_any(ex, st, b, i)
        for q, h in steps(ex, st, ga):
            if h.done is None:
                es = pushed(ga.v['acc'], h.v['acc'])
                ex.oblige(q, len(es) == 1, nm + ': one element for each code point', 'lemma')
                if w < 4:
                    q.assume(z3.ULE(bv(es[0], 32), 0x10ffff))
                if not ex.feasible(q):
                    continue
                for r, k in steps(ex, q, gb):
                    ex.oblige(r, k.done is None, nm + ': counted when converted', 'lemma')
                    if k.done is None:
                        ex.oblige(r, z3.And(bv(k.v['n'], 32) == bv(gb.v['n'], 32) + 1, I(k.v['i']) == I(h.v['i'])), nm + ': one more', 'lemma')
            elif h.done[0].key() == ga.v['acc'].key():
                q.assume(i == src.N)
                if not ex.feasible(q):
                    continue
                for r, k in steps(ex, q, gb):
                    ex.oblige(r, k.done is not None and bv(k.done[0], 32) == bv(gb.v['n'], 32) if k.done is not None else False, nm + ': both end together', 'lemma')
            else:
                # malformed: the conversion is empty; so is the count 0
                for r, k in steps(ex, q, gb):
                    ex.oblige(r, bv(k.done[0], 32) == 0 if k.done is not None else False, nm + ': 0 for what does not convert', 'lemma')
    return lemma(nm, body, ['ansak::unicodeLength(%s const*, unsigned int)' % CN[w]] + ([dem_conv('toUcs4', w)] if w < 4 else []))


def c09_goals():
    return [count_conv(w) for w in (1, 2, 4)]


# ------------------------------------------------------------------ C16

def codepage_valid(nm, table):
    def body(ex):
        st = State()
        src = source(ex, st, 'src', 1)
        mid = source(ex, st, 'mid', 1)
        a, b = CodePage(src, table), Is(mid, None, 3)
        i, j = z3.BitVec('i', 64), z3.BitVec('j', 64)
        ga, gb = at_any(ex, st, a, i), at_any(ex, st, b, j)
        for q, h in steps(ex, st, ga):
            if h.done is None:
                es = pushed(ga.v['acc'], h.v['acc'])
                q.assume(z3.ULE(j + len(es), mid.N))
                for d, e in enumerate(es):
                    ex.oblige(q, el(e, 1) != 0, nm + ': no NUL', 'lemma')
                    q.assume(mid.get(ex, q, z3.simplify(j + d)) == el(e, 1))
                for r, k in steps(ex, q, gb):
                    ex.oblige(r, k.done is None and I(k.v['i']) == j + len(es) if k.done is None else False, nm + ': a well-formed sequence', 'lemma')
        e = st.fork()
        e.assume(j == mid.N)
        for r, k in steps(ex, e, gb):
            ex.oblige(r, k.done is not None and k.done[0] is True, nm + ': accepted at the end', 'lemma')
    return lemma('the result from %s is valid UTF-8' % nm, body, ['ansak::toUtf8(char const*, ansak::SourceEncoding)'])


def c16_goals():
    return [codepage_valid('code page 1252', CP1252), codepage_valid('code page 1250', CP1250)]


# ------------------------------------------------------------------ frames of the whole module

def only_constructed(ex, mod, f, g):
    """All that f does to the guarded static string g is to construct it from a literal (the compiler puts
    that call, and no other of a constructor, behind the guard)."""
    for b in f.blocks.values():
        for i in b:
            if i.op == 'store' and any(ex.mentions(x, g) for x in i.a):
                return False
            if i.op == 'getelementptr' and ex.mentions(i.a[0][1], g):
                return False
            if i.op == 'call' and any(ex.mentions(x[1], g) for x in i.a):
                d = mod.demangled.get(i.extra[1], '') if i.extra[0] == 'glob' else ''
                if d == '__cxa_atexit' or d.endswith(' const') or 'const&' in d and not d.startswith('std::'):
                    continue
                if not re.match(r'std::(__cxx11::)?(u16|u32|w)?(basic_)?string(<.*>)?::basic_string\((char|char16_t|char32_t|wchar_t) const\*, ', d) or not ex.mentions(i.a[0][1], g) \
                        or i.a[1][1][0] != 'glob' or not mod.globals.get(i.a[1][1][1], (0, 0, False))[2]:
                    return False
    return True


def scan_goal():
    """No function of the module stores to a global object, or hands one to a function that could: by
    the text of the instructions, whether or not a path leads there."""
    name = 'no function writes static or global data'

    def fn(mod, extra):
        r = Run(name)
        t0 = time.time()
        ex = LoopExec(mod, all_contracts, {})
        muts = [g for g, (gty, init, isconst) in ((g, ex_glob(mod, g)) for g in mod.globals) if not isconst and not ex.is_guard(g) and user_global(mod, g)]
        guarded = {ex.guarded(x) for x in mod.globals if ex.is_guard(x)}
        for f in mod.funcs.values():
            if not f.defined or f.name.startswith('@__cxx_global_var_init') or f.name.startswith('@_GLOBAL__sub_I'):
                continue
            d = mod.demangled.get(f.name, f.name)
            if not ('ansak' in d or f.name.startswith('@e_')):
                continue
            bad = []
            for g in muts:
                one = Scan(mod, f)
                if one.global_written(g) and not (g in guarded and only_constructed(ex, mod, f, g)):
                    bad.append(g)
            sure = [g for g in bad if g not in guarded]
            r.obls.append(Obligation('%s writes no static or global data' % d, 'frame', not bad,
                                     None if not bad else {'status': 'sat' if sure else 'unknown', 'why': 'it may write ' + ', '.join(mod.demangled.get(g, g) for g in bad)}))
        r.secs = time.time() - t0
        r.stats = {'queries': 0, 'solver_s': 0, 'contracts_used': {}, 'inlined': [], 'invariants': {}, 'loops_cut': []}
        return r
    return G(name, None, None, None, fn=fn, budget=60)


class Scan(LoopExec):
    """global_written for one function."""

    def __init__(self, mod, f):
        class One:
            pass
        m = One()
        m.funcs, m.demangled = {f.name: f}, mod.demangled
        LoopExec.__init__(self, mod, all_contracts, {})
        self.mod = m


def ex_glob(mod, g):
    return mod.globals[g]


def user_global(mod, g):
    return not g.startswith('@llvm.') and not g.startswith('@_ZSt') and not g.startswith('@__')
