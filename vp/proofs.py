"""The table of proof goals, by property."""
from goals import *

CN = {1: 'char', 2: 'char16_t', 4: 'char32_t'}
SN = {1: 'std::string', 2: 'std::u16string', 4: 'std::u32string'}
SUF = {1: '8', 2: '16', 4: '32'}
TARGETS = ['ASCII', 'UTF-8', 'UCS-2', 'UTF-16', 'UCS-4', 'Unicode']
CONVS = [('toUcs4', 1, 'ucs4'), ('toUtf16', 1, 'utf16'), ('toUcs2', 1, 'ucs2'), ('toUtf8', 2, 'utf8'), ('toUcs4', 2, 'ucs4'),
         ('toUtf8', 4, 'utf8'), ('toUtf16', 4, 'utf16'), ('toUcs2', 4, 'ucs2')]


class G:
    """One goal."""

    def __init__(self, name, entry, setup, post, opts=None, budget=60, cls=None, case=None, fn=None, bounds=None, contract=None, ver=16):
        self.ver = ver
        self.name, self.entry, self.setup, self.post = name, entry, setup, post
        self.opts, self.budget, self.cls = opts or {}, budget, cls
        self.case = case            # how a counterexample is handed to the concrete harness
        self.fn = fn                # a goal with its own procedure
        self.bounds = bounds        # sizes for the bounded search of a counterexample
        self.contract = contract    # the call-site contract this goal is the proof of

    def run(self, mod, extra=None):
        if self.fn:
            return self.fn(mod, extra or {})
        o = dict(self.opts)
        extra = dict(extra or {})
        also = set(extra.pop('also_inline', ()))
        o.update(extra)
        o['inline'] = set(o.get('inline', ())) | also
        return execute(mod, self.name, self.entry, self.setup, self.post, o, self.budget, self.cls)


def want_sv(want):
    """Postcondition: the result string is want(ex, q, goal)."""
    def post(ex, q, goal):
        v = result_value(ex, q, 1)
        w = want(ex, q, goal)
        if v is None:
            ex.fail(q, 'result is defined', 'post', 'no result')
            return
        ex.oblige(q, sv_eq(ex, q, v, w), 'result is what the contract says', 'post')
    return post


def want_val(want):
    def post(ex, q, goal):
        v = q.ret
        if isinstance(v, Undef) or v is None:
            ex.fail(q, 'result is defined', 'post', 'no result')
            return
        w = want(ex, q, goal)
        ex.oblige(q, b_and(eqv(ex, q, ('i', 1) if isinstance(w, bool) or (is_z3(w) and z3.is_bool(w)) else ('i', 32), v, w)), 'result is what the contract says', 'post')
    return post


def by_contract(ex, s, goal, want):
    """Result literally that of the function it is to agree with?"""
    return None


# ------------------------------------------------------------------ conversions

def conv(name, w, to):
    e = 'e_%s_p%s' % (name, SUF[w])
    dem = 'ansak::%s(%s const*)' % (name, CN[w])
    inl = {dem}

    def setup(c):
        c.sret()
        return Conv(c.buf('src', w).src, to)

    def setup0(c):
        c.sret()
        c.null()

    def post(ex, s, spec):
        v = ex.get_sv(s, 'result', 0)
        if v is not None and sv_norm(ex, s, v).key() == conv_term(ex, s.fork(), name, w, spec.src.term).key():
            ex.oblige(s, True, 'result is that of another way to the same', 'post')
            return
        check_lockstep(ex, s, spec, 'result', post_any('result', OUTW[name]))
    return [G('%s(const %s*)' % (name, CN[w]), e, setup, post, {'inline': inl, 'own_end': True}, contract=dem,
              bounds=range(1, 9) if w == 1 else range(1, 5)),
            G('%s(nullptr, %s)' % (name, CN[w]), e, setup0, want_sv(lambda ex, q, g: SV(OUTW[name])), {'inline': inl})]


def conv_s(name, w, to):
    e = 'e_%s_s%s' % (name, SUF[w])
    dem = 'ansak::%s(%s const&)' % (name, SN[w])

    def setup(c):
        c.sret()
        b = c.string('src', w, cstr=True)
        return Conv(b.src, to)

    def post(ex, s, spec):
        v = ex.get_sv(s, 'result', 0)
        t = conv_term(ex, s, name, w, spec.src.term)
        if v is not None and sv_norm(ex, s, v).key() == t.key():
            ex.oblige(s, True, 'result is that of the pointer overload', 'post')
            return
        check_lockstep(ex, s, spec, 'result', post_any('result', OUTW[name]))
    return [G('%s(%s)' % (name, SN[w]), e, setup, post, {'inline': {dem}, 'own_end': True}, contract=dem,
              bounds=range(1, 9) if w == 1 else range(1, 5))]


def decode_goal():
    def setup(c):
        b = BufInfo('src', 1, 'nul', z3.Const('buf_src', BSORT[1]), z3.BitVec('N_src', 64))
        if c.bound is not None:
            b.N = z3.BitVecVal(c.bound, 64)
            b.src.N = b.N
        c.st.assume(z3.ULE(b.N, MAXLEN))
        c.st.mem['param src'] = MObj('buf', None, {}, True, b)
        i = z3.BitVec('i', 64)
        c.st.assume(z3.ULE(i, b.N))
        if c.bound is not None:
            c.st.assume(i == 0)
        c.obj('cell', {0: (8, Ptr('param src', Lin.of(i)))}, 8, False)
        c.ex.lens = [b.N]
        c.ex.argspec = [('buf', 1, b.term, b.N, 'nul')]
        return (b, i)

    def post(ex, q, g):
        b, i = g
        k, v, n = decode(ex, q, b.src, i)
        p = q.mem['param cell'].cells.get(0)
        p = p[1] if p else None
        r = q.ret
        if not isinstance(p, Ptr) or isinstance(r, Undef) or r is None:
            ex.fail(q, 'result is defined', 'post', 'no result')
            return
        r = bv(r, 32)
        if p.obj is None:
            ex.oblige(q, k == BAD, 'null position exactly for a malformed sequence', 'post')
            return
        at = I(p.off.val())
        ex.oblige(q, z3.Or(z3.And(k == TRUNC, at == I(b.N), r == 0),
                           z3.And(k == OK, at == i + n - 1, r == v)),
                  'code point and position of a complete sequence; 0 at the terminator for one cut off', 'post')
        ex.oblige(q, z3.Implies(k == OK, z3.Or(z3.And(i == I(b.N), v == 0, n == 1), z3.And(z3.ULE(i + n, I(b.N)), z3.ULT(i, I(b.N))))),
                  'a complete sequence lies before the terminator', 'post')
    return [G('decodeUtf8(const char*&)', 'e_decode', setup, post, {'inline': {'ansak::internal::decodeUtf8(char const*&)'}},
              contract='ansak::internal::decodeUtf8(char const*&)', case='e_decode')]


# ------------------------------------------------------------------ checks

IS = {'isUtf8': (1, None), 'isUtf16': (2, None), 'isUcs2': (2, 'ucs2'), 'isUcs4': (4, None)}


def default_pred(mod):
    """Bytes of a default-constructed predicate, by running the constructor."""
    if hasattr(mod, 'pred_default'):
        return mod.pred_default
    st8 = run_pred(mod, 'e_pred_default', [])
    mod.pred_default = st8
    return st8


def run_pred(mod, entry, extra, this=None):
    """Run a function that makes a predicate on concrete arguments; its words."""
    ex = LoopExec(mod, all_contracts, {'inline': set()})
    st = State()
    f = mod.funcs['@' + entry]
    fr = Frame(f)
    st.frames.append(fr)
    n = pred_size(ex)
    st.mem['o'] = MObj('mem', n)
    args = [Ptr('o')]
    if this is not None:
        st.mem['this'] = MObj('mem', n, {4 * k: (4, w) for k, w in enumerate(this)})
        args.append(Ptr('this'))
    args += extra
    for (ty, nm, at), v in zip(f.params, args):
        fr.env[nm] = v
    ends = ex.run(st)
    if len(ends) != 1 or ends[0][0] != 'ret' or any(not o.ok for o in ex.obls):
        raise Unsupported('predicate operation is not deterministic')
    s = ends[0][1]

    def words(k):
        out = []
        for j in range(n // 4):
            v = ex.load(s, ('i', 32), Ptr(k, Lin(4 * j)))
            if not isinstance(v, int):
                raise Unsupported('predicate bytes')
            out.append(v)
        return tuple(out)
    return (words('o'), words('this')) if this is not None else words('o')


def is_goal(fn, t, pred=False, kind='p'):
    w, enc = IS[fn]
    e = 'e_%s_%s' % (fn, kind)
    dem = 'ansak::%s(%s, ansak::RangeType, ansak::EncodingCheckPredicate const&)' % (fn, CN[w] + ' const*' if kind == 'p' else SN[w] + ' const&')

    def setup(c):
        c.ex.opts['pred_default'] = default_pred(c.ex.mod)
        b = c.buf('test', w) if kind == 'p' else c.string('test', w, cstr=True)
        c.const(t)
        c.ex.pb = c.pred(None if pred else default_pred(c.ex.mod))
        return Is(b.src, enc, t, pred)

    def post(ex, s, spec):
        v = s.ret
        if kind == 's':
            pb, bits = ex.pb
            want = is_term(ex, s.fork(), fn, w, spec.src.term, t, pb, bits)
            if is_z3(v) and is_z3(want) and v.eq(want):
                ex.oblige(s, True, 'result is that of the pointer overload', 'post')
                return
        check_lockstep(ex, s, spec, 'result', post_any('result', 0))
    return G('%s(%s, %s%s)' % (fn, CN[w] + '*' if kind == 'p' else SN[w], TARGETS[t], ', predicate' if pred else ''), e, setup, post,
             {'inline': {dem}, 'own_end': True}, contract=dem, bounds=range(1, 9) if w == 1 else range(1, 5))


def is_invalid(fn, kind='p'):
    w, enc = IS[fn]
    dem = 'ansak::%s(%s, ansak::RangeType, ansak::EncodingCheckPredicate const&)' % (fn, CN[w] + ' const*' if kind == 'p' else SN[w] + ' const&')

    def setup(c):
        c.ex.opts['pred_default'] = default_pred(c.ex.mod)
        if kind == 'p':
            c.buf('test', w)
        else:
            c.string('test', w, cstr=True)
        t = c.scalar('t', 32)
        c.st.assume(z3.UGT(t, 5))
        c.pred()
        return None
    return G('%s(%s, invalid target)' % (fn, CN[w] + '*' if kind == 'p' else SN[w]), 'e_%s_%s' % (fn, kind), setup, want_val(lambda ex, q, g: False), {'inline': {dem}})


def is_null(fn):
    w, enc = IS[fn]
    dem = 'ansak::%s(%s, ansak::RangeType, ansak::EncodingCheckPredicate const&)' % (fn, CN[w] + ' const*')

    def setup(c):
        c.ex.opts['pred_default'] = default_pred(c.ex.mod)
        c.null()
        t = c.scalar('t', 32)
        c.pred()
        return t
    return G('%s(nullptr)' % fn, 'e_%s_p' % fn, setup, want_val(lambda ex, q, t: z3.ULE(t, 5)), {'inline': {dem}})


DEFT = {'isUtf8': 1, 'isUtf16': 3, 'isUcs2': 2, 'isUcs4': 4}


def is_wrap(fn, kind, t=None):
    """The overloads with defaulted arguments: they agree with the full ones."""
    w, enc = IS[fn]
    ptr = kind[0] == 'p' or kind == 'd'

    def setup(c):
        c.ex.opts['pred_default'] = default_pred(c.ex.mod)
        b = c.buf('test', w) if ptr else c.string('test', w, cstr=True)
        if t is not None:
            c.const(t)
        pb = None
        if kind in ('pp', 'sp'):
            pb = c.pred()
        else:
            n = pred_size(c.ex)
            pb = (z3.BitVecVal(pack(default_pred(c.ex.mod)), 8 * n), 8 * n)
        tg = t if t is not None else DEFT[fn]
        c.ex.pb = pb
        sp = Is(b.src, enc, tg if 0 <= tg <= 5 else 0, kind in ('pp', 'sp'))
        sp.tg = tg
        return sp

    def post(ex, s, spec):
        pb, bits = ex.pb
        want = is_term(ex, s, fn, w, spec.src.term, spec.tg, pb, bits)
        v = s.ret
        if is_z3(want) and is_z3(v) and v.eq(want):
            ex.oblige(s, True, 'result is that of the full overload', 'post')
            return
        if not 0 <= spec.tg <= 5:
            return want_val(lambda *a: False)(ex, s, spec)
        check_lockstep(ex, s, spec, 'result', post_any('result', 0))
    return G('%s %s%s' % (fn, {'pt': '(%s*, target)' % CN[w], 'st': '(%s, target)' % SN[w], 'd': '(%s*)' % CN[w], 'sd': '(%s)' % SN[w],
                               'pp': '(%s*, predicate)' % CN[w], 'sp': '(%s, predicate)' % SN[w]}[kind], '' if t is None else ' %s' % (TARGETS[t] if t < 6 else 'invalid')),
             'e_%s_%s' % (fn, kind), setup, post, {'own_end': True}, bounds=range(1, 9) if w == 1 else range(1, 5))


# ------------------------------------------------------------------ counts

def count_goal(w):
    dem = 'ansak::unicodeLength(%s const*, unsigned int)' % CN[w]

    def setup(c):
        return Count(c.buf('src', w).src)

    def setup0(c):
        c.null()

    def setups(c):
        b = c.string('src', w, cstr=True)
        return Count(b.src)

    def posts(ex, s, spec):
        v = s.ret
        if is_z3(v) and v.eq(FC(w)(spec.src.term)):
            ex.oblige(s, True, 'result is that of the pointer overload', 'post')
            return
        check_lockstep(ex, s, spec, 'result', post_any('result', 0))
    return [G('unicodeLength(%s*)' % CN[w], 'e_len_p' + SUF[w], setup, post_any('result', 0), {'inline': {dem}}, contract=dem, bounds=range(1, 9) if w == 1 else range(1, 5)),
            G('unicodeLength(nullptr, %s)' % CN[w], 'e_len_p' + SUF[w], setup0, want_val(lambda ex, q, g: 0), {'inline': {dem}}),
            G('unicodeLength(%s)' % SN[w], 'e_len_s' + SUF[w], setups, posts, {'own_end': True}, bounds=range(1, 9) if w == 1 else range(1, 5))]


def count_len(w, nonul=True):
    dem = 'ansak::unicodeLength(%s const*, unsigned int)' % CN[w]

    def setup(c):
        n = z3.BitVec('n', 32) if c.bound is None else z3.BitVecVal(c.bound, 32)
        N = z3.ZeroExt(32, n) if c.bound is None else z3.BitVecVal(c.bound, 64)
        c.st.assume(z3.And(n != 0, z3.ULE(n, MAXLEN)))
        b = c.buf('src', w, 'len', N, nonul)
        c.ex.lens.append(N)
        c.args.append(n)
        c.ex.params['n'] = n
        return Count(b.src)
    return G('unicodeLength(%s*, n)%s' % (CN[w], '' if nonul else ' with NULs: reads'), 'e_len_n' + SUF[w], setup, post_any('result', 0) if nonul else (lambda ex, q, g: None), {'inline': {dem}, 'own_end': not nonul},
             bounds=range(1, 9) if w == 1 else range(1, 5), budget=240)


def isutf8_len(nonul=True, pred=True):
    def setup(c):
        c.ex.opts['pred_default'] = default_pred(c.ex.mod)
        n = z3.BitVec('n', 32) if c.bound is None else z3.BitVecVal(c.bound, 32)
        N = z3.ZeroExt(32, n) if c.bound is None else z3.BitVecVal(c.bound, 64)
        c.st.assume(z3.And(n != 0, z3.ULE(n, MAXLEN)))
        b = c.buf('src', 1, 'len', N, nonul)
        c.ex.lens.append(N)
        c.args.append(n)
        c.ex.params['n'] = n
        if pred:
            c.pred()
        return Is(b.src, None, 1, pred)
    return G('isUtf8(char*, n%s)%s' % (', predicate' if pred else '', '' if nonul else ' with NULs: reads'), 'e_isUtf8_len' + ('' if pred else 'd'), setup, post_any('result', 0) if nonul else (lambda ex, q, g: None), {'own_end': not nonul},
             bounds=range(1, 9), budget=240)


# ------------------------------------------------------------------ code pages

def codepage_goals():
    dem = 'ansak::toUtf8(char const*, ansak::SourceEncoding)'
    out = []
    for enc, table in ((1, CP1252), (2, CP1250)):
        def setup(c, enc=enc, table=table):
            c.sret()
            b = c.buf('src', 1)
            c.const(enc)
            return CodePage(b.src, table)
        out.append(G('toUtf8(const char*, CP125%s)' % ('2' if enc == 1 else '0'), 'e_codepage', setup, post_any('result', 1), bounds=range(1, 5)))

    def setup_u(c):
        c.sret()
        b = c.buf('src', 1)
        c.const(0)
        return Copy(b.src)
    out.append(G('toUtf8(const char*, Unicode)', 'e_codepage', setup_u, post_copy, {'own_end': True}, bounds=range(1, 5)))

    def setup_x(c):
        c.sret()
        c.buf('src', 1)
        e = c.scalar('encoding', 32)
        c.st.assume(z3.UGT(e, 2))
    out.append(G('toUtf8(const char*, other encoding)', 'e_codepage', setup_x, want_sv(lambda ex, q, g: SV(1))))

    def setup_0(c):
        c.sret()
        c.null()
        c.scalar('encoding', 32)
    out.append(G('toUtf8(nullptr, encoding)', 'e_codepage', setup_0, want_sv(lambda ex, q, g: SV(1))))
    return out


def post_copy(ex, s, spec):
    """The elements unchanged: the library's copy of them, or one built element by element."""
    v = result_value(ex, s, spec.src.w)
    w = spec.src.w
    t = strof_f[w](spec.src.term)
    ex.len_axiom(s, w, t)
    s.assume(len_f[w](t) == I(spec.src.N))
    if v is not None and ex.valid(s, sv_eq(ex, s, v, SV(w, (('t', t),)))):
        ex.oblige(s, True, 'result is the source unchanged', 'post')
        return
    check_lockstep(ex, s, spec, 'result', post_any('result', w))


# ------------------------------------------------------------------ lower case

def lang_arg(c, null):
    if null:
        c.null()
        return False
    b = c.buf('lang', 1)
    c.ex.lens.pop() if c.bound is None else None
    return b


def lower_fn(lang):
    """The mapping for a language: a condition over the characters of its code."""
    def fn(S, c):
        if lang is False:
            return lowerU(c)
        b = [lang.src.get(S.ex, S.st, z3.BitVecVal(k, 64)) for k in range(4)]
        cs = [z3.And(*([b[k] == ord(ch) for k, ch in enumerate(l)] + [b[len(l)] == 0])) for l in LANGS]
        return turkicU(c) if S.br(z3.Or(*cs)) else lowerU(c)
    return fn


def lower_goals():
    out = []
    for null in (False, True):
        nm = 'no language' if null else 'language'

        def setup(c, null=null):
            c.sret()
            t = c.string('src', 4)
            lang = lang_arg(c, null)
            return Map(Src('str', 4, t, len_f[4](t), 'src'), lower_fn(lang))
        out.append(G('toLower(std::u32string, %s)' % nm, 'e_toLower_32', setup, post_any('result', 4),
                     {'inline': {'ansak::toLower(std::u32string const&, char const*)'}}, contract='ansak::toLower(std::u32string const&, char const*)', bounds=range(0, 4)))
        for w, to in ((1, 'utf8'), (2, 'utf16')):
            def setup2(c, w=w, to=to, null=null):
                c.sret()
                b = c.string('src', w, cstr=True)
                lang = lang_arg(c, null)
                sp = LowerConv(b.src, to, lower_fn(lang))
                sp.lang, sp.fnm = lang, 'toUtf8' if w == 1 else 'toUtf16'
                return sp

            def post2(ex, s, spec, w=w):
                v = ex.get_sv(s, 'result', 0)
                src4 = conv_term(ex, s, 'toUcs4', w, spec.src.term)
                t4 = src4.p[0][1]
                tk = False
                if spec.lang is not False:
                    tk = turkic(ex, s, Ptr('param lang'))
                    if ex.valid(s, tk):
                        tk = True
                    elif ex.valid(s, z3.Not(tk)):
                        tk = False
                lo = lower_term(ex, s, t4, tk).p[0][1]
                ex.len_axiom(s, 4, lo)
                want = conv_term(ex, s, spec.fnm, 4, cstr_f[4](lo))
                if v is not None and ex.valid(s, sv_eq(ex, s, v, want)):
                    ex.oblige(s, True, 'result is the encoding of the lowered code points', 'post')
                    return
                check_lockstep(ex, s, spec, 'result', post_any('result', w))
            out.append(G('toLower(%s, %s)' % (SN[w], nm), 'e_toLower_' + SUF[w], setup2, post2, {'own_end': True}, bounds=range(1, 5)))
    return out


# ------------------------------------------------------------------ wchar_t

def uni_ok(lim):
    return lambda S, c: z3.And(z3.ULE(c, lim), z3.Not(inr(c, 0xD800, 0xDFFF)))


def wide_goals():
    out = []
    bnd4 = range(1, 5)

    def forward(name, entry, w, kind, spec_of, term_of, isbool):
        """Agrees with another function of the library on the same characters."""
        def setup(c):
            c.ex.opts['pred_default'] = default_pred(c.ex.mod)
            if not isbool:
                c.sret()
            b = c.buf('src', w) if kind == 'p' else c.string('src', w, cstr=True)
            return spec_of(b.src)

        def post(ex, s, spec):
            want = term_of(ex, s.fork() if isbool else s, spec.src.term)
            if isbool:
                v = s.ret
                if is_z3(v) and is_z3(want) and v.eq(want):
                    ex.oblige(s, True, 'result is that of the char32_t function', 'post')
                    return
                check_lockstep(ex, s, spec, 'result', post_any('result', 0))
            else:
                v = ex.get_sv(s, 'result', 0)
                if v is not None and ex.valid(s, sv_eq(ex, s, v, want)):
                    ex.oblige(s, True, 'result is that of the char32_t function', 'post')
                    return
                check_lockstep(ex, s, spec, 'result', post_any('result', 1))
        out.append(G(name, entry, setup, post, {'own_end': True}, bounds=bnd4 if w != 1 else range(1, 9)))

        def setup0(c):
            if not isbool:
                c.sret()
            c.ex.opts['pred_default'] = default_pred(c.ex.mod)
            c.null()
        if kind == 'p':
            out.append(G(name.replace('*', '* = nullptr'), entry, setup0, want_val(lambda *a: True) if isbool else want_sv(lambda ex, q, g: SV(result_value(ex, q, 1).w if result_value(ex, q, 1) else 1))))

    def is_t(fn, w, t):
        def f(ex, s, term):
            n = pred_size(ex)
            return is_term(ex, s, fn, w, term, t, z3.BitVecVal(pack(default_pred(ex.mod)), 8 * n), 8 * n)
        return f
    for k in 'ps':
        wn = 'wchar_t*' if k == 'p' else 'std::wstring'
        for fn, t in (('isUtf8', 3), ('isUtf16', 3), ('isUcs2', 2), ('isUcs4', 3)):
            forward('%s(%s)' % (fn, wn), 'e_w_%s_%s' % (fn, k), 4, k, lambda src, t=t: Is(src, None, t), is_t('isUcs4', 4, t), True)
        for fn, to in (('toUtf8', 'utf8'), ('toUtf16', 'utf16'), ('toUcs2', 'ucs2')):
            forward('%s(%s)' % (fn, wn), 'e_w_%s_%s' % (fn, k), 4, k, lambda src, to=to: Conv(src, to), lambda ex, s, term, fn=fn: conv_term(ex, s, fn, 4, term), False)
        for w in (1, 2, 4):
            nm = (CN[w] + '*') if k == 'p' else SN[w]
            fn = {1: 'isUtf8', 2: 'isUtf16', 4: 'isUcs4'}[w]
            t = {1: 3, 2: 4, 4: 3}[w]
            forward('isWstring(%s)' % nm, 'e_isW_%s%s' % (k, SUF[w]), w, k, lambda src, t=t: Is(src, None, t), is_t(fn, w, t), True)
            if w < 4:
                forward('toWstring(%s)' % nm, 'e_toW_%s%s' % (k, SUF[w]), w, k, lambda src: Conv(src, 'ucs4'), lambda ex, s, term, w=w: conv_term(ex, s, 'toUcs4', w, term), False)
        for name, entry in (('toUcs4(%s)' % wn, 'e_w_toUcs4_' + k), ('toWstring(%s)' % ('char32_t*' if k == 'p' else 'std::u32string'), 'e_toW_%s32' % k)):
            def setup(c, k=k):
                c.ex.opts['pred_default'] = default_pred(c.ex.mod)
                c.sret()
                b = c.buf('src', 4) if k == 'p' else c.string('src', 4, cstr=True)
                return Copy(b.src, None if c.ex.opts.get('alt') else uni_ok(0x10ffff))

            def post(ex, s, spec):
                v = ex.get_sv(s, 'result', 0)
                ok = is_t('isUcs4', 4, 3)(ex, s, spec.src.term)
                t = strof_f[4](spec.src.term)
                ex.len_axiom(s, 4, t)
                s.assume(len_f[4](t) == I(spec.src.N))
                if v is not None:
                    e1 = sv_eq(ex, s, v, SV(4, (('t', t),)))
                    e0 = sv_eq(ex, s, v, SV(4))
                    if ex.valid(s, b_or(b_and(ok, e1), b_and(b_not(ok), e0))):
                        ex.oblige(s, True, 'result is a copy exactly if all is Unicode', 'post')
                        return
                    if ex.opts.get('alt'):
                        # nothing unless isUcs4 accepts; if it does, the characters one by one
                        no = s.fork()
                        no.assume(b_not(ok))
                        if ex.feasible(no):
                            ex.oblige(no, e0, 'result is empty unless all is Unicode', 'post')
                        s.assume(ok)
                        if not ex.feasible(s):
                            return
                check_lockstep(ex, s, spec, 'result', post_any('result', 4))
            out.append(G(name, entry, setup, post, {'own_end': True, 'strategies': STRATEGIES + [{'alt': True}, {'alt': True, 'peel': 1}]}, bounds=bnd4))

            def setup0(c):
                c.ex.opts['pred_default'] = default_pred(c.ex.mod)
                c.sret()
                c.null()
            if k == 'p':
                out.append(G(name.replace('*', '* = nullptr'), entry, setup0, want_sv(lambda ex, q, g: SV(4))))
    return out
