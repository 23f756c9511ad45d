"""Contracts of the library's own functions, as seen by their callers.  Each of them is an obligation
of its own somewhere in goals.py; a function whose contract is not (or not yet) accepted is inlined
instead, so a caller never relies on a contract that failed."""
import re
from strlib import *
from specs import *
from cxxlib import library
import seqlib
from loops import *
from trimspec import *

SH = {'std::string': 1, 'std::u16string': 2, 'std::u32string': 4, 'std::wstring': 4, 'char': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4}
OUTW = {'toUtf8': 1, 'toUtf16': 2, 'toUcs2': 2, 'toUcs4': 4}
_F = {}


def F(name, w):
    """The conversion function `name` from elements of w bytes, over NUL-terminated buffers."""
    k = (name, w)
    if k not in _F:
        _F[k] = z3.Function('F_%s_%d' % (name, 8 * w), BSORT[w], SSORT[OUTW[name]])
    return _F[k]


def FP(name, w, bits):
    """is* with a target and the bytes of the predicate object."""
    k = (name, w, bits)
    if k not in _F:
        _F[k] = z3.Function('P_%s_%d' % (name, 8 * w), BSORT[w], B32, z3.BitVecSort(bits), z3.BoolSort())
    return _F[k]


def FC(w):
    k = ('cnt', w)
    if k not in _F:
        _F[k] = z3.Function('C_unicodeLength_%d' % (8 * w), BSORT[w], B32)
    return _F[k]


Lstr = z3.Function('L_toLower', SSORT[4], z3.BoolSort(), SSORT[4])
cls = {n: z3.Function('is_' + n, B32, z3.BoolSort()) for n in ('assigned', 'private', 'control', 'white')}

LANGS = ['az', 'aze', 'azj', 'azb', 'kk', 'kaz', 'tt', 'tat', 'tr', 'tur']


def ours(dem):
    """A function of the library (templates carry their return type)."""
    return dem.startswith('ansak::') or re.match(r'^[\w:<>, *&]* ansak::\w+(<|\()', dem) is not None


def canon_target(name, t):
    """Targets with the same meaning for this kind of source are one."""
    if not isinstance(t, int):
        return t
    if name == 'isUtf8':
        return {4: 1, 5: 3}.get(t, t)
    if name == 'isUtf16':
        return {3: 1, 4: 1, 5: 1}.get(t, t)
    if name == 'isUcs2':
        return {1: 2, 3: 2, 4: 2, 5: 2}.get(t, t)
    return {5: 3}.get(t, t)


def turkic(ex, st, p):
    """Condition: the language string at p is one of the ten."""
    if p.obj is None:
        return False
    o = st.mem[p.obj]
    if o.kind == 'glob':
        return ''.join(map(chr, ex.glob_chars(st, p, 1))) in LANGS
    if o.kind != 'buf' or p.off.const() != 0 or o.info.mode != 'nul':
        raise Unsupported('language code')
    src = o.info.src
    b = [src.get(ex, st, z3.BitVecVal(k, 64)) for k in range(4)]
    cs = []
    for l in LANGS:
        cs.append(z3.And(*([b[k] == ord(ch) for k, ch in enumerate(l)] + [b[len(l)] == 0])))
    return z3.Or(*cs)


def pred_bits(ex, st, p):
    """All bytes of a predicate object as one value."""
    n = pred_size(ex)
    out = []
    for k in range(n // 4):
        v = ex.load(st, ('i', 32), p.plus(Lin(4 * k)))
        if isinstance(v, Undef) or isinstance(v, list):
            raise Unsupported('predicate object')
        out.append(bv(v, 32))
    r = z3.Concat(*reversed(out)) if len(out) > 1 else out[0]
    return z3.simplify(r), 32 * len(out)


def pred_size(ex):
    for t in ex.mod.types:
        if t.strip('%"') == 'class.ansak::EncodingCheckPredicate':
            return ex.mod.size(('named', t))
    return 8


# conversions by way of a third encoding that are the direct conversion, whatever the source (lemmas.compose_goal)
COMPOSE = [('utf8', 'ucs4', 'utf16'), ('utf8', 'ucs4', 'ucs2'), ('utf16', 'ucs4', 'utf8'), ('utf16', 'utf8', 'ucs4'), ('ucs4', 'utf8', 'utf16'), ('ucs4', 'utf8', 'ucs2')]
_ENC = {'utf8': ('toUtf8', 1), 'utf16': ('toUtf16', 2), 'ucs2': ('toUcs2', 2), 'ucs4': ('toUcs4', 4)}
_COMPOSE = {(_ENC[b][0], _ENC[a][1], _ENC[c][0]) for a, b, c in COMPOSE}


def compose_dem(first, w, second):
    """The name the lemma is used under."""
    return 'lemma: %s of %s of %d-bit elements' % (second, first, 8 * w)


def conv_term(ex, st, name, w, bt):
    """Result term of a conversion of the buffer bt (None: null pointer)."""
    ow = OUTW[name]
    if bt is None:
        return SV(ow)
    if bt.decl().name().startswith('cstr') and bt.arg(0).num_args() == 1:
        m = re.match(r'F_(\w+)_(\d+)$', bt.arg(0).decl().name())
        if m and (m.group(1), int(m.group(2)) // 8, name) in _COMPOSE:
            d = compose_dem(m.group(1), int(m.group(2)) // 8, name)
            if d not in ex.opts.get('inline', ()):
                ex.used_contracts[d] = 'contract'
                return conv_term(ex, st, name, int(m.group(2)) // 8, bt.arg(0).arg(0))
    t = F(name, w)(bt)
    ex.len_axiom(st, ow, t)
    if bt.decl().name().startswith('cstr'):
        inner = bt.arg(0)
        if inner.eq(nil_c[w]):
            return SV(ow)
        st.assume(z3.Implies(inner == nil_c[w], t == nil_c[ow]))
    return SV(ow, (('t', t),))


RX_CONV = re.compile(r'^ansak::(toUtf8|toUtf16|toUcs2|toUcs4)\((?:(char|char16_t|char32_t|wchar_t) const\*|(std::\w+) const&)\)$')
RX_IS = re.compile(r'^ansak::(isUtf8|isUtf16|isUcs2|isUcs4)\((?:(char|char16_t|char32_t) const\*|(std::\w+) const&)(?:, (ansak::RangeType))?(?:, (ansak::EncodingCheckPredicate const&))?\)$')
RX_CNT = re.compile(r'^ansak::unicodeLength\((?:(char|char16_t|char32_t) const\*, unsigned int|(std::\w+) const&)\)$')


def self_contract(ex, dem, name):
    off = ex.opts.get('inline', ())
    if dem in off or not ours(dem) or ex.opts.get('noself'):
        return None
    m = RX_CONV.match(dem)
    if m and not (m.group(1) == 'toUcs4' and 'wchar_t' in dem or m.group(1) == 'toUcs4' and 'wstring' in dem):
        w = SH[m.group(2) or m.group(3)]

        def h(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'contract'
            if m.group(2):
                bt = ex.buf_term(st, args[1][1], w)
            else:
                s = ex.rd_str(st, args[1][1], w)
                t = sv_term_of(ex, st, s)
                ex.len_axiom(st, w, t)
                bt = cstr_f[w](t)
            ex.wr_str(st, args[0][1], conv_term(ex, st, m.group(1), w, bt))
        return h
    m = RX_IS.match(dem)
    if m and (m.group(4) or m.group(5)):
        w = SH[m.group(2) or m.group(3)]
        nm = m.group(1)

        def h(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'contract'
            if m.group(2):
                bt = ex.buf_term(st, args[0][1], w)
            else:
                t = sv_term_of(ex, st, ex.rd_str(st, args[0][1], w))
                ex.len_axiom(st, w, t)
                bt = cstr_f[w](t)
            k = 1
            tg = {'isUtf8': 1, 'isUtf16': 3, 'isUcs2': 2, 'isUcs4': 4}[nm]
            if m.group(4):
                tg = args[k][1]
                k += 1
            pb, bits = pred_bits(ex, st, args[k][1])
            return is_term(ex, st, nm, w, bt, tg, pb, bits)
        return h
    m = RX_CNT.match(dem)
    if m:
        w = SH[m.group(1) or m.group(2)]

        def h(ex, st, i, args, dem):
            if m.group(1):
                if args[1][1] != 0:
                    raise Unsupported('length-limited unicodeLength inside another function')
                bt = ex.buf_term(st, args[0][1], w)
                if bt is None:
                    return 0
            else:
                t = sv_term_of(ex, st, ex.rd_str(st, args[0][1], w))
                ex.len_axiom(st, w, t)
                bt = cstr_f[w](t)
            ex.used_contracts[dem] = 'contract'
            return FC(w)(bt)
        return h
    if dem == 'ansak::internal::decodeUtf8(char const*&)':
        return decode_handler
    m = re.match(r'^ansak::internal::(toLower|turkicToLower)\(char32_t\)$', dem)
    if m:
        def h(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'contract'
            return (lowerU if m.group(1) == 'toLower' else turkicU)(bv(args[0][1], 32))
        return h
    m = re.match(r'^ansak::internal::(isUnicodeAssigned|isUnicodePrivate|isControlChar|isWhitespaceChar)\((char|char16_t|char32_t)\)$', dem)
    if m:
        cn = {'isUnicodeAssigned': 'assigned', 'isUnicodePrivate': 'private', 'isControlChar': 'control', 'isWhitespaceChar': 'white'}[m.group(1)]

        def h(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'contract'
            cw = 8 * SH[m.group(2)]
            c = bv(args[0][1], cw)
            c = z3.ZeroExt(32 - cw, c) if cw < 32 else c
            return cls[cn](z3.simplify(c))
        return h
    m = re.match(r'^ansak::EncodingCheckPredicate::operator\(\)\((char16_t|char32_t)\) const$', dem)
    if m and getattr(ex, 'pred_obj', None):
        def h(ex, st, i, args, dem):
            p = args[0][1]
            if p.obj != ex.pred_obj or p.off.const() != 0:
                return INLINE
            ex.used_contracts[dem] = 'contract'
            c = bv(args[1][1], 8 * SH[m.group(1)])
            c = z3.simplify(z3.ZeroExt(16, c)) if c.size() == 16 else c
            r = predOK(c)
            st.assume(z3.Implies(ex.pred_val == ex.pred_default, r))
            return r
        return h
    m = re.match(r'^ansak::toLower\(std::u32string const&, char const\*\)$', dem)
    if m:
        def h(ex, st, i, args, dem):
            ex.used_contracts[dem] = 'contract'
            t = sv_term_of(ex, st, ex.rd_str(st, args[1][1], 4))
            tk = turkic(ex, st, args[2][1])
            ex.wr_str(st, args[0][1], lower_term(ex, st, t, tk))
        return h
    m = re.match(r'^ansak::(trimWhiteSpace|trimAscii7WhiteSpace)\((std::string|std::u16string|std::u32string)&\)$', dem) or \
        re.match(r'^void ansak::(trim)<\w+>\((std::string|std::u16string|std::u32string|std::wstring)&(, std::\w+ const&)?\)$', dem)
    if m and (m.group(1), m.group(2)) != ('trimWhiteSpace', 'std::string'):
        w = SH[m.group(2)]

        def h(ex, st, i, args, dem):
            s = ex.rd_str(st, args[0][1], w)
            if m.group(1) == 'trim' and m.group(3):
                b = sv_norm(ex, st, ex.rd_str(st, args[1][1], w))
                if all(x[0] == 'c' and isinstance(x[1], int) for x in b.p):
                    cs = [x[1] for x in b.p]
                else:
                    cs = sv_term_of(ex, st, b)
            else:
                cs = {'trim': [0x20], 'trimWhiteSpace': WS, 'trimAscii7WhiteSpace': ASCII_WS}[m.group(1)]
            ex.used_contracts[dem] = 'contract'
            out = []
            for q, r in trim_result(ex, st, s, cs):
                ex.wr_str(q, args[0][1], r)
                out.append((q, None))
            return out
        return h
    return None


def lower_term(ex, st, t, tk):
    u = Lstr(t, z3.BoolVal(bool(tk)) if isinstance(tk, (bool, int)) else tk)
    ex.len_axiom(st, 4, t)
    ex.len_axiom(st, 4, u)
    st.assume(len_f[4](u) == len_f[4](t))
    return SV(4, (('t', u),))


def is_term(ex, st, nm, w, bt, tg, pb, bits):
    if isinstance(tg, int) and not 0 <= tg <= 5:
        return False
    if bt is None:
        return True if isinstance(tg, int) else z3.ULE(tg, 5)
    r = FP(nm, w, bits)(bt, bv(canon_target(nm, tg), 32), pb)
    if bt.decl().name().startswith('cstr'):
        inner = bt.arg(0)
        e = z3.BoolVal(True) if isinstance(tg, int) else z3.ULE(tg, 5)
        if inner.eq(nil_c[w]):
            return simp(e)
        st.assume(z3.Implies(inner == nil_c[w], r == e))
    if not isinstance(tg, int):
        st.assume(z3.Implies(z3.UGT(tg, 5), z3.Not(r)))
        # equal targets
        return r
    return r


def decode_handler(ex, st, i, args, dem):
    cell = args[0][1]
    p = ex.load(st, 'ptr', cell)
    if not isinstance(p, Ptr) or p.obj is None:
        return INLINE
    o = st.mem.get(p.obj)
    if o is None or o.kind != 'buf' or o.info.mode != 'nul' or o.info.w != 1:
        return INLINE
    ex.used_contracts[dem] = 'contract'
    src = o.info.src
    idx = ex.canon(st, p.off)
    e = I(idx.val())
    ex.oblige(st, z3.ULE(e, I(src.N)), ex.oname(st, 'decodeUtf8 is called at or before the terminator'), 'safety')
    st.nbuf += 1
    k, v, n = decode(ex, st, src, e)
    for j in range(6):
        q = z3.simplify(e + j)
        st.reads.append((o.info.name, q, src.get(ex, st, q)))
    out = []
    for kk in (OK, TRUNC, BAD):
        if not ex.feasible(st, k == kk):
            continue
        s = st.fork()
        s.assume(k == kk)
        if kk == OK:
            # the contract's consequence: the bytes used are all before the terminator
            s.assume(z3.Or(z3.And(e == I(src.N), v == 0, n == 1), z3.And(z3.ULE(e + n, I(src.N)), z3.ULT(e, I(src.N)))))
            ex.store(s, 'ptr', Ptr(p.obj, idx.add(Lin.of(n)).add(Lin(-1))), cell)
            out.append((s, v))
        elif kk == TRUNC:
            ex.store(s, 'ptr', Ptr(p.obj, Lin.of(I(src.N))), cell)
            out.append((s, 0))
        else:
            ex.store(s, 'ptr', NULL, cell)
            out.append((s, 0))
    return out


def all_contracts(ex, dem, name):
    h = self_contract(ex, dem, name)
    if h is not None:
        return h
    h = ex.extra_contracts(dem, name) if hasattr(ex, 'extra_contracts') else None
    return h or library(ex, dem, name) or seqlib.library(ex, dem, name)
