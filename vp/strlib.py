"""Abstract strings, buffers, vectors and lists, and the (trusted) contracts of the C++ library
members the code calls."""
import re, z3
from core import *

WID = {'std::string': 1, 'std::u16string': 2, 'std::u32string': 4, 'std::wstring': 4}
BSORT = {w: z3.DeclareSort('Buf%d' % (8 * w)) for w in (1, 2, 4)}
SSORT = {w: z3.DeclareSort('Str%d' % (8 * w)) for w in (1, 2, 4)}
VSORT = {w: z3.DeclareSort('Vec%d' % (8 * w)) for w in (1, 2, 4)}
B64 = z3.BitVecSort(64)
mem_f = {w: z3.Function('mem%d' % (8 * w), BSORT[w], B64, z3.BitVecSort(8 * w)) for w in (1, 2, 4)}
at_f = {w: z3.Function('at%d' % (8 * w), SSORT[w], B64, z3.BitVecSort(8 * w)) for w in (1, 2, 4)}
len_f = {w: z3.Function('len%d' % (8 * w), SSORT[w], B64) for w in (1, 2, 4)}
nul_f = {w: z3.Function('nulpos%d' % (8 * w), SSORT[w], B64) for w in (1, 2, 4)}
snoc_f = {w: z3.Function('snoc%d' % (8 * w), SSORT[w], z3.BitVecSort(8 * w), SSORT[w]) for w in (1, 2, 4)}
cat_f = {w: z3.Function('cat%d' % (8 * w), SSORT[w], SSORT[w], SSORT[w]) for w in (1, 2, 4)}
sub_f = {w: z3.Function('sub%d' % (8 * w), SSORT[w], B64, B64, SSORT[w]) for w in (1, 2, 4)}
cstr_f = {w: z3.Function('cstr%d' % (8 * w), SSORT[w], BSORT[w]) for w in (1, 2, 4)}
strof_f = {w: z3.Function('strOf%d' % (8 * w), BSORT[w], SSORT[w]) for w in (1, 2, 4)}
nil_c = {w: z3.Const('nil%d' % (8 * w), SSORT[w]) for w in (1, 2, 4)}
velem_f = {w: z3.Function('velem%d' % (8 * w), VSORT[w], B64, SSORT[w]) for w in (1, 2, 4)}
vlen_f = {w: z3.Function('vlen%d' % (8 * w), VSORT[w], B64) for w in (1, 2, 4)}
find_f = {w: z3.Function('find%d' % (8 * w), SSORT[w], z3.BitVecSort(8 * w), B64, B64) for w in (1, 2, 4)}
MAXLEN = (1 << 31) - 64
NPOS = M64


def I(v):
    return bv(v, 64)


class SV:
    """Abstract value of a std::basic_string: a concatenation of characters, whole terms and views."""
    __slots__ = ('w', 'p')

    def __init__(self, w, p=()):
        self.w = w
        self.p = tuple(p)

    def push(self, c):
        return SV(self.w, self.p + (('c', c),))

    def cat(self, o):
        return SV(self.w, self.p + o.p)

    def key(self):
        out = []
        for x in self.p:
            if x[0] == 'c':
                out.append(('c', x[1] if isinstance(x[1], int) else x[1].get_id()))
            elif x[0] == 't':
                out.append(('t', x[1].get_id()))
            else:
                out.append(('v', x[1].get_id(), Lin.of(x[2]).key(), Lin.of(x[3]).key()))
        return (self.w, tuple(out))

    def __repr__(self):
        return 'SV%d%s' % (self.w * 8, list(self.p))


def sv_term(ex, w, t):
    return SV(w, (('t', t),))


def sv_lit(w, vals):
    return SV(w, tuple(('c', v) for v in vals))


def piece_len(ex, st, w, x):
    if x[0] == 'c':
        return Lin(1)
    if x[0] == 't':
        ex.len_axiom(st, w, x[1])
        return Lin.of(len_f[w](x[1]))
    return Lin.of(x[3]).add(Lin.of(x[2]).scale(-1))


def sv_len(ex, st, s):
    r = Lin()
    for x in s.p:
        r = r.add(piece_len(ex, st, s.w, x))
    return r


def sv_norm(ex, st, s):
    """Drop pieces that are empty on their face; view of everything becomes the term."""
    out = []
    for x in s.p:
        if x[0] == 't' and x[1].eq(nil_c[s.w]):
            continue
        if x[0] == 'v':
            lo, hi = Lin.of(x[2]), Lin.of(x[3])
            d = hi.add(lo.scale(-1))
            if d.const() == 0:
                continue
            if lo.const() == 0 and not is_z3_false(hi.add(Lin.of(len_f[s.w](x[1])).scale(-1)).const()):
                out.append(('t', x[1]))
                continue
            if out and out[-1][0] == 'v' and out[-1][1].eq(x[1]) and Lin.of(out[-1][3]).add(lo.scale(-1)).const() == 0:
                out[-1] = ('v', x[1], out[-1][2], x[3])
                continue
        out.append(x)
    return SV(s.w, out)


def is_z3_false(c):
    return c is None or c != 0


def sv_term_of(ex, st, s):
    s = sv_norm(ex, st, s)
    w = s.w
    t = nil_c[w]
    for k, x in enumerate(s.p):
        if x[0] == 'c':
            t = snoc_f[w](t, bv(x[1], 8 * w))
        elif x[0] == 't':
            t = x[1] if k == 0 else cat_f[w](t, x[1])
        else:
            u = sub_f[w](x[1], I(x[2]), I(x[3]))
            t = u if k == 0 else cat_f[w](t, u)
    return t


def sv_eq(ex, st, a, b):
    """Condition for equality (sound, not complete: a missing proof is not a proof of difference)."""
    a, b = sv_norm(ex, st, a), sv_norm(ex, st, b)
    w = a.w
    if a.w != b.w:
        return False
    pa, pb = list(a.p), list(b.p)
    if len(pa) != len(pb):
        # parts the path shows to be empty
        gone = lambda x: x[0] != 'c' and (lambda l: l.const() is None and ex.valid(st, I(l.val()) == z3.BitVecVal(0, 64)))(piece_len(ex, st, w, x))
        pa, pb = [x for x in pa if not gone(x)], [x for x in pb if not gone(x)]
    conds = []
    uneven = len(pa) != len(pb)
    while pa and pb:
        x, y = pa[0], pb[0]
        if {x[0], y[0]} == {'v', 'c'} or (uneven and (len(pa) > 1 or len(pb) > 1) and x[0] == y[0] == 'v' and x[1].eq(y[1])):
            # one of the two views may run on over what follows the other
            if x[0] == 'c':
                pa, pb, x, y = pb, pa, y, x
            if y[0] == 'c' and ex.valid(st, z3.ULT(I(x[2]), I(x[3]))):
                conds.append(ex.mk(at_f[w](x[1], I(x[2])) == bv(y[1], 8 * w)))
                pa[0] = ('v', x[1], I(Lin.of(x[2]).add(Lin(1)).val()), x[3])
                pb.pop(0)
                continue
            if y[0] == 'v' and len(pa) != len(pb) and ex.valid(st, I(x[2]) == I(y[2])):
                if len(pa) > len(pb):
                    pa, pb, x, y = pb, pa, y, x
                # pa has fewer pieces: its view is the longer one
                if ex.valid(st, z3.ULE(I(y[3]), I(x[3]))):
                    pa[0] = ('v', x[1], y[3], x[3])
                    pb.pop(0)
                    continue
        if x[0] == 'c' and y[0] == 'c':
            conds.append(ex.mk(bv(x[1], 8 * w) == bv(y[1], 8 * w)))
        elif x[0] == 't' and y[0] == 't':
            if not x[1].eq(y[1]):
                conds.append(x[1] == y[1])
        elif x[0] == 'v' and y[0] == 'v' and x[1].eq(y[1]):
            if not (Lin.of(x[2]).key() == Lin.of(y[2]).key() and Lin.of(x[3]).key() == Lin.of(y[3]).key()):
                conds.append(z3.Or(z3.And(I(x[2]) == I(y[2]), I(x[3]) == I(y[3])),
                                   z3.And(I(x[2]) == I(x[3]), I(y[2]) == I(y[3]))))
        elif {x[0], y[0]} == {'t', 'v'} and x[1].eq(y[1]):
            v = x if x[0] == 'v' else y
            ex.len_axiom(st, w, x[1])
            conds.append(z3.And(I(v[2]) == 0, I(v[3]) == len_f[w](x[1])))
        else:
            break
        pa.pop(0)
        pb.pop(0)
    if pa or pb:
        if not pa or not pb:
            # the rest must be empty
            for x in pa + pb:
                if x[0] == 'c':
                    return False
                conds.append(ex.mk(piece_len(ex, st, w, x).val() == z3.BitVecVal(0, 64)) if piece_len(ex, st, w, x).const() is None
                             else piece_len(ex, st, w, x).const() == 0)
        else:
            ta, tb = sv_term_of(ex, st, SV(w, pa)), sv_term_of(ex, st, SV(w, pb))
            both = [ex.mk(piece_sum(ex, st, w, q)) for q in (pa, pb)]
            conds.append(z3.Or(ta == tb, z3.And(*[q if is_z3(q) else z3.BoolVal(bool(q)) for q in both])))
    return b_and(*conds)


def piece_sum(ex, st, w, ps):
    """Condition: all these pieces are empty."""
    cs = []
    for x in ps:
        if x[0] == 'c':
            return z3.BoolVal(False)
        l = piece_len(ex, st, w, x)
        cs.append(z3.BoolVal(l.const() == 0) if l.const() is not None else l.val() == z3.BitVecVal(0, 64))
    return z3.And(*cs)


class BufInfo:
    """A buffer handed in by the caller: NUL-terminated (N = index of the NUL) or of a given length."""

    def __init__(self, name, w, mode, term, N, nonul=False):
        self.name, self.w, self.mode, self.term, self.N = name, w, mode, term, N
        self.lim = None         # last index that may be read, if it is not N
        self.src = Src('buf', w, term, N, name, mode, nonul)


class Src:
    """What a specification reads from."""

    def __init__(self, kind, w, term, N, name, mode='nul', nonul=False):
        self.kind, self.w, self.term, self.N, self.name = kind, w, term, N, name
        self.mode, self.nonul = mode, nonul

    def get(self, ex, st, idx):
        if self.kind == 'buf':
            v = mem_f[self.w](self.term, idx)
            ex.buf_lemma(st, self, idx, v)
        else:
            v = at_f[self.w](self.term, idx)
            ex.str_lemma(st, self.w, self.term, idx, v)
        return v


class StrExec(Exec):
    # ---------------------------------------------------------- axioms (instances)
    def len_axiom(self, st, w, t):
        k = ('len', t.get_id())
        if k in st.ax:
            return
        st.ax.add(k)
        l = len_f[w](t)
        st.assume(z3.And(z3.ULE(l, MAXLEN), (l == 0) == (t == nil_c[w]), z3.ULE(nul_f[w](t), l)))
        if self.nonul(t):
            st.assume(nul_f[w](t) == l)
        if t.decl().name().startswith('sub'):
            a, lo, hi = t.arg(0), t.arg(1), t.arg(2)
            self.len_axiom(st, w, a)
            st.assume(z3.Implies(z3.And(z3.ULE(lo, hi), z3.ULE(hi, len_f[w](a))), l == hi - lo))
            st.assume(z3.Implies(z3.And(lo == 0, hi == len_f[w](a)), t == a))

    def nonul(self, t):
        """Terms known to hold no NUL: results of conversions (a lemma over their specifications)."""
        n = t.decl().name()
        if n.startswith('sub'):
            return self.nonul(t.arg(0))
        return n.startswith('F_') or n.startswith('strOf') or n.startswith('nnl')

    def buf_lemma(self, st, b, idx, v):
        k = ('mem', v.get_id())
        if k in st.ax:
            return
        st.ax.add(k)
        if b.mode == 'nul' or b.nonul:
            st.assume(z3.Implies(z3.ULT(idx, b.N), v != 0))
        if b.mode == 'nul':
            st.assume(z3.Implies(idx == b.N, v == 0))

    def str_lemma(self, st, w, t, idx, v):
        self.len_axiom(st, w, t)
        k = ('at', v.get_id())
        if k in st.ax:
            return
        st.ax.add(k)
        n = nul_f[w](t)
        st.assume(z3.Implies(z3.ULT(idx, n), v != 0))
        # the terminator reads as NUL
        st.assume(z3.Implies(idx == n, v == 0))
        st.assume(z3.Implies(idx == len_f[w](t), v == 0))
        for (ft, c, fr, r) in st.finds:
            if ft.eq(t):
                st.assume(z3.Implies(z3.And(z3.UGE(idx, fr), z3.ULT(idx, r), z3.ULT(idx, len_f[w](t))), v != c))
        for (ft, fr, to, fn) in st.setfinds:
            if ft.eq(t):
                st.assume(z3.Implies(z3.And(z3.UGE(idx, fr), z3.ULT(idx, to)), fn(self, st, v)))
        for h in self.axiom_hooks:
            h(self, st, w, t, idx, v)

    def concrete_args(self, m):
        """The arguments in a model, as the concrete harness takes them (None: not expressible)."""
        out = []
        for a in getattr(self, 'argspec', []):
            if a[0] == 'null':
                out.append('null')
            elif a[0] == 'num':
                v = a[1] if isinstance(a[1], int) else m.eval(a[1], model_completion=True).as_long()
                out.append(str(v))
            elif a[0] == 'pred':
                out.append('?' if a[1] else '-')
            elif a[0] in ('buf', 'strb'):
                n = m.eval(I(a[3]), model_completion=True).as_long()
                if n > 4096:
                    return None
                out.append('b' + ','.join('%x' % (m.eval(mem_f[a[1]](a[2], z3.BitVecVal(k, 64)), model_completion=True).as_long() or (1 if len(a) < 5 or a[4] == 'nul' else 0)) for k in range(n)))
            elif a[0] == 'str':
                n = m.eval(len_f[a[1]](a[2]), model_completion=True).as_long()
                if n > 300000:
                    return None
                if n > 200:
                    out.append(self.long_string(m, a, n))
                    continue
                out.append('b' + ','.join('%x' % m.eval(at_f[a[1]](a[2], z3.BitVecVal(k, 64)), model_completion=True).as_long() for k in range(n)))
            elif a[0] == 'vec':
                n = m.eval(vlen_f[a[1]](a[2]), model_completion=True).as_long()
                if n > 64:
                    return None
                es = []
                for k in range(n):
                    e = velem_f[a[1]](a[2], z3.BitVecVal(k, 64))
                    l = m.eval(len_f[a[1]](e), model_completion=True).as_long()
                    es.append(','.join('%x' % m.eval(at_f[a[1]](e, z3.BitVecVal(j, 64)), model_completion=True).as_long() for j in range(min(l, 8))))
                out.append('v' + ''.join(';' + e for e in es))
            else:
                return None
        return out

    def long_string(self, m, a, n):
        """A string of which the model fixes few places."""
        t = m.eval(a[2], model_completion=True)
        known = {}
        fi = m[at_f[a[1]]]
        if fi is not None:
            for k in range(fi.num_entries()):
                e = fi.entry(k)
                if e.arg_value(0).eq(t):
                    known[e.arg_value(1).as_long()] = e.value().as_long()
        for (idx, v) in getattr(self, 'places', []):
            i = m.eval(idx, model_completion=True).as_long()
            if i < n:
                known[i] = m.eval(v, model_completion=True).as_long()
        fill = next(c for c in range(0x61, 0x7f) if c not in known.values())
        for k in range(n):
            if k not in known:
                known[k] = fill
        return 'b' + ','.join('%x' % known[k] for k in range(n))

    # ---------------------------------------------------------- buffer objects
    def load_buf(self, st, ty, p, o):
        b = o.info
        size = self.mod.size(ty)
        if size != b.w:
            raise Unsupported('access of %d bytes in a buffer of %d-byte elements' % (size, b.w))
        q = p.off.div(b.w)
        if q is None:
            raise Unsupported('misaligned access')
        q = self.canon(st, q)
        idx = I(q.val())
        if b.mode == 'nul':
            lim = b.N if b.lim is None else b.lim
            self.oblige(st, z3.ULE(idx, lim), self.oname(st, 'nothing after the terminator of %s is read' % b.name), 'safety')
        else:
            self.oblige(st, z3.ULT(idx, b.N), self.oname(st, 'only the given elements of %s are read' % b.name), 'safety')
        v = mem_f[b.w](b.term, idx)
        self.buf_lemma(st, b.src, idx, v)
        st.reads.append((b.name, idx, v))
        st.nbuf += 1
        return v

    def load_sdata(self, st, ty, p, o):
        ok, off, w = o.info
        size = self.mod.size(ty)
        if size != w:
            raise Unsupported('access of %d bytes in a string of %d-byte elements' % (size, w))
        s = self.get_sv(st, ok, off)
        if s is None:
            self.fail(st, self.oname(st, 'string is alive when read'), 'safety', 'string data used after the string is gone')
            st.assume(False)
            return UNDEF
        q = p.off.div(w)
        if q is None:
            raise Unsupported('misaligned access')
        return self.sv_at(st, s, self.canon(st, q))

    def store_sdata(self, st, ty, v, p, o):
        ok, off, w = o.info
        s = self.get_sv(st, ok, off)
        if s is None or self.mod.size(ty) != w:
            raise Unsupported('store into string data')
        q = self.canon(st, p.off.div(w))
        pos = Lin()
        out = []
        done = False
        for x in s.p:
            l = piece_len(self, st, w, x)
            if not done:
                d = q.add(pos.scale(-1))
                e, le = I(d.val()), I(l.val())
                if (d.const() is not None and l.const() is not None and 0 <= d.const() < l.const()) or \
                        ((d.const() is None or l.const() is None) and self.valid(st, z3.ULT(e, le))):
                    if x[0] == 'c':
                        out.append(('c', v))
                    else:
                        lo, hi = (Lin(0), Lin.of(len_f[w](x[1]))) if x[0] == 't' else (Lin.of(x[2]), Lin.of(x[3]))
                        mid = lo.add(d)
                        out += [('v', x[1], lo.val(), mid.val()), ('c', v), ('v', x[1], mid.add(Lin(1)).val(), hi.val())]
                    done = True
                    pos = pos.add(l)
                    continue
            out.append(x)
            pos = pos.add(l)
        if not done:
            raise Unsupported('store into string data at an unknown place')
        self.set_sv(st, ok, off, sv_norm(self, st, SV(w, out)))
        return None

    def load_vdata(self, st, ty, p, o):
        raise Unsupported('raw read of vector elements')

    def load_opaque(self, st, ty, p, o):
        raise Unsupported('read of an opaque object')

    def sv_at(self, st, s, q, check=True):
        """Element q (a Lin) of a string; index == length gives NUL."""
        w = s.w
        total = sv_len(self, st, s)
        if check:
            self.oblige(st, self.mk(z3.ULE(I(q.val()), I(total.val()))), self.oname(st, 'string index in bounds'), 'safety')
        st.nbuf += 1
        pos = Lin()
        for x in s.p:
            l = piece_len(self, st, w, x)
            d = q.add(pos.scale(-1))
            e, le = I(d.val()), I(l.val())
            last = x is s.p[-1]
            inside = None
            if d.const() is not None and l.const() is not None:
                inside = 0 <= d.const() < l.const()
            elif self.valid(st, z3.ULT(e, le)):
                inside = True
            if inside:
                return self.piece_at(st, w, x, d)
            if inside is None:
                if last:
                    if self.valid(st, e == le):
                        if x[0] == 't':
                            self.piece_at(st, w, x, d)
                        return 0
                    if self.valid(st, z3.ULE(e, le)):
                        if x[0] == 't':
                            return self.piece_at(st, w, x, d)
                        v = self.piece_at(st, w, x, d)
                        return self.mk(z3.If(e == le, z3.BitVecVal(0, 8 * w), bv(v, 8 * w)))
                    raise Unsupported('string element at an unknown place')
                if not self.valid(st, z3.UGE(e, le)):
                    raise Unsupported('string element at an unknown place')
            pos = pos.add(l)
        return 0

    def piece_at(self, st, w, x, d):
        if x[0] == 'c':
            return x[1]
        idx = d if x[0] == 't' else d.add(Lin.of(x[2]))
        e = I(idx.val())
        v = at_f[w](x[1], e)
        self.str_lemma(st, w, x[1], e, v)
        st.reads.append((str(x[1]), e, v))
        return v

    # ---------------------------------------------------------- abstract cells
    def get_sv(self, st, obj, off):
        o = st.mem.get(obj)
        if o is None:
            return None
        if o.kind == 'vdata':
            return None
        return o.cells.get((off, 'str'))

    def set_sv(self, st, obj, off, s):
        st.wobj(obj).cells[(off, 'str')] = s

    def loc(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported('library object at %r' % (p,))
        c = p.off.const()
        if c is None:
            raise Unsupported('library object at a symbolic offset')
        return p.obj, c

    def rd_str(self, st, p, w):
        """Value of the string object p points to."""
        o = st.mem.get(p.obj) if isinstance(p, Ptr) and p.obj is not None else None
        if o is not None and o.kind == 'vdata':
            return self.vec_elem(st, p, w)
        ob, c = self.loc(st, p)
        s = self.get_sv(st, ob, c)
        if s is None:
            self.fail(st, self.oname(st, 'string object is alive'), 'safety', 'use of a string that is not constructed')
            st.assume(False)
            return SV(w)
        if s.w != w:
            raise Unsupported('string of another character type')
        return s

    def wr_str(self, st, p, s):
        o = st.mem.get(p.obj)
        if o is not None and o.kind == 'vdata':
            return self.vec_set(st, p, s)
        ob, c = self.loc(st, p)
        o = st.mem.get(ob)
        if o is None:
            raise Unsupported('write to dead object')
        if o.ro or o.kind == 'glob':
            self.fail(st, self.oname(st, 'only its own objects are written'), 'frame' if o.kind == 'glob' or is_static(ob) else 'frame-in', 'string %s is changed' % ob)
            st.assume(False)
            return
        self.framed(st)
        if o.info and o.info[0] == 'cstr':
            st.wobj(ob).info = None     # its characters are no longer the caller's
        self.set_sv(st, ob, c, s)

    def data_ptr(self, st, p, w, cstr=False):
        """Pointer to the characters of the string object at p."""
        o = st.mem.get(p.obj)
        if o is not None and o.kind == 'vdata':
            raise Unsupported('characters of a vector element')
        ob, c = self.loc(st, p)
        if self.get_sv(st, ob, c) is None:
            self.fail(st, self.oname(st, 'string object is alive'), 'safety', 'use of a string that is not constructed')
            st.assume(False)
        k = ('sdata', ob, c)
        if cstr and st.mem[ob].info and st.mem[ob].info[0] == 'cstr':
            return Ptr(st.mem[ob].info[1])
        if k not in st.mem:
            st.mem[k] = MObj('sdata', info=(ob, c, w), ro=False)
        return Ptr(k)

    def buf_term(self, st, p, w):
        """z3 term for the NUL-terminated characters p points to (None for a null pointer)."""
        if p.obj is None:
            return None
        if p.off.const() != 0:
            raise Unsupported('pointer into the middle of a string handed to a function')
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('pointer to a dead object')
        if o.kind == 'buf':
            if o.info.w != w or o.info.mode != 'nul':
                raise Unsupported('buffer of another kind')
            return o.info.term
        if o.kind == 'sdata':
            ob, c, w2 = o.info
            s = self.get_sv(st, ob, c)
            if s is None:
                self.fail(st, self.oname(st, 'string is alive when read'), 'safety', 'string data used after the string is gone')
                st.assume(False)
                return cstr_f[w](nil_c[w])
            if w2 != w:
                raise Unsupported('string of another character type')
            t = sv_term_of(self, st, s)
            self.len_axiom(st, w, t)
            return cstr_f[w](t)
        if o.kind == 'glob':
            vals = self.glob_chars(st, p, w)
            return cstr_f[w](sv_term_of(self, st, sv_lit(w, vals)))
        raise Unsupported('characters of ' + o.kind)

    def glob_chars(self, st, p, w):
        vals = []
        k = 0
        ty = ('i', 8 * w)
        while True:
            v = self.load(st, ty, p.plus(Lin(k * w)))
            if not isinstance(v, int):
                raise Unsupported('literal')
            if v == 0:
                return vals
            vals.append(v)
            k += 1

    def chars_of(self, st, p, w, n=None):
        """SV for the n characters at p (n None: up to the NUL)."""
        o = st.mem.get(p.obj) if p.obj is not None else None
        if o is None:
            raise Unsupported('characters at null')
        if o.kind == 'glob' and n is None:
            return sv_lit(w, self.glob_chars(st, p, w))
        if n is None:
            if o.kind == 'buf' and p.off.const() == 0 and o.info.mode == 'nul':
                t = strof_f[w](o.info.term)
                self.len_axiom(st, w, t)
                st.assume(len_f[w](t) == I(o.info.N))
                st.nbuf += 1
                st.assume(len_f[w](t) == o.info.N)
                n = o.info.N.as_long() if z3.is_bv_value(o.info.N) else 99
                if n <= 16:
                    st.assume(t == sv_term_of(self, st, SV(w, [('c', o.info.src.get(self, st, z3.BitVecVal(i, 64))) for i in range(n)])))
                return SV(w, (('t', t),))
            if o.kind == 'sdata' and p.off.const() == 0:
                s = self.get_sv(st, o.info[0], o.info[1])
                if s is None:
                    raise Unsupported('dead string')
                if all(x[0] in 'tv' and self.nonul(x[1]) or x[0] == 'c' and self.valid(st, bv(x[1], 8 * w) != 0) for x in s.p):
                    return s
                t = strof_f[w](cstr_f[w](sv_term_of(self, st, s)))
                self.len_axiom(st, w, t)
                return SV(w, (('t', t),))
            if o.kind == 'mem':
                out = []
                for k in range(64):
                    v = self.load(st, ('i', 8 * w), p.plus(Lin(k * w)))
                    if isinstance(v, int) and v == 0:
                        return SV(w, out)
                    if not isinstance(v, int) and not self.valid(st, v != 0):
                        raise Unsupported('local characters of unknown length')
                    out.append(('c', v))
            raise Unsupported('characters of ' + o.kind)
        if isinstance(n, int) and n <= 64:
            out = []
            for k in range(n):
                v = self.load(st, ('i', 8 * w), p.plus(Lin(k * w)))
                if isinstance(v, list):
                    raise Unsupported('forking load')
                out.append(('c', v))
            return SV(w, out)
        nl = Lin.of(n)
        if o.kind == 'sdata':
            s = self.get_sv(st, o.info[0], o.info[1])
            q = p.off.div(w)
            return self.sv_sub(st, s, q, q.add(nl))
        if o.kind == 'buf' and p.off.const() == 0 and o.info.mode == 'nul' and self.valid(st, I(n) == o.info.N):
            return self.chars_of(st, p, w)
        if o.kind == 'mem':
            # small symbolic count: decided by the caller through forking
            raise ForkCount(n)
        raise Unsupported('counted characters of ' + o.kind)

    def sv_sub(self, st, s, lo, hi):
        """Characters [lo,hi) of s (bounds known to be fine)."""
        s = sv_norm(self, st, s)
        total = sv_len(self, st, s)
        if lo.const() == 0 and hi.add(total.scale(-1)).const() == 0:
            return s
        out = []
        pos = Lin()
        if all(x[0] == 'c' for x in s.p) and lo.const() is not None and hi.const() is not None:
            return SV(s.w, s.p[lo.const():hi.const()])
        if len(s.p) == 1 and s.p[0][0] in 'tv':
            x = s.p[0]
            base = Lin(0) if x[0] == 't' else Lin.of(x[2])
            return SV(s.w, (('v', x[1], base.add(lo).val(), base.add(hi).val()),))
        if not s.p:
            return SV(s.w)
        for x in s.p:
            l = piece_len(self, st, s.w, x)
            end = pos.add(l)
            a = I(pos.val())
            b = I(end.val())
            # piece before, inside or after?
            if self.valid(st, z3.Or(z3.ULE(b, I(lo.val())), z3.UGE(a, I(hi.val())))):
                pos = end
                continue
            if self.valid(st, z3.And(z3.UGE(a, I(lo.val())), z3.ULE(b, I(hi.val())))):
                out.append(x)
                pos = end
                continue
            if x[0] == 'c':
                raise Unsupported('substring boundary')
            if self.valid(st, z3.And(z3.ULE(a, I(lo.val())), z3.UGE(b, I(hi.val())))):
                p1, p2 = lo, hi
            elif self.valid(st, z3.And(z3.ULE(a, I(lo.val())), z3.ULE(b, I(hi.val())))):
                p1, p2 = lo, end
            elif self.valid(st, z3.And(z3.UGE(a, I(lo.val())), z3.UGE(b, I(hi.val())))):
                p1, p2 = pos, hi
            else:
                raise Unsupported('substring boundary')
            base = (Lin(0) if x[0] == 't' else Lin.of(x[2])).add(pos.scale(-1))
            out.append(('v', x[1], base.add(p1).val(), base.add(p2).val()))
            pos = end
        return sv_norm(self, st, SV(s.w, out))

    # ---------------------------------------------------------- vectors: overridden by the split/join goals
    def vec_elem(self, st, p, w):
        o = st.mem[p.obj]
        return o.info.elem(self, st, p, w)

    def vec_set(self, st, p, s):
        o = st.mem[p.obj]
        return o.info.set(self, st, p, s)


class ForkCount(Exception):
    def __init__(self, n):
        self.n = n


def fork_bool(ex, st, c):
    """[(state, bool)] for a condition."""
    if isinstance(c, (bool, int)):
        return [(st, bool(c))]
    out = []
    if ex.feasible(st, c):
        s = st.fork()
        s.assume(c)
        out.append((s, True))
    if ex.feasible(st, z3.Not(c)):
        s = st.fork()
        s.assume(z3.Not(c))
        out.append((s, False))
    return out
