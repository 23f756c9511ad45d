"""Abstract vectors and lists, and the (trusted) contracts of std::vector and std::list members.

A sequence is a concatenation of single elements, parts of a named sequence of the specification (the
argument of join, the pieces or the breaks of split), and repetitions of one value."""
import re
from strlib import *
from core import *


def nn(x):
    """int or z3 term of a Lin."""
    return x.val() if isinstance(x, Lin) else x


class Seq:
    """kind: width of the characters for sequences of strings, 0 for sequences of 64-bit numbers."""
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs=()):
        self.kind, self.segs = kind, tuple(segs)

    @property
    def esz(self):
        return 32 if self.kind else 8

    def known(self):
        if any(s[0] == 'u' for s in self.segs):
            raise Unsupported('sequence of unknown content')

    def seglen(self, s):
        if s[0] == 'e':
            return Lin(1)
        if s[0] == 'p':
            return Lin.of(s[3]).add(Lin.of(s[2]).scale(-1))
        if s[0] == 'r':
            return Lin.of(s[2])
        raise Unsupported('sequence of unknown content')

    def length(self):
        r = Lin()
        for s in self.segs:
            r = r.add(self.seglen(s))
        return r

    def zero(self):
        return SV(self.kind) if self.kind else 0

    def push(self, v):
        self.known()
        return Seq(self.kind, self.segs + (('e', v),))

    def at(self, ex, st, idx):
        """Element at a place shown to be within the sequence."""
        pos = Lin()
        for s in self.segs:
            l = self.seglen(s)
            k = where(ex, st, idx, pos, l)
            if k is not None:
                if s[0] == 'e':
                    return s[1]
                if s[0] == 'p':
                    return s[1].at(ex, st, nn(Lin.of(s[2]).add(k)))
                return s[1]
            pos = pos.add(l)
        raise Unsupported('element at an unknown place of a sequence')

    def put(self, ex, st, idx, v):
        pos = Lin()
        for n, s in enumerate(self.segs):
            l = self.seglen(s)
            k = where(ex, st, idx, pos, l)
            if k is not None:
                if s[0] == 'e':
                    new = [('e', v)]
                elif s[0] == 'p':
                    mid = Lin.of(s[2]).add(k)
                    new = [('p', s[1], s[2], nn(mid)), ('e', v), ('p', s[1], nn(mid.add(Lin(1))), s[3])]
                else:
                    new = [('r', s[1], nn(k)), ('e', v), ('r', s[1], nn(l.add(k.scale(-1)).add(Lin(-1))))]
                new = [x for x in new if self.seglen(x).const() != 0]
                return Seq(self.kind, self.segs[:n] + tuple(new) + self.segs[n + 1:])
            pos = pos.add(l)
        raise Unsupported('element at an unknown place of a sequence')

    def head(self, ex, st, n):
        """The first n elements."""
        if n.const() == 0:
            return Seq(self.kind)
        if n.add(self.length().scale(-1)).const() == 0:
            return self
        d = self.length().add(n.scale(-1)).const()
        segs = list(self.segs)
        while d and d > 0 and segs:
            s = segs.pop()
            if s[0] == 'e':
                d -= 1
            elif s[0] == 'p':
                segs.append(('p', s[1], s[2], nn(Lin.of(s[3]).add(Lin(-d)))))
                if not ex.valid(st, z3.UGE(I(nn(self.seglen(s))), d)):
                    raise Unsupported('part of a sequence')
                d = 0
            else:
                if not ex.valid(st, z3.UGE(I(nn(self.seglen(s))), d)):
                    raise Unsupported('part of a sequence')
                segs.append(('r', s[1], nn(Lin.of(s[2]).add(Lin(-d)))))
                d = 0
        if d:
            raise Unsupported('part of a sequence')
        if d is None:
            raise Unsupported('part of a sequence')
        return Seq(self.kind, segs)

    def havoc(self, ex, st):
        return Seq(self.kind, (('u',),))

    def eqcond(self, ex, st, o):
        if not isinstance(o, Seq) or self.kind != o.kind:
            return False
        if any(s[0] == 'u' for s in self.segs + o.segs):
            return False
        a, b = drop(ex, st, self), drop(ex, st, o)
        cs = []
        while a and b:
            x, y = a[0], b[0]
            if y[0] == 'e' or (x[0] == 'r' and y[0] == 'p'):
                a, b, x, y = b, a, y, x
            if x[0] == 'e':
                if y[0] == 'e':
                    cs.append(eq1(ex, st, self.kind, x[1], y[1]))
                    b = b[1:]
                elif y[0] == 'p':
                    if Lin.of(y[3]).add(Lin.of(y[2]).scale(-1)).const() != 1:
                        cs.append(ex.mk(z3.ULT(I(y[2]), I(y[3]))))
                    cs.append(eq1(ex, st, self.kind, x[1], y[1].at(ex, st, y[2])))
                    b = shrink(ex, st, ('p', y[1], nn(Lin.of(y[2]).add(Lin(1))), y[3]), b[1:], self)
                else:
                    if Lin.of(y[2]).const() is None:
                        cs.append(I(y[2]) != 0)
                    cs.append(eq1(ex, st, self.kind, x[1], y[1]))
                    b = shrink(ex, st, ('r', y[1], nn(Lin.of(y[2]).add(Lin(-1)))), b[1:], self)
                a = a[1:]
            elif x[0] == 'p' and y[0] == 'p' and x[1].same(y[1]):
                if Lin.of(x[2]).key() != Lin.of(y[2]).key():
                    cs.append(ex.mk(I(x[2]) == I(y[2])))
                d = Lin.of(x[3]).add(Lin.of(y[3]).scale(-1))
                if d.const() == 0 or len(a) == 1 and len(b) == 1 or ex.valid(st, I(x[3]) == I(y[3])):
                    if d.const() != 0:
                        cs.append(ex.mk(I(x[3]) == I(y[3])))
                    a, b = a[1:], b[1:]
                elif ex.valid(st, z3.UGT(I(x[3]), I(y[3]))):
                    a, b = [('p', x[1], y[3], x[3])] + a[1:], b[1:]
                elif ex.valid(st, z3.ULT(I(x[3]), I(y[3]))):
                    a, b = a[1:], [('p', y[1], x[3], y[3])] + b[1:]
                else:
                    return False
            elif x[0] == 'r' and y[0] == 'r':
                cs.append(eq1(ex, st, self.kind, x[1], y[1]))
                if len(a) == 1 and len(b) == 1 or ex.valid(st, I(x[2]) == I(y[2])):
                    cs.append(ex.mk(I(x[2]) == I(y[2])) if Lin.of(x[2]).key() != Lin.of(y[2]).key() else True)
                    a, b = a[1:], b[1:]
                else:
                    return False
            else:
                return False
        for s in a + b:
            l = self.seglen(s)
            cs.append(l.const() == 0 if l.const() is not None else ex.mk(I(nn(l)) == 0))
        return b_and(*cs)

    def __repr__(self):
        return 'Seq%d%s' % (self.kind * 8, [(s[0],) + tuple(str(x) for x in s[1:]) for s in self.segs])


def merged(ex, st, q):
    """The same sequence, an element that is the next of the named sequence before it taken as part of that."""
    out = []
    for s in q.segs:
        if s[0] == 'e' and out and out[-1][0] == 'p':
            p = out[-1]
            c = eq1(ex, st, q.kind, s[1], p[1].at(ex, st, p[3]))
            if c is True or (c is not False and ex.valid(st, c)):
                out[-1] = ('p', p[1], p[2], nn(Lin.of(p[3]).add(Lin(1))))
                continue
        out.append(s)
    return Seq(q.kind, out)


def shrink(ex, st, seg, rest, q):
    l = q.seglen(seg)
    if l.const() == 0 or (l.const() is None and ex.valid(st, I(nn(l)) == 0)):
        return list(rest)
    return [seg] + list(rest)


def drop(ex, st, q):
    out = []
    for s in q.segs:
        l = q.seglen(s)
        if l.const() == 0 or (l.const() is None and ex.valid(st, I(nn(l)) == 0)):
            continue
        if out and s[0] == 'p' and out[-1][0] == 'p' and out[-1][1].same(s[1]) and Lin.of(out[-1][3]).key() == Lin.of(s[2]).key():
            out[-1] = ('p', s[1], out[-1][2], s[3])
            continue
        if s[0] == 'r' and l.const() is not None and l.const() <= 4:
            out += [('e', s[1])] * l.const()
            continue
        out.append(s)
    return out


def eq1(ex, st, kind, a, b):
    if kind:
        return sv_eq(ex, st, a, b)
    c = ex.mk(bv(a, 64) == bv(b, 64)) if is_z3(a) or is_z3(b) else a == b
    return c


def where(ex, st, idx, pos, l):
    """Place within a segment of length l that starts at pos, or None; fails when it cannot be told."""
    d = idx.add(pos.scale(-1))
    if d.const() is not None and l.const() is not None:
        return d if 0 <= d.const() < l.const() else None
    e, le = I(nn(d)), I(nn(l))
    if ex.valid(st, z3.ULT(e, le)):
        # prefer a plain distance where the path knows it
        if d.const() is None and ex.valid(st, e == 0):
            return Lin(0)
        return d
    if ex.valid(st, z3.UGE(I(nn(idx)), I(nn(pos.add(l))))):
        return None
    raise Unsupported('element at an unknown place of a sequence')


# ------------------------------------------------------------------ objects

def seq_of(ex, st, p):
    ob, c = ex.loc(st, p)
    q = st.mem[ob].cells.get((c, 'seq')) if ob in st.mem and st.mem[ob].kind == 'mem' else None
    if q is None:
        ex.fail(st, ex.oname(st, 'sequence object is alive'), 'safety', 'use of a vector or list that is not constructed')
        st.assume(False)
        return None
    return q


def set_seq(ex, st, p, q, keep=False):
    ob, c = ex.loc(st, p)
    o = st.mem.get(ob)
    if o is None:
        raise Unsupported('write to dead object')
    if o.ro or o.kind == 'glob':
        ex.fail(st, ex.oname(st, 'only its own objects are written'), 'frame' if o.kind == 'glob' or is_static(ob) else 'frame-in', '%s is changed' % (ob,))
        st.assume(False)
        return
    ex.framed(st)
    cells = st.wobj(ob).cells
    for k in [k for k in cells if isinstance(k, int) and c <= k < c + 24]:
        del cells[k]
    cells[(c, 'seq')] = q
    if not keep and ('vdata', ob, c) in st.mem:
        del st.mem[('vdata', ob, c)]        # what pointed there is no longer good


def data_of(ex, st, p):
    ob, c = ex.loc(st, p)
    q = seq_of(ex, st, p)
    if q is None:
        return None
    k = ('vdata', ob, c)
    if k not in st.mem:
        st.mem[k] = MObj('vdata', info=(ob, c, q.esz), ro=False)
    return k


def node_of(ex, st, p):
    ob, c = ex.loc(st, p)
    seq_of(ex, st, p)
    k = ('lnode', ob, c)
    if k not in st.mem:
        st.mem[k] = MObj('lnode', info=(ob, c, 1), ro=False)
    return k


def place(ex, st, p, esz):
    q = p.off.div(esz)
    if q is None:
        raise Unsupported('misaligned element')
    return ex.canon(st, q)


def inside(ex, st, idx, q):
    n = q.length()
    d = n.add(idx.scale(-1)).const()
    ex.oblige(st, True if d is not None and d > 0 and idx.const() is not None else ex.mk(z3.ULT(I(nn(idx)), I(nn(n)))),
              ex.oname(st, 'element index in bounds'), 'safety')


def vget(ex, st, p):
    ob, c, esz = st.mem[p.obj].info
    q = seq_of(ex, st, Ptr(ob, Lin(c)))
    idx = place(ex, st, p, esz)
    q.known()
    inside(ex, st, idx, q)
    st.nbuf += 1
    return q.at(ex, st, idx)


def vput(ex, st, p, v):
    ob, c, esz = st.mem[p.obj].info
    q = seq_of(ex, st, Ptr(ob, Lin(c)))
    idx = place(ex, st, p, esz)
    q.known()
    inside(ex, st, idx, q)
    st.nbuf += 1
    set_seq(ex, st, Ptr(ob, Lin(c)), merged(ex, st, q.put(ex, st, idx, v)), keep=True)


def vec_elem(self, st, p, w):
    v = vget(self, st, p)
    if not isinstance(v, SV) or v.w != w:
        raise Unsupported('element of another kind')
    return v


def vec_set(self, st, p, s):
    vput(self, st, p, s)


def load_vdata(self, st, ty, p, o):
    if o.info[2] != 8 or self.mod.size(ty) != 8:
        raise Unsupported('raw read of sequence elements')
    return vget(self, st, p)


def store_vdata(self, st, ty, v, p, o):
    if o.info[2] != 8 or self.mod.size(ty) != 8:
        raise Unsupported('raw write of sequence elements')
    vput(self, st, p, v)


StrExec.vec_elem, StrExec.vec_set, StrExec.load_vdata, StrExec.store_vdata = vec_elem, vec_set, load_vdata, store_vdata

# ------------------------------------------------------------------ members

ELEM = r'(std::(?:string|u16string|u32string|wstring)|unsigned long|long)'
VRE = re.compile(r'^(?:.*? )?std::(vector|__cxx11::list|list)<' + ELEM + r', std::allocator<\2>>::(~?\w+|operator\S+?)(?:<[^()]*>)?\((.*)\)( const)?$')
LRE = re.compile(r'^std::_List_(?:const_)?iterator<' + ELEM + r'>::(operator\S+?)\((int)?\)( const)?$')


def library(ex, dem, name):
    if 'std::vector<' not in dem and 'list<' not in dem and '_List_' not in dem:
        return None
    m = LRE.match(dem)
    if m:
        return lambda ex, st, i, args, dem: list_iter(ex, st, m, [v for _, v in args])
    m = VRE.match(dem)
    if not m:
        return None
    cls = 'list' if m.group(1).endswith('list') else 'vector'
    kind = WID.get(m.group(2), 0)
    meth, sig = m.group(3), m.group(4)

    def run(ex, st, i, args, dem):
        ex.used_contracts[dem] = 'library'
        return member(ex, st, i, cls, kind, meth, sig, [v for _, v in args], dem)
    return run


def list_iter(ex, st, m, A):
    op, post = m.group(2), m.group(3)
    it = ex.load(st, 'ptr', A[0])
    if not isinstance(it, Ptr) or it.obj is None or it.obj[0] != 'lnode' or it.obj not in st.mem:
        raise Unsupported('list iterator')
    ob, c, _ = st.mem[it.obj].info
    q = seq_of(ex, st, Ptr(ob, Lin(c)))
    if op in ('operator*', 'operator->'):
        k = data_of(ex, st, Ptr(ob, Lin(c)))
        inside(ex, st, ex.canon(st, it.off), q)
        return Ptr(k, it.off.scale(q.esz))
    if op in ('operator++', 'operator--'):
        n = it.off.add(Lin(1 if op == 'operator++' else -1))
        ex.oblige(st, ex.mk(z3.ULE(I(nn(n)), I(nn(q.length())))), ex.oname(st, 'list iterator stays within the list'), 'safety')
        ex.store(st, 'ptr', Ptr(it.obj, n), A[0])
        return it if post else A[0]
    raise Unsupported('list iterator ' + op)


def value(ex, st, kind, sig, v):
    """The element an argument of the given type stands for."""
    if kind:
        full = [k for k, x in WID.items() if x == kind]
        if sig.rstrip('&').replace(' const', '') in full:
            s = ex.rd_str(st, v, kind)
            if sig.endswith('&&'):
                ex.wr_str(st, v, SV(kind))
            return s
        raise Unsupported('element given as ' + sig)
    if sig.endswith('&'):
        return ex.load(st, ('i', 64), v)
    return v


NUM = {'unsigned long': 64, 'long': 64, 'unsigned int': 32, 'int': 32, 'char': 8, 'char16_t': 16, 'char32_t': 32, 'wchar_t': 32}


def emplaced(ex, st, i, this, kind, sig, A):
    """emplace_back with the arguments of a string constructor: the constructor's contract, then push_back's."""
    import cxxlib
    full = [k for k, x in WID.items() if x == kind]
    if not full:
        raise Unsupported('emplace_back ' + sig)
    names, args = [], []
    for x, a in zip(sig.split(', '), A[1:]):
        b = re.sub(r'( const)?&+$', '', x)
        if b in full:
            names.append(full[0] + ' const&')
        elif b in NUM:
            a = ex.load(st, ('i', NUM[b]), a)
            if b == 'int':
                a = ex.mk(z3.SignExt(32, bv(a, 32))) if not isinstance(a, int) else a if a < 1 << 31 else a + (((1 << 32) - 1) << 32)
            names.append('unsigned long' if b in ('long', 'int', 'unsigned int') else b)
            if b == 'unsigned int' and not isinstance(a, int):
                a = ex.mk(z3.ZeroExt(32, a))
        elif b.endswith('*'):
            a = ex.load(st, 'ptr', a)
            names.append(b)
        else:
            raise Unsupported('emplace_back ' + sig)
        args.append(a)
    tmp = ('emplaced', ex.nextn())
    st.mem[tmp] = MObj('mem', 32, {})
    r = cxxlib.ctor(ex, st, i, [Ptr(tmp)] + args, ', '.join(names), kind, full[0])
    out = []
    for s, _ in r or [(st, None)]:
        q = seq_of(ex, s, this)
        q.known()
        set_seq(ex, s, this, merged(ex, s, q.push(ex.rd_str(s, Ptr(tmp), kind))))
        s.mem.pop(tmp, None)
        s.nbuf += 1
        out.append((s, Ptr(data_of(ex, s, this), q.length().scale(q.esz)) if i.dst is not None else None))
    if len(out) == 1 and out[0][0] is st:
        return out[0][1]
    return out


def member(ex, st, i, cls, kind, meth, sig, A, dem):
    this = A[0]
    sret = None
    if meth in ('vector', 'list'):
        if sig == '' or re.fullmatch(r'std::allocator<.*> const&', sig):
            set_seq(ex, st, this, Seq(kind))
        elif re.match(r'unsigned long, std::allocator<', sig):
            n = ex.canon(st, Lin.of(A[1]))
            set_seq(ex, st, this, Seq(kind, [('r', Seq(kind).zero(), nn(n))] if n.const() != 0 else []))
        elif re.match(r'unsigned long, .* const&, std::allocator<', sig):
            n = ex.canon(st, Lin.of(A[1]))
            v = ex.rd_str(st, A[2], kind) if kind else ex.load(st, ('i', 64), A[2])
            set_seq(ex, st, this, Seq(kind, [('r', v, nn(n))]))
        elif sig.startswith('std::') and (sig.endswith(' const&') or sig.endswith('&&')) and ', std::allocator<' in sig and sig.count('(') == 0 and A[1].obj is not None and len(A) == 2:
            q = seq_of(ex, st, A[1])
            if q is not None:
                set_seq(ex, st, this, q)
                if sig.endswith('&&'):
                    set_seq(ex, st, A[1], Seq(kind))
        else:
            raise Unsupported(dem)
        return None
    if meth in ('~vector', '~list'):
        ob, c = ex.loc(st, this)
        if ob in st.mem:
            st.wobj(ob).cells.pop((c, 'seq'), None)
            st.mem.pop(('vdata', ob, c), None)
        return None
    q = seq_of(ex, st, this)
    if q is None:
        return ('dead',)
    if meth == 'operator=':
        o = seq_of(ex, st, A[1])
        set_seq(ex, st, this, o)
        if sig.endswith('&&'):
            set_seq(ex, st, A[1], Seq(kind))
        return this
    if meth == 'size':
        return ex.mk(I(nn(q.length()))) if q.length().const() is None else q.length().const()
    if meth == 'empty':
        n = q.length()
        return n.const() == 0 if n.const() is not None else ex.mk(I(nn(n)) == 0)
    if meth in ('push_back', 'emplace_back'):
        if meth == 'emplace_back' and sig == '':
            v = q.zero()
        else:
            if ', ' in sig:
                return emplaced(ex, st, i, this, kind, sig, A)
            v = value(ex, st, kind, sig, A[1])
        q.known()
        set_seq(ex, st, this, merged(ex, st, q.push(v)))
        st.nbuf += 1
        if meth == 'emplace_back' and i.dst is not None:
            return Ptr(data_of(ex, st, this), q.length().scale(q.esz))
        return None
    if meth == 'pop_back':
        n = q.length().add(Lin(-1))
        ex.oblige(st, ex.mk(I(nn(q.length())) != 0) if q.length().const() is None else q.length().const() != 0, ex.oname(st, 'nothing is taken from an empty sequence'), 'safety')
        set_seq(ex, st, this, q.head(ex, st, n))
        return None
    if meth in ('reserve', 'shrink_to_fit'):
        q.known()
        set_seq(ex, st, this, q)
        return None
    if meth == 'clear':
        set_seq(ex, st, this, Seq(kind))
        return None
    if meth == 'swap':
        o = seq_of(ex, st, A[1])
        set_seq(ex, st, this, o)
        set_seq(ex, st, A[1], q)
        return None
    if meth == 'resize':
        n = ex.canon(st, Lin.of(A[1]))
        q.known()
        l = q.length()
        if l.const() == 0:
            set_seq(ex, st, this, Seq(kind, [('r', q.zero(), nn(n))]))
            return None
        d = n.add(l.scale(-1)).const()
        if d is not None and d >= 0:
            set_seq(ex, st, this, Seq(kind, q.segs + (('r', q.zero(), d),)))
            return None
        raise Unsupported(dem)
    if meth in ('operator[]', 'at'):
        idx = ex.canon(st, Lin.of(A[1]))
        q.known()
        inside(ex, st, idx, q)
        return Ptr(data_of(ex, st, this), idx.scale(q.esz))
    if meth in ('front', 'back'):
        idx = Lin(0) if meth == 'front' else q.length().add(Lin(-1))
        q.known()
        inside(ex, st, idx, q)
        return Ptr(data_of(ex, st, this), idx.scale(q.esz))
    if meth in ('begin', 'cbegin', 'end', 'cend'):
        q.known()
        at = Lin(0) if meth.endswith('begin') else q.length()
        if cls == 'vector':
            return Ptr(data_of(ex, st, this), at.scale(q.esz))
        return Ptr(node_of(ex, st, this), at)
    raise Unsupported('library member ' + dem)
