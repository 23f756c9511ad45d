"""Loops cut by inductive invariants.  The invariant is the strongest conjunction of templates that
tie the program variables to the ghost state of the specification (Houdini): the templates are only
guesses, what is kept is what z3 shows to hold on entry and to be preserved by every path through
the body.  Ghost state advances by whole specification steps."""
import z3
from core import *
from strlib import *

GK = ('ghost',)
NOTHING = ('not below its first value', 'not above its first value', 'not zero')      # say next to nothing
NV = ('noview',)
Z64 = lambda n: z3.BitVecVal(n, 64)


class Ghost:
    """Ghost state: named values, and the result once the specification has ended."""

    def __init__(self, spec, v, done=None, prog=0):
        self.spec, self.v, self.done, self.prog = spec, v, done, prog

    def copy(self):
        return Ghost(self.spec, dict(self.v), self.done, self.prog)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Steps:
    """What a specification step sees: reads at the ghost position and decides conditions."""

    def __init__(self, ex, st, g, script):
        self.ex, self.st, self.g, self.script = ex, st, g, script
        self.k = 0

    def __getattr__(self, n):
        try:
            return self.g.v[n]
        except KeyError:
            raise AttributeError(n)

    def br(self, c):
        c = self.ex.mk(c)
        if isinstance(c, (bool, int)):
            return bool(c)
        if self.k < len(self.script):
            self.k += 1
            return self.script[self.k - 1]
        if self.ex.valid(self.st, c):
            self.script.append(True)
            self.k += 1
            return True
        if self.ex.valid(self.st, z3.Not(c)):
            self.script.append(False)
            self.k += 1
            return False
        raise NeedFork(c)


def ghost_step(ex, st):
    """One specification step in state st.  Returns the resulting states (forked where the step
    depends on something the path does not decide)."""
    out = []
    work = [(st, [])]
    while work:
        s, script = work.pop()
        g = s.ghost
        if g.done is not None:
            out.append(s)
            continue
        S = Steps(ex, s, g, list(script))
        try:
            r = g.spec.step(S)
        except NeedFork as f:
            for c, b in ((f.cond, True), (z3.Not(f.cond), False)):
                if ex.feasible(s, c):
                    q = s.fork()
                    q.assume(c)
                    work.append((q, S.script + [b]))
            continue
        if s is st:
            s = st.fork()
        g = s.ghost
        if r[0] == 'step':
            g.v.update(r[1])
            g.prog += 1
            for c in g.spec.inv(ex, s, g):
                s.assume(c)
        else:
            g.done = r[1]
        out.append(s)
    return out


def ghost_run(ex, st, n):
    """Up to n steps; stops at the end of the specification."""
    cur = [st]
    for _ in range(n):
        if all(s.ghost.done is not None for s in cur):
            break
        nxt = []
        for s in cur:
            nxt.extend([s] if s.ghost.done is not None else ghost_step(ex, s))
        cur = nxt
    return cur


# ------------------------------------------------------------------ loop variables

def phis(st, header):
    return [i for i in st.frames[-1].f.blocks[header] if i.op == 'phi']


def snapshot(ex, st, header):
    """Loop variables and their values: header phis and memory cells."""
    fr = st.frames[-1]
    out = {}
    for i in phis(st, header):
        for v, l in i.a:
            if l == fr.prev:
                out[('phi', i.dst)] = (i.ty, ex.val(st, i.ty, v))
                break
        else:
            raise Unsupported('phi')
    for k, o in st.mem.items():
        if o.kind != 'mem' or o.ro:
            continue
        for off, x in o.cells.items():
            if isinstance(off, int):
                out[('cell', k, off, x[0])] = ('ptr' if isinstance(x[1], (Ptr, FnPtr)) else ('i', 8 * x[0]), x[1])
            else:
                out[('abs', k, off)] = ('abs', x)
    return out


def vkind(v):
    if isinstance(v, Ptr):
        return ('p', v.obj)
    if isinstance(v, (bool, int)) or is_z3(v):
        return ('n',)
    if isinstance(v, SV):
        return ('s', v.w)
    if isinstance(v, FnPtr):
        return ('f', v.name)
    if isinstance(v, Undef):
        return ('u',)
    return (type(v).__name__,)


def eqv(ex, st, ty, a, b):
    """Condition: equal values."""
    if isinstance(a, Undef) or isinstance(b, Undef):
        return isinstance(a, Undef) and isinstance(b, Undef)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            return False
        d = a.off.add(b.off.scale(-1))
        if d.const() is not None:
            return d.const() == 0
        return d.val() == Z64(0)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, SV) and isinstance(b, SV):
        return sv_eq(ex, st, a, b)
    if hasattr(a, 'eqcond'):
        return a.eqcond(ex, st, b)
    if (isinstance(a, (bool, int)) or is_z3(a)) and (isinstance(b, (bool, int)) or is_z3(b)):
        ba = isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))
        bb = isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))
        w = ty[1] if isinstance(ty, tuple) and ty[0] == 'i' else 64
        if w == 1 or (ba and bb):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return bool(a) == bool(b)
            f = lambda q: z3.BoolVal(bool(q)) if isinstance(q, (bool, int)) else q if z3.is_bool(q) else q != 0
            return f(a) == f(b)
        f = lambda q: bv(int(q), w) if isinstance(q, (bool, int)) else z3.If(q, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if z3.is_bool(q) else q
        a, b = f(a), f(b)
        if a.size() != b.size():
            return False
        return a == b
    return False


def elem_w(ex, st, obj):
    o = st.mem.get(obj)
    if o is None:
        return 1
    if o.kind == 'buf':
        return o.info.w
    if o.kind == 'sdata':
        return o.info[2]
    if o.kind == 'vdata':
        return o.info[2]
    if o.kind == 'lnode':
        return 1
    return 1


def trunc(e, w):
    if isinstance(e, int):
        return e & ((1 << w) - 1)
    if w == 64:
        return e
    return z3.Extract(w - 1, 0, e) if w < 64 else z3.ZeroExt(w - 64, e)


def candidates(ex, st, key, ty, v0, g0):
    """[(name, builder(ex, st, ghost) -> value)] for one loop variable."""
    spec = g0.spec if g0 is not None else None
    out = [('unchanged', lambda ex, s, g: v0)]
    if isinstance(v0, (Undef, FnPtr)) or g0 is None:
        return out
    pos = spec.positions
    if isinstance(v0, Ptr):
        if v0.obj is None:
            return out
        w = elem_w(ex, st, v0.obj)
        for p in pos:
            i0 = Lin.of(g0.v[p])
            out.append(('moves with ' + p, lambda ex, s, g, p=p, i0=i0: Ptr(v0.obj, v0.off.add(Lin.of(g.v[p]).add(i0.scale(-1)).scale(w)))))
            if spec.free:
                for k in (-1, 4, -4):
                    out.append(('moves with %d times %s' % (k, p), lambda ex, s, g, p=p, i0=i0, k=k: Ptr(v0.obj, v0.off.add(Lin.of(g.v[p]).add(i0.scale(-1)).scale(k * w)))))
        out += spec.pointer_candidates(ex, st, v0, w, g0)
        return out
    if isinstance(v0, SV):
        out += spec.string_candidates(ex, st, key, v0, g0)
        return out
    if hasattr(v0, 'eqcond'):
        out += spec.abs_candidates(ex, st, key, v0, g0)
        return out
    w = ty[1]
    if w == 1 or (is_z3(v0) and z3.is_bool(v0)) or isinstance(v0, bool):
        for p in pos:
            i0 = g0.v[p]
            out.append(('flips when %s moves' % p, lambda ex, s, g, p=p, i0=i0: ex.mk(z3.If(I(g.v[p]) == I(i0),
                        z3.BoolVal(bool(v0)) if isinstance(v0, (bool, int)) else v0,
                        z3.Not(z3.BoolVal(bool(v0)) if isinstance(v0, (bool, int)) else v0)))))
        return out
    vb = bv(v0, w)
    if w == 8:
        for p in pos:
            i0 = g0.v[p]
            if isinstance(v0, int) and v0 in (0, 1):
                out.append(('flips when %s moves' % p, lambda ex, s, g, p=p, i0=i0: ex.mk(z3.If(I(g.v[p]) == I(i0), z3.BitVecVal(v0, 8), z3.BitVecVal(1 - v0, 8)))))
    for p in pos:
        i0 = g0.v[p]
        for sg in (1, -1):
            def f(ex, s, g, p=p, i0=i0, sg=sg):
                d = Lin.of(g.v[p]).add(Lin.of(i0).scale(-1)).scale(sg)
                if w == 64:
                    return ex.mk(Lin.of(v0 if isinstance(v0, int) else v0).add(d).val())
                return ex.mk(vb + bv(trunc(d.val(), w), w))
            out.append(('%s %s' % ('grows with' if sg > 0 else 'shrinks with', p), f))
    for c in spec.counts:
        c0 = g0.v[c]
        for sg in (1, -1):
            def f(ex, s, g, c=c, c0=c0, sg=sg):
                cw = c0.size() if is_z3(c0) else g.v[c].size() if is_z3(g.v[c]) else 64
                a, b = bv(g.v[c], cw), bv(c0, cw)
                d = a - b if sg > 0 else b - a
                if w < cw:
                    d = z3.Extract(w - 1, 0, d)
                elif w > cw:
                    d = z3.ZeroExt(w - cw, d)
                return ex.mk(vb + d)
            out.append(('%s %s' % ('grows with' if sg > 0 else 'shrinks with', c), f))
    if w == 64 and not isinstance(v0, int) and not spec.free:
        # a loop written out several elements at a time counts its turns
        for b in spec.bounds(ex, st, g0):
            for p in pos:
                for sh in (1, 2):
                    out.append(('%d elements a turn up to %s' % (1 << sh, b), lambda ex, s, g, p=p, b=b, sh=sh: ex.mk(z3.LShR(I(b) - I(g.v[p]), sh))))
    for (nm, f) in spec.element_candidates(ex, st, w, g0):
        out.append((nm, f))
    return out


class LoopPlan:
    def __init__(self):
        self.defs = {}      # var key -> index list of surviving candidates
        self.rels = None
        self.step_choice = {}


class LoopExec(StrExec):
    """StrExec with loops cut by inferred invariants."""

    def fresh_like(self, st, ty, v):
        """An unknown value for a loop variable: (value, 64-bit term for bounds or None, scale)."""
        if isinstance(v, Ptr) and v.obj is not None:
            o = st.mem.get(v.obj)
            if o is not None and o.kind in ('buf', 'sdata', 'vdata', 'lnode'):
                w = elem_w(self, st, v.obj)
                k = self.fresh('k', 64)
                return Ptr(v.obj, Lin.of(k).scale(w)), k
            self.lost = True
            return UNDEF, None
        if isinstance(v, SV):
            t = z3.Const('s!%d' % self.nextn(), SSORT[v.w])
            return SV(v.w, (('t', t),)), None
        if isinstance(v, (bool, int)) or is_z3(v):
            if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)) or ty == ('i', 1):
                if ty[1] > 1:
                    b = self.fresh('b', 1)
                    return b, None
                return self.fresh('b', 1), None
            f = self.fresh('v', ty[1])
            return f, z3.ZeroExt(64 - ty[1], f) if ty[1] < 64 else f
        if hasattr(v, 'havoc'):
            return v.havoc(self, st), None
        self.lost = True
        return UNDEF, None

    def stands_for(self, st, obj, t):
        """Does the object hold the characters of the string t?"""
        o = st.mem.get(obj)
        if o is None or o.kind != 'sdata':
            return False
        s = self.rd_str(st, Ptr(o.info[0], Lin(o.info[1])), o.info[2])
        return len(s.p) == 1 and s.p[0][0] == 't' and s.p[0][1].eq(t)

    def nextn(self):
        self.fresh_n += 1
        return self.fresh_n

    def index_of(self, st, v, ty):
        """64-bit measure of a value, for bounds and termination."""
        if isinstance(v, Ptr) and v.obj is not None:
            q = v.off.div(elem_w(self, st, v.obj))
            return None if q is None else I(q.val())
        if isinstance(v, SV):
            return I(sv_len(self, st, v).val())
        if isinstance(v, bool) or isinstance(v, Undef) or isinstance(v, FnPtr):
            return None
        if isinstance(v, int) or (is_z3(v) and z3.is_bv(v)):
            w = ty[1]
            return bv(v, 64) if w == 64 else z3.ZeroExt(64 - w, bv(v, w)) if w < 64 else None
        return None

    def rel_candidates(self, st, g0, v0, ty):
        """Inequalities tried for a variable that no template defines: (name, f(index, ghost))."""
        out = []
        m0 = self.index_of(st, v0, ty)
        if m0 is not None:
            out.append(('not below its first value', lambda m, g: z3.UGE(m, m0)))
            out.append(('not above its first value', lambda m, g: z3.ULE(m, m0)))
        out.append(('not zero', lambda m, g: m != 0))
        if g0 is not None:
            for b in g0.spec.bounds(self, st, g0):
                out.append(('at most %s' % b, lambda m, g, b=b: z3.ULE(m, I(b))))
            for nm, b in g0.spec.marks(self, st, g0):
                out.append(('at most ' + nm, lambda m, g, b=b: z3.ULE(m, b)))
                out.append(('at least ' + nm, lambda m, g, b=b: z3.UGE(m, b)))
                for ob, lo in self.view_starts(st):
                    out.append(('counted from the start of %s, at most %s' % (ob, nm), lambda m, g, b=b, lo=lo: z3.ULE(m + lo, b)))
                    out.append(('counted from the start of %s, at least %s' % (ob, nm), lambda m, g, b=b, lo=lo: z3.UGE(m + lo, b)))
            for p in g0.spec.positions:
                out.append(('at most ' + p, lambda m, g, p=p: z3.ULE(m, I(g.v[p]))))
                out.append(('at least ' + p, lambda m, g, p=p: z3.UGE(m, I(g.v[p]))))
        return out

    def view_rels(self, st, g0, v0):
        """Inequalities for a string variable that stays a part of the string it was: f((lo, hi), ghost)."""
        t, lo0, hi0 = self.view_of(st, v0)
        l = len_f[v0.w](t)
        out = [('starts no later than it ends', lambda m, g: z3.ULE(m[0], m[1])), ('ends within the string', lambda m, g: z3.ULE(m[1], l)),
               ('starts where it did', lambda m, g: m[0] == lo0), ('ends where it did', lambda m, g: m[1] == hi0),
               ('starts no earlier', lambda m, g: z3.UGE(m[0], lo0)), ('ends no later', lambda m, g: z3.ULE(m[1], hi0))]
        for nm, b in g0.spec.marks(self, st, g0):
            for k, e in ((0, 'start'), (1, 'end')):
                out.append(('%s at most %s' % (e, nm), lambda m, g, b=b, k=k: z3.ULE(m[k], b)))
                out.append(('%s at least %s' % (e, nm), lambda m, g, b=b, k=k: z3.UGE(m[k], b)))
        return out

    def view_starts(self, st):
        """Strings that are a part of another one and do not start where it does."""
        out = []
        for k, o in st.mem.items():
            if o.kind == 'mem':
                for off, x in o.cells.items():
                    if isinstance(x, SV):
                        m = self.view_of(st, x)
                        if m is not None and not z3.is_bv_value(z3.simplify(m[1])):
                            out.append((k, m[1]))
        return out

    def view_of(self, st, v):
        """(term, first, last + 1) of a string value that is a part of one other string."""
        v = sv_norm(self, st, v)
        if len(v.p) == 1 and v.p[0][0] == 't':
            self.len_axiom(st, v.w, v.p[0][1])
            return v.p[0][1], Z64(0), len_f[v.w](v.p[0][1])
        if len(v.p) == 1 and v.p[0][0] == 'v':
            return v.p[0][1], I(v.p[0][2]), I(v.p[0][3])
        if len(v.p) == 2 and v.p[0][0] == 'v' and v.p[1][0] == 'v' and v.p[0][1].eq(v.p[1][1]):
            a, b = v.p
            if self.valid(st, I(a[3]) == I(b[2])):
                return a[1], I(a[2]), I(b[3])
        for k, x in enumerate(v.p):
            if len(v.p) > 1 and x[0] != 'c':
                l = piece_len(self, st, v.w, x)
                if self.valid(st, I(l.val()) == Z64(0)):
                    return self.view_of(st, SV(v.w, v.p[:k] + v.p[k + 1:]))
        return None

    def ghost_rels(self, st, g0):
        """Facts about the ghost state alone that may hold at the loop head."""
        out = []
        for b in g0.spec.bounds(self, st, g0):
            for p in g0.spec.positions:
                out.append(('%s below %s' % (p, b), lambda m, g, p=p, b=b: z3.ULT(I(g.v[p]), I(b))))
                if not g0.spec.free and not (isinstance(g0.v[p], int) and g0.v[p] == 0):
                    out.append(('%s not below its first value' % p, lambda m, g, p=p: z3.UGE(I(g.v[p]), I(g0.v[p]))))
                if g0.spec.free:
                    out.append(('%s at most %s' % (p, b), lambda m, g, p=p, b=b: z3.ULE(I(g.v[p]), I(b))))
        if getattr(getattr(g0.spec, 'src', None), 'w', None) == 4:
            for c in g0.spec.counts:
                for p in g0.spec.positions:
                    out.append(('%s grows with %s' % (c, p), lambda m, g, c=c, p=p: bv(g.v[c], 32) - bv(g0.v[c], 32) == trunc(I(g.v[p]) - I(g0.v[p]), 32)))
        return out

    def do_loop(self, st, header, body, stop, ahead=False):
        fr = st.frames[-1]
        depth = len(st.frames)
        key = (fr.f.name, header)
        if not ahead and self.opts.get('walk') and st.ghost is not None and st.ghost.done is None and not st.ghost.spec.free \
                and st.ghost.v.get('_loops', 0) == 0 and st.ghost.v.get('_walked', 0) < self.opts['walk'] and st.ghost.spec.src is not None:
            # a loop over the source that comes before the one that computes the result
            main, walked = st.ghost.spec, st.ghost.v.get('_walked', 0)
            st = st.fork()
            st.ghost = st.ghost.spec.walk().start(self, st)
            st.ghost.v['_loops'] = 1
            out = self.do_loop(st, header, body, stop, True)
            for s in out:
                s.ghost = main.start(self, s)
                s.ghost.v['_walked'] = walked + 1
            return out
        if not ahead:
            first = st.ghost is not None and st.ghost.v.get('_loops', 0) == 0
            if st.ghost is not None and self.opts.get('restart') and not first:
                st.ghost = st.ghost.spec.start(self, st)
                st.ghost.v['_loops'] = 1
            if st.ghost is not None:
                st.ghost.v['_loops'] = st.ghost.v.get('_loops', 0) + 1
            if self.opts.get('ahead') and st.ghost is not None and not st.ghost.spec.free and st.ghost.done is None and (first or self.opts.get('restart')):
                # the code before the loop has dealt with the first element
                out = []
                for q in ghost_run(self, st.fork(), 1):
                    if self.feasible(q):
                        out.extend(self.do_loop(q, header, body, stop, True))
                return out
        if st.ghost is not None and st.ghost.done is not None:
            # the specification has ended: no templates but the plain ones
            pass
        g0 = st.ghost
        entry = snapshot(self, st, header)
        cands = {k: candidates(self, st, k, ty, v, g0 if g0 is not None and g0.done is None else None) for k, (ty, v) in entry.items()}
        live = {}
        for k, cs in cands.items():
            ty, v = entry[k]
            live[k] = [0] + [n for n in range(1, len(cs)) if self.holds(st, ty, v, cs[n][1], g0)]
        self.loop_ids = getattr(self, 'loop_ids', {})
        name = '%s, loop at line %s' % (self.short(fr.f.name), self.line_of(fr, header))
        hint = self.opts.setdefault('loophints', {}).get((key, self.shape(entry)))
        if hint:
            for k in live:
                h = hint[0].get(k)
                if h is not None:
                    live[k] = [n for n in live[k] if n in h]
        rels = {}
        relhint = hint[1] if hint else {}
        self.quiet += 1
        try:
            for rnd in range(60):
                head, hv = self.havoc(st, header, entry, cands, live, rels, relhint, g0)
                ends = self.run(head.fork(), Stop(depth, header, body))
                changed = False
                backs = [s for k, s in ends if k == 'back']
                for s in backs:
                    changed |= self.back(s, header, entry, cands, live, rels, hv, g0, drop=True)
                if not changed:
                    break
            else:
                raise Unsupported('no loop invariant after 60 rounds')
        finally:
            self.quiet -= 1
        self.opts['loophints'][(key, self.shape(entry))] = ({k: list(v) for k, v in live.items()}, {k: [n for n, _ in v] for k, v in rels.items() if k != NV})
        if not self.quiet:
            self.inv_text = getattr(self, 'inv_text', {})
            self.inv_text[name] = sorted('%s %s' % (self.vname(k), cands[k][live[k][0]][0]) for k in live if live[k] and live[k][0] != 0) + \
                sorted('%s %s' % (self.vname(k), n) for k in rels if k != NV for n, _ in rels[k])
        head, hv = self.havoc(st, header, entry, cands, live, rels, relhint, g0)
        ends = self.run(head, Stop(depth, header, body))
        conts = []
        backs = []
        term = []
        for k, s in ends:
            if k == 'back':
                backs.append(s)
            elif k == 'ret':
                s.pending = 'ret'
                conts.append(s)
            else:
                conts.append(s)
        measures = None
        for s in backs:
            ts, ms = self.back(s, header, entry, cands, live, rels, hv, g0, drop=False, name=name)
            term.extend(ts)
            if ms is not None:
                measures = ms if measures is None else measures & ms
        if measures is not None:
            ok = bool(measures)
            if not self.quiet:
                self.obls.append(Obligation('%s: terminates (%s)' % (name, ', '.join(sorted(str(self.vname(m[0])) for m in measures)) if ok else 'no variable found that shows progress'),
                                            'termination', ok, None if ok else {'status': 'unknown', 'line': name}))
        # paths on which the specification has already ended go on as they are
        for n in range(4):
            nxt = []
            for s in term:
                for k, q in self.run(s, Stop(depth, header, body)):
                    if k == 'back':
                        nxt.append(q)
                    else:
                        if k == 'ret':
                            q.pending = 'ret'
                        conts.append(q)
            term = nxt
            if not term:
                break
        for s in term:
            self.fail(s, name + ': ends once the specification has ended', 'termination', 'loop goes on')
        if g0 is not None and g0.spec.free:
            for s in conts:
                s.ghost = g0.copy()
        # arrive at the exit targets under the enclosing loop
        out = []
        for s in conts:
            if s.pending:
                out.append(s)
                continue
            f = s.frames[-1]
            if len(s.frames) != depth:
                out.append(s)
                continue
            t = f.blk
            f.blk = f.prev
            r = self.jump(s, t, stop)
            if r is None:
                out.append(s)
            elif r[0] == 'fork':
                out.extend(r[1])
            elif r[0] != 'dead':
                s.pending = r[0]
                out.append(s)
        return out

    def line_of(self, fr, header):
        for i in fr.f.blocks[header]:
            l = self.mod.lines.get(i.line)
            if l:
                return l
        return header

    def vname(self, k):
        if k[0] == 'phi':
            return k[1]
        if k == GK:
            return 'specification:'
        if k[0] == 'cell':
            return '%s+%d' % (k[1], k[2])
        return '%s' % (k[1],)

    def shape(self, entry):
        return tuple(sorted((str(k if k[0] == 'phi' else (k[0],) + k[2:]), str(vkind(v)[0])) for k, (ty, v) in entry.items()))

    def holds(self, st, ty, v, builder, g):
        try:
            x = builder(self, st, g)
        except (Unsupported, KeyError):
            return False
        if x is None:
            return False
        c = eqv(self, st, ty, v, x)
        return self.valid(st, c)

    def havoc(self, st, header, entry, cands, live, rels, relhint, g0):
        """The arbitrary iteration: ghost state unknown, variables as the live templates say."""
        h = st.fork()
        fr = h.frames[-1]
        hv = {}
        if g0 is not None and g0.done is None:
            g = g0.spec.havoc(self, h, g0)
            g.v['_loops'] = g0.v.get('_loops', 0)
            h.ghost = g
            for c in g.spec.inv(self, h, g):
                h.assume(c)
        g = h.ghost
        vals = {}
        for k, (ty, v0) in entry.items():
            if live[k]:
                n = live[k][1] if self.opts.get('general') and len(live[k]) > 1 and live[k][0] == 0 else live[k][0]
                x = cands[k][n][1](self, h, g)
                # equal templates are facts about the ghost state
                for m in live[k]:
                    if m == n:
                        continue
                    y = cands[k][m][1](self, h, g)
                    c = eqv(self, h, ty, x, y)
                    if not isinstance(c, (bool, int)):
                        h.assume(c)
                vals[k] = (x, None)
                if g0 is not None and g0.spec.free and g0.done is None and live[k][0] != 0 and not isinstance(x, SV):
                    m = self.index_of(h, x, ty)
                    if m is not None:
                        if k not in rels:
                            m0 = self.index_of(st, v0, ty)
                            rels[k] = [r for r in self.rel_candidates(st, g0, v0, ty) if m0 is not None and self.valid(st, r[1](m0, g0))]
                        for nm, f in rels[k]:
                            h.assume(f(m, g))
            elif isinstance(v0, SV) and g0 is not None and g0.spec.free and g0.done is None and k not in rels.setdefault(NV, set()) and self.view_of(st, v0):
                t = self.view_of(st, v0)[0]
                lo, hi = self.fresh('lo', 64), self.fresh('hi', 64)
                x = SV(v0.w, (('v', t, lo, hi),))
                vals[k] = (x, None)
                if k not in rels:
                    rc = self.view_rels(st, g0, v0)
                    m0 = self.view_of(st, v0)[1:]
                    rels[k] = [r for r in rc if self.valid(st, r[1](m0, g0))]
                for nm, f in rels[k]:
                    h.assume(f((lo, hi), g))
            else:
                x, m = self.fresh_like(h, ty, v0)
                vals[k] = (x, m)
                if m is None and isinstance(x, SV):
                    m = self.index_of(h, x, ty)
                if m is not None:
                    if k not in rels:
                        rc = self.rel_candidates(st, g0 if g0 is not None and g0.done is None else None, v0, ty)
                        if k in relhint:
                            rc = [r for r in rc if r[0] in relhint[k]]
                        m0 = self.index_of(st, v0, ty)
                        rels[k] = [r for r in rc if m0 is not None and self.valid(st, r[1](m0, g0))]
                    for nm, f in rels[k]:
                        h.assume(f(m, g))
                if not isinstance(v0, Ptr) and all(r[0] in NOTHING for r in rels.get(k, ()) if k in rels):
                    for e in [x.p[0][1]] if isinstance(x, SV) else [x] if is_z3(x) else []:
                        self.open_vars.add(e.decl().name() if z3.is_const(e) else '')
        if g0 is not None and g0.done is None:
            if GK not in rels:
                rels[GK] = [r for r in self.ghost_rels(st, g0) if self.valid(st, r[1](None, g0)) and (GK not in relhint or r[0] in relhint[GK])]
            for nm, f in rels[GK]:
                h.assume(f(None, g))
        for k, (x, m) in vals.items():
            hv[k] = x
            if k[0] == 'phi':
                fr.env[k[1]] = x
            elif k[0] == 'cell':
                if isinstance(x, Undef):
                    h.wobj(k[1]).cells.pop(k[2], None)
                else:
                    h.wobj(k[1]).cells[k[2]] = (k[3], x)
            else:
                if isinstance(x, Undef):
                    h.wobj(k[1]).cells.pop(k[2], None)
                else:
                    h.wobj(k[1]).cells[k[2]] = x
        fr.idx = len(phis(h, header))
        fr.visits = {}
        h.loop_entry_reads = len(h.reads)
        return h, hv

    def back_values(self, s, header, entry):
        cur = snapshot(self, s, header)
        out = {}
        for k in entry:
            if k in cur:
                out[k] = cur[k]
            else:
                out[k] = (entry[k][0], UNDEF)
        return out

    def back(self, s, header, entry, cands, live, rels, hv, g0, drop, name=None):
        """A path back to the loop head.  drop: remove templates it breaks (returns whether any).
        Otherwise record the obligations; returns (states that ended, measures or None)."""
        vals = self.back_values(s, header, entry)
        lockstep = g0 is not None and g0.done is None and not g0.spec.free
        best = None
        if lockstep:
            for j in self.opts.get('steps', (1, 0, 2, 3, 4)):
                outs = [s.fork()] if j == 0 else ghost_run(self, s, j)
                fails, terms = [], 0
                for q in outs:
                    if q.ghost.done is not None:
                        terms += 1
                        continue
                    fails.append(self.broken(q, vals, entry, cands, live, rels))
                # variables left without any template, then how many paths end, then templates broken
                lost = set()
                for f in fails:
                    bd = {}
                    for x in f:
                        if x[0] == 'd':
                            bd[x[1]] = bd.get(x[1], 0) + 1
                    lost |= {k for k, n in bd.items() if n == len(live[k])}
                nf = max([len(f) for f in fails] or [0])
                score = len(lost) * 1000 + terms * 30 + nf
                if best is None or score < best[0]:
                    best = (score, j, outs, fails)
                if score == 0:
                    break
            score, j, outs, fails = best
        else:
            j = 0
            if g0 is not None and g0.done is None:
                s = s.fork()
                s.ghost.v['turn'] = I(s.ghost.v['turn']) + 1
            outs = [s]
            fails = [self.broken(s, vals, entry, cands, live, rels)]
        if drop:
            ch = False
            for f in fails:
                for what in f:
                    if what[0] == 'd':
                        if what[2] in live[what[1]]:
                            live[what[1]].remove(what[2])
                            ch = True
                    elif what[0] == 'view':
                        rels.setdefault(NV, set()).add(what[1])
                        rels.pop(what[1], None)
                        ch = True
                    elif what[1] in rels:
                        n = len(rels[what[1]])
                        rels[what[1]] = [r for r in rels[what[1]] if r[0] != what[2]]
                        ch |= len(rels[what[1]]) != n
            return ch
        if not self.quiet:
            self.obls.append(Obligation(name + ': invariant preserved', 'invariant', not any(fails), None if not any(fails) else {'status': 'unknown', 'line': name}))
        term = [q for q in outs if q.ghost is not None and q.ghost.done is not None] if lockstep else []
        rest = [q for q in outs if q not in term]
        if not rest or (lockstep and j > 0):
            if rest and not self.quiet:
                self.obls.append(Obligation(name + ': each turn takes the specification %d step%s on, and it takes finitely many' % (j, 's' * (j > 1)), 'termination', True, None))
            return term, None
        # progress without a specification step: some variable must show it
        ms = set()
        if not lockstep and g0 is not None and g0.done is None and rels.get(GK) and not any(fails):
            # the number of turns itself, where the invariant bounds it
            if all(self.valid(q, z3.ULE(I(q.ghost.v['turn']), Z64(1 << 62))) for q in rest):
                ms.add(('turn', 'rises'))
        for k, (ty, v) in vals.items():
            if isinstance(v, Undef) or isinstance(hv[k], Undef):
                continue
            a, b = self.index_of(s, hv[k], ty), self.index_of(s, v, ty)
            if a is None or b is None or a.eq(b):
                continue
            if all(self.valid(q, z3.ULT(b, a)) for q in rest):
                ms.add((k, 'falls'))
            elif all(self.valid(q, z3.ULT(a, b)) for q in rest) and self.bounded_above(rest, k, b, g0):
                ms.add((k, 'rises'))
        return term, ms

    def bounded_above(self, rest, k, b, g0):
        # rises strictly and stays below 2^63: cannot wrap, so it must stop (the bound is part of the invariant)
        return all(self.valid(q, z3.ULE(b, Z64(1 << 62))) for q in rest)

    def broken(self, q, vals, entry, cands, live, rels):
        out = []
        g = q.ghost
        for k, ns in live.items():
            ty, v = vals[k]
            for n in ns:
                if n == 0 and v is entry[k][1]:
                    continue
                if not self.holds(q, ty, v, cands[k][n][1], g):
                    out.append(('d', k, n))
        for k, rs in rels.items():
            if k == NV:
                continue
            if k == GK:
                out += [('r', k, nm) for nm, f in rs if not self.valid(q, f(None, g))]
                continue
            if live[k] and (live[k][0] == 0 or g is None or not g.spec.free):
                continue
            ty, v = vals[k]
            if isinstance(entry[k][1], SV) and g is not None and g.spec.free and k not in rels.get(NV, ()) and self.view_of(q, entry[k][1]):
                m = self.view_of(q, v) if isinstance(v, SV) else None
                if m is None or not m[0].eq(self.view_of(q, entry[k][1])[0]):
                    out.append(('view', k))
                    continue
                m = m[1:]
            else:
                m = self.index_of(q, v, ty) if not isinstance(v, Undef) else None
            for nm, f in rs:
                if m is None or not self.valid(q, f(m, g)):
                    out.append(('r', k, nm))
        return out
