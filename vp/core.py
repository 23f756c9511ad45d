"""Verification-condition generator for LLVM IR: a path-wise symbolic executor with loop
invariants found by Houdini over ghost-state templates.  z3 discharges every obligation."""
import time, z3
from ir import Module, loops_of, IRError

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """The code uses something outside the reach of this generator."""


class UnrollLimit(Exception):
    def __init__(self, key):
        self.key = key


class Enough(Exception):
    """Enough obligations have failed: the rest adds nothing."""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values

def is_z3(v):
    return isinstance(v, z3.ExprRef)


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def simp(e):
    """Concrete python value where the expression is one, else a simplified expression."""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b_not(c):
    if isinstance(c, (bool, int)):
        return not c
    return z3.Not(c)


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


class Lin:
    """Linear form over 64-bit terms, modulo 2^64."""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = sgn(c, 64)
        self.t = t or {}

    @staticmethod
    def of(v):
        if isinstance(v, int):
            return Lin(v)
        return Lin._dec(v)

    @staticmethod
    def _dec(e):
        if z3.is_bv_value(e):
            return Lin(e.as_long())
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Lin()
            for x in e.children():
                r = r.add(Lin._dec(x))
            return r
        if k == z3.Z3_OP_BSUB:
            ch = e.children()
            r = Lin._dec(ch[0])
            for x in ch[1:]:
                r = r.add(Lin._dec(x).scale(-1))
            return r
        if k == z3.Z3_OP_BNEG:
            return Lin._dec(e.arg(0)).scale(-1)
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bv_value(a):
                return Lin._dec(b).scale(sgn(a.as_long(), 64))
            if z3.is_bv_value(b):
                return Lin._dec(a).scale(sgn(b.as_long(), 64))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < 64:
            return Lin._dec(e.arg(0)).scale(1 << e.arg(1).as_long())
        return Lin(0, {e.get_id(): (e, 1)})

    def add(self, o):
        t = dict(self.t)
        for k, (e, c) in o.t.items():
            if k in t:
                n = sgn(t[k][1] + c, 64)
                if n:
                    t[k] = (e, n)
                else:
                    del t[k]
            else:
                t[k] = (e, c)
        return Lin(self.c + o.c, t)

    def scale(self, n):
        if n == 0:
            return Lin()
        return Lin(self.c * n, {k: (e, sgn(c * n, 64)) for k, (e, c) in self.t.items()})

    def div(self, n):
        """Exact division by a positive constant (coefficients are small; no wrap)."""
        if self.c % n or any(c % n for _, c in self.t.values()):
            return None
        return Lin(self.c // n, {k: (e, c // n) for k, (e, c) in self.t.items()})

    def const(self):
        return self.c if not self.t else None

    def val(self):
        """python int (unsigned) or z3 expression."""
        if not self.t:
            return self.c & M64
        r = None
        for e, c in self.t.values():
            x = e if c == 1 else e * z3.BitVecVal(c, 64)
            r = x if r is None else r + x
        if self.c:
            r = r + z3.BitVecVal(self.c, 64)
        return r

    def key(self):
        return (self.c, tuple(sorted((k, c) for k, (e, c) in self.t.items())))

    def __repr__(self):
        return 'Lin(%d,%s)' % (self.c, [(str(e), c) for e, c in self.t.values()])


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = off if off is not None else Lin()

    def plus(self, lin):
        return Ptr(self.obj, self.off.add(lin))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(None)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class PInt:
    """A pointer converted to an integer."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
INLINE = Undef()      # a contract handler's answer: use the body


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


# ------------------------------------------------------------------ memory objects

class MObj:
    __slots__ = ('kind', 'size', 'cells', 'ro', 'info')

    def __init__(self, kind, size=None, cells=None, ro=False, info=None):
        self.kind, self.size, self.cells, self.ro, self.info = kind, size, cells if cells is not None else {}, ro, info

    def copy(self):
        return MObj(self.kind, self.size, dict(self.cells), self.ro, self.info)


def is_static(ob):
    return isinstance(ob, str) and ob.startswith('@')


class Frame:
    __slots__ = ('f', 'env', 'blk', 'idx', 'prev', 'call', 'visits', 'allocs')

    def __init__(self, f):
        self.f = f
        self.env = {}
        self.blk = f.order[0]
        self.idx = 0
        self.prev = None
        self.call = None
        self.visits = {}
        self.allocs = []

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.env, n.blk, n.idx, n.prev, n.call = self.f, dict(self.env), self.blk, self.idx, self.prev, self.call
        n.visits = dict(self.visits)
        n.allocs = list(self.allocs)
        return n


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = None
        self.reads = []        # (buffer name, index, value) along the path, for counterexamples
        self.nbuf = 0
        self.owned = set()
        self.ret = None
        self.calls = []        # values of interest
        self.trace = []
        self.pending = None
        self.ax = set()
        self.finds = []
        self.setfinds = []

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = self.ghost.copy() if self.ghost is not None else None
        s.reads = list(self.reads)
        s.nbuf = self.nbuf
        s.owned = set()
        self.owned = set()
        s.ret = self.ret
        s.calls = list(self.calls)
        s.trace = list(self.trace)
        s.pending = self.pending
        s.ax = set(self.ax)
        s.finds = list(self.finds)
        s.setfinds = list(self.setfinds)
        return s

    def wobj(self, key):
        o = self.mem[key]
        if key not in self.owned:
            o = o.copy()
            self.mem[key] = o
            self.owned.add(key)
        return o

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)


class Stop:
    def __init__(self, depth, header, body):
        self.depth, self.header, self.body = depth, header, body


class Obligation:
    __slots__ = ('name', 'kind', 'ok', 'info', 'ms')

    def __init__(self, name, kind, ok, info=None, ms=0):
        self.name, self.kind, self.ok, self.info, self.ms = name, kind, ok, info, ms


class Exec:
    """One verification run of one function."""

    def __init__(self, mod, contracts, opts=None):
        self.mod = mod
        self.contracts = contracts        # callable(demangled, mangled) -> handler or None
        self.opts = opts or {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.get('timeout', 15000))
        self.stack = []
        self.obls = []
        self.nfail = 0
        self.quiet = 0
        self.nq = 0
        self.tq = 0.0
        self.fresh_n = 0
        self.loopmode = self.opts.setdefault('loopmode', {})
        self.deadline = self.opts.get('deadline')
        self.goal = None
        self.used_contracts = {}
        self.inlined = set()
        self.obj_n = 0
        self.paths = 0
        self.reached_ret = 0
        self.peel = self.opts.get('peel', 0)
        self.lost = False           # a loop variable was given no value that is known about
        self.open_vars = set()      # loop variables of which no invariant says what they hold
        self.approx = None          # a value was abstracted: failures prove nothing
        self.globals_init = {}
        self.written_globals = set()
        self.frame_sites = set()
        self.lemma_hook = None
        self.axiom_hooks = []

    # -------------------------------------------------------------- solver
    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and (st[n] is pc[n] or st[n].eq(pc[n])):
            n += 1
        if n < len(st):
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, pc, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget used up')
        self.sync(pc)
        t = time.time()
        r = self.solver.check(*extra) if extra else self.solver.check()
        self.tq += time.time() - t
        self.nq += 1
        return r

    def feasible(self, st, cond=None):
        if cond is None:
            return self.check(st.pc) != z3.unsat
        if isinstance(cond, (bool, int)):
            return bool(cond)
        return self.check(st.pc, cond) != z3.unsat

    def valid(self, st, cond):
        """Is cond implied by the path constraints? (unknown counts as no)"""
        if isinstance(cond, (bool, int)):
            if cond:
                return True
            return self.check(st.pc) == z3.unsat
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        return self.check(st.pc, z3.Not(cond)) == z3.unsat

    def oblige(self, st, cond, name, kind):
        """A proof obligation.  Returns True when discharged; assumes cond afterwards."""
        t = time.time()
        ok = self.valid(st, cond)
        ms = (time.time() - t) * 1000
        if not self.quiet:
            info = None
            if not ok:
                info = self.cex(st, cond)
            self.obls.append(Obligation(name, kind, ok, info, ms))
            if not ok:
                self.count_failure()
        if not ok:
            st.assume(cond)
        return ok

    def fail(self, st, name, kind, why):
        if not self.quiet:
            info = self.cex(st, False)
            info['why'] = why
            self.obls.append(Obligation(name, kind, False, info))
            self.count_failure()

    def count_failure(self):
        self.nfail += 1
        if self.nfail >= self.opts.get('max_fail', 10):
            raise Enough()

    def cex(self, st, cond):
        """Counterexample material for a failed obligation."""
        out = {'line': self.where(st)}
        try:
            nc = [] if isinstance(cond, (bool, int)) else [z3.Not(cond)]
            # a small input where there is one
            r = z3.unknown
            t0 = time.time()
            for lim in (2, 4, 8, 16, 64, None):
                if time.time() - t0 > 4:
                    break
                sm = [z3.ULE(t, lim) for t in getattr(self, 'lens', [])] if lim else []
                r = self.check(st.pc, *(nc + sm))
                if r == z3.sat:
                    break
            if r == z3.sat:
                m = self.solver.model()
                out['status'] = 'sat'
                if self.open_vars and self.rests_on_open(st.pc + nc):
                    out['rests_on'] = 'a loop variable without an invariant'
                elif self.rests_on_open(nc, True):
                    out['rests_on'] = 'two terms for strings that are not known to differ'
                bufs = {}
                for (b, idx, val) in st.reads:
                    iv = m.eval(bv(idx, 64), model_completion=True).as_long()
                    vv = m.eval(val, model_completion=True) if is_z3(val) else z3.BitVecVal(val, 32)
                    bufs.setdefault(b, {})[sgn(iv, 64)] = vv.as_long()
                out['bufs'] = {b: sorted(x.items()) for b, x in bufs.items()}
                out['args'] = self.concrete_args(m)
                out['params'] = {}
                for n, v in getattr(self, 'params', {}).items():
                    try:
                        x = m.eval(v, model_completion=True)
                        out['params'][n] = x.as_long() if z3.is_bv_value(x) else str(x)
                    except Exception:
                        pass
            else:
                out['status'] = str(r)
        except Budget:
            raise
        except Exception as e:      # counterexample extraction must never break a run
            out['status'] = 'model extraction failed: %r' % (e,)
        return out

    def rests_on_open(self, cs, strings=False):
        """Do the constraints mention a loop variable that the invariants leave open (an equality of
        string terms)?  Then a model is perhaps one of the invariants (axioms) only, not of the program."""
        seen = set()
        todo = [c for c in cs if is_z3(c)]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if strings and z3.is_eq(t) and t.arg(0).sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                return True
            if z3.is_const(t):
                if not strings and t.decl().name() in self.open_vars:
                    return True
            else:
                todo += t.children()
        return False

    def concrete_args(self, m):
        return None

    def where(self, st):
        if not st.frames:
            return ''
        out = []
        for fr in st.frames:
            ln = None
            ins = fr.f.blocks[fr.blk]
            for j in range(min(fr.idx, len(ins) - 1), -1, -1):
                ln = self.mod.lines.get(ins[j].line)
                if ln:
                    break
            out.append('%s:%s' % (self.short(fr.f.name), ln))
        return ' > '.join(out)

    def short(self, name):
        d = self.mod.demangled.get(name, name)
        return d if len(d) < 90 else d[:87] + '...'

    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def newobj(self, base):
        self.obj_n += 1
        return '%s#%d' % (base, self.obj_n)

    # -------------------------------------------------------------- operands
    def width(self, ty):
        if ty == 'ptr':
            return 64
        if isinstance(ty, tuple) and ty[0] == 'i':
            return ty[1]
        raise Unsupported('type %r' % (ty,))

    def val(self, st, ty, o):
        k = o[0]
        if k == 'loc':
            try:
                return st.frames[-1].env[o[1]]
            except KeyError:
                raise Unsupported('undefined local ' + o[1])
        if k == 'int':
            w = self.width(ty)
            if w == 1:
                return bool(o[1] & 1)
            return o[1] & ((1 << w) - 1)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'glob':
            return self.globptr(st, o[1])
        if k == 'zero':
            if ty == 'ptr':
                return NULL
            rt = self.mod.resolve(ty)
            if isinstance(rt, tuple) and rt[0] == 'struct':
                return Agg([self.val(st, t, ('zero',)) for t in rt[1]])
            if isinstance(rt, tuple) and rt[0] == 'arr':
                return Agg([self.val(st, rt[2], ('zero',)) for _ in range(rt[1])])
            return False if self.width(rt) == 1 else 0
        if k == 'cgep':
            return self.gep(st, o[1], [(t, self.val(st, t, x)) for t, x in o[2]])
        if k == 'ccast':
            return self.cast(st, o[1], o[2], self.val(st, o[2], o[3]), o[4])
        if k == 'cbin':
            return self.binop(st, o[1], o[2], self.val(st, o[2], o[3]), self.val(st, o[2], o[4]), set())
        if k == 'agg':
            return Agg([self.val(st, t, x) for t, x in o[1]])
        raise Unsupported('operand %r' % (o,))

    def globptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs:
            return FnPtr(name)
        if name not in self.mod.globals:
            raise Unsupported('global ' + name)
        if name not in st.mem:
            ty, init, isconst = self.mod.globals[name]
            if self.is_guard(name):
                # first use: the guard is down and the object is the initialiser's to write
                ob = self.guarded(name)
                st.mem[name] = MObj('mem', self.mod.size(ty), {0: (1, 0)})
                st.mem[ob] = MObj('mem', self.mod.size(self.mod.globals[ob][0]))
                st.owned.discard(ob)
                st.owned.discard(name)
                return Ptr(name)
            if not isconst:
                cells = self.init_value(name)
                if cells is not None:
                    st.mem[name] = MObj('mem', self.mod.size(ty), dict(cells), True)
                    return Ptr(name)
            st.mem[name] = MObj('glob', self.mod.size(ty) if ty is not None else None, {}, True,
                                (ty, init, isconst))
        return Ptr(name)

    def guarded(self, name):
        ob = name.replace('_ZGV', '_Z', 1)
        if ob not in self.mod.globals or self.mod.globals[ob][0] is None:
            raise Unsupported('static object of the guard ' + name)
        return ob

    def fixed_cells(self, o):
        """The object holds strings of known characters and nothing else."""
        return bool(o.cells) and all(isinstance(k, tuple) and k[1] == 'str' and all(x[0] == 'c' and isinstance(x[1], int) for x in v.p)
                                     for k, v in o.cells.items())

    def init_value(self, name):
        """Cells of an object at namespace scope that its dynamic initialiser sets, once and for all, to
        a string of known characters (None: something else)."""
        memo = self.mod.__dict__.setdefault('init_values', {})
        if name in memo:
            return memo[name]
        memo[name] = None
        if self.mod.globals[name][0] is None or self.global_written(name):
            return None
        fs = [f for f in self.mod.funcs.values() if f.defined and f.name.startswith('@__cxx_global_var_init')
              and any(self.mentions(x, name) for b in f.blocks.values() for i in b if i.op in ('call', 'store') for x in self.operands(i))]
        if len(fs) != 1:
            return None
        st = State()
        st.mem[name] = MObj('mem', self.mod.size(self.mod.globals[name][0]))
        st.frames = [Frame(fs[0])]
        n = len(self.obls)
        try:
            ends = self.run(st)
        except (Unsupported, Budget):
            return None
        finally:
            del self.obls[n:]
        if len(ends) == 1 and ends[0][0] == 'ret' and name in ends[0][1].mem and self.fixed_cells(ends[0][1].mem[name]):
            memo[name] = dict(ends[0][1].mem[name].cells)
        return memo[name]

    @staticmethod
    def operands(i):
        out = []
        for x in i.a if isinstance(i.a, (list, tuple)) else []:
            out.append(x[1] if isinstance(x, tuple) and len(x) > 2 and isinstance(x[1], tuple) and i.op == 'call' else x)
        return out

    def gep(self, st, sty, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = Lin()
        ty = sty
        for n, (t, v) in enumerate(ops[1:]):
            if n == 0:
                off = off.add(self.idx64(st, t, v).scale(self.mod.size(ty)))
                continue
            ty = self.mod.resolve(ty)
            if ty[0] == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                off = off.add(Lin(offs[v]))
                ty = ty[1][v]
            elif ty[0] == 'arr':
                off = off.add(self.idx64(st, t, v).scale(self.mod.size(ty[2])))
                ty = ty[2]
            else:
                raise Unsupported('gep into %r' % (ty,))
        if p.obj is None and off.const() == 0:
            return p
        return p.plus(off)

    def idx64(self, st, t, v):
        w = self.width(t)
        if isinstance(v, int):
            return Lin(sgn(v, w))
        if isinstance(v, Undef):
            raise Unsupported('undef index')
        if w < 64:
            v = z3.SignExt(64 - w, v)
        v = z3.simplify(v)
        return self.canon(st, Lin.of(v))

    def canon(self, st, lin):
        """Replace ext(extract(x)) atoms by x where the path shows they are equal."""
        out = Lin(lin.c)
        for k, (e, c) in lin.t.items():
            out = out.add(self.canon_atom(st, e).scale(c))
        return out

    def canon_atom(self, st, e):
        if z3.is_app(e):
            k = e.decl().kind()
            inner = None
            if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                inner = e.arg(0)
            elif k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
                inner = e.arg(1)
            if inner is not None:
                w = inner.size()
                cand = self.widen(inner)
                if cand is not None and self.valid(st, e == cand):
                    return Lin.of(z3.simplify(cand))
        return Lin(0, {e.get_id(): (e, 1)})

    def widen(self, e):
        """A 64-bit expression whose low bits are e, built by undoing truncations."""
        w = e.size()
        if z3.is_bv_value(e):
            return z3.BitVecVal(sgn(e.as_long(), w), 64)
        k = e.decl().kind()
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            if lo == 0 and e.arg(0).size() == 64:
                return e.arg(0)
            return None
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL):
            ch = [self.widen(x) for x in e.children()]
            if all(x is not None for x in ch):
                r = ch[0]
                for x in ch[1:]:
                    r = r + x if k == z3.Z3_OP_BADD else r - x if k == z3.Z3_OP_BSUB else r * x
                return r
        if k == z3.Z3_OP_BNEG:
            x = self.widen(e.arg(0))
            return None if x is None else -x
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED:
            return z3.ZeroExt(64 - w, e)
        return None

    # -------------------------------------------------------------- arithmetic
    def binop(self, st, op, ty, a, b, flags):
        w = self.width(ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                return self.mk(Lin.val(a.p.off.add(b.p.off.scale(-1))))
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.p.plus(Lin.of(b)))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.p.plus(Lin.of(b).scale(-1)))
            raise Unsupported('arithmetic on pointer integers: ' + op)
        if w == 1:
            if op in ('and', 'mul'):
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                    return bool(a) != bool(b)
                if isinstance(b, (bool, int)):
                    return b_not(a) if b else a
                if isinstance(a, (bool, int)):
                    return b_not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & mask if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Unsupported('division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) & mask
        if w == 64 and op in ('sdiv', 'udiv') and isinstance(b, int) and ('exact' in flags):
            r = Lin.of(a if isinstance(a, int) else z3.simplify(a)).div(b)
            if r is not None:
                return self.mk(r.val())
        if w == 64 and op == 'ashr' and 'exact' in flags and isinstance(b, int):
            r = Lin.of(a if isinstance(a, int) else z3.simplify(a)).div(1 << b)
            if r is not None:
                return self.mk(r.val())
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, y != 0, self.oname(st, 'division by zero'), 'safety')
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'srem': z3.SRem}.get(op, lambda p, q: p / q)(x, y)
        else:
            raise Unsupported(op)
        return self.mk(r)

    def mk(self, e):
        if isinstance(e, (bool, int)):
            return e
        return simp(e)

    def oname(self, st, what):
        fr = st.frames[-1]
        return '%s: %s' % (self.where(st), what)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, PInt):
            a = a.p
            if isinstance(b, int) and b == 0:
                b = NULL
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.name == b.name
            else:
                e = False
            return e if pred == 'eq' else (not e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                raise Unsupported('ordering of pointers into different objects')
            d = a.off.add(b.off.scale(-1))
            c = d.const()
            x, y = (c, 0) if c is not None else (None, None)
            if c is not None:
                return {'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0,
                        'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[pred]
            # equality/order of element indices, not bytes, where both are multiples
            for n in (32, 16, 8, 4, 2):
                q = d.div(n)
                if q is not None:
                    d = q
                    break
            e = d.val()
            z = z3.BitVecVal(0, 64)
            if pred in ('eq', 'ne'):
                r = e == z
                return self.mk(r if pred == 'eq' else z3.Not(r))
            return self.mk({'ult': e < z, 'ule': e <= z, 'ugt': e > z, 'uge': e >= z,
                            'slt': e < z, 'sle': e <= z, 'sgt': e > z, 'sge': e >= z}[pred])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer compared with integer')
        w = self.width(ty)
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                a, b = int(a), int(b)
            else:
                if pred == 'eq' or pred == 'ne':
                    if isinstance(a, (bool, int)):
                        a, b = b, a
                    if isinstance(b, (bool, int)):
                        r = a if b else b_not(a)
                    else:
                        r = a == b
                    return r if pred == 'eq' else b_not(r)
                f = lambda q: bv(int(q), 1) if isinstance(q, (bool, int)) else z3.If(q, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                a, b = f(a), f(b)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 't': a < b, 'e': a <= b}[pred] if pred in ('eq', 'ne') else \
                {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return self.mk(r)

    def cast(self, st, op, fty, v, tty):
        if isinstance(v, Undef):
            return UNDEF
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            raise Unsupported('inttoptr')
        if op not in ('zext', 'sext', 'trunc'):
            raise Unsupported('cast ' + op)
        fw, tw = self.width(fty), self.width(tty)
        if isinstance(v, PInt):
            raise Unsupported('pointer integer cast')
        if op == 'trunc':
            if isinstance(v, (bool, int)):
                r = int(v) & ((1 << tw) - 1)
                return bool(r) if tw == 1 else r
            if tw == 1:
                return self.mk(z3.Extract(0, 0, v) == 1)
            return self.mk(z3.Extract(tw - 1, 0, v))
        if fw == 1:
            one = (1 << tw) - 1 if op == 'sext' else 1
            if isinstance(v, (bool, int)):
                return one if v else 0
            return z3.If(v, z3.BitVecVal(one, tw), z3.BitVecVal(0, tw))
        if isinstance(v, int):
            return v if op == 'zext' else sgn(v, fw) & ((1 << tw) - 1)
        return self.mk(z3.ZeroExt(tw - fw, v) if op == 'zext' else z3.SignExt(tw - fw, v))

    # -------------------------------------------------------------- memory
    def fork_lin(self, st, lin, lo, hi, step, what):
        """Concretise a symbolic offset: one state per feasible value in [lo,hi] (multiples of step)."""
        vals = [x for x in range(lo, hi + 1, step)]
        e = lin.val()
        out = []
        self.oblige(st, z3.Or(*[e == z3.BitVecVal(x, 64) for x in vals]), self.oname(st, what), 'safety')
        for x in vals:
            if self.feasible(st, e == z3.BitVecVal(x, 64)):
                s = st.fork()
                s.assume(e == z3.BitVecVal(x, 64))
                out.append((s, x))
        return out

    def load(self, st, ty, p):
        """Returns a value, or a list of (state, value) when it had to fork."""
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if p.obj is None:
            self.fail(st, self.oname(st, 'null pointer is not read'), 'safety', 'load through a null pointer')
            st.assume(False)
            return UNDEF
        o = st.mem.get(p.obj)
        if o is None:
            self.fail(st, self.oname(st, 'object is alive when read'), 'safety', 'load from a dead or unknown object %s' % (p.obj,))
            st.assume(False)
            return UNDEF
        h = getattr(self, 'load_' + o.kind)
        return h(st, ty, p, o)

    def load_glob(self, st, ty, p, o):
        gty, init, isconst = o.info
        if init is None or gty is None:
            raise Unsupported('load from external global ' + str(p.obj))
        if not isconst and self.global_written(p.obj):
            # somebody writes it: nothing is known about it
            return self.freshval(ty)
        size = self.mod.size(ty)
        c = p.off.const()
        if c is not None:
            if c < 0 or c + size > o.size:
                self.fail(st, self.oname(st, 'table index in bounds'), 'safety', 'offset %d of %d' % (c, o.size))
                st.assume(False)
                return UNDEF
            return self.const_at(st, gty, init, c, ty)
        # symbolic offset: all aligned leaves
        step = size
        n = o.size // step
        lin = Lin(p.off.c % step, {}) if p.off.c % step else None
        e = p.off.val()
        # stride: gcd of coefficients
        import math
        g = 0
        for _, cf in p.off.t.values():
            g = math.gcd(g, abs(cf))
        base = p.off.c % g if g else p.off.c
        offs = [x for x in range(base, o.size - size + 1, g)] if g else [base]
        q = p.off.add(Lin(-base)).div(g)
        if q is None or not offs:
            raise Unsupported('odd table offset')
        if len(offs) > 4096:
            raise Unsupported('large table with a symbolic index')
        idx = q.val()
        self.oblige(st, z3.And(idx >= 0, idx <= len(offs) - 1), self.oname(st, 'table index in bounds'), 'safety')
        vals = [self.const_at(st, gty, init, x, ty) for x in offs]
        if any(isinstance(v, (Ptr, FnPtr)) for v in vals):
            out = []
            for k, v in enumerate(vals):
                if self.feasible(st, idx == k):
                    s = st.fork()
                    s.assume(idx == k)
                    out.append((s, v))
            return out
        w = self.width(ty)
        if w == 1:
            raise Unsupported('i1 table')
        # only entries that the index can reach: cheap narrowing by runs
        r = bv(vals[-1], w)
        k = len(vals) - 2
        while k >= 0:
            if vals[k] != vals[k + 1] or is_z3(vals[k]):
                r = z3.If(z3.ULE(idx, z3.BitVecVal(k, 64)), bv(vals[k], w), r)
            k -= 1
        return self.mk(r)

    def global_written(self, name):
        if name in self.globals_init:
            return self.globals_init[name]
        res = False
        for f in self.mod.funcs.values():
            dem = self.mod.demangled.get(f.name, '')
            if f.name.startswith('@__cxx_global_var_init') or f.name.startswith('@_GLOBAL__sub_I'):
                continue
            for b in f.blocks.values():
                for i in b:
                    if i.op == 'store' and self.mentions(i.a[1], name):
                        res = True
                    elif i.op == 'store' and self.mentions(i.a[0], name):
                        res = True
                    elif i.op == 'call' and any(self.mentions(x[1], name) for x in i.a):
                        d = self.mod.demangled.get(i.extra[1], '') if i.extra[0] == 'glob' else ''
                        if not (d.endswith(' const') or 'const&' in d):
                            res = True
                    elif i.op == 'getelementptr' and self.mentions(i.a[0][1], name):
                        # a derived pointer: look whether it is stored through in the same function
                        if self.derived_written(f, i.dst):
                            res = True
        self.globals_init[name] = res
        return res

    def derived_written(self, f, reg):
        regs = {reg}
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                for i in b:
                    if i.dst and i.dst not in regs:
                        if i.op == 'getelementptr' and i.a[0][1][0] == 'loc' and i.a[0][1][1] in regs:
                            regs.add(i.dst); ch = True
                        elif i.op == 'phi' and any(v[0] == 'loc' and v[1] in regs for v, _ in i.a):
                            regs.add(i.dst); ch = True
                        elif i.op == 'select' and any(v[0] == 'loc' and v[1] in regs for v in i.a[1:]):
                            regs.add(i.dst); ch = True
        for b in f.blocks.values():
            for i in b:
                if i.op == 'store' and any(v[0] == 'loc' and v[1] in regs for v in i.a):
                    return True
        return False

    def mentions(self, o, name):
        if o is None:
            return False
        if o[0] == 'glob':
            return o[1] == name
        if o[0] == 'cgep':
            return any(self.mentions(x, name) for _, x in o[2])
        if o[0] == 'ccast':
            return self.mentions(o[3], name)
        if o[0] == 'cbin':
            return self.mentions(o[3], name) or self.mentions(o[4], name)
        return False

    def const_at(self, st, gty, init, off, ty):
        gty = self.mod.resolve(gty)
        size = self.mod.size(ty)
        if init[0] == 'zero':
            return self.val(st, ty, ('zero',))
        if init[0] == 'undef':
            return UNDEF
        if isinstance(gty, tuple) and gty[0] == 'arr':
            es = self.mod.size(gty[2])
            k = off // es
            if k >= gty[1]:
                raise Unsupported('constant index')
            if init[0] == 'bytes':
                if size == 1:
                    return init[1][off]
                return int.from_bytes(init[1][off:off + size], 'little')
            if init[0] != 'agg':
                raise Unsupported('initializer')
            return self.const_at(st, gty[2], init[1][k][1], off - k * es, ty)
        if isinstance(gty, tuple) and gty[0] == 'struct':
            offs, _ = self.mod.struct_layout(gty)
            k = max(j for j in range(len(offs)) if offs[j] <= off)
            return self.const_at(st, gty[1][k], init[1][k][1], off - offs[k], ty)
        if off != 0 or self.mod.size(gty) != size:
            raise Unsupported('partial constant load')
        return self.val(st, gty, init)

    def freshval(self, ty, name='v'):
        if ty == 'ptr':
            raise Unsupported('unknown pointer value')
        w = self.width(ty)
        return self.fresh(name, w)

    def load_mem(self, st, ty, p, o):
        size = self.mod.size(ty)
        c = p.off.const()
        if c is None:
            if o.size is None:
                raise Unsupported('symbolic offset into unsized object')
            res = self.fork_lin(st, p.off, 0, o.size - size, size, 'array index in bounds')
            return [(s, self.load_mem(s, ty, Ptr(p.obj, Lin(x)), s.mem[p.obj])) for s, x in res]
        if o.size is not None and (c < 0 or c + size > o.size):
            self.fail(st, self.oname(st, 'memory index in bounds'), 'safety', 'offset %d of %d' % (c, o.size))
            st.assume(False)
            return UNDEF
        v = o.cells.get(c)
        if v is not None and v[0] == size:
            return self.coerce(v[1], ty)
        # exact tiling or extraction
        for off, x in o.cells.items():
            if isinstance(off, int) and off <= c and off + x[0] >= c + size and (off, x[0]) != (c, size):
                return self.mk(z3.Extract((c - off + size) * 8 - 1, (c - off) * 8, bv(self.asbv(x[1], x[0] * 8), x[0] * 8)))
        parts = []
        q = c
        while q < c + size:
            x = o.cells.get(q)
            if x is None or q + x[0] > c + size:
                break
            parts.append(x)
            q += x[0]
        if q == c + size and parts:
            if any(isinstance(x[1], Undef) for x in parts):
                return UNDEF
            bs = [bv(self.asbv(x[1], x[0] * 8), x[0] * 8) for x in parts]
            r = z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
            return self.coerce(self.mk(r), ty)
        if ('z',) in o.cells:
            return self.val(st, ty, ('zero',))
        if any(isinstance(k, tuple) for k in o.cells):
            raise Unsupported('raw access to a library object')
        return UNDEF

    def asbv(self, v, w):
        if isinstance(v, bool):
            return int(v)
        if z3.is_bool(v) if is_z3(v) else False:
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, (int,)) or is_z3(v):
            return v
        raise Unsupported('mixed access')

    def coerce(self, v, ty):
        if isinstance(ty, tuple) and ty[0] == 'i':
            if ty[1] == 1 and not (isinstance(v, bool) or isinstance(v, Undef)):
                if isinstance(v, int):
                    return bool(v & 1)
                if is_z3(v) and not z3.is_bool(v):
                    return self.mk(z3.Extract(0, 0, v) == 1)
            if ty[1] > 1 and is_z3(v) and z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, ty[1]), z3.BitVecVal(0, ty[1]))
            if ty[1] > 1 and isinstance(v, bool):
                return int(v)
        return v

    def framed(self, st):
        """A write that stays within the frame: one obligation per place in the code."""
        if self.quiet or not st.frames:
            return
        fr = st.frames[-1]
        k = (fr.f.name, fr.blk, fr.idx)
        if k not in self.frame_sites:
            self.frame_sites.add(k)
            self.obls.append(Obligation(self.oname(st, 'only its own objects are written'), 'frame', True, None, 0))

    def store(self, st, ty, v, p):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if p.obj is None:
            self.fail(st, self.oname(st, 'null pointer is not written'), 'safety', 'store through a null pointer')
            st.assume(False)
            return None
        o = st.mem.get(p.obj)
        if o is None:
            self.fail(st, self.oname(st, 'object is alive when written'), 'safety', 'store to a dead or unknown object')
            st.assume(False)
            return None
        if o.kind == 'mem' and isinstance(p.obj, str) and self.is_guard(p.obj) and not o.ro:
            ob = self.guarded(p.obj)
            if not self.fixed_cells(st.mem[ob]):
                raise Unsupported('a static object whose first value is not known')
            st.wobj(ob).ro = True
            o = st.wobj(p.obj)
            o.ro, o.cells = True, {0: (1, 1)}
            return None
        if o.kind == 'glob' or o.ro:
            if o.kind == 'glob' and self.opts.get('allow_global_store'):
                raise Unsupported('store to a global')
            if o.kind == 'glob' and self.is_guard(p.obj):
                return None
            self.fail(st, self.oname(st, 'only its own objects are written'), 'frame' if o.kind == 'glob' or is_static(p.obj) else 'frame-in', 'store to %s' % (p.obj,))
            if o.kind == 'glob':
                self.written_globals.add(p.obj)
                return None
            st.assume(False)
            return None
        self.framed(st)
        if o.kind != 'mem':
            h = getattr(self, 'store_' + o.kind, None)
            if h is None:
                raise Unsupported('store into ' + o.kind)
            return h(st, ty, v, p, o)
        size = self.mod.size(ty)
        c = p.off.const()
        if c is None:
            res = self.fork_lin(st, p.off, 0, o.size - size, size, 'array index in bounds')
            out = []
            for s, x in res:
                self.store(s, ty, v, Ptr(p.obj, Lin(x)))
                out.append((s, None))
            return out
        if o.size is not None and (c < 0 or c + size > o.size):
            self.fail(st, self.oname(st, 'memory index in bounds'), 'safety', 'store at %d of %d' % (c, o.size))
            st.assume(False)
            return None
        o = st.wobj(p.obj)
        if isinstance(v, Agg):
            rt = self.mod.resolve(ty)
            if rt[0] == 'struct':
                offs, _ = self.mod.struct_layout(rt)
                for k, x in enumerate(v.v):
                    self.store(st, rt[1][k], x, Ptr(p.obj, Lin(c + offs[k])))
            else:
                es = self.mod.size(rt[2])
                for k, x in enumerate(v.v):
                    self.store(st, rt[2], x, Ptr(p.obj, Lin(c + k * es)))
            return None
        for off in [k for k in o.cells if isinstance(k, int)]:
            x = o.cells[off]
            if off < c + size and off + x[0] > c and (off, x[0]) != (c, size):
                # split the overlapped cell into bytes
                full = bv(self.asbv(x[1], x[0] * 8), x[0] * 8) if not isinstance(x[1], (Undef,)) else None
                del o.cells[off]
                if full is None:
                    continue
                for j in range(x[0]):
                    if not (c <= off + j < c + size):
                        o.cells[off + j] = (1, self.mk(z3.Extract(j * 8 + 7, j * 8, full)))
        o.cells[c] = (size, v)
        return None

    def is_guard(self, name):
        return name.startswith('@_ZGV') or name.startswith('@"_ZGV')

    # -------------------------------------------------------------- driving
    def run(self, st, stop=None):
        """Explore all paths from st.  Returns end states as (kind, state)."""
        work = [st]
        ends = []
        while work:
            s = work.pop()
            while True:
                r = self.step(s, stop)
                if r is None:
                    continue
                if r[0] == 'fork':
                    work.extend(reversed(r[1]))
                    break
                if r[0] == 'dead':
                    break
                ends.append(r)
                break
            if len(ends) > self.opts.get('max_ends', 20000):
                raise Budget('too many paths')
        return ends

    def jump(self, st, target, stop):
        fr = st.frames[-1]
        src = fr.blk
        depth = len(st.frames)
        loops = loops_of(fr.f)
        fr.prev = src
        fr.blk = target
        fr.idx = 0
        if stop is not None and depth == stop.depth:
            if target == stop.header:
                return ('back', st)
            if target not in stop.body:
                return ('exit', st)
        if target in loops:
            body = loops[target]
            key = (fr.f.name, target)
            if src in body and self.peel and self.loopmode.get(key) == 'inv':
                # one iteration has been run as it is, the rest goes through the invariant
                return ('fork', self.do_loop(st, target, body, stop))
            if src in body:
                # back edge of an unrolled loop
                v = fr.visits.get(target, (0, 0, st.nbuf, len(st.pc)))
                nb = v[0] + (1 if st.nbuf > v[2] else 0)
                nt = v[1] + (1 if len(st.pc) > v[3] else 0)
                fr.visits[target] = (nb, nt, st.nbuf, len(st.pc))
                if True:
                    if nb > self.opts.get('unroll', 9) and nb > self.table_walk(fr, target, body) or nt > 1200:
                        raise UnrollLimit(key)
            else:
                fr.visits[target] = (0, 0, st.nbuf, len(st.pc))
                if self.loopmode.get(key) == 'inv' and not self.peel:
                    return ('fork', self.do_loop(st, target, body, stop))
        return None

    def table_walk(self, fr, header, body):
        """How many turns a loop may take that walks a constant table (0 if it does not)."""
        for i in fr.f.blocks[header]:
            if i.op != 'phi':
                break
            v = fr.env.get(i.dst)
            if isinstance(v, Ptr) and isinstance(v.obj, str) and v.obj.startswith('@') and v.off.const() is not None:
                return 66
            if isinstance(v, int) and not isinstance(v, bool):
                names = {i.dst}
                for b in body:
                    for j in fr.f.blocks[b]:
                        if j.op in ('zext', 'sext', 'add') and any(x == ('loc', n) for x in j.a for n in names):
                            names.add(j.dst)
                        if j.op == 'icmp' and any(x == ('loc', n) for x in j.a for n in names):
                            for x in j.a:
                                if x[0] == 'int' and 9 <= x[1] <= 64:
                                    return 66
        return 0

    def step(self, st, stop):
        if st.pending is not None:
            k = st.pending
            st.pending = None
            return (k, st)
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk]
        if fr.idx == 0 and ins[0].op == 'phi':
            vals = []
            k = 0
            while ins[k].op == 'phi':
                for v, l in ins[k].a:
                    if l == fr.prev:
                        vals.append((ins[k].dst, self.val(st, ins[k].ty, v)))
                        break
                else:
                    raise Unsupported('phi')
                k += 1
            for d, v in vals:
                fr.env[d] = v
            fr.idx = k
            return None
        i = ins[fr.idx]
        op = i.op
        if op == 'br':
            return self.jump(st, i.a[0], stop)
        if op == 'cbr':
            c = self.val(st, ('i', 1), i.a[0])
            if isinstance(c, Undef):
                if self.lost:
                    raise Unsupported('a loop variable with no template')
                self.fail(st, self.oname(st, 'no undefined value decides a branch'), 'safety', 'branch on an undefined value')
                return ('dead',)
            if isinstance(c, (bool, int)):
                return self.jump(st, i.a[1] if c else i.a[2], stop)
            return self.branch2(st, c, i.a[1], i.a[2], stop)
        if op == 'switch':
            return self.do_switch(st, i, stop)
        if op == 'ret':
            return self.do_ret(st, i)
        if op == 'unreachable':
            self.fail(st, self.oname(st, 'unreachable code is not reached'), 'safety', 'unreachable')
            return ('dead',)
        fr.idx += 1
        r = self.simple(st, i)
        if isinstance(r, list):
            # forked: (state, value)
            out = []
            for s, v in r:
                if i.dst is not None:
                    s.frames[-1].env[i.dst] = v
                out.append(s)
            return ('fork', out)
        if isinstance(r, tuple):
            return r
        return None

    def branch2(self, st, c, t1, t2, stop):
        f1 = self.feasible(st, c)
        f2 = self.feasible(st, z3.Not(c))
        if not f1 and not f2:
            return ('dead',)
        if f1 and f2:
            s2 = st.fork()
            s2.assume(z3.Not(c))
            st.assume(c)
            out = []
            for s, t in ((s2, t2), (st, t1)):
                r = self.jump(s, t, stop)
                if r is None:
                    out.append(s)
                elif r[0] == 'fork':
                    out.extend(r[1])
                else:
                    s.pending = r[0]
                    out.append(s)
            return ('fork', out)
        if f1:
            st.assume(c)
            return self.jump(st, t1, stop)
        st.assume(z3.Not(c))
        return self.jump(st, t2, stop)

    def do_switch(self, st, i, stop):
        v = self.val(st, i.ty, i.a[0])
        if isinstance(v, Undef):
            if self.lost:
                raise Unsupported('a loop variable with no template')
            self.fail(st, self.oname(st, 'no undefined value decides a branch'), 'safety', 'switch on an undefined value')
            return ('dead',)
        w = self.width(i.ty)
        if isinstance(v, (bool, int)):
            for c, l in i.a[2]:
                if int(v) == (c[1] & ((1 << w) - 1)):
                    return self.jump(st, l, stop)
            return self.jump(st, i.a[1], stop)
        groups = {}
        for c, l in i.a[2]:
            groups.setdefault(l, []).append(c[1] & ((1 << w) - 1))
        opts = []
        allc = []
        for l, cs in groups.items():
            cond = b_or(*[v == z3.BitVecVal(c, w) for c in cs])
            allc.append(cond)
            opts.append((cond, l))
        opts.append((z3.And(*[z3.Not(c) for c in allc]), i.a[1]))
        out = []
        alive = [(c, l) for c, l in opts if self.feasible(st, c)]
        for n, (c, l) in enumerate(alive):
            s = st.fork() if n < len(alive) - 1 else st
            out.append((s, c, l))
        res = []
        for s, c, l in out:
            s.assume(c)
            r = self.jump(s, l, stop)
            if r is None:
                res.append(s)
            elif r[0] == 'fork':
                res.extend(r[1])
            else:
                s.pending = r[0]
                res.append(s)
        return ('fork', res) if res else ('dead',)

    def do_ret(self, st, i):
        fr = st.frames[-1]
        v = None if i.a[0] is None else self.val(st, i.ty, i.a[0])
        for k in fr.allocs:
            st.mem.pop(k, None)
        if len(st.frames) == 1:
            st.ret = v
            self.reached_ret += 0 if self.quiet else 1
            return ('ret', st)
        st.frames.pop()
        up = st.frames[-1]
        c = fr.call
        if c.dst is not None:
            up.env[c.dst] = v
        return None

    def simple(self, st, i):
        fr = st.frames[-1]
        op = i.op
        env = fr.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[i.dst] = self.binop(st, op, i.ty, self.val(st, i.ty, i.a[0]), self.val(st, i.ty, i.a[1]), i.extra)
        elif op == 'icmp':
            env[i.dst] = self.icmp(st, i.extra, i.ty, self.val(st, i.ty, i.a[0]), self.val(st, i.ty, i.a[1]))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            env[i.dst] = self.cast(st, op, i.extra, self.val(st, i.extra, i.a[0]), i.ty)
        elif op == 'getelementptr':
            env[i.dst] = self.gep(st, i.ty, [(t, self.val(st, t, x)) for t, x in i.a])
        elif op == 'alloca':
            n = 1
            if i.a[0] is not None:
                n = self.val(st, i.a[0][0], i.a[0][1])
                if not isinstance(n, int):
                    raise Unsupported('variable-length array')
            k = self.newobj('%s.%s' % (fr.f.name[1:20], i.dst))
            st.mem[k] = MObj('mem', self.mod.size(i.ty) * n)
            st.owned.add(k)
            fr.allocs.append(k)
            env[i.dst] = Ptr(k)
        elif op == 'load':
            r = self.load(st, i.ty, self.val(st, 'ptr', i.a[0]))
            if isinstance(r, list):
                return r
            env[i.dst] = r
        elif op == 'store':
            r = self.store(st, i.ty, self.val(st, i.ty, i.a[0]), self.val(st, 'ptr', i.a[1]))
            if isinstance(r, list):
                return r
        elif op == 'select':
            c = self.val(st, ('i', 1), i.a[0])
            a, b = self.val(st, i.ty, i.a[1]), self.val(st, i.ty, i.a[2])
            if isinstance(c, Undef):
                env[i.dst] = UNDEF
            elif isinstance(c, (bool, int)):
                env[i.dst] = a if c else b
            elif i.ty == 'ptr' or isinstance(a, (Undef, PInt, Agg)) or isinstance(b, (Undef, PInt, Agg)):
                out = []
                for cc, v in ((c, a), (z3.Not(c), b)):
                    if self.feasible(st, cc):
                        s = st.fork()
                        s.assume(cc)
                        out.append((s, v))
                return out
            else:
                w = self.width(i.ty)
                if w == 1:
                    env[i.dst] = self.mk(z3.If(c, z3.BoolVal(bool(a)) if isinstance(a, (bool, int)) else a,
                                               z3.BoolVal(bool(b)) if isinstance(b, (bool, int)) else b))
                else:
                    env[i.dst] = self.mk(z3.If(c, bv(a, w), bv(b, w)))
        elif op == 'extractvalue':
            v = self.val(st, i.ty, i.a[0])
            for k in i.a[1]:
                if isinstance(v, Undef):
                    break
                v = v.v[k]
            env[i.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, i.ty, i.a[0])
            x = self.val(st, i.extra, i.a[1])
            rt = self.mod.resolve(i.ty)
            if isinstance(v, Undef):
                n = len(rt[1]) if rt[0] == 'struct' else rt[1]
                v = Agg([UNDEF] * n)
            if len(i.a[2]) != 1:
                raise Unsupported('nested insertvalue')
            v = Agg(v.v)
            v.v[i.a[2][0]] = x
            env[i.dst] = v
        elif op == 'freeze':
            v = self.val(st, i.ty, i.a[0])
            env[i.dst] = self.freshval(i.ty) if isinstance(v, Undef) else v
        elif op == 'call':
            return self.call(st, i)
        elif op == 'unsupported':
            raise Unsupported(str(i.a[0])[:200])
        else:
            raise Unsupported('instruction ' + op)
        return None

    def call(self, st, i):
        if i.extra[0] == 'loc':
            f = self.val(st, 'ptr', i.extra)
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call')
            name = f.name
        else:
            name = i.extra[1]
        name = self.mod.aliases.get(name, name)
        if name.startswith('@llvm.'):
            return self.intrinsic(st, i, name)
        dem = self.mod.demangled.get(name, name)
        args = [(t, self.val(st, t, v) if t != 'metadata' else None) for t, v, _ in i.a]
        h = self.contracts(self, dem, name)
        if h is not None:
            r = h(self, st, i, args, dem)
            if r is not INLINE:
                if isinstance(r, list):
                    return r
                if isinstance(r, tuple):
                    return r
                if i.dst is not None:
                    st.frames[-1].env[i.dst] = r
                return None
        f = self.mod.funcs.get(name)
        if f is None or not f.defined:
            raise Unsupported('call of ' + dem)
        if len(st.frames) > 40 or sum(1 for x in st.frames if x.f is f) > 2:
            raise Unsupported('recursion in ' + dem)
        if not dem.startswith('std::') and not dem.startswith('__gnu_cxx'):
            self.inlined.add(dem)
        nf = Frame(f)
        for (ty, nm, at), (t, v) in zip(f.params, args):
            nf.env[nm] = v
        nf.call = i
        st.frames.append(nf)
        return None

    def intrinsic(self, st, i, name):
        env = st.frames[-1].env
        if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.donothing')):
            return None
        A = [self.val(st, t, v) if t != 'metadata' else None for t, v, _ in i.a]
        if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
            return self.memcpy(st, A[0], A[1], A[2])
        if name.startswith('@llvm.memset'):
            d, v, n = A[:3]
            if not isinstance(n, int) or not isinstance(v, int):
                raise Unsupported('memset')
            for k in range(n):
                self.store(st, ('i', 8), v, d.plus(Lin(k)))
            return None
        w = self.width(i.ty) if i.ty != 'void' else None
        for nm, f in (('umax', z3.UGT), ('umin', z3.ULT), ('smax', lambda a, b: a > b), ('smin', lambda a, b: a < b)):
            if name.startswith('@llvm.%s.' % nm):
                a, b = bv(A[0], w), bv(A[1], w)
                env[i.dst] = self.mk(z3.If(f(a, b), a, b))
                return None
        if name.startswith('@llvm.fshl'):
            a, b, c = bv(A[0], w), bv(A[1], w), A[2]
            if not isinstance(c, int):
                raise Unsupported('fshl')
            c %= w
            env[i.dst] = self.mk((a << c) | z3.LShR(b, w - c)) if c else A[0]
            return None
        if name.startswith('@llvm.usub.sat'):
            a, b = bv(A[0], w), bv(A[1], w)
            env[i.dst] = self.mk(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))
            return None
        if name.startswith('@llvm.abs'):
            a = bv(A[0], w)
            env[i.dst] = self.mk(z3.If(a < 0, -a, a))
            return None
        if name.startswith(('@llvm.trap', '@llvm.ubsantrap')):
            self.fail(st, self.oname(st, 'no trap'), 'safety', 'trap')
            return ('dead',)
        if name.startswith('@llvm.is.constant'):
            env[i.dst] = 0
            return None
        if name.startswith('@llvm.expect'):
            env[i.dst] = A[0]
            return None
        raise Unsupported(name)

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic length')
        if s.obj is None or d.obj is None:
            if n == 0:
                return None
            raise Unsupported('memcpy null')
        so = st.mem.get(s.obj)
        if so is None:
            raise Unsupported('memcpy from dead object')
        sc, dc = s.off.const(), d.off.const()
        if so.kind == 'mem' and sc is not None and dc is not None:
            if any(isinstance(k, tuple) and k[0] != 'z' for k in so.cells):
                raise Unsupported('memcpy of library object')
            items = [(k, v) for k, v in so.cells.items() if isinstance(k, int) and sc <= k and k + v[0] <= sc + n]
            for k, v in items:
                self.store(st, ('i', v[0] * 8) if not isinstance(v[1], Ptr) else 'ptr', v[1], Ptr(d.obj, Lin(dc + k - sc)))
            return None
        # element by element
        w = 1
        if so.kind in ('buf', 'glob', 'sdata'):
            info_w = getattr(so.info, 'w', None) if so.kind != 'glob' else None
            w = info_w or 1
        for k in range(0, n, w):
            v = self.load(st, ('i', 8 * w), s.plus(Lin(k)))
            if isinstance(v, list):
                raise Unsupported('forking memcpy')
            r = self.store(st, ('i', 8 * w), v, d.plus(Lin(k)))
        return None
