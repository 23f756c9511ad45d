"""The proof goals: for each entry point its precondition, its contract and the specification behind it."""
import re, sys, time, traceback, z3
import ir
from contracts import *

sys.setrecursionlimit(20000)


STRATEGIES = [{}, {'restart': True}, {'peel': 1}, {'peel': 1, 'restart': True}, {'ahead': 1}, {'walk': 1}, {'ahead': 1, 'peel': 1, 'restart': True}]


class Run:
    """Outcome of one goal."""

    partial = False

    def __init__(self, name):
        self.name = name
        self.obls = []
        self.reason = None       # why the goal is out of reach, if it is
        self.secs = 0
        self.stats = {}

    @property
    def failed(self):
        return [o for o in self.obls if not o.ok]

    @property
    def ok(self):
        return self.reason is None and not self.failed and self.obls


class Ctx:
    """Builds the initial state of a goal."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st
        self.args = []
        ex.lens = []
        ex.params = {}
        ex.argspec = []
        self.bound = ex.opts.get('bound')

    def buf(self, name, w, mode='nul', N=None, nonul=False):
        ex, st = self.ex, self.st
        term = z3.Const('buf_' + name, BSORT[w])
        if N is None:
            if self.bound is not None:
                N = z3.BitVecVal(self.bound, 64)
            else:
                N = z3.BitVec('N_' + name, 64)
                st.assume(z3.ULE(N, MAXLEN))
                ex.lens.append(N)
        b = BufInfo(name, w, mode, term, N, nonul)
        st.mem['param ' + name] = MObj('buf', None, {}, True, b)
        ex.params['N_' + name] = N
        ex.bufs = getattr(ex, 'bufs', {})
        ex.bufs[name] = b
        ex.argspec.append(('buf', w, term, N, mode))
        self.args.append(Ptr('param ' + name))
        return b

    def null(self):
        self.ex.argspec.append(('null',))
        self.args.append(NULL)

    def string(self, name, w, ro=True, cstr=False):
        ex, st = self.ex, self.st
        t = z3.Const('str_' + name, SSORT[w])
        ex.len_axiom(st, w, t)
        o = MObj('mem', 32, {(0, 'str'): SV(w, (('t', t),))}, ro)
        st.mem['param ' + name] = o
        if self.bound is not None:
            st.assume(len_f[w](t) == self.bound)
        else:
            ex.lens.append(len_f[w](t))
        ex.params['len_' + name] = len_f[w](t)
        ex.argspec.append(('str', w, t))
        self.args.append(Ptr('param ' + name))
        if cstr:
            # its characters up to the first NUL, as a buffer
            N = nul_f[w](t)
            if self.bound is not None:
                st.assume(N == self.bound)
                N = z3.BitVecVal(self.bound, 64)
            b = BufInfo(name, w, 'nul', cstr_f[w](t), N)
            b.lim = len_f[w](t)
            ex.argspec[-1] = ('strb', w, cstr_f[w](t), N)
            st.mem['param ' + name + '.c_str'] = MObj('buf', None, {}, True, b)
            o.info = ('cstr', 'param ' + name + '.c_str')
            return b
        return t

    def sret(self, size=32):
        self.st.mem['result'] = MObj('mem', size)
        self.args.append(Ptr('result'))

    def scalar(self, name, w):
        v = z3.BitVec(name, w)
        self.ex.params[name] = v
        self.ex.argspec.append(('num', v))
        self.args.append(v)
        return v

    def const(self, v):
        self.ex.argspec.append(('num', v))
        self.args.append(v)
        return v

    def obj(self, name, cells=None, size=8, ro=True):
        self.st.mem['param ' + name] = MObj('mem', size, cells or {}, ro)
        self.args.append(Ptr('param ' + name))
        return Ptr('param ' + name)

    def pred(self, state=None):
        """A predicate object: given bytes, or unknown bytes with operator() by contract."""
        ex, st = self.ex, self.st
        n = pred_size(ex)
        cells = {}
        for k in range(n // 4):
            cells[4 * k] = (4, state[k] if state is not None else z3.BitVec('pred_%d' % k, 32))
        st.mem['param pred'] = MObj('mem', n, cells, True)
        self.args.append(Ptr('param pred'))
        ex.argspec.append(('pred', state is None))
        if state is None:
            ex.pred_obj = 'param pred'
            ex.pred_val = pred_bits(ex, st, Ptr('param pred'))[0]
            ex.pred_default = z3.BitVecVal(pack(ex.opts['pred_default']), 8 * n)
        return pred_bits(ex, st, Ptr('param pred'))


def pack(words):
    r = 0
    for k, w in enumerate(words):
        r |= (w & 0xffffffff) << (32 * k)
    return r


def direct(mod, entry):
    """The library functions an entry point calls: those a goal on it is about, so never taken by contract there."""
    f = mod.funcs.get('@' + entry)
    out = set()
    if f is not None and f.defined:
        for b in f.blocks.values():
            for i in b:
                if i.op in ('call', 'invoke') and i.extra and i.extra[0] != 'loc':
                    n = mod.aliases.get(i.extra[1], i.extra[1])
                    d = mod.demangled.get(n, n)
                    if ours(d) and 'EncodingCheckPredicate::EncodingCheckPredicate' not in d:
                        out.add(d)
    return out


def execute(mod, name, entry, setup, post, opts=None, budget=120, cls_=None):
    """Run one goal under the proof strategies in turn; the first that discharges everything counts."""
    opts = dict(opts or {})
    opts['inline'] = set(opts.get('inline', ())) | direct(mod, entry)
    best = None
    t0 = time.time()
    deadline = t0 + budget
    loopmode = {}
    strategies = opts.pop('strategies', None) or STRATEGIES
    strategies = list(strategies)
    while strategies:
        strat = strategies.pop(0)
        if best is not None:
            # another strategy gets little: if the first one failed, most likely nothing will do
            if time.time() > t0 + budget * 0.7 or (best.reason is None and time.time() > t1 + max(15, 2 * (t1 - t0))):
                break
            dl = min(deadline, time.time() + max(10, 2 * (t1 - t0)))
        else:
            dl = deadline
        o = dict(opts)
        o.update(strat)
        o['loopmode'] = dict(loopmode)
        r = attempt(mod, name, entry, setup, post, o, dl, cls_)
        if best is None:
            t1 = time.time()
            if {'walk': 1} in strategies and any('ends once the specification' in x.name for x in r.failed):
                # a loop that goes on where the specification has ended: maybe it only looks for the end of the source
                strategies.remove({'walk': 1})
                strategies.insert(0, {'walk': 1})
        loopmode = o['loopmode']
        r.strategy = strat
        if best is None or rank(r) > rank(best):
            best = r
        if r.ok:
            break
        if not loopmode:
            break       # no loops were cut: other strategies change nothing
    best.secs = time.time() - t0
    return best


def rank(r):
    if r.ok:
        return (2, 0)
    if r.reason is None:
        return (1, -len(r.failed))
    return (0, 0)


def attempt(mod, name, entry, setup, post, opts, deadline, cls_=None):
    r = Run(name)
    f = mod.funcs.get('@' + entry)
    if f is None or not f.defined:
        r.reason = 'entry point %s is not there' % entry
        return r
    nq = 0
    for tries in range(12):
        ex = (cls_ or LoopExec)(mod, all_contracts, opts)
        ex.deadline = deadline
        st = State()
        try:
            c = Ctx(ex, st)
            fr = Frame(f)
            st.frames.append(fr)
            goal = setup(c)
            if len(f.params) != len(c.args):
                raise Unsupported('entry point has %d parameters, not %d' % (len(f.params), len(c.args)))
            for (ty, nm, at), v in zip(f.params, c.args):
                fr.env[nm] = v
            if isinstance(goal, Spec):
                st.ghost = goal.start(ex, st)
            if ex.check(st.pc) != z3.sat:
                raise Unsupported('precondition not shown satisfiable')
            ends = ex.run(st)
            n = 0
            for kind, s in ends:
                if kind != 'ret':
                    raise Unsupported('end state ' + kind)
                if not ex.feasible(s):
                    continue
                n += 1
                if isinstance(goal, Spec) and not opts.get('own_end'):
                    check_lockstep(ex, s, goal, name, post)
                else:
                    post(ex, s, goal)
            if n == 0:
                ex.obls.append(Obligation(name + ': returns', 'termination', False, {'status': 'no return is reachable'}))
            r.obls = ex.obls
            r.reason = None
        except UnrollLimit as u:
            opts['loopmode'][u.key] = 'inv'
            nq += ex.nq
            continue
        except Enough:
            r.obls = ex.obls
            r.reason = None
            r.partial = True
        except (Unsupported, Budget) as e:
            r.reason = '%s: %s' % (type(e).__name__, e)
            r.obls = ex.obls
        except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, AssertionError, RecursionError, ir.IRError) as e:
            r.reason = 'generator error: %r' % (e,)
            r.trace = traceback.format_exc()
            r.obls = ex.obls
        if ex.approx and r.failed:
            r.reason = 'abstracted: ' + ex.approx
            r.obls = [o for o in r.obls if o.ok]
        r.stats = {'queries': ex.nq + nq, 'solver_s': round(ex.tq, 3), 'contracts_used': dict(ex.used_contracts),
                   'inlined': sorted(ex.inlined), 'invariants': getattr(ex, 'inv_text', {}),
                   'loops_cut': [k[0] for k in opts['loopmode']]}
        return r
    r.reason = 'too many loops'
    return r


def result_value(ex, s, w):
    """Program's result: a string in the result object, or the returned value."""
    if w:
        v = ex.get_sv(s, 'result', 0)
        return v
    return s.ret


def check_lockstep(ex, s, spec, name, post):
    outs = ghost_run(ex, s, 8)
    for q in outs:
        if not ex.feasible(q):
            continue
        if q.ghost.done is None:
            ex.fail(q, name + ': returns only when the specification has ended', 'post', 'returned early')
            continue
        post(ex, q, q.ghost.done)


def eq_result(ex, q, v, want):
    if isinstance(want, SV):
        if v is None:
            return False
        return sv_eq(ex, q, v, want)
    return eqv(ex, q, ('i', 1) if isinstance(want, bool) or (is_z3(want) and z3.is_bool(want)) else ('i', want.size() if is_z3(want) else 32), v, want)


def post_any(name, w):
    """Result is one of the values the specification allows."""
    def post(ex, q, alts):
        v = result_value(ex, q, w)
        if v is None or isinstance(v, Undef):
            ex.fail(q, name + ': result is defined', 'post', 'no result')
            return
        cs = [eq_result(ex, q, v, a) for a in alts]
        c = b_or(*cs)
        ex.oblige(q, c, name + ': result is what the specification says', 'post')
    return post


