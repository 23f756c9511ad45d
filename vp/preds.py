"""Predicates: the class invariant of EncodingCheckPredicate.  Every object a user can build is reached
by a fixpoint over the real constructors and appendors (their words are finite); each reached object is
paired with the classes asked for and excluded, and operator() is shown to be that conjunction on a
symbolic character, the classes themselves being uninterpreted."""
import time
from proofs import *
from tables import *

NAMES = {1: 'assigned', 2: 'private', 3: 'control', 4: 'white'}
PROBES = [0x41, 0x20, 0x07, 0x09, 0x0, 0x7f, 0x85, 0x9f, 0xA0, 0xff]
PROBES32 = PROBES + [0xE000, 0x378, 0xD800, 0xffff, 0x3000, 0x10FFFF, 0x100000, 0x110000, 0xffffffff, 0x1F600]


def pred_step(mod, entry, this, t):
    """All outcomes of a predicate operation: [(words of the result, words of the object)], t concrete, or None: any
    value that names no class."""
    ex = LoopExec(mod, all_contracts, {'inline': set()})
    ex.deadline = time.time() + 30
    st = State()
    f = mod.funcs.get('@' + entry)
    if f is None or not f.defined:
        raise Unsupported('entry point %s is not there' % entry)
    fr = Frame(f)
    st.frames.append(fr)
    n = pred_size(ex)
    st.mem['o'] = MObj('mem', n)
    args = [Ptr('o')]
    if this is not None:
        st.mem['this'] = MObj('mem', n, {4 * k: (4, w) for k, w in enumerate(this)})
        args.append(Ptr('this'))
    if t != 'none':
        if t is None:
            v = z3.BitVec('t', 32)
            st.assume(z3.Or(v == 0, z3.UGT(v, 4)))
            args.append(v)
        else:
            args.append(t)
    if len(f.params) != len(args):
        raise Unsupported('entry point has %d parameters' % len(f.params))
    for (ty, nm, at), v in zip(f.params, args):
        fr.env[nm] = v
    out = []
    for kind, s in ex.run(st):
        if not ex.feasible(s):
            continue
        if kind != 'ret':
            raise Unsupported('end state ' + kind)

        def words(k):
            ws = []
            for j in range(n // 4):
                v = ex.load(s, ('i', 32), Ptr(k, Lin(4 * j)))
                if is_z3(v):
                    v = simp(v)
                if not isinstance(v, int):
                    raise Unsupported('predicate bytes')
                ws.append(v)
            return tuple(ws)
        out.append((words('o'), words('this') if this is not None else None))
    return out, ex


def reach(mod, obls, single=False):
    """{(words, asked, excluded): chain that builds it}"""
    seen, todo = {}, []

    def add(ws, pos, neg, chain):
        if (ws, pos, neg) not in seen:
            seen[(ws, pos, neg)] = chain
            todo.append((ws, pos, neg, chain))
            if len(seen) > 3000:
                raise Unsupported('too many predicate values')

    def op(entry, this, t, pos, neg, chain, sg):
        outs, ex = pred_step(mod, entry, this, t)
        obls.extend(ex.obls)
        if t is not None and t != 'none':
            pos, neg = (pos | {t}, neg) if sg == '+' else (pos, neg | {t})
        c = chain + (sg + str(0 if t is None else t) if t != 'none' else '')
        for o, th in outs:
            add(o, pos, neg, c)
            if th is not None:
                add(th, pos, neg, c)
    E = frozenset()
    op('e_pred_default', None, 'none', E, E, 'p', '')
    for t in (1, 2, 3, 4, None):
        op('e_pred_if', None, t, E, E, 'p', '+')
        op('e_pred_ifnot', None, t, E, E, 'p', '-')
    while todo and not single:
        ws, pos, neg, chain = todo.pop(0)
        for t in (1, 2, 3, 4, None):
            op('e_pred_andif', ws, t, pos, neg, chain, '+')
            op('e_pred_andifnot', ws, t, pos, neg, chain, '-')
    return seen


def probe_lines(w, chain):
    return ['e_pred_%d %s %d' % (8 * w, chain, c) for c in (PROBES if w == 1 else PROBES32) if c < 1 << 8 * w] + \
           (['x_pred_chain %s %d' % (chain, c) for c in PROBES32] if w == 4 else [])


def pred_goal(w, single=False):
    name = 'EncodingCheckPredicate::operator()(%s), %s' % (CN[w], 'predicates of one class' if single else 'every predicate that can be built')

    def fn(mod, extra):
        r = Run(name)
        t0 = time.time()
        used, inl, nq, tq = {}, set(), 0, 0
        try:
            obls = []
            r.obls = obls
            seen = reach(mod, obls, single)
            f = mod.funcs.get('@e_pred_%d' % (8 * w))
            for (ws, pos, neg), chain in seen.items():
                if single and len(pos) + len(neg) != 1:
                    continue
                ex = LoopExec(mod, all_contracts, {'inline': direct(mod, 'e_pred_%d' % (8 * w))})
                ex.deadline = t0 + 150
                st = State()
                fr = Frame(f)
                st.frames.append(fr)
                n = pred_size(ex)
                st.mem['param pred'] = MObj('mem', n, {4 * k: (4, x) for k, x in enumerate(ws)}, True)
                c = z3.BitVec('c', 8 * w)
                for (ty, nm, at), v in zip(f.params, [Ptr('param pred'), c]):
                    fr.env[nm] = v
                x = z3.ZeroExt(32 - 8 * w, c) if w < 4 else c
                x = z3.simplify(x)
                want = z3.And(*([cls[NAMES[t]](x) for t in sorted(pos)] + [z3.Not(cls[NAMES[t]](x)) for t in sorted(neg)] + [z3.BoolVal(True)]))
                for kind, s in ex.run(st):
                    if not ex.feasible(s):
                        continue
                    if kind != 'ret':
                        raise Unsupported('end state ' + kind)
                    if isinstance(s.ret, Undef) or s.ret is None:
                        ex.fail(s, 'result is defined', 'post', 'no result')
                        continue
                    ex.oblige(s, eqv(ex, s, ('i', 1), s.ret, want), 'operator() of %s is the conjunction asked for' % (chain if chain != 'p' else 'a default predicate'), 'post')
                for o in ex.obls:
                    if not o.ok:
                        o.info['lines'] = probe_lines(w, chain)
                obls.extend(ex.obls)
                used.update(ex.used_contracts)
                inl |= ex.inlined
                nq += ex.nq
                tq += ex.tq
                if sum(1 for o in obls if not o.ok) > 12:
                    break
            r.predicates = len(seen)
        except (Unsupported, Budget, Enough) as e:
            r.reason = '%s: %s' % (type(e).__name__, e)
        except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, AssertionError, RecursionError, ir.IRError) as e:
            r.reason = 'generator error: %r' % (e,)
            r.trace = traceback.format_exc()
        r.secs = time.time() - t0
        r.stats = {'queries': nq, 'solver_s': round(tq, 3), 'contracts_used': used, 'inlined': sorted(inl), 'invariants': {}, 'loops_cut': []}
        return r
    return G(name, 'e_pred_%d' % (8 * w), None, None, fn=fn, budget=150)


def pred_goals(single=False):
    return [pred_goal(w, single) for w in (1, 2, 4)]
