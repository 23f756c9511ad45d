"""Reader for textual LLVM 18 IR (the subset clang emits for this library)."""
import re, subprocess

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?\b|0x[0-9A-Fa-f]+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch in ' \t':
            i += 1
            continue
        if ch == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('token at: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'writable', 'nocapture', 'readonly',
    'writeonly', 'readnone', 'immarg', 'dead_on_unwind', 'returned', 'inreg', 'nofree', 'nest',
    'swiftself', 'allocptr', 'allocalign', 'noext'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                 'elementtype', 'range', 'initializes', 'captures', 'preallocated', 'inalloca'}


class P:
    """Token cursor."""

    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v:
            raise IRError('expected %s got %s in %s' % (v, x[1], ' '.join(y[1] for y in self.t)))

    def eof(self):
        return self.i >= len(self.t)

    # types ---------------------------------------------------------
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i[0-9]+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = 'ptr'
            elif v in ('void', 'label', 'metadata', 'float', 'double', 'x86_fp80', 'token', 'opaque'):
                t = v
            else:
                raise IRError('type ' + v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', tuple(self.tlist('}')), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('struct', tuple(self.tlist('}')), True)
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('vec', n, e)
        else:
            raise IRError('type token %s' % v)
        # function type  T (args)
        if self.peek()[1] == '(' and t != 'metadata':
            save = self.i
            try:
                self.next()
                while not self.acc(')'):
                    if self.acc('...') or self.acc(','):
                        continue
                    self.type()
                    self.skip_attrs()
                return ('fn', t)
            except IRError:
                self.i = save
        return t

    def tlist(self, end):
        out = []
        if self.acc(end):
            return out
        while True:
            out.append(self.type())
            if self.acc(end):
                return out
            self.exp(',')

    def skip_attrs(self):
        got = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                got[v] = True
            elif k == 'word' and v in PARAM_ATTRS_P:
                self.next()
                if self.acc('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                elif v == 'align':
                    self.next()
                got[v] = True
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return got

    # values --------------------------------------------------------
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'num':
            return ('int', int(v, 0)) if '.' not in v and not v.startswith('0x') else ('float', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('getelementptr',):
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        while not self.acc(')'):
                            self.next()
                self.exp('(')
                st = self.type()
                self.exp(',')
                ops = []
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.acc(')'):
                        break
                    self.exp(',')
                return ('cgep', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or'):
                while self.peek()[0] == 'word':
                    self.next()
                self.exp('(')
                t = self.type(); a = self.value(t); self.exp(',')
                t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t, a, b)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                raise IRError('constant ' + v)
            raise IRError('value word ' + v)
        if k == 'str':
            s = v[2:-1] if v.startswith('c') else v[1:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if v == '[':
            return ('agg', self.elems(']'))
        if v == '{':
            return ('agg', self.elems('}'))
        if v == '<':
            if self.acc('{'):
                e = self.elems('}')
                self.exp('>')
                return ('agg', e)
            return ('agg', self.elems('>'))
        if k == 'meta':
            # metadata operand, swallow a possible parenthesised tail
            return ('meta', v)
        raise IRError('value %s %s' % (k, v))

    def elems(self, end):
        out = []
        if self.acc(end):
            return out
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.acc(end):
                return out
            self.exp(',')


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'extra')

    def __init__(self, op, dst, ty, a, line=None, extra=None):
        self.op, self.dst, self.ty, self.a, self.line, self.extra = op, dst, ty, a, line, extra

    def __repr__(self):
        return '<%s %s %s %s>' % (self.op, self.dst, self.ty, self.a)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.blocks = {}      # label -> [Inst]
        self.order = []
        self.loops = None
        self.line = None

    @property
    def defined(self):
        return bool(self.blocks)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (ty, init or None, isconst)
        self.funcs = {}
        self.aliases = {}
        self.lines = {}       # metadata id -> line
        self.demangled = {}   # mangled -> normalised demangled
        self.bydem = {}

    # layout ----------------------------------------------------------
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        if t == 'x86_fp80':
            return 16
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            return a
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t == 'ptr' or t == 'double':
            return 8
        if t == 'float':
            return 4
        if t == 'x86_fp80':
            return 16
        if t[0] == 'i':
            a = self.align(t)
            return (((t[1] + 7) // 8) + a - 1) // a * a
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            return self.struct_layout(t)[1]
        raise IRError('size %r' % (t,))

    def struct_layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2] and t[1]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off


SKIP_FN_WORDS = {
    'dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'weak', 'external', 'available_externally',
    'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'linkonce',
    'common', 'appending', 'extern_weak', 'dso_preemptable', 'coldcc', 'tail', 'musttail', 'notail',
    'nnan', 'ninf', 'nsz', 'fast'}


def parse_call(p, dst):
    while p.peek()[1] in SKIP_FN_WORDS:
        p.next()
    p.skip_attrs()
    ty = p.type()
    if isinstance(ty, tuple) and ty[0] == 'fn':
        ty = ty[1]
    k, v = p.next()
    if k not in ('glob', 'loc'):
        if v == 'asm':
            raise IRError('inline asm')
        raise IRError('callee ' + str(v))
    callee = ('glob', v) if k == 'glob' else ('loc', v)
    p.exp('(')
    args = []
    if not p.acc(')'):
        while True:
            t = p.type()
            attrs = p.skip_attrs()
            if t == 'metadata':
                # metadata argument: skip to matching , or )
                d = 0
                while not (d == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    d += (x == '(') - (x == ')')
                args.append((t, ('meta', ''), attrs))
            else:
                args.append((t, p.value(t), attrs))
            if p.acc(')'):
                break
            p.exp(',')
    return Inst('call', dst, ty, args, extra=callee)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign', 'volatile', 'atomic'}


def parse_inst(line, mod):
    t = toks(line)
    dbg = None
    # strip metadata attachments
    for i in range(len(t)):
        if t[i][0] == 'meta' and i > 0 and t[i - 1][1] == ',' and t[i][1] != '!':
            if t[i][1] == '!dbg':
                dbg = t[i + 1][1]
            t = t[:i - 1] + ([] if dbg is None or t[i][1] != '!dbg' else [])
            break
    # (a !dbg after another attachment is rare enough to be lost: only the line number is)
    p = P(t)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    inst = None
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'call':
        inst = parse_call(p, dst)
    elif op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        ty = p.type()
        a = p.value(ty); p.exp(','); b = p.value(ty)
        inst = Inst(op, dst, ty, (a, b), extra=fl)
    elif op == 'icmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        ty = p.type()
        a = p.value(ty); p.exp(','); b = p.value(ty)
        inst = Inst(op, dst, ty, (a, b), extra=pred)
    elif op in CAST:
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type(); a = p.value(ty); p.exp('to'); t2 = p.type()
        inst = Inst(op, dst, t2, (a,), extra=ty)
    elif op == 'load':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type(); p.exp(','); p.type(); a = p.value('ptr')
        inst = Inst(op, dst, ty, (a,))
    elif op == 'store':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type(); v = p.value(ty); p.exp(','); p.type(); a = p.value('ptr')
        inst = Inst(op, None, ty, (v, a))
    elif op == 'alloca':
        while p.peek()[1] in ('inalloca',):
            p.next()
        ty = p.type()
        n = None
        if p.acc(',') and p.peek()[1] != 'align':
            tt = p.type(); n = (tt, p.value(tt))
        inst = Inst(op, dst, ty, (n,))
    elif op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        st = p.type(); p.exp(',')
        ops = []
        while True:
            tt = p.type(); ops.append((tt, p.value(tt)))
            if not p.acc(','):
                break
        inst = Inst(op, dst, st, ops)
    elif op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); l = p.next()[1]; p.exp(']')
            inc.append((v, l))
            if not p.acc(','):
                break
        inst = Inst(op, dst, ty, inc)
    elif op == 'select':
        ct = p.type(); c = p.value(ct); p.exp(',')
        ty = p.type(); a = p.value(ty); p.exp(','); p.type(); b = p.value(ty)
        inst = Inst(op, dst, ty, (c, a, b))
    elif op == 'br':
        if p.acc('label'):
            inst = Inst('br', None, None, (p.next()[1],))
        else:
            ty = p.type(); c = p.value(ty); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            inst = Inst('cbr', None, None, (c, a, b))
    elif op == 'switch':
        ty = p.type(); v = p.value(ty); p.exp(','); p.exp('label'); d = p.next()[1]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.type(); c = p.value(tt); p.exp(','); p.exp('label'); cs.append((c, p.next()[1]))
        inst = Inst('switch', None, ty, (v, d, cs))
    elif op == 'ret':
        ty = p.type()
        inst = Inst('ret', None, ty, (None if ty == 'void' else p.value(ty),))
    elif op == 'unreachable':
        inst = Inst('unreachable', None, None, ())
    elif op in ('extractvalue',):
        ty = p.type(); v = p.value(ty); idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        inst = Inst(op, dst, ty, (v, idx))
    elif op == 'insertvalue':
        ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); x = p.value(t2); idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        inst = Inst(op, dst, ty, (v, x, idx), extra=t2)
    elif op == 'freeze':
        ty = p.type(); inst = Inst(op, dst, ty, (p.value(ty),))
    else:
        inst = Inst('unsupported', dst, None, (line,))
    inst.line = dbg
    return inst


def norm(d):
    d = d.replace('[abi:cxx11]', '')
    for c, n in (('char16_t', 'u16string'), ('char32_t', 'u32string'), ('wchar_t', 'wstring'), ('char', 'string')):
        d = d.replace('std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s>>' % (c, c, c), 'std::' + n)
        d = d.replace('std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s> >' % (c, c, c), 'std::' + n)
    return d


def parse_module(text, cxxfilt):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pend = []
    while i < n:
        l = lines[i]
        if not l or l[0] in ';s' or l.startswith('attributes') or l.startswith('target') or l.startswith('module') or l.startswith('$'):
            i += 1
            continue
        if l[0] == '%':
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
            p = P(toks(m.group(2)))
            mod.types[m.group(1)] = 'opaque' if p.peek()[1] == 'opaque' else p.type()
        elif l[0] == '!':
            m = re.match(r'(![0-9]+) = .*!DILocation\(line: (\d+)', l)
            if m:
                mod.lines[m.group(1)] = int(m.group(2))
            else:
                m = re.match(r'(![0-9]+) = distinct !DISubprogram\(.*line: (\d+)', l)
                if m:
                    mod.lines[m.group(1)] = int(m.group(2))
        elif l[0] == '@':
            parse_global(l, mod)
        elif l.startswith('declare') or l.startswith('define'):
            isdef = l.startswith('define')
            t = toks(l)
            p = P(t)
            p.next()
            while p.peek()[1] in SKIP_FN_WORDS:
                p.next()
            p.skip_attrs()
            rt = p.type()
            name = p.next()[1]
            f = Function(name)
            f.ret = rt
            p.exp('(')
            k = 0
            if not p.acc(')'):
                while True:
                    if p.acc('...'):
                        p.exp(')')
                        break
                    ty = p.type()
                    at = p.skip_attrs()
                    if p.peek()[0] == 'loc':
                        nm = p.next()[1]
                    else:
                        nm = '%' + str(k)
                    f.params.append((ty, nm, at))
                    k += 1
                    if p.acc(')'):
                        break
                    p.exp(',')
            m = re.search(r'!dbg (!\d+)', l)
            f.line = m.group(1) if m else None
            mod.funcs[name] = f
            if isdef:
                i += 1
                label = None
                while lines[i] != '}':
                    b = lines[i]
                    if not b.strip() or b.lstrip().startswith(';'):
                        i += 1
                        continue
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', b)
                    if m and b[0] not in ' \t':
                        label = '%' + m.group(1)
                        f.blocks[label] = []
                        f.order.append(label)
                        i += 1
                        continue
                    if label is None:
                        # unnamed entry block gets the next number
                        label = '%' + str(len(f.params))
                        f.blocks[label] = []
                        f.order.append(label)
                    if re.search(r'\bswitch\b', b) and b.rstrip().endswith('['):
                        i += 1
                        while True:
                            b += ' ' + lines[i].strip()
                            if lines[i].strip().startswith(']'):
                                break
                            i += 1
                    try:
                        f.blocks[label].append(parse_inst(b.strip(), mod))
                    except IRError as e:
                        f.blocks[label].append(Inst('unsupported', None, None, (b.strip() + ' :: ' + str(e),)))
                    i += 1
        i += 1
    names = list(mod.funcs)
    out = subprocess.run([cxxfilt], input='\n'.join(x[1:].strip('"') for x in names), capture_output=True, text=True, check=True).stdout.split('\n')
    for a, d in zip(names, out):
        d = norm(d)
        mod.demangled[a] = d
        mod.bydem.setdefault(d, []).append(a)
    return mod


def parse_global(l, mod):
    m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', l)
    name, rest = m.group(1), m.group(2)
    rest = re.sub(r', (comdat|align|section|!).*$', '', rest)
    t = toks(rest)
    p = P(t)
    isconst = False
    ext = False
    while True:
        k, v = p.peek()
        if v in ('global', 'constant'):
            isconst = v == 'constant'
            p.next()
            break
        if v == 'alias':
            p.next()
            p.type(); p.exp(','); p.type()
            mod.aliases[name] = p.next()[1]
            return
        if v == 'external':
            ext = True
        if k is None:
            return
        p.next()
    try:
        ty = p.type()
        init = None
        if not p.eof() and not ext:
            init = p.value(ty)
        mod.globals[name] = (ty, init, isconst)
    except IRError as e:
        mod.globals[name] = (None, ('bad', str(e)), isconst)


def loops_of(f):
    """Natural loops: header label -> set of block labels."""
    if f.loops is not None:
        return f.loops
    succ = {}
    for b, ins in f.blocks.items():
        t = ins[-1]
        if t.op == 'br':
            succ[b] = [t.a[0]]
        elif t.op == 'cbr':
            succ[b] = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            succ[b] = list(dict.fromkeys([t.a[1]] + [x[1] for x in t.a[2]]))
        else:
            succ[b] = []
    entry = f.order[0]
    # dominators (simple iterative)
    preds = {b: [] for b in f.blocks}
    for b, ss in succ.items():
        for s in ss:
            preds[s].append(b)
    seen = []
    st = [entry]
    vis = set()
    while st:
        b = st.pop()
        if b in vis:
            continue
        vis.add(b)
        seen.append(b)
        st.extend(succ[b])
    allb = set(vis)
    dom = {b: allb for b in vis}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == entry or b not in vis:
                continue
            ps = [dom[x] for x in preds[b] if x in vis]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    irreducible = False
    # detect back edges
    for b in vis:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    f.loops = loops
    return loops
