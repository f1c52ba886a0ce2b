"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under verification."""
import re, subprocess, bisect


class ParseError(Exception):
    pass


ATTR_WORDS = {
    'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'inreg', 'returned', 'nocapture', 'readonly',
    'readnone', 'writeonly', 'nofree', 'nest', 'immarg', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail',
    'notail', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'writable', 'dead_on_unwind', 'swiftself',
    'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'allocalign', 'noext'}

TOK = re.compile(r'''\s*(
  c?"(?:[^"])*" | [%@]"(?:[^"])*" | [%@][-\w$.]+ | !"(?:[^"])*" | ![-\w.]* | \#\d+ |
  \.\.\. | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][\w.]* | [()\[\]{}<>,=*:|] | "
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ParseError('token at: ' + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


def unq(t):
    # strip sigil and quotes
    t = t[1:]
    if t.startswith('"'):
        t = t[1:-1]
    return t


class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise ParseError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)))


def parse_type(tk):
    t = tk.next()
    if t == 'ptr':
        ty = ('ptr',)
        if tk.peek() == 'addrspace':
            tk.next(); tk.expect('('); tk.next(); tk.expect(')')
    elif t == 'void':
        ty = ('void',)
    elif re.fullmatch(r'i\d+', t):
        ty = ('int', int(t[1:]))
    elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
        ty = ('fp', t)
    elif t in ('label', 'metadata', 'token', 'opaque'):
        ty = (t,)
    elif t[0] == '%':
        ty = ('named', unq(t))
    elif t == '{':
        fs = []
        if not tk.accept('}'):
            while True:
                fs.append(parse_type(tk))
                if tk.accept('}'):
                    break
                tk.expect(',')
        ty = ('struct', tuple(fs), False)
    elif t == '<':
        if tk.peek() == '{':
            tk.next()
            fs = []
            if not tk.accept('}'):
                while True:
                    fs.append(parse_type(tk))
                    if tk.accept('}'):
                        break
                    tk.expect(',')
            tk.expect('>')
            ty = ('struct', tuple(fs), True)
        else:
            n = int(tk.next()); tk.expect('x')
            e = parse_type(tk); tk.expect('>')
            ty = ('vec', n, e)
    elif t == '[':
        n = int(tk.next()); tk.expect('x')
        e = parse_type(tk); tk.expect(']')
        ty = ('array', n, e)
    else:
        raise ParseError('type ' + t)
    # function type suffix
    while tk.peek() == '(':
        tk.next()
        ps, va = [], False
        if not tk.accept(')'):
            while True:
                if tk.accept('...'):
                    va = True
                else:
                    ps.append(parse_type(tk))
                    skip_attrs(tk)
                if tk.accept(')'):
                    break
                tk.expect(',')
        ty = ('func', ty, tuple(ps), va)
    return ty


def skip_attrs(tk):
    attrs = {}
    while True:
        p = tk.peek()
        if p is None:
            return attrs
        if p in ATTR_WORDS:
            tk.next(); attrs[p] = True
        elif p == 'align':
            tk.next()
            if tk.accept('('):
                tk.next(); tk.expect(')')
            else:
                tk.next()
        elif p in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'range', 'captures', 'memory', 'nofpclass', 'addrspace'):
            tk.next()
            d = 0
            while True:
                x = tk.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        elif p in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated', 'initializes'):
            tk.next(); tk.expect('(')
            attrs[p] = parse_type(tk); tk.expect(')')
        elif p.startswith('#'):
            tk.next()
        else:
            return attrs


CEXPR = {'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select', 'dso_local_equivalent', 'no_cfi'}


def parse_value(tk, ty):
    t = tk.next()
    c = t[0]
    if c == '%':
        return ('reg', unq(t))
    if c == '@':
        return ('global', unq(t))
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'none':
        return ('undef',)
    if re.fullmatch(r'-?\d+', t):
        if ty and ty[0] == 'fp':
            return ('fp', t)
        return ('int', int(t))
    if t.startswith('0x') or re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t):
        return ('fp', t)
    if t.startswith('c"'):
        return ('str', t[2:-1])
    if t in ('{', '[', '<'):
        packed = False
        if t == '<' and tk.peek() == '{':
            tk.next(); packed = True
        close = {'{': '}', '[': ']', '<': '}' if packed else '>'}[t]
        vs = []
        if not tk.accept(close):
            while True:
                et = parse_type(tk)
                vs.append((et, parse_value(tk, et)))
                if tk.accept(close):
                    break
                tk.expect(',')
        if packed:
            tk.expect('>')
        return ('agg', vs)
    if t in CEXPR:
        op = t
        while tk.peek() in ('inbounds', 'nuw', 'nsw', 'exact') or (tk.peek() == 'inrange'):
            x = tk.next()
            if x == 'inrange' and tk.peek() == '(':
                while tk.next() != ')':
                    pass
        if op == 'icmp':
            tk.next()
        tk.expect('(')
        if op == 'getelementptr':
            bt = parse_type(tk); tk.expect(',')
            args = []
            while True:
                if tk.peek() == 'inrange':
                    tk.next()
                at = parse_type(tk)
                args.append((at, parse_value(tk, at)))
                if tk.accept(')'):
                    break
                tk.expect(',')
            return ('cexpr', 'getelementptr', bt, args)
        args = []
        while True:
            at = parse_type(tk)
            v = parse_value(tk, at)
            args.append((at, v))
            if tk.accept('to'):
                tt = parse_type(tk)
                tk.expect(')')
                return ('cexpr', op, tt, args)
            if tk.accept(')'):
                break
            tk.expect(',')
        return ('cexpr', op, ty, args)
    if t == 'asm':
        fl = []
        while tk.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
            fl.append(tk.next())
        s = tk.next(); tk.expect(','); cst = tk.next()
        return ('asm', s, cst)
    if t.startswith('!'):
        # metadata operand: skip
        d = 0
        while tk.peek() not in (None,) and not (d == 0 and tk.peek() in (',', ')')):
            x = tk.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
        return ('meta', t)
    raise ParseError('value %s in %s' % (t, ' '.join(tk.t)))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text', 'fn', 'id')

    def __init__(self, op, res, ty, a, line, text):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text

    def __repr__(self):
        return '<%s %s>' % (self.op, self.text.strip()[:120])


class Block:
    __slots__ = ('name', 'ins', 'succ')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False
        self.dbg = None
        m = re.search(r'!dbg !(\d+)', header)
        if m:
            self.dbg = int(m.group(1))
        self._parse_header()

    def _parse_header(self):
        h = self.header
        i = h.index('@' + ('"' + self.name + '"' if ('@"' + self.name + '"') in h else self.name))
        # params
        j = h.index('(', i + 1 + len(self.name))
        d = 0
        k = j
        q = False
        while True:
            c = h[k]
            if c == '"':
                q = not q
            elif not q:
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0:
                        break
            k += 1
        ps = h[j + 1:k]
        self.params = []
        self.vararg = False
        tk = Toks(tokenize(ps))
        n = 0
        while tk.peek() is not None:
            if tk.accept('...'):
                self.vararg = True
                break
            ty = parse_type(tk)
            at = skip_attrs(tk)
            nm = None
            if tk.peek() and tk.peek()[0] == '%':
                nm = unq(tk.next())
            else:
                nm = str(n)
            n += 1
            self.params.append((ty, nm, at))
            tk.accept(',')
        pre = h[:i]
        pt = tokenize(pre)
        # return type = parse from the tail: try successive starts
        self.ret = None
        for s in range(1, len(pt)):
            try:
                t2 = Toks(pt)
                t2.i = s
                skip_attrs(t2)
                ty = parse_type(t2)
                if t2.i == len(pt):
                    self.ret = ty
                    break
            except (ParseError, IndexError):
                continue
        self.attrs = h[k + 1:]

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        blocks = {}
        order = []
        cur = None
        lines = self.body
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
                first = False
                continue
            if first:
                cur = Block(str(len(self.params)))
                blocks[cur.name] = cur
                order.append(cur.name)
                first = False
            if re.match(r'^(%\S+ = )?(?:tail )?invoke ', s) or ' = invoke ' in s[:400] and ' to label ' not in s:
                s = s + ' ' + lines[i].strip()
                i += 1
            elif ' landingpad ' in s:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i]):
                    s = s + ' ' + lines[i].strip()
                    i += 1
            elif s.startswith('switch '):
                while ']' not in s:
                    s = s + ' ' + lines[i].strip()
                    i += 1
            ins = parse_instr(s, self.mod)
            if ins is not None:
                ins.fn = self
                ins.id = (cur.name, len(cur.ins))
                cur.ins.append(ins)
        self.blocks, self.order = blocks, order
        self.entry = order[0]
        for b in blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [x for x in (t.a.get('t'), t.a.get('f')) if x]
            elif t.op == 'switch':
                b.succ = [t.a['default']] + [x for _, x in t.a['cases']]
            elif t.op == 'invoke':
                b.succ = [t.a['normal'], t.a['unwind']]
            else:
                b.succ = []
        self._loops()
        return self

    def _loops(self):
        """Loop headers: targets of back edges in a DFS; natural loop bodies."""
        color = {}
        back = []
        stack = [(self.entry, iter(self.blocks[self.entry].succ))]
        color[self.entry] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(self.blocks[m].succ)))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for b in self.blocks.values():
            for s in b.succ:
                pred.setdefault(s, []).append(b.name)
        self.loops = {}
        for (t, h) in back:
            body = self.loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += pred.get(x, [])


def parse_instr(s, mod):
    # strip debug metadata
    line = None
    m = re.search(r', !dbg !(\d+)', s)
    text = s
    if m:
        line = int(m.group(1))
    s = re.sub(r'(, ![\w.]+ !\d+|, ![\w.]+ !\{[^}]*\})+\s*$', '', s)
    res = None
    m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', s)
    if m:
        res = unq(m.group(1))
        s = m.group(2)
    tk = Toks(tokenize(s))
    op = tk.next()
    if op in ('tail', 'musttail', 'notail'):
        op = tk.next()
    A = {}
    ty = None
    if op == 'alloca':
        tk.accept('inalloca')
        A['t'] = parse_type(tk)
        A['n'] = None
        if tk.accept(','):
            if tk.peek() != 'align':
                nt = parse_type(tk)
                A['n'] = (nt, parse_value(tk, nt))
        ty = ('ptr',)
    elif op == 'load':
        A['atomic'] = tk.accept('atomic'); tk.accept('volatile')
        ty = parse_type(tk); tk.expect(',')
        pt = parse_type(tk); A['p'] = parse_value(tk, pt)
        if A['atomic']:
            A['ord'] = [x for x in tk.t[tk.i:] if x in ORDERS]
    elif op == 'store':
        A['atomic'] = tk.accept('atomic'); tk.accept('volatile')
        vt = parse_type(tk); A['vt'] = vt; A['v'] = parse_value(tk, vt); tk.expect(',')
        pt = parse_type(tk); A['p'] = parse_value(tk, pt)
        if A['atomic']:
            A['ord'] = [x for x in tk.t[tk.i:] if x in ORDERS]
    elif op == 'getelementptr':
        while tk.peek() in ('inbounds', 'nuw', 'nusw'):
            tk.next()
        A['bt'] = parse_type(tk); tk.expect(',')
        args = []
        while True:
            at = parse_type(tk)
            args.append((at, parse_value(tk, at)))
            if not tk.accept(','):
                break
        A['args'] = args
        ty = ('ptr',)
    elif op in ('call', 'invoke'):
        skip_attrs(tk)
        rt = parse_type(tk)
        A['ft'] = rt if rt[0] == 'func' else None
        ty = rt[1] if rt[0] == 'func' else rt
        A['callee'] = parse_value(tk, None)
        tk.expect('(')
        args = []
        if not tk.accept(')'):
            while True:
                at = parse_type(tk)
                attr = skip_attrs(tk)
                v = parse_value(tk, at)
                args.append((at, v, attr))
                if tk.accept(')'):
                    break
                tk.expect(',')
        A['args'] = args
        if op == 'invoke':
            while tk.peek() != 'to':
                tk.next()
            tk.expect('to'); tk.expect('label'); A['normal'] = unq(tk.next())
            tk.expect('unwind'); tk.expect('label'); A['unwind'] = unq(tk.next())
    elif op == 'br':
        if tk.peek() == 'label':
            tk.next(); A['t'] = unq(tk.next()); A['c'] = None
        else:
            ct = parse_type(tk); A['c'] = parse_value(tk, ct); tk.expect(',')
            tk.expect('label'); A['t'] = unq(tk.next()); tk.expect(',')
            tk.expect('label'); A['f'] = unq(tk.next())
    elif op == 'switch':
        vt = parse_type(tk); A['vt'] = vt; A['v'] = parse_value(tk, vt); tk.expect(',')
        tk.expect('label'); A['default'] = unq(tk.next()); tk.expect('[')
        cs = []
        while not tk.accept(']'):
            t1 = parse_type(tk); v1 = parse_value(tk, t1); tk.expect(','); tk.expect('label')
            cs.append((v1, unq(tk.next())))
        A['cases'] = cs
    elif op == 'ret':
        if tk.peek() == 'void':
            A['v'] = None; A['vt'] = ('void',)
        else:
            A['vt'] = parse_type(tk); A['v'] = parse_value(tk, A['vt'])
    elif op in ('icmp', 'fcmp'):
        while tk.peek() in ATTR_WORDS:
            tk.next()
        A['pred'] = tk.next()
        A['t'] = parse_type(tk); A['x'] = parse_value(tk, A['t']); tk.expect(','); A['y'] = parse_value(tk, A['t'])
        ty = ('int', 1)
    elif op in BINOPS:
        A['flags'] = []
        while tk.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or tk.peek() in ATTR_WORDS:
            A['flags'].append(tk.next())
        ty = parse_type(tk); A['x'] = parse_value(tk, ty); tk.expect(','); A['y'] = parse_value(tk, ty)
    elif op == 'fneg':
        ty = parse_type(tk); A['x'] = parse_value(tk, ty)
    elif op in CASTS:
        while tk.peek() in ('nneg', 'nuw', 'nsw'):
            tk.next()
        A['from'] = parse_type(tk); A['x'] = parse_value(tk, A['from']); tk.expect('to'); ty = parse_type(tk)
    elif op == 'select':
        ct = parse_type(tk); A['c'] = parse_value(tk, ct); tk.expect(',')
        ty = parse_type(tk); A['x'] = parse_value(tk, ty); tk.expect(',')
        t2 = parse_type(tk); A['y'] = parse_value(tk, t2)
    elif op == 'phi':
        ty = parse_type(tk)
        inc = []
        while True:
            tk.expect('['); v = parse_value(tk, ty); tk.expect(','); inc.append((v, unq(tk.next()))); tk.expect(']')
            if not tk.accept(','):
                break
        A['inc'] = inc
    elif op == 'extractvalue':
        A['t'] = parse_type(tk); A['x'] = parse_value(tk, A['t'])
        ix = []
        while tk.accept(','):
            ix.append(int(tk.next()))
        A['ix'] = ix
        ty = None
    elif op == 'insertvalue':
        ty = parse_type(tk); A['x'] = parse_value(tk, ty); tk.expect(',')
        t2 = parse_type(tk); A['vt'] = t2; A['v'] = parse_value(tk, t2)
        ix = []
        while tk.accept(','):
            ix.append(int(tk.next()))
        A['ix'] = ix
    elif op == 'landingpad':
        ty = parse_type(tk)
        cl = []
        while tk.peek() is not None:
            x = tk.next()
            if x == 'cleanup':
                cl.append(('cleanup',))
            else:
                t1 = parse_type(tk); cl.append((x, parse_value(tk, t1)))
        A['clauses'] = cl
    elif op == 'resume':
        A['vt'] = parse_type(tk); A['v'] = parse_value(tk, A['vt'])
    elif op == 'unreachable':
        pass
    elif op == 'atomicrmw':
        tk.accept('volatile')
        A['rmw'] = tk.next()
        pt = parse_type(tk); A['p'] = parse_value(tk, pt); tk.expect(',')
        ty = parse_type(tk); A['v'] = parse_value(tk, ty)
        A['ord'] = [x for x in tk.t[tk.i:] if x in ORDERS]
    elif op == 'cmpxchg':
        A['weak'] = tk.accept('weak'); tk.accept('volatile')
        pt = parse_type(tk); A['p'] = parse_value(tk, pt); tk.expect(',')
        ct = parse_type(tk); A['vt'] = ct; A['c'] = parse_value(tk, ct); tk.expect(',')
        t2 = parse_type(tk); A['n'] = parse_value(tk, t2)
        A['ord'] = [x for x in tk.t[tk.i:] if x in ORDERS]
        ty = ('struct', (ct, ('int', 1)), False)
    elif op == 'fence':
        A['ord'] = [x for x in tk.t if x in ORDERS]
    elif op == 'va_arg':
        pt = parse_type(tk); A['p'] = parse_value(tk, pt); tk.expect(','); ty = parse_type(tk)
    elif op == 'freeze':
        ty = parse_type(tk); A['x'] = parse_value(tk, ty)
    else:
        raise ParseError('instruction ' + s[:100])
    return Instr(op, res, ty, A, line, text)


ORDERS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self._rawtypes = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._di = {}
        self._sp = {}
        self._files = {}
        txt = open(path).read().split('\n')
        i, n = 0, len(txt)
        while i < n:
            l = txt[i]
            if l.startswith('define '):
                j = i + 1
                while txt[j] != '}':
                    j += 1
                nm = self._fname(l)
                self.funcs[nm] = Function(self, nm, l, txt[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                nm = self._fname(l)
                self.decls[nm] = l
            elif l.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
                if m:
                    self._rawtypes[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', l)
                if m:
                    if re.search(r'\balias\b', m.group(2)[:80]):
                        mm = re.search(r'alias .*?(@(?:"[^"]*"|[-\w$.]+))\s*$', re.sub(r',.*$', '', m.group(2)) if ', ptr' not in m.group(2) else m.group(2))
                        self.aliases[unq(m.group(1))] = unq(mm.group(1)) if mm else None
                    else:
                        self.globals[unq(m.group(1))] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', l)
                if m:
                    self._di[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
                else:
                    m = re.match(r'^!(\d+) = (?:distinct )?!DISubprogram\(.*?file: !(\d+), line: (\d+)', l)
                    if m:
                        self._sp[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
                    else:
                        m = re.match(r'^!(\d+) = (?:distinct )?!DIFile\(filename: "([^"]*)"', l)
                        if m:
                            self._files[int(m.group(1))] = m.group(2)
            i += 1

    @staticmethod
    def _fname(l):
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
        return unq(m.group(1))

    def type(self, name):
        if name not in self.types:
            raw = self._rawtypes.get(name)
            if raw is None or raw == 'opaque':
                self.types[name] = ('opaque',)
            else:
                self.types[name] = parse_type(Toks(tokenize(raw)))
        return self.types[name]

    def loc(self, fn, dbg):
        ln = self._di.get(dbg, (0, 0))[0] if dbg else 0
        f = ''
        if fn.dbg in self._sp:
            f = self._files.get(self._sp[fn.dbg][0], '')
        return '%s:%d' % (f, ln)

    # --- layout -----------------------------------------------------------
    def size_align(self, ty):
        k = ty[0]
        if k == 'int':
            n = ty[1]
            if n <= 8:
                return 1, 1
            if n <= 16:
                return 2, 2
            if n <= 32:
                return 4, 4
            if n <= 64:
                return 8, 8
            return 16, 16
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[ty[1]]
        if k == 'named':
            return self.size_align(self.type(ty[1]))
        if k == 'array':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'vec':
            s, a = self.size_align(ty[2])
            return s * ty[1], s * ty[1]
        if k == 'struct':
            off, al = 0, 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 8, 8
        raise ParseError('size of %r' % (ty,))

    def field_offset(self, ty, idx):
        if ty[0] == 'named':
            ty = self.type(ty[1])
        if ty[0] == 'array' or ty[0] == 'vec':
            return self.size_align(ty[2])[0] * idx, ty[2]
        off = 0
        for i, f in enumerate(ty[1]):
            s, a = self.size_align(f)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise ParseError('field')

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.type(ty[1])
        return ty

    def leaves(self, ty, base=0):
        """scalar leaves (offset, type) of a type"""
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            off = 0
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                yield from self.leaves(f, base + off)
                off += s
        elif ty[0] == 'array':
            s, _ = self.size_align(ty[2])
            for i in range(ty[1]):
                yield from self.leaves(ty[2], base + i * s)
        else:
            yield base, ty


_dem = {}


def demangle_many(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(['llvm-cxxfilt'], input='\n'.join(todo) + '\n', capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(todo, out):
            _dem[a] = b
        left = [a for a in todo if a.startswith('_Z') and _dem[a] == a]
        if left:
            out = subprocess.run(['c++filt'], input='\n'.join(left) + '\n', capture_output=True, text=True).stdout.split('\n')
            for a, b in zip(left, out):
                _dem[a] = b


def demangle(n):
    if n not in _dem:
        demangle_many([n])
    return _dem[n]


OPS = ['operator<=>', 'operator<<=', 'operator>>=', 'operator->*', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator->', 'operator()', 'operator<', 'operator>', 'operator,']
_simp = {}


def simplify(dem):
    """'std::deque<T, A>::push_back(T const&)' -> ('std::deque::push_back', 'T const&', template args text)"""
    if dem in _simp:
        return _simp[dem]
    s = dem
    # protect operators
    prot = {}
    for k, o in enumerate(OPS):
        i = 0
        while True:
            i = s.find(o, i)
            if i < 0:
                break
            # make sure it is operator token (preceded by non identifier)
            if o in ('operator<', 'operator>') and s[i + len(o):i + len(o) + 1] == '' and False:
                pass
            s = s[:i] + 'operator' + chr(0xE000 + k) + s[i + len(o):]
            i += len('operator') + 1
    out = []
    depth = 0
    targs = []
    cur = []
    paren = 0
    args_start = None
    res = ''
    i = 0
    n = len(s)
    # first: find the argument list = last top-level '(' group (outside <>), that is followed by const/&/end
    d = 0
    groups = []
    st = None
    pd = 0
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>':
            if not (i > 0 and s[i - 1] == '-'):
                d -= 1
        elif d == 0 and c == '(':
            if pd == 0:
                st = i
            pd += 1
        elif d == 0 and c == ')':
            pd -= 1
            if pd == 0:
                groups.append((st, i))
        i += 1
    arglist = ''
    body = s
    tail = ''
    if groups:
        a, b = groups[-1]
        # '(anonymous namespace)' or function-local 'foo()::{lambda' groups are not the arglist unless last
        if s[b + 1:].strip() in ('', 'const', 'const&', '&', 'const &', '&&', '[clone .isra.0]') or s[b + 1:].startswith(' const') or s[b + 1:].startswith(' [') :
            arglist = s[a + 1:b]
            body = s[:a]
            tail = s[b + 1:].strip()
    # strip template args
    depth = 0
    ta = []
    buf = []
    for k, c in enumerate(body):
        if c == '<':
            depth += 1
            if depth == 1:
                buf = []
                continue
        if c == '>' and not (k > 0 and body[k - 1] == '-'):
            depth -= 1
            if depth == 0:
                ta.append(''.join(buf))
                continue
        if depth > 0:
            buf.append(c)
        else:
            out.append(c)
    q = ''.join(out)
    # drop return type (template functions): last space outside parens
    pd = 0
    cut = 0
    for k, c in enumerate(q):
        if c == '(':
            pd += 1
        elif c == ')':
            pd -= 1
        elif c == ' ' and pd == 0 and not q[:k].endswith('operator') and not q[k + 1:].startswith('namespace') and 'operator' not in q[:k]:
            cut = k + 1
    q = q[cut:]
    for k, o in enumerate(OPS):
        q = q.replace('operator' + chr(0xE000 + k), o)
        ta = [t.replace('operator' + chr(0xE000 + k), o) for t in ta]
        arglist = arglist.replace('operator' + chr(0xE000 + k), o)
    q = q.replace('std::__cxx11::', 'std::')
    _simp[dem] = (q, arglist, ta, tail)
    return _simp[dem]
