"""Symbolic execution of a function written in x86-64 assembly, from the assembly text in the compiler's output.

Registers and memory words are integers; memory is an array of words at addresses that are multiples of eight.  Additions are
those of addresses, far from wrapping around; other arithmetic gives an unknown value."""
import re
import z3
from values import Unsupported

REGS = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
W = z3.IntSort()


def c(n):
    return z3.IntVal(n)


class Machine:
    def __init__(self, pre=''):
        self.r = {n: z3.Int(pre + n) for n in REGS}
        self.flags = z3.Int(pre + 'flags')
        self.mem = z3.Array(pre + 'mem', W, W)
        self.rip = None
        self.accesses = []      # (address, is a write)
        self.n = 0

    def load(self, a):
        self.accesses.append((a, False))
        return z3.Select(self.mem, a)

    def store(self, a, v):
        self.accesses.append((a, True))
        self.mem = z3.Store(self.mem, a, v)

    def push(self, v):
        self.r['rsp'] = self.r['rsp'] - 8
        self.store(self.r['rsp'], v)

    def pop(self):
        v = self.load(self.r['rsp'])
        self.r['rsp'] = self.r['rsp'] + 8
        return v

    def havoc_flags(self):
        self.n += 1
        self.flags = z3.Int('flags!%d' % self.n)

    # operands
    def imm(self, t):
        if not re.fullmatch(r'\$-?(0x[0-9a-fA-F]+|\d+)', t):
            raise Unsupported('assembly operand ' + t)
        return c(int(t[1:], 0))

    def address(self, t):
        m = re.fullmatch(r'(-?(?:0x[0-9a-fA-F]+|\d+))?\(%(\w+)\)', t)
        if not m or m.group(2) not in self.r:
            raise Unsupported('assembly operand ' + t)
        return self.r[m.group(2)] + c(int(m.group(1) or '0', 0))

    def get(self, t):
        if t.startswith('$'):
            return self.imm(t)
        if t.startswith('%'):
            if t[1:] not in self.r:
                raise Unsupported('assembly operand ' + t)
            return self.r[t[1:]]
        return self.load(self.address(t))

    def put(self, t, v):
        if t.startswith('%'):
            if t[1:] not in self.r:
                raise Unsupported('assembly operand ' + t)
            self.r[t[1:]] = v
        else:
            self.store(self.address(t), v)

    def step(self, line):
        """one instruction; True when control has left the function"""
        line = re.sub(r'(#|//).*', '', line).strip()
        if not line or re.fullmatch(r'\.(p2align|align|cfi_\w+).*', line):
            return False
        m = re.fullmatch(r'(\w+)\s*(.*)', line)
        if not m:
            raise Unsupported('assembly ' + line)
        op = m.group(1)
        a = [x.strip() for x in re.split(r',(?![^(]*\))', m.group(2))] if m.group(2) else []
        k = (re.sub(r'q$', '', op) if op not in ('pushq', 'popq') else op[:-1], len(a))
        if k == ('mov', 2):
            if not a[0].startswith(('%', '$')) and not a[1].startswith('%'):
                raise Unsupported('assembly ' + line)
            self.put(a[1], self.get(a[0]))
        elif k == ('push', 1):
            self.push(self.get(a[0]))
        elif k == ('pop', 1):
            v = self.pop()
            self.put(a[0], v)      # an address in terms of %rsp is computed after the increment
        elif k == ('pushf', 0):
            self.push(self.flags)
        elif k == ('popf', 0):
            self.flags = self.pop()
        elif k == ('lea', 2):
            self.put(a[1], self.address(a[0]))
        elif k == ('xchg', 2):
            x, y = self.get(a[0]), self.get(a[1])
            self.put(a[0], y)
            self.put(a[1], x)
        elif k in (('add', 2), ('sub', 2), ('and', 2), ('or', 2), ('xor', 2)):
            x, y = self.get(a[1]), self.get(a[0])
            self.havoc_flags()
            self.put(a[1], {'add': x + y, 'sub': x - y}.get(k[0], z3.Int('result!%d' % self.n)))
        elif k[0] in ('nop', 'endbr64'):
            pass
        elif k == ('ret', 0) or k == ('ret', 1):
            self.rip = self.pop()
            if a:
                self.r['rsp'] = self.r['rsp'] + self.imm(a[0])
            return True
        elif k == ('jmp', 1) and a[0].startswith('*'):
            self.rip = self.get(a[0][1:])
            return True
        else:
            raise Unsupported('assembly ' + line)
        return False


def text(fn):
    """the instructions of a function that consists of assembly only"""
    f = fn.parse()
    if len(f.blocks) != 1:
        raise Unsupported('assembly function with branches')
    out = []
    for i in list(f.blocks.values())[0].ins:
        if i.op == 'call' and i.a['callee'][0] == 'asm':
            if any(x.strip() and not x.strip().startswith('~') for x in i.a['callee'][2].strip('"').split(',')):
                raise Unsupported('assembly with operands')
            t = i.a['callee'][1].strip('"')
            t = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t).replace('$$', '$').replace('%%', '%')
            out += [x for l in t.split('\n') for x in l.split(';')]
        elif i.op not in ('unreachable', 'ret'):
            raise Unsupported('%s in an assembly function' % i.op)
    return out


def run(fn, m):
    for l in text(fn):
        if m.step(l):
            return m
    raise Unsupported('the assembly function does not return')
