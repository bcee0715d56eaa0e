"""C programs as data: construction, printing as C source, and flattening to the
node tables that CMachine.tla interprets."""

class Node:
    __slots__ = ('k', 'o', 'v', 'kids', 'l', 'name', 'sty')
    def __init__(self, k, o='', v=0, kids=(), l=(), name=None, sty=None):
        self.k, self.o, self.v, self.kids, self.l, self.name, self.sty = k, o, v, list(kids), list(l), name, sty

# expressions
def num(v, sty=None): return Node('num', v=v, sty=sty) if v >= 0 else un('-', Node('num', v=-v, sty=sty))
def var(name): return Node('var', name=name)
def idx(a, b, sty=None): return Node('idx', kids=[a, b], sty=sty)
def un(o, a): return Node('un', o=o, kids=[a])
def paren(a): return Node('un', o='()', kids=[a])
def bin(o, a, b): return Node({'&&': 'and', '||': 'or', ',': 'com'}.get(o, 'bin'), o=o, kids=[a, b])
def cnd(a, b, c): return Node('cnd', kids=[a, b, c])
def asg(o, a, b): return Node('asg', o=o, kids=[a, b])          # o: '=', '+', ... (compound)
def inc(o, a, post): return Node('inc', o=o, v=int(post), kids=[a])   # o: '++' or '--'
def call(f, *args): return Node('call', name=f, l=args)
def emit(a): return Node('emit', kids=[a])
def mal(a): return Node('mal', kids=[a])
def exit_(a): return Node('exit', kids=[a])
# statements
def ex(a): return Node('ex', kids=[a])
def dec(name, init=None): return Node('dec', name=name, kids=[init])
def darr(name, n): return Node('darr', name=name, v=n)
def if_(a, b, c=None): return Node('if', kids=[a, b, c])
def wh(a, b): return Node('wh', kids=[a, b])
def do(body, cond): return Node('do', kids=[body, cond])
def for_(a, b, c, d): return Node('for', kids=[a, b, c, d])
def sw(a, body): return Node('sw', kids=[a, body])
def case(v, txt=None): return Node('case', v=v, name=txt)
def dflt(): return Node('dflt')
def brk(): return Node('brk')
def cnt(): return Node('cnt')
def ret(a=None): return Node('ret', kids=[a])
def blk(*l): return Node('blk', l=l)
def lbl(name): return Node('lbl', name=name)
def goto(name): return Node('goto', name=name)
def nop(): return Node('nop')

EXPR = {'num', 'var', 'idx', 'un', 'bin', 'and', 'or', 'com', 'cnd', 'asg', 'inc', 'call', 'emit', 'mal', 'exit'}

class Func:
    def __init__(self, name, params, body, ret='int', ptypes=None):
        self.name, self.params, self.body, self.ret, self.ptypes = name, list(params), body, ret, ptypes or {}

class Prog:
    """The first function is the entry point.  arrays: [(name, [values])]"""
    def __init__(self, funcs, globs=(), arrays=(), tag='', protos=(), enums=()):
        self.funcs, self.globs, self.arrays, self.tag = list(funcs), list(globs), list(arrays), tag
        self.protos, self.enums = list(protos), list(enums)

def impure(e): return e.k in ('asg', 'inc', 'call', 'emit', 'mal', 'exit') or any(impure(x) for x in e.kids if x) or any(impure(x) for x in e.l)
def calls(e): return e.k in ('call', 'emit', 'mal', 'exit') or any(calls(x) for x in e.kids if x) or any(calls(x) for x in e.l)
def eager_hazard(e, cond=False):
    """An element access in an operand that is evaluated conditionally, whose index has side effects or
    may divide by zero: the shell backend's nested $((..)) computes the index unconditionally (known finding)"""
    if cond and e.k == 'idx' and any(impure(x) or any(y.k == 'bin' and y.o in ('/', '%', '<<', '>>') and y.kids[1].k != 'num' for y in walk(x)) for x in e.kids): return True
    for i, x in enumerate(e.kids):
        if x is not None and eager_hazard(x, cond or (e.k in ('and', 'or', 'cnd') and i > 0)): return True
    return any(eager_hazard(x, cond) for x in e.l)
def walk(e):
    yield e
    for x in e.kids:
        if x is not None: yield from walk(x)
    for x in e.l: yield from walk(x)

# ---------------------------------------------------------------------------
# Flattening
# ---------------------------------------------------------------------------
class Flat:
    def __init__(self, prog):
        self.n = []
        self.fi = {f.name: i + 1 for i, f in enumerate(prog.funcs)}
        self.gi = {}
        self.addr = {}
        g, m = [], []
        for name, v in prog.globs: g.append(v); self.gi[name] = len(g)
        for name, vals in prog.arrays:
            m.append(list(vals)); self.addr[name] = 1000000 * len(m)
        self.lb = []
        fs = []
        for f in prog.funcs:
            self.slots = {p: i + 1 for i, p in enumerate(f.params)}
            for e in walk(f.body):
                if e.k in ('dec', 'darr') and e.name not in self.slots: self.slots[e.name] = len(self.slots) + 1
            self.labels = {}
            self.fixups = []
            b = self.stmt(f.body, [])
            for i, name in self.fixups: self.n[i - 1]['v'] = self.labels[name]
            fs.append(dict(np=len(f.params), nl=len(self.slots), b=b))
        self.data = dict(n=self.n, f=fs, g=g, m=m, lb=self.lb)
    def new(self, k, o='', v=0, a=0, b=0, c=0, d=0, l=(), p=0, q=0):
        self.n.append(dict(k=k, o=o, v=v, a=a, b=b, c=c, d=d, l=list(l), p=p, q=q))
        return len(self.n)
    def expr(self, e):
        if e is None: return 0
        p = 0 if impure(e) else 1
        q = 1 if calls(e) else 0
        k = e.k
        if k == 'num': return self.new('num', v=e.v, p=1)
        if k == 'var':
            if e.name in self.slots: return self.new('loc', v=self.slots[e.name], p=1)
            if e.name in self.addr: return self.new('num', v=self.addr[e.name], p=1)
            return self.new('glo', v=self.gi[e.name], p=1)
        if k == 'idx':
            a, b = self.expr(e.kids[0]), self.expr(e.kids[1])
            d = self.new('bin', o='+', a=a, b=b, p=p, q=q)
            return self.new('idx', a=a, b=b, d=d, p=p, q=q)
        if k == 'call':
            l = [self.expr(x) for x in e.l]
            return self.new('call', v=self.fi[e.name], l=l, q=1)
        o, v = e.o, e.v
        if k == 'inc': o = '+' if e.o == '++' else '-'
        ks = [self.expr(x) for x in e.kids] + [0, 0, 0]
        if k == 'bin' or k == 'un' or k in ('and', 'or', 'com', 'cnd', 'asg', 'inc', 'emit', 'mal', 'exit'):
            return self.new(k, o=o, v=v, a=ks[0], b=ks[1], c=ks[2], p=p, q=q)
        raise ValueError(k)
    def stmt(self, s, path):
        if s is None: return 0
        k = s.k
        if k == 'blk':
            i = self.new('blk')
            l = []
            for j, x in enumerate(s.l):
                fr = dict(t='blk', n=i, i=j + 1, x=0, xs=[])
                if x.k == 'lbl':
                    self.lb.append(path + [fr]); self.labels[x.name] = len(self.lb)
                l.append(self.stmt(x, path + [fr]))
            self.n[i - 1]['l'] = l
            return i
        if k == 'ex': return self.new('ex', a=self.expr(s.kids[0]))
        if k == 'dec': return self.new('dec', v=self.slots[s.name], a=self.expr(s.kids[0]))
        if k == 'if':
            i = self.new('if')
            a = self.expr(s.kids[0]); b = self.stmt(s.kids[1], path); c = self.stmt(s.kids[2], path)
            self.n[i - 1].update(a=a, b=b, c=c); return i
        if k in ('wh', 'do', 'for', 'sw'):
            i = self.new(k)
            inner = path + [dict(t='swi' if k == 'sw' else 'loop', n=i, i=0, x=0, xs=[])]
            f = dict(zip('abcd', s.kids))
            for key, e in f.items():
                f[key] = self.stmt(e, inner) if e is not None and e.k not in EXPR else self.expr(e)
            self.n[i - 1].update(f); return i
        if k == 'darr': return self.new('darr', v=self.slots[s.name], a=s.v)
        if k == 'case': return self.new('case', v=s.v)
        if k == 'ret': return self.new('ret', a=self.expr(s.kids[0]))
        if k == 'goto':
            i = self.new('goto'); self.fixups.append((i, s.name)); return i
        if k in ('dflt', 'brk', 'cnt', 'lbl', 'nop'): return self.new(k)
        raise ValueError(k)

def flatten(prog): return Flat(prog).data

# ---------------------------------------------------------------------------
# Printing
# ---------------------------------------------------------------------------
BP = {'*': 13, '/': 13, '%': 13, '+': 12, '-': 12, '<<': 11, '>>': 11, '<': 10, '<=': 10, '>': 10, '>=': 10,
      '==': 9, '!=': 9, '&': 8, '^': 7, '|': 6, '&&': 5, '||': 4, ',': 1}
def prec(e):
    k = e.k
    if k in ('num', 'var', 'call', 'emit', 'mal', 'exit'): return 16
    if k == 'idx': return 14 if e.sty == '*' else 15
    if k == 'un': return 16 if e.o == '()' else 14
    if k == 'inc': return 15 if e.v else 14
    if k in ('bin', 'and', 'or', 'com'): return BP[e.o]
    if k == 'cnd': return 3
    if k == 'asg': return 2
    raise ValueError(k)

ESC = {10: '\\n', 9: '\\t', 92: '\\\\', 39: "\\'", 0: '\\0', 7: '\\a', 13: '\\r', 34: '"'}
def lit(v, sty):
    if sty == 'x': return '0x%x' % v
    if sty == 'X': return '0X%X' % v
    if sty == 'o': return '0%o' % v
    if sty == 'c' and (32 <= v < 127 or v in ESC): return "'%s'" % ESC.get(v, chr(v))
    return str(v)

class Printer:
    """suffix is appended to the names of functions, globals and arrays so that several
    programs fit in one file; extra() decides whether to add redundant parentheses."""
    def __init__(self, suffix='', extra=None, local=(), tight=False, rename=None):
        self.suffix, self.extra, self.local, self.tight = suffix, extra, set(local), tight
        self.rename = rename or {}
    def nm(self, name):
        return self.rename.get(name, name) if name in self.local else self.rename.get(name, name) + self.suffix
    def e(self, e, lvl=0, lhs=False):
        p = prec(e)
        s = self.e0(e)
        if p < lvl or (not lhs and self.extra and self.extra()): s = '(' + s + ')'
        return s
    def op(self, o): return o if self.tight else ' ' + o + ' '
    def e0(self, e):
        k = e.k
        if k == 'num': return lit(e.v, e.sty)
        if k == 'var': return self.nm(e.name)
        if k == 'call': return self.nm(e.name) + '(' + ', '.join(self.e(x, 2) for x in e.l) + ')'
        if k == 'emit': return 'o(' + self.e(e.kids[0], 2) + ')'
        if k == 'mal': return 'malloc(' + self.e(e.kids[0], 13) + ' * sizeof(int))'
        if k == 'exit': return 'exit(' + self.e(e.kids[0], 2) + ')'
        if k == 'idx':
            a, b = e.kids
            if e.sty == '*':
                if b.k == 'num' and b.v == 0: return '*' + self.e(a, 14)
                return '*(' + self.e(a, 12) + self.op('+') + self.e(b, 13) + ')'
            return self.e(a, 15) + '[' + self.e(b) + ']'
        if k == 'un':
            if e.o == '()': return '(' + self.e(e.kids[0]) + ')'
            s = self.e(e.kids[0], 14)
            if e.o == '(int)': return '(int)' + s
            return e.o + (' ' if s[0] == e.o else '') + s
        if k == 'inc':
            if e.v: return self.e(e.kids[0], 15, lhs=True) + e.o
            return e.o + self.e(e.kids[0], 14, lhs=True)
        if k in ('bin', 'and', 'or', 'com'):
            p = BP[e.o]
            a, b = self.e(e.kids[0], p), self.e(e.kids[1], p + 1)
            o = self.op(e.o)
            if self.tight and (a[-1] in '+-&|<>=!' or b[0] in '+-&|<>=!*'): o = ' ' + e.o + ' '
            return a + o + b
        if k == 'cnd':
            return self.e(e.kids[0], 4) + self.op('?') + self.e(e.kids[1], 2) + self.op(':') + self.e(e.kids[2], 3)
        if k == 'asg':
            return self.e(e.kids[0], 14, lhs=True) + ' ' + (e.o if e.o == '=' else e.o + '=') + ' ' + self.e(e.kids[1], 2)
        raise ValueError(k)
    def s(self, s, ind):
        t = '  ' * ind
        k = s.k
        if k == 'blk': return t + '{\n' + ''.join(self.s(x, ind + 1) for x in s.l) + t + '}\n'
        if k == 'ex': return t + self.e(s.kids[0]) + ';\n'
        if k == 'darr': return t + 'int %s[%d];\n' % (self.nm(s.name), s.v)
        if k == 'dec':
            ty = s.o or 'int '
            return t + ty + self.nm(s.name) + (' = ' + self.e(s.kids[0], 2) if s.kids[0] else '') + ';\n'
        if k == 'if':
            r = t + 'if (' + self.e(s.kids[0]) + ')\n'
            b, c = s.kids[1], s.kids[2]
            dangling = c is not None and b.k in ('if', 'wh', 'for')
            r += (t + '{\n' + self.s(b, ind + 1) + t + '}\n') if dangling else self.s(b, ind + 1)
            if c is not None:
                if c.k == 'if': r += t + 'else ' + self.s(c, ind).lstrip()
                else: r += t + 'else\n' + self.s(c, ind + 1)
            return r
        if k == 'wh': return t + 'while (' + self.e(s.kids[0]) + ')\n' + self.s(s.kids[1], ind + 1)
        if k == 'do': return t + 'do\n' + self.s(s.kids[0], ind + 1) + t + 'while (' + self.e(s.kids[1]) + ');\n'
        if k == 'for':
            a, b, c, d = s.kids
            f = lambda x: self.e(x) if x is not None else ''
            return t + 'for (' + f(a) + '; ' + f(b) + '; ' + f(c) + ')\n' + self.s(d, ind + 1)
        if k == 'sw': return t + 'switch (' + self.e(s.kids[0]) + ')\n' + self.s(s.kids[1], ind)
        if k == 'case': return t + 'case ' + (s.name or str(s.v)) + ':\n'
        if k == 'dflt': return t + 'default:\n'
        if k == 'brk': return t + 'break;\n'
        if k == 'cnt': return t + 'continue;\n'
        if k == 'ret': return t + ('return ' + self.e(s.kids[0]) if s.kids[0] else 'return') + ';\n'
        if k == 'lbl': return t + self.nm(s.name) + ':\n'
        if k == 'goto': return t + 'goto ' + self.nm(s.name) + ';\n'
        if k == 'nop': return t + ';\n'
        raise ValueError(k)

def ctext(prog, suffix='', extra=None, tight=False, rename=None):
    """C text of the declarations and functions of prog"""
    P0 = Printer(suffix, rename=rename)
    r = []
    for txt in prog.enums: r.append(txt + '\n')
    for name, v in prog.globs: r.append('int %s%s;\n' % (P0.nm(name), ' = %d' % v if v else ''))
    for name, vals in prog.arrays: r.append('int %s[%d];\n' % (P0.nm(name), len(vals)))
    if len(prog.funcs) > 1:
        for f in prog.funcs[1:]:
            r.append('%s %s(%s);\n' % (f.ret, P0.nm(f.name), ', '.join(f.ptypes.get(p, 'int ') + p for p in f.params)))
    for f in reversed(prog.funcs):
        loc = set(f.params) | {e.name for e in walk(f.body) if e.k in ('dec', 'darr', 'lbl')}
        pr = Printer(suffix, extra, loc, tight, rename)
        r.append('%s %s(%s)\n' % (f.ret, pr.nm(f.name), ', '.join(f.ptypes.get(p, 'int ') + (rename or {}).get(p, p) for p in f.params)) + pr.s(f.body, 0))
    return ''.join(r)

def arrays_init(prog, suffix=''):
    return ''.join('  %s%s[%d] = %d;\n' % (n, suffix, i, v) for n, vals in prog.arrays for i, v in enumerate(vals))

OUT_SH = '#include <stdio.h>\n#include <stdlib.h>\nint o(int x) { printf("%d ", x); return x; }\n'
OUT_EXE = '''#include <stdio.h>
#include <stdlib.h>
void pn(int n) { if (n > 9) pn(n / 10); putchar('0' + n % 10); }
int o(int n) { int m = n; if (n < 0) { putchar('-'); m = -n; } pn(m); putchar(' '); return n; }
'''
def file_text(cases, exe, texts=None):
    """One C file running all cases: [(number, Prog, text)]"""
    r = [OUT_EXE if exe else OUT_SH]
    for k, p, txt in cases: r.append(txt)
    r.append('int main() {\n')
    for k, p, txt in cases:
        sfx = '' if getattr(p, 'nosuffix', False) else '%d' % k
        mark = "putchar(10); putchar('#'); pn(%d); putchar(' ');" % k if exe else 'printf("\\n#%d ");' % k
        r.append('  %s\n%s  %s%s();\n' % (mark, arrays_init(p, sfx), p.funcs[0].name, sfx))
    r.append('  ' + ("putchar(10); putchar('$');" if exe else 'printf("\\n$");') + '\n  return 0;\n}\n')
    return ''.join(r)
