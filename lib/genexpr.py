"""Generation of expressions (helper evaluation here only serves to pick operand values for
which C defines the result; what the result is, is decided by the specification)."""
from cgen import *

ARITH = ['*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||']
COMP = ['+', '-', '*', '/', '%', '<<', '>>', '&', '^', '|']
UN = ['-', '~', '!', '+', '(int)', '()']
M = 2 ** 31

class Undef(Exception): pass
def ck(v):
    if not -M < v < M: raise Undef
    return v
def binval(o, a, b):
    if o == '+': return ck(a + b)
    if o == '-': return ck(a - b)
    if o == '*': return ck(a * b)
    if o in '/%':
        if b == 0: raise Undef
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return ck(q if o == '/' else a - b * q)
    if o == '<<':
        if a < 0 or not 0 <= b <= 30: raise Undef
        return ck(a << b)
    if o == '>>':
        if not 0 <= b <= 31: raise Undef
        return a >> b
    return ck({'&': a & b, '|': a | b, '^': a ^ b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[o] + 0)
def unval(o, a): return ck({'-': -a, '~': ~a, '!': int(a == 0), '+': a, '(int)': a, '()': a}[o])

def ev(e, env):
    k = e.k
    if k == 'num': return e.v
    if k == 'var': return env[e.name]
    if k == 'idx':
        a, b = ev(e.kids[0], env), ev(e.kids[1], env)
        try: base, off = a
        except TypeError: raise Undef
        if not 0 <= off + b < len(env[base, 'mem']): raise Undef
        return env[base, 'mem'][off + b]
    if k == 'un': return unval(e.o, ev(e.kids[0], env))
    if k == 'bin':
        a, b = ev(e.kids[0], env), ev(e.kids[1], env)
        if isinstance(a, tuple) or isinstance(b, tuple): raise Undef
        return binval(e.o, a, b)
    if k == 'and': return int(bool(ev(e.kids[0], env)) and bool(ev(e.kids[1], env)))
    if k == 'or': return int(bool(ev(e.kids[0], env)) or bool(ev(e.kids[1], env)))
    if k == 'cnd': return ev(e.kids[1] if ev(e.kids[0], env) else e.kids[2], env)
    if k == 'com': ev(e.kids[0], env); return ev(e.kids[1], env)
    if k == 'asg':
        v = ev(e.kids[1], env)
        if e.o != '=': v = binval(e.o, ev(e.kids[0], env), v)
        if e.kids[0].k == 'var': env[e.kids[0].name] = v
        return v
    if k == 'inc':
        old = ev(e.kids[0], env); new = ck(old + (1 if e.o == '++' else -1))
        if e.kids[0].k == 'var': env[e.kids[0].name] = new
        return old if e.v else new
    if k == 'emit': return ev(e.kids[0], env)
    raise Undef

def defined(e, env):
    try: ev(e, dict(env)); return True
    except (Undef, KeyError, TypeError): return False

POOL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 85, 100, 127, 128, 170, 200, 255, 256, 257, 1000, 1023, 4095, 4096, 9999, 32767, 32768, 65535,
        65536, 100000, 1000003, 16777215, 123456789, 1431655765, 2147483647]
def value(r):
    t = r.random()
    if t < .55: v = r.randrange(0, 14)
    elif t < .85: v = r.choice(POOL[:30])
    else: v = r.choice(POOL)
    return -v if r.random() < .33 else v

LOCALS = ['la', 'lb', 'lc', 'ld']
GLOBS = ['ga', 'gb']
SIDE = ['sa', 'sb', 'sc']       # locals that carry side effects

class G:
    def __init__(self, r):
        self.r = r
        self.new_env()
    def new_env(self):
        r = self.r
        self.env = {v: value(r) for v in LOCALS + GLOBS + SIDE}
        self.env['lc'], self.env['ld'] = r.randrange(0, 5), r.randrange(1, 8)
        self.small = False
        self.env['gs'] = value(r)
        self.mem = [value(r) for _ in range(6)]
        self.env['arr'] = ('arr', 0); self.env['arr', 'mem'] = self.mem
        self.off = r.randrange(0, 3)
        self.env['lp'] = ('arr', self.off)
        self.side = list(SIDE)
        r.shuffle(self.side)
    def sty(self):
        return self.r.choice(['', '', '', '', 'x', 'X', 'o', 'c'])
    def lit(self, lo=0, hi=None):
        v = abs(value(self.r)) if hi is None else self.r.randrange(lo, hi)
        return Node('num', v=v, sty=self.sty())
    def index(self, depth, lv=False):
        """an expression with a value in 0..2; in an lvalue pnut's shell backend loses the
        parentheses of an index with an operator of lower precedence than + (known finding)"""
        r = self.r
        t = r.random()
        if t < .5 or depth <= 0: return Node('num', v=r.randrange(0, 3))
        if lv: return bin('%', paren(bin('&', self.expr(depth - 1), num(255))), num(3)) if t < .8 else bin('-', num(2), bin('%', paren(bin('&', self.expr(depth - 1), num(63))), num(3)))
        return r.choice([lambda: bin('&', self.expr(depth - 1), num(1)), lambda: bin('%', paren(bin('&', self.expr(depth - 1), num(255))), num(3)),
                         lambda: bin('<', self.expr(depth - 1), self.expr(depth - 1)), lambda: un('!', self.expr(depth - 1)),
                         lambda: cnd(self.expr(depth - 1), num(r.randrange(3)), num(r.randrange(3)))])()
    def atom(self):
        r = self.r; t = r.random()
        if self.small and t < .8: return var(r.choice(['lc', 'ld'])) if t < .45 else Node('num', v=r.randrange(0, 9))
        if t < .40: return var(r.choice(LOCALS))
        if t < .52: return var(r.choice(GLOBS))
        if t < .80: return self.lit()
        if t < .88: return idx(var('arr'), Node('num', v=r.randrange(0, 6)))
        if t < .94: return idx(var('lp'), Node('num', v=r.randrange(0, 3)), sty=r.choice([None, '*']))
        return un(r.choice(UN), var(r.choice(LOCALS)))
    def lvalue(self, depth=0):
        """an lvalue not used anywhere else in the full expression, or None"""
        if not self.side: return None
        s = self.side.pop()
        if s == 'sc':     # the element after those that are read through lp and arr
            return var('gs')
        return var(s)
    def expr(self, d):
        r = self.r
        if d <= 0: return self.atom()
        t = r.random()
        if t < .08: return self.atom()
        if t < .24: return un(r.choice(UN), self.expr(d - 1))
        if t < .32: return cnd(self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        if t < .38: return idx(var(r.choice(['arr', 'lp'])), self.index(d - 1), sty=r.choice([None, None, '*']))
        if t < .48:
            lv = self.lvalue()
            if lv is None: return self.atom()
            u = r.random()
            if u < .5: return inc(r.choice(['++', '--']), lv, r.random() < .5)
            return asg(r.choice(['=', '=', '='] + COMP), lv, self.expr(d - 1))
        o = r.choice(ARITH)
        a = self.expr(d - 1)
        if o in ('<<', '>>') and r.random() < .8: b = Node('num', v=r.randrange(0, 8)) if r.random() < .6 else bin('&', self.expr(d - 2), num(7))
        elif o in '/%' and r.random() < .6: b = r.choice([lambda: Node('num', v=r.randrange(1, 12), sty=self.sty()), lambda: bin('|', self.expr(d - 2), num(1))])()
        else: b = self.expr(d - r.choice([1, 1, 2]))
        return bin(o, a, b)
    def good(self, mk, tries=30):
        """mk() until its value is defined in the current environment"""
        for _ in range(tries):
            save = list(self.side)
            e = mk()
            if defined(e, self.env): return e
            self.side = save
        return None
    def prologue(self):
        p = [dec(v, num(self.env[v])) for v in LOCALS + SIDE] + [dec('v', num(0))]
        p.append(Node('dec', o='int *', name='lp', kids=[bin('+', var('arr'), num(self.off)) if self.off else var('arr')]))
        return p
    def epilogue(self):
        return [ex(emit(var(v))) for v in SIDE + ['gs']]
    def globs(self): return [(v, self.env[v]) for v in GLOBS + ['gs']]
    def arrays(self): return [('arr', self.mem)]
    def prog(self, stmts, tag, extra_funcs=(), decs=()):
        body = blk(*(self.prologue() + list(decs) + stmts + self.epilogue()))
        p = Prog([Func('t', [], body)] + list(extra_funcs), self.globs(), self.arrays(), tag)
        if eager_hazard(body): p.exe_only = True
        return p

def contexts(g, e, which=None):
    """Statements that show the value of e in different uses"""
    r = g.r
    w = which if which is not None else r.randrange(8)
    if w == 0: return [ex(emit(e))]
    if w == 1: return [ex(asg('=', var('v'), e)), ex(emit(var('v')))]
    if w == 2: return [if_(num(1), ex(asg('=', var('v'), e))), ex(emit(var('v')))]
    if w == 3: return [if_(e, ex(emit(num(1))), ex(emit(num(0))))]
    if w == 4: return [ex(emit(un('!', e)))]
    if w == 5: return [wh(e, blk(ex(emit(num(7))), brk()))]
    if w == 6: return [ex(asg('=', idx(var('arr'), num(5)), e)), ex(emit(idx(var('arr'), num(5))))]
    if w == 7: return [ex(asg('=', var('v'), num(3))), ex(asg('+', var('v'), bin('&', e, num(1023)))), ex(emit(var('v')))]

def rotations(e):
    """Other groupings of the operators of e: what would be computed if parentheses were lost or misplaced"""
    B = ('bin', 'and', 'or')
    def mk(o, a, b): return bin(o, a, b)
    if e.k in B:
        a, b = e.kids
        if b.k in B: yield mk(b.o, mk(e.o, a, b.kids[0]), b.kids[1])
        if a.k in B: yield mk(a.o, a.kids[0], mk(e.o, a.kids[1], b))
        if b.k == 'cnd': yield cnd(mk(e.o, a, b.kids[0]), b.kids[1], b.kids[2])
        if a.k == 'cnd': yield cnd(a.kids[0], a.kids[1], mk(e.o, a.kids[2], b))
        if a.k == 'un': yield un(a.o, mk(e.o, a.kids[0], b))
        if b.k == 'asg': yield mk(e.o, a, b.kids[1])
        if a.k == 'asg': yield asg(a.o, a.kids[0], mk(e.o, a.kids[1], b))
    if e.k == 'un' and e.kids[0].k in B:
        c = e.kids[0]; yield mk(c.o, un(e.o, c.kids[0]), c.kids[1])
    if e.k == 'un': yield e.kids[0]
    if e.k == 'cnd':
        a, b, c = e.kids
        if a.k in B: yield mk(a.o, a.kids[0], cnd(a.kids[1], b, c))
        if c.k in B: yield mk(c.o, cnd(a, b, c.kids[0]), c.kids[1])
        if a.k == 'cnd': yield cnd(a.kids[0], a.kids[1], cnd(a.kids[2], b, c))
    if e.k == 'asg' and e.kids[1].k in B:
        c = e.kids[1]; yield mk(c.o, asg(e.o, e.kids[0], c.kids[0]), c.kids[1])
    for i, x in enumerate(e.kids):
        if x is None: continue
        for y in rotations(x):
            n = Node(e.k, e.o, e.v, e.kids, e.l, e.name, e.sty); n.kids[i] = y
            yield n

def score(e, env):
    """number of the other groupings that have the same value as e (to be minimised)"""
    v = ev(e, dict(env)); n = 0
    for x in rotations(e):
        try:
            if ev(x, dict(env)) == v: n += 1
        except (Undef, KeyError, TypeError): pass
    return n
