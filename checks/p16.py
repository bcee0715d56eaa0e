#!/usr/bin/env python3
"""P16: integer objects.  IntTypes.tla executes generated programs over objects of all integer types;
the programs compiled by the native backends must show the same values."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, uses

CFG = ('SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT WidenKeeps\nINVARIANT Progress\nINVARIANT Report\n'
       'PROPERTY OneObject\nPROPERTY ShowOnly\n')
EXV = ['i386', 'x64', 'i386rel', 'x64rel', 'i386safe', 'x64safe']
W = dict(sc=8, uc=8, ss=16, us=16, si=32, ui=32, sl=64, ul=64)
SMALL = ['sc', 'uc', 'ss', 'us', 'si', 'ui']
CT = dict(sc=['char', 'signed char'], uc=['unsigned char'], ss=['short', 'signed short'], us=['unsigned short'], si=['int', 'signed int', 'int'],
          ui=['unsigned int', 'unsigned'], sl=['long long', 'long long int'], ul=['unsigned long long'])
BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=']
CMP = BIN[10:]
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
def signed(t): return t[0] == 's'
def wrap(v, t):
    v &= (1 << W[t]) - 1
    return v - (1 << W[t]) if signed(t) and v >> (W[t] - 1) else v
def limbs(v, t): return [(v >> (16 * i)) & 65535 for i in range((W[t] + 15) // 16)]
def prom(t): return 'si' if W[t] < 32 else t
def common(a, b):
    a, b = prom(a), prom(b)
    if W[a] != W[b]: return a if W[a] > W[b] else b
    return b if signed(a) else a

# evaluation here only picks operands for which C defines a value
class Undef(Exception): pass
def ck(v, t):
    if signed(t):
        if wrap(v, t) != v: raise Undef
        return v
    return wrap(v, t)
def typ(e, ob):
    k = e['k']
    if k in ('num', 'cast', 'call', 'hole'): return e['t']
    if k == 'obj': return ob[e['o'] - 1][0]
    if k == 'un': return 'si' if e['op'] == '!' else prom(typ(e['a'], ob))
    if k == 'bin':
        if e['op'] in CMP: return 'si'
        if e['op'] in ('<<', '>>'): return prom(typ(e['a'], ob))
        return common(typ(e['a'], ob), typ(e['b'], ob))
    if k in ('and', 'or'): return 'si'
    return common(typ(e['b'], ob), typ(e['c'], ob))
def binv(o, a, ta, b, tb):
    if o in ('<<', '>>'):
        t = prom(ta)
        if not 0 <= b < W[t]: raise Undef
        if o == '>>': return a >> b
        if signed(t) and a < 0: raise Undef
        return ck(a << b, t)
    t = common(ta, tb)
    a, b = wrap(a, t), wrap(b, t)
    if o in ('/', '%'):
        if b == 0: raise Undef
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        ck(q, t)
        return q if o == '/' else a - b * q
    if o in CMP: return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o])
    return ck({'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[o], t)
def ev(e, ob):
    k = e['k']
    if k == 'num': return e['x']
    if k == 'obj': return ob[e['o'] - 1][1]
    if k == 'hole': return e['x']
    if k == 'un':
        a = ev(e['a'], ob); t = prom(typ(e['a'], ob))
        return {'-': lambda: ck(-wrap(a, t), t), '~': lambda: wrap(~a, t), '!': lambda: int(a == 0), '+': lambda: a}[e['op']]()
    if k == 'bin': return binv(e['op'], ev(e['a'], ob), typ(e['a'], ob), ev(e['b'], ob), typ(e['b'], ob))
    if k == 'and': return int(bool(ev(e['a'], ob)) and bool(ev(e['b'], ob)))
    if k == 'or': return int(bool(ev(e['a'], ob)) or bool(ev(e['b'], ob)))
    if k == 'cnd': return wrap(ev(e['b'] if ev(e['a'], ob) else e['c'], ob), typ(e, ob))
    if k == 'cast': return wrap(ev(e['a'], ob), e['t'])
    if k == 'call': return wrap(wrap(ev(e['a'], ob), e['p']), e['t'])

def interesting(r, t):
    n = W[t]
    v = r.choice([0, 1, 2, 3, 5, 7, 10, 100, 127, 128, 129, 200, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 5, 2**63 - 1, 2**63,
                  r.getrandbits(8), r.getrandbits(16), r.getrandbits(32), r.getrandbits(64), (1 << (n - 1)) - 1, 1 << (n - 1), (1 << n) - 1, (1 << (n - 1)) - 1, 1 << (n - 1), (1 << n) - 1])
    if r.random() < .4: v = -v
    return wrap(v, t)

class Prog(uses.Use):
    exe = True
    def __init__(self, num, r, types):
        super().__init__(num)
        self.r, self.types, self.long = r, types, any(W[t] == 64 for t in types)
        self.glob, self.body, self.stmts, self.decl = '', '', [], ''
        self.objs, self.acc = [], []      # (type, value) now; ways to write the lvalue
        self.funs = set()
        self.init = []
        self.nonneg = False
    def runs(self, v, s): return super().runs(v, s) and not (self.long and v.startswith('i386'))
    def obj(self, t, v, kind):
        r, k, n = self.r, self.num, len(self.objs) + 1
        ct = r.choice(CT[t]); N = '%d_%d' % (k, n)
        acc, init = [], None
        lit = self.lit(v, t)
        i = r.randrange(3)
        if kind == 'local':
            if r.random() < .5: self.decl += '  %s o%s = %s;\n' % (ct, N, lit)
            else: self.decl += '  %s o%s;\n' % (ct, N); init = 'o%s' % N
            acc = ['o%s' % N]
        elif kind == 'global':
            if r.random() < .4 and not lit.startswith('('): self.glob += '%s o%s = %s;\n' % (ct, N, lit)
            else: self.glob += '%s o%s;\n' % (ct, N); init = 'o%s' % N
            acc = ['o%s' % N]
        elif kind == 'static': self.decl += '  static %s o%s;\n' % (ct, N); init = 'o%s' % N; acc = ['o%s' % N]
        elif kind == 'garr': self.glob += '%s a%s[3];\n' % (ct, N); init = 'a%s[%d]' % (N, i); acc = ['a%s[%d]' % (N, i), '*(a%s + %d)' % (N, i), 'a%s[i + %d]' % (N, i)]
        elif kind == 'larr': self.decl += '  %s a%s[3];\n' % (ct, N); init = 'a%s[%d]' % (N, i); acc = ['a%s[%d]' % (N, i), '*(a%s + %d)' % (N, i), 'a%s[i + %d]' % (N, i)]
        elif kind in ('gstr', 'lstr'):
            a, b = r.choice(['char', 'int', 'short']), r.choice(['char', 'int', 'short'])
            self.glob += 'struct T%s { %s a; %s m; %s b; };\n' % (N, a, ct, b)
            d = 'struct T%s s%s;\n' % (N, N)
            if kind == 'gstr': self.glob += d
            else: self.decl += '  ' + d
            init = 's%s.m' % N; acc = ['s%s.m' % N, '(&s%s)->m' % N]
        elif kind == 'ptr':
            self.glob += '%s o%s;\n' % (ct, N); self.decl += '  %s *p%s = &o%s;\n' % (ct, N, N); init = 'o%s' % N; acc = ['*p%s' % N, 'p%s[0]' % N, 'o%s' % N]
        elif kind == 'lptr':
            self.decl += '  %s o%s;\n  %s *p%s = &o%s;\n' % (ct, N, ct, N, N); init = 'o%s' % N; acc = ['*p%s' % N, 'p%s[0]' % N, 'o%s' % N]
        elif kind == 'sptr':
            self.glob += 'struct T%s { char a; %s m; };\n' % (N, ct); self.decl += '  struct T%s s%s;\n  struct T%s *p%s = &s%s;\n' % (N, N, N, N, N)
            init = 'p%s->m' % N; acc = ['p%s->m' % N, 's%s.m' % N]
        if init: self.init.append('  %s = %s;\n' % (init, lit))
        self.objs.append((t, v)); self.acc.append(acc)
        self.first = getattr(self, 'first', []) + [dict(t=t, v=limbs(v, t))]
    def lit(self, v, t):
        """text of a constant with the value v in type t"""
        if v < 0:
            if v == -2**31: return '(-2147483647 - 1)'
            if -2**31 < v: return '-%d' % -v
        elif v < 2**31: return str(v)
        if W[t] == 32: return '%dU' % wrap(v, 'ui') if not signed(t) else '(-2147483647 - 1 + %d)' % (v + 2**31)
        # long long
        if v > 0 and self.r.random() < .6: return self.r.choice(['%dLL', '%d', '0x%xLL'] if signed(t) else ['%dULL', '0x%xULL', '%dull']) % v
        u = v & (2**64 - 1)
        return '((((%s)%d << 16 | %d) << 16 | %d) << 16 | %d)' % ('unsigned long long' if not signed(t) else 'long long', wrap(u >> 48, 'ss') if signed(t) else u >> 48, u >> 32 & 65535, u >> 16 & 65535, u & 65535)
    # expressions
    def number(self):
        r = self.r
        if self.long and r.random() < .4:
            t = r.choice(['sl', 'ul']); v = abs(interesting(r, t)); v = min(v, 2**63 - 1) if t == 'sl' else v
            return dict(k='num', t=t, v=limbs(v, t), x=v, s=r.choice((['%dLL', '%dll'] + ['%d'] * (v >= 2**31)) if t == 'sl' else ['%dULL', '%dULL', '0x%xULL']) % v)
        if r.random() < .15: t = 'ui'; v = interesting(r, t)
        else: t = 'si'; v = abs(interesting(r, r.choice(['sc', 'ss', 'si']))); v = min(v, 2**31 - 1)
        s = str(v) + 'U' if t == 'ui' else r.choice(['%d', '0x%x', '0%o']) % v if v else '0'
        if t == 'si' and 32 < v < 127 and v not in (39, 92) and r.random() < .3: s = "'%c'" % v
        return dict(k='num', t=t, v=limbs(v, t), x=v, s=s)
    def expr(self, d, hole=None, avoid=None):
        r = self.r; t = r.random()
        if d <= 0 or t < .1:
            if hole and r.random() < .6: return dict(k='hole', t=hole[0], x=hole[1])
            cand = [i for i in range(len(self.objs)) if i != avoid]
            if cand and r.random() < .72: return dict(k='obj', o=r.choice(cand) + 1)
            return self.number()
        sub = lambda: self.expr(d - 1, hole, avoid)
        if t < .22: return dict(k='un', op=r.choice('-~!-~+'), a=sub())
        if t < .34: return dict(k='cast', t=r.choice(self.types), a=sub())
        if t < .42: return dict(k='call', p=r.choice(self.types), t=r.choice(self.types), a=sub())
        if t < .48: return dict(k='cnd', a=sub(), b=sub(), c=sub())
        if t < .53: return dict(k=r.choice(['and', 'or']), a=sub(), b=sub())
        o = r.choice(BIN)
        if o in ('<<', '>>') and r.random() < .8:
            n = r.choice([0, 1, 3, 7, 8, 15, 16, 24, 31]); return dict(k='bin', op=o, a=sub(), b=dict(k='num', t='si', v=[n, 0], x=n, s=str(n)))
        return dict(k='bin', op=o, a=sub(), b=sub())
    def good(self, d, hole=None, avoid=None):
        for _ in range(60):
            e = self.expr(d, hole, avoid)
            if hole and (sum(1 for x in nodes(e) if x['k'] == 'hole') != 1 or not always(e)): continue
            try: ev(e, self.objs)
            except Undef: continue
            return e
        return None
    def c(self, e, p=0, hole=''):
        k, r = e['k'], self.r
        if k == 'num': return e['s']
        if k == 'hole': return hole
        if k == 'obj':
            s = r.choice(self.acc[e['o'] - 1])
            return s
        if k == 'un':
            s = self.c(e['a'], 11, hole)
            return e['op'] + (' ' if s[0] in '-+' else '') + s
        if k == 'cast': return '(%s)%s' % (r.choice(CT[e['t']]), self.c(e['a'], 11, hole))
        if k == 'call':
            f = 'f_%s_%s' % (e['p'], e['t']); self.funs.add((e['p'], e['t']))
            return '%s(%s)' % (f, self.c(e['a'], 0, hole))
        if k == 'cnd':
            s = '%s ? %s : %s' % (self.c(e['a'], 1, hole), self.c(e['b'], 0, hole), self.c(e['c'], 0, hole))
            return '(%s)' % s if p > 0 else s
        o = dict(bin=lambda: e['op'], **{'and': lambda: '&&', 'or': lambda: '||'})[k]()
        q = PREC[o]
        s = '%s %s %s' % (self.c(e['a'], q, hole), o, self.c(e['b'], q + 1, hole))
        return '(%s)' % s if q < p or r.random() < .1 else s
    # statements
    def emit(self, e):
        self.stmts.append(dict(t='out', e=e)); self.body += '  h(%s);\n' % self.c(e)
    def cond(self, e):
        self.stmts.append(dict(t='cond', e=e))
        s = self.c(e)
        self.body += self.r.choice(['  if (%s) q(1); else q(0);\n', '  q((%s) ? 1 : 0);\n', '  i = 0; while (%s) { i = 1; break; } q(i); i = 0;\n', '  q(!!(%s));\n']) % s
    def set(self, o, op, e, wd):
        """o op= e, used in a surrounding expression of depth wd"""
        t, v = self.objs[o]
        try:
            if op == '=': x = ev(e, self.objs)
            elif op in ('p++', '++p'): x = binv('+', v, t, 1, 'si')
            elif op in ('p--', '--p'): x = binv('-', v, t, 1, 'si')
            else: x = binv(op, v, t, ev(e, self.objs), typ(e, self.objs))
        except Undef: return
        new = wrap(x, t)
        save = self.objs[o]
        self.objs[o] = (t, new)
        hole = (t, v if op[0] == 'p' else new)
        w = self.good(wd, hole, o) if wd else None
        if not w: w = dict(k='hole', t=t, x=hole[1])
        l = self.r.choice(self.acc[o])
        P = l if l[0] != '*' else '(' + l + ')'
        s = {'p++': P + '++', 'p--': P + '--', '++p': '++' + l, '--p': '--' + l}.get(op) or '%s %s= %s' % (l, op if op != '=' else '', self.c(e))
        if op not in ('p++', 'p--', '++p', '--p') and not (w['k'] == 'hole'): s = '(' + s + ')'
        elif op in ('++p', '--p'): s = '(' + s + ')'
        self.stmts.append(dict(t='set', o=o + 1, op=op, e=e or dict(k='hole'), w=w))
        if op == '=' and W[t] == 8 and x != new:      # see DESIGN.md: the value of (c = e) is frozen by a golden file
            self.stmts[-1]['w'] = dict(k='hole', t=t, x=new)
            self.body += '  %s;\n  h(%s);\n' % (s, l)
            return
        self.body += '  h(%s);\n' % self.c(w, 0, s)
    def show(self):
        for i in range(len(self.objs)): self.emit(dict(k='obj', o=i + 1))
    def finish(self):
        self.body = self.decl + ''.join(self.init) + self.body
        self.what = 'P16: ' + (self.glob + self.body)[-500:]

def nodes(e):
    yield e
    for k in 'abc':
        if isinstance(e.get(k), dict): yield from nodes(e[k])
def always(e):
    """is the hole always evaluated?"""
    for n in nodes(e):
        if n['k'] in ('and', 'or') and any(x['k'] == 'hole' for x in nodes(n['b'])): return False
        if n['k'] == 'cnd' and any(x['k'] == 'hole' for f in 'bc' for x in nodes(n[f])): return False
    return True
def clean(x):
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items() if k not in ('s', 'x')}
    if isinstance(x, list): return [clean(v) for v in x]
    return x

KINDS = ['local', 'global', 'garr', 'larr', 'gstr', 'lstr', 'ptr', 'lptr', 'sptr', 'static']
def build(ctx):
    r = ctx.rng
    ps = []
    def new(types): p = Prog(len(ps) + 1, r, types); ps.append(p); return p
    O = lambda o: dict(k='obj', o=o)
    # every pair of types under every operator, in both orders, with values near the limits
    for ta in SMALL:
        for tb in SMALL:
            ops = list(BIN); r.shuffle(ops)
            for k in range(0, len(ops), 8):
                p = new(SMALL)
                for _ in range(2): p.obj(ta, interesting(r, ta), r.choice(KINDS))
                for _ in range(2): p.obj(tb, interesting(r, tb), r.choice(KINDS))
                p.obj(tb, r.randrange(1, 8), 'local')
                for o in ops[k:k + 8]:
                    for a, b in [(1, 3), (1, 5), (2, 4), (2, 5)]:
                        e = dict(k='bin', op=o, a=O(a), b=O(b))
                        try: ev(e, p.objs)
                        except Undef: continue
                        u = r.random()
                        if u < .5: p.emit(e)
                        elif u < .7: p.cond(e)
                        else:
                            n = p.number()
                            w = dict(k='bin', op=r.choice(['<', '>', '==', '/', '>>', '+']), a=e, b=n if r.random() < .5 else dict(k='num', t='si', v=[2, 0], x=2, s='2'))
                            try: ev(w, p.objs)
                            except Undef: w = e
                            p.emit(w)
            p = new(SMALL)
            p.obj(ta, interesting(r, ta), r.choice(KINDS)); p.obj(tb, interesting(r, tb), r.choice(KINDS)); p.obj(tb, r.randrange(1, 8), 'local')
            for op in ['=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', 'p++', 'p--', '++p', '--p']:
                p.set(0, op, O(r.choice([2, 3])), r.choice([0, 1, 1]))
                if r.random() < .3: p.set(1, '=', O(1), 0); p.set(0, '=', p.number(), 1)
            p.show()
    for t in SMALL:       # unary operators, casts and calls
        p = new(SMALL)
        for _ in range(4): p.obj(t, interesting(r, t), r.choice(KINDS))
        for o in range(1, 5):
            for u in '-~!+':
                e = dict(k='un', op=u, a=O(o))
                for w in (e, dict(k='bin', op='<', a=e, b=p.number()), dict(k='bin', op='>>', a=e, b=dict(k='num', t='si', v=[1, 0], x=1, s='1'))):
                    try: ev(w, p.objs)
                    except Undef: continue
                    p.emit(w)
            for u in SMALL:
                e = dict(k='cast', t=u, a=O(o)); p.emit(e); p.cond(dict(k='bin', op=r.choice(CMP), a=e, b=r.choice([p.number(), O(o)])))
                e = dict(k='call', p=u, t=r.choice(SMALL), a=O(o)); p.emit(e); p.cond(dict(k='bin', op=r.choice(CMP), a=e, b=r.choice([p.number(), O(o)])))
    for _ in range(ctx.budget(350, 4000)):
        long = r.random() < .15
        types = SMALL + ['sl', 'ul'] if long else SMALL
        p = new(types)
        for _ in range(r.choice([2, 3, 5])): t = r.choice(types); p.obj(t, interesting(r, t), r.choice(KINDS))
        for _ in range(r.choice([4, 8, 12])):
            u = r.random()
            if u < .45:
                e = p.good(r.choice([1, 2, 3]))
                if e: p.emit(e)
            elif u < .6:
                e = p.good(r.choice([1, 2, 3]))
                if e: p.cond(e)
            else:
                o = r.randrange(len(p.objs))
                op = r.choice(['=', '=', '=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', 'p++', 'p--', '++p', '--p'])
                e = p.good(r.choice([0, 1, 2]), None, o)
                if e: p.set(o, op, e, r.choice([0, 0, 1, 2]))
        p.show()
    for p in ps: p.finish()
    return ps

def main():
    ctx = pv.Ctx('P16')
    ctx.build(EXV)
    ps = build(ctx)
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump([dict(objs=p.first, prog=clean(p.stmts)) for p in ps], open(f, 'w'))
    res, st = ctx.tlc_ok('IntTypes', CFG, env=dict(CASES_FILE=f), timeout=700)
    for x in res: ps[x['c'] - 1].out_ = x['o'] if x['m'] == 'end' else None
    for p in ps: p.out = p.out_
    ctx.count('discarded_undefined', sum(p.out is None for p in ps))
    us = [p for p in ps if p.out is not None]
    ctx.count('statements', sum(len(p.stmts) for p in us))
    r = ctx.rng
    for x in us[:600:170]: ctx.sample(dict(c=x.text(), out=x.out))
    r.shuffle(us)
    head = uses.HEAD + 'void h(int x) { q(x & 65535); q((x >> 16) & 65535); }\n'
    jobs = []
    class B(uses.Batch):
        def source(self, g):
            self2 = uses.Batch(self.ctx, head + ''.join('%s f_%s_%s(%s x) { return x; }\n' % (CT[t][0], q, t, CT[q][0]) for q, t in sorted(set.union(*[p.funs for p in g]))))
            return uses.Batch.source(self2, g)
    b = B(ctx)
    groups = []
    for long in (False, True):
        l = [p for p in us if p.long == long]
        groups += [l[k:k + 25] for k in range(0, len(l), 25)]
    for n, g in enumerate(groups):
        jobs += [(g, v, None) for v in (EXV if not ctx.quick else ['i386', 'x64', EXV[2 + n % 4]])]
    ctx.pmap(b.batch, jobs)
    ctx.finish()
if __name__ == '__main__': main()
