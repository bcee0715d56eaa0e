#!/usr/bin/env python3
"""P09: constant expressions.  Const.tla gives the value of every constant expression in the place
where it is used; compiled programs show the values pnut gives them."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, uses
from genexpr import binval, unval, Undef, value

CFG = ('SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Progress\nINVARIANT Report\n'
       'PROPERTY EnumeratorsConstant\nPROPERTY SelectOnce\nPROPERTY OutGrows\n')
SHV = ['shrel', 'shopt', 'shcompact', 'shset', 'shsafe', 'shall']
EXV = ['i386', 'x64', 'i386rel', 'x64rel', 'i386safe', 'x64safe']
BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||']
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}

# expressions: the records that Const.tla reads, with the additional field s (spelling)
def num(v, s=None): return dict(k='num', v=v, s=s or str(v)) if v >= 0 else un('-', num(-v))
def un(o, a): return dict(k='un', o=o, a=a)
def bin(o, a, b): return dict(k={'&&': 'and', '||': 'or'}.get(o, 'bin'), o=o, a=a, b=b)
def cnd(a, b, c): return dict(k='cnd', a=a, b=b, c=c)
def en(n): return dict(k='en', n=n)

def text(e, p=0, sp=' ', r=None):
    """C text; p: precedence needed by the context"""
    k = e['k']
    if k in ('num', 'def', 'id'): return e['s']
    if k == 'en': return e['n']
    if k == 'un':
        if e['o'] == '()': return '(' + text(e['a'], 0, sp, r) + ')'
        t = text(e['a'], 11, sp, r)
        s = e['o'] + (' ' if t[0] in '-+' else '') + t; q = 11
    elif k == 'cnd':
        s = text(e['a'], 1, sp, r) + sp + '?' + sp + text(e['b'], 0, sp, r) + sp + ':' + sp + text(e['c'], 0, sp, r); q = 0
        if p > 0: return '(' + s + ')'
        return s
    else:
        q = PREC[e['o']]
        b = text(e['b'], q + 1, sp, r)
        s = text(e['a'], q, sp, r) + sp + e['o'] + (' ' if not sp and (b[0] in '-+&|') else sp) + b
    if q < p or (r and r.random() < .08): return '(' + s + ')'
    return s

def ev(e, env, pp):
    """Only used to pick operands for which C defines a value"""
    k = e['k']
    if k in ('num', 'def'): return e['v']
    if k == 'id': return 0
    if k == 'en': return 0 if pp else env[e['n']]
    if k == 'un': return unval(e['o'], ev(e['a'], env, pp))
    if k == 'and': return int(bool(ev(e['a'], env, pp)) and bool(ev(e['b'], env, pp)))
    if k == 'or': return int(bool(ev(e['a'], env, pp)) or bool(ev(e['b'], env, pp)))
    if k == 'cnd': return ev(e['b'] if ev(e['a'], env, pp) else e['c'], env, pp)
    return binval(e['o'], ev(e['a'], env, pp), ev(e['b'], env, pp))
def val(e, env={}, pp=False):
    try: return ev(e, env, pp)
    except (Undef, KeyError): return None

def spell(r, v, exe=False):
    t = r.random()
    if t < .6: return str(v)
    if t < .75: return r.choice(['0x%x', '0X%X', '0x%X', '0x0%x']) % v
    if t < .87: return '0%o' % v if v else '00'
    if t < .93 and 32 < v < 127 and v not in (39, 92): return "'%c'" % v
    if exe and t >= .93: return str(v) + r.choice(['l', 'L', 'LL'])
    return str(v)

class Gen:
    def __init__(self, r): self.r = r
    def lit(self, exe=False):
        v = abs(value(self.r)); return num(v, spell(self.r, v, exe))
    def atom(self, names, pp, exe):
        r = self.r; t = r.random()
        if names and t < .4: return en(r.choice(names))
        if pp and t < .12: return dict(k='id', s=r.choice(['undefined_name', 'X_', 'else_']))
        if pp and t < .3:
            v = r.randrange(2)
            return dict(k='def', v=v, s=r.choice(['defined %s', 'defined(%s)', 'defined ( %s )']) % ('IS_DEFINED' if v else 'NOT_DEFINED'))
        if t < .45: v = abs(value(r)) % 40; return dict(k='num', v=v, s=None)      # spelled through a macro by finish()
        return self.lit(exe)
    def expr(self, d, names=(), pp=False, exe=False):
        r = self.r
        if d <= 0: return self.atom(names, pp, exe)
        t = r.random()
        if t < .12: return self.atom(names, pp, exe)
        if t < .28: return un(r.choice(['-', '~', '!', '+', '()', '-', '!']), self.expr(d - 1, names, pp, exe))
        if t < .38: return cnd(self.expr(d - 1, names, pp, exe), self.expr(d - 1, names, pp, exe), self.expr(d - 1, names, pp, exe))
        o = r.choice(BIN)
        a = self.expr(d - 1, names, pp, exe)
        if o in ('<<', '>>'): b = num(r.randrange(0, 9))
        elif o in '/%' and r.random() < .7: b = num(r.randrange(1, 12))
        else: b = self.expr(d - r.choice([1, 1, 2]), names, pp, exe)
        return bin(o, a, b)
    def good(self, d, env={}, names=(), pp=False, exe=False, ok=lambda v: True):
        for _ in range(300):
            e = self.expr(d, names, pp, exe)
            v = val(e, env, pp)
            if v is not None and ok(v): return e
        return num(1)

def macros(e, pre, r):
    """Spells the literals without spelling as macros; returns the definitions"""
    g = ''
    st = [e]
    while st:
        x = st.pop()
        for f in 'abc':
            if isinstance(x.get(f), dict): st.append(x[f])
        if x['k'] == 'num' and x['s'] is None:
            n = '%sM%d' % (pre, r.randrange(10 ** 6))
            v = x['v']; t = r.random()
            if t < .6: g += '#define %s %s\n' % (n, spell(r, v))
            else:
                d = r.randrange(0, 9)
                g += '#define %s (%d %s %d)\n' % ((n, v - d, '+', d) if v >= d else (n, v + d, '-', d))
            x['s'] = n
    return g

class Case(uses.Use):
    """items: what Const.tla reads; the observations follow in the same order"""
    def __init__(self, num, r, exe=False):
        super().__init__(num); self.r, self.items, self.exe, self.obs = r, [], exe, []
        self.glob, self.body, self.what = '', '', ''
        self.env = {}
    def t(self, e):
        self.glob += macros(e, 'K%d_' % self.num, self.r)
        s = text(e, 0, self.r.choice([' ', ' ', ' ', '']), self.r)
        self.what += ' | ' + s
        return s
    def enum(self, l, tag=''):
        """l: [(name, expression or None)]"""
        t = []
        nxt = 0
        for n, e in l:
            t.append(n + (' = ' + self.t(e) if e else ''))
            v = val(e, {}) if e else nxt
            self.env[n] = v; nxt = (v or 0) + 1
        self.glob += 'enum %s{ %s%s };\n' % (tag, ', '.join(t), self.r.choice(['', '', ',']))
        self.items.append(dict(t='enum', l=[dict(n=n, e=e or dict(k='none')) for n, e in l]))
        for n, e in l: self.body += '  q(%s);\n' % n
    def val(self, e, form):
        r, k, n = self.r, self.num, len(self.items)
        s = self.t(e)
        if form == 'glo': self.glob += 'int v%d_%d = %s;\n' % (k, n, s); self.body += '  q(v%d_%d);\n' % (k, n)
        elif form == 'static': self.glob += 'int f%d_%d() { static int x = %s; x = x + 1; return x - 1; }\n' % (k, n, s); self.body += '  q(f%d_%d());\n' % (k, n)
        elif form == 'arr': self.glob += 'int v%d_%d[] = {1, %s, 2};\n' % (k, n, s); self.body += '  q(v%d_%d[1]);\n' % (k, n)
        else: self.body += '  q(%s);\n' % s
        self.items.append(dict(t='val', l=[dict(e=e)]))
    def size(self, es, form):
        r, k, n = self.r, self.num, len(self.items)
        vs = [val(e) for e in es]
        ss = [self.t(e) for e in es]
        if form == 'sizeof':
            d = ''.join('[%s]' % s for s in ss)
            ty = r.choice(['int', 'char', 'short', 'char *'])
            self.glob += '%s a%d_%d%s;\n' % (ty, k, n, d)
            x = 'a%d_%d' % (k, n)
            for s in ss: self.body += '  q(sizeof(%s) / sizeof(%s[0]));\n' % (x, x); x += '[0]'
        elif form == 'member':
            self.glob += 'struct S%d_%d { char x[%s]; char y; };\n' % (k, n, ss[0])
            self.body += '  q(sizeof(struct S%d_%d) - 1);\n' % (k, n)
        else:        # neighbours must survive stores to all elements
            v, a = vs[0], 'a%d_%d' % (k, n)
            self.glob += 'int %s[%s];\nint z%s[2];\n' % (a, ss[0], a)
            self.body += '  z%s[0] = 70; z%s[1] = 80;\n  for (i = 0; i < %d; i++) %s[i] = i + 1;\n  q(%s[%d] + (z%s[0] - 70) * 1000 + z%s[1] - 80);\n' % (a, a, v, a, a, v - 1, a, a)
        self.items.append(dict(t='size', l=[dict(e=e) for e in es]))
    def cond(self, es, els):
        k = self.r
        b = ''
        for i, e in enumerate(es):
            b += '#%s %s\n  q(%d);\n' % ('elif' if i else 'if', self.t(e), i + 1)
        b += '#else\n  q(0);\n' if els else ''
        b += '#endif\n'
        if els: self.body += b
        else: self.body += '  i = 0;\n' + b.replace('q(', 'i = (') + '  q(i);\n'
        self.items.append(dict(t='if', l=[dict(e=e) for e in es]))
    def switch(self, es, v):
        b = '  switch (%s) {\n' % ('i - %d' % -v if v < 0 else 'i + %d' % v)
        for i, e in enumerate(es): b += '    case %s: q(%d); break;\n' % (self.t(e), i + 1)
        self.body += b + '    default: q(0); break;\n  }\n'
        self.items.append(dict(t='sw', v=v, l=[dict(e=e) for e in es]))
    def runs(self, v, s): return super().runs(v, s)

def clean(x):
    """without the spelling"""
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items() if k != 's'}
    if isinstance(x, list): return [clean(v) for v in x]
    return x

def pairs(r):
    """every pair of operators in both shapes, and every unary with every binary"""
    out = []
    def pick(mk):
        for _ in range(400):
            e = mk()
            if val(e) is not None: return e
    def x(o=''): return num(r.randrange(0, 5)) if o in ('<<', '>>') else num(r.choice([0, 1, 2, 3, 5, 7, 12, 100, 255, 1000]))
    for o in BIN:
        for p in BIN:
            out.append(pick(lambda: bin(o, bin(p, x(), x(p)), x(o))))
            out.append(pick(lambda: bin(o, x(), bin(p, x(), x(p)))))
        for u in '-~!+':
            out.append(pick(lambda: bin(o, un(u, x()), x(o))))
            out.append(pick(lambda: un(u, bin(o, x(), x(o)))))
            out.append(pick(lambda: bin(o, x(), un(u, x()))))
        out.append(pick(lambda: cnd(bin(o, x(), x(o)), x(), x())))
        out.append(pick(lambda: bin(o, cnd(x(), x(), x()), x(o))))
        out.append(pick(lambda: cnd(x(), x(), bin(o, x(), x(o)))))
    for u in '-~!+':
        for w in '-~!+': out.append(un(u, un(w, x())))
    out += [cnd(x(), cnd(x(), x(), x()), x()), cnd(x(), x(), cnd(x(), x(), x())), cnd(cnd(x(), x(), x()), x(), x()),
            bin('&&', num(0), bin('/', num(1), num(0))), bin('||', num(1), bin('%', num(1), num(0))), cnd(num(1), num(2), bin('/', num(1), num(0)))]
    return [e for e in out if e]

def near(e, v, g):
    """a condition about the value v of e"""
    r = g.r
    return r.choice([lambda: bin('==', un('()', e), num(v)), lambda: bin('==', num(v), un('()', e)), lambda: bin('<', un('()', e), num(v)), lambda: bin('<=', un('()', e), num(v)),
                     lambda: bin('!=', un('()', e), num(v)), lambda: e, lambda: un('!', un('()', e)), lambda: bin('>', un('()', e), num(v - 1))])()

def build(ctx):
    r = ctx.rng
    g = Gen(r)
    cases = []
    def new(exe=False):
        c = Case(len(cases) + 1, r, exe); cases.append(c); return c
    def enum_case(es):
        c = new()
        l, p = [], 'E%d_' % c.num
        for e in es:
            l.append((p + str(len(l)), e))
            for _ in range(r.choice([0, 0, 1, 2])):
                if (val(e) or 0) < 2147483640: l.append((p + str(len(l)), None))
        if r.random() < .3: l.insert(0, (p + 'z', None))
        c.enum(l, r.choice(['', '', 'T%d ' % c.num]))
        return c, [n for n, e in l]
    def all_forms(e, w=None):
        v = val(e)
        w = r.randrange(6) if w is None else w
        if w == 0: enum_case([e])
        elif w == 1: new().cond([near(e, v, g)], True)
        elif w == 2:
            c = new(); o = num(v + 1); c.switch([o, e] if r.random() < .5 else [e, o], v)
        elif w == 3: new().val(e, 'glo')
        elif w == 4: new().size([bin('+', bin('&', un('()', e), num(15)), num(1))] if not 1 <= v <= 64 else [e], 'plain')
        elif w == 5: new(True).size([bin('+', bin('&', un('()', e), num(15)), num(1))] if not 1 <= v <= 64 else [e], r.choice(['sizeof', 'member']))
    for e in pairs(r):
        for w in ((0, r.choice([1, 2, 3, 4, 5])) if ctx.quick else range(6)): all_forms(json.loads(json.dumps(e)), w)
    for _ in range(ctx.budget(2500, 20000)):
        exe = r.random() < .25
        d = r.choice([1, 2, 2, 3, 4])
        w = r.randrange(7)
        if w == 0:
            c, names = enum_case([g.good(d) for _ in range(r.choice([1, 2, 3]))])
            for _ in range(2):
                e = g.good(2, c.env, names); c.val(e, 'expr')
            if r.random() < .6:
                n = r.choice(names); v = c.env[n]
                others = [x for x in names if c.env[x] != v]
                labels = [en(n)] + ([en(r.choice(others))] if others else [])
                e = g.good(2, c.env, names, ok=lambda x: x not in [c.env[l['n']] for l in labels])
                if val(e, c.env) not in [c.env[l['n']] for l in labels]: labels.append(e)
                r.shuffle(labels)
                c.switch(labels, r.choice([v, v, val(labels[-1], c.env), v + 1 if v < 2147483647 else v - 1]))
        elif w == 1:
            c = new()
            c.glob += '#define IS_DEFINED\n' if c.num % 2 else '#define IS_DEFINED 0\n'
            c.glob = '#undef IS_DEFINED\n' + c.glob
            names = []
            if r.random() < .2:
                n = 'E%d_q' % c.num; c.enum([(n, num(5))]); names = [n]
            es = []
            for _ in range(r.choice([1, 1, 2, 3])):
                e = g.good(d, {}, names, pp=True, exe=False); es.append(near(e, val(e, {}, True), g) if r.random() < .7 else e)
            c.cond(es, r.random() < .6)
        elif w == 2:
            c = new()
            es, seen = [], set()
            for _ in range(r.choice([1, 2, 3, 5])):
                e = g.good(d)
                if val(e) not in seen: seen.add(val(e)); es.append(e)
            c.switch(es, r.choice(sorted(seen)) if r.random() < .8 else abs(value(r)))
        elif w == 3: new(exe).val(g.good(d, exe=exe), r.choice(['glo', 'expr'] if not exe else ['glo', 'static', 'arr', 'expr']))
        elif w in (4, 5):
            e = g.good(d, exe=exe, ok=lambda v: 1 <= v <= 70)
            if exe: new(True).size([e] + [g.good(1, ok=lambda v: 1 <= v <= 9) for _ in range(r.choice([0, 0, 1, 2]))], r.choice(['sizeof', 'sizeof', 'member']) )
            else: new().size([e], 'plain')
        else:
            c = new(exe); c.val(g.good(d, exe=exe), 'glo'); c.cond([g.good(d, pp=False)], True)
    for c in cases:
        # member only shows its first dimension
        if 'struct S' in c.glob:
            for it in c.items:
                if it['t'] == 'size': it['l'] = it['l'][:1]
    return cases

def main():
    ctx = pv.Ctx('P09')
    ctx.build(['sh'] + SHV + EXV)
    cases = build(ctx)
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump([clean(c.items) for c in cases], open(f, 'w'))
    res, st = ctx.tlc_ok('Const', CFG, env=dict(CASES_FILE=f))
    for x in res:
        c = cases[x['c'] - 1]
        c.out = x['o'] if x['m'] == 'end' else None
    und = [c for c in cases if c.out is None]
    ctx.count('discarded_undefined', len(und))
    us = [c for c in cases if c.out is not None]
    ctx.count('constant_expressions', sum(len(i['l']) for c in us for i in c.items))
    for c in us: c.what = 'P09: case' + c.what
    r = ctx.rng
    r.shuffle(us)
    for x in us[:300:70]: ctx.sample(dict(c=x.text(), out=x.out))
    B = uses.Batch(ctx)
    S = pv.SHELLS
    jobs = []
    for k in range(0, len(us), 60):
        g, n = us[k:k + 60], k // 60
        jobs += [(g, 'sh', S[n % 6]), (g, SHV[n % 6], S[(n + 1 + n // 6) % 6]), (g, EXV[n % 6], None), (g, EXV[(n + 1) % 2], None)]
        if not ctx.quick: jobs += [(g, 'sh', S[(n + 3) % 6]), (g, SHV[(n + 2) % 6], S[(n + 4) % 6]), (g, EXV[(n + 3) % 6], None)]
    ctx.pmap(B.batch, jobs)
    ctx.finish()
if __name__ == '__main__': main()
