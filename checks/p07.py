#!/usr/bin/env python3
"""P07: macro expansion.  Random macro tables and invocations; CPP.tla says which tokens result."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from cppgen import *

OBJ = ['A', 'B', 'C', 'D', 'char']
FN = {'F': 1, 'G': 1, 'H': 2, 'J': 3, 'K': 0, 'L': 2, 'while': 1}
PLAIN = ['v', 'w', 'x', 'y1', 'if', 'int']
PAR = ['p', 'q', 's']

class M:
    def __init__(self, r, paste=.12, strfy=.05):
        self.r, self.paste, self.strfy = r, paste, strfy
    def plain(self):
        r = self.r
        return r.choice([lambda: I(r.choice(PLAIN)), lambda: N(r.choice([0, 1, 2, 7, 10, 42])), lambda: P(r.choice(['+', '-', '*', ';', '<', '==', '[', ']']))])()
    def word(self, params):
        r = self.r; t = r.random()
        if params and t < .6: return I(r.choice(params))
        if t < .75: return I(r.choice(PLAIN[:4]))
        if t < .85: return N(r.choice([0, 1, 2, 7, 10]))
        return I(r.choice(OBJ + list(FN)))
    def args(self, n, d, params):
        r = self.r
        o = [P('(')]
        for i in range(n):
            if i: o.append(P(','))
            u = r.random()
            if u < .08: pass
            else: o += self.seq(r.choice([1, 1, 1, 2, 3]), d - 1, params, arg=True)
        return o + [P(')')]
    def seq(self, n, d, params=(), arg=False):
        r = self.r; o = []
        for _ in range(n):
            t = r.random()
            if params and t < .30: o.append(I(r.choice(params)))
            elif t < .50: o.append(self.plain())
            elif t < .64: o.append(I(r.choice(OBJ)))
            elif t < .92 and d > 0:
                f = r.choice(list(FN)); o.append(I(f)); o += self.args(FN[f], d, params)
            elif t < .95: o.append(I(r.choice(list(FN))))
            elif d > 0: o.append(P('(')); o += self.seq(r.randrange(0, 3), d - 1, params) + ([P(','), I('w')] if r.random() < .4 else []); o.append(P(')'))
            else: o.append(self.plain())
        return o
    def body(self, params):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            t = r.random()
            if t < self.paste:
                o.append(self.word(params))
                for _ in range(r.choice([1, 1, 1, 2])): o += [P('##'), self.word(params)]
            elif params and t < self.paste + self.strfy: o += [P('#'), I(r.choice(params))]
            else: o += self.seq(1, 1, params)
        return o
    def define(self, name):
        r = self.r
        if name in FN:
            ps = PAR[:FN[name]] if r.random() < .7 else r.sample(PAR + OBJ + list(FN) + PLAIN, FN[name])
            return define(name, self.body(ps), ps)
        return define(name, self.body([]))
    def items(self):
        r = self.r
        it = []
        names = OBJ + list(FN)
        for n in r.sample(names, r.randrange(2, len(names) + 1)): it.append(self.define(n))
        for _ in range(r.randrange(1, 4)):
            for _ in range(r.randrange(1, 3)):
                ts = self.seq(r.randrange(1, 6), 2)
                if ts and ts[0]['s'] == '(': ts.insert(0, P(';'))
                it.append(text([P(';')] + ts + [P(';')]))
            u = r.random()
            if u < .4: it.append(self.define(r.choice(names)))
            elif u < .6: it.append(item('undef', name=r.choice(names)))
        return it

class ME(M):
    """macros whose bodies are expressions, in complete programs"""
    def word(self, params):
        r = self.r
        return r.choice([lambda: I('v'), lambda: I('w'), lambda: N(r.choice([1, 2, 10])), lambda: I(r.choice(params)) if params else I('x')])()
    def atom(self, d, params):
        r = self.r; t = r.random()
        if params and t < .4: return [I(r.choice(params))]
        if t < .55: return [I(r.choice(['v', 'w', 'x']))]
        if t < .7: return [N(r.choice([0, 1, 2, 7, 42]))]
        if t < .74: return [P('('), I(r.choice(['t0', 'u0'])), P(')'), N(r.choice([7, 300, 128]))]
        if t < .76: return [I('sizeof'), P('('), I(r.choice(['t0', 'u0'])), P(')')]
        if t < .78: return [I('u0'), P('('), I('v'), P(')')] if params else [P('('), I('u0'), P(')'), I('w')]
        if t < .85 or d <= 0: return [I(r.choice(OBJ))]
        f = r.choice([f for f in FN if f != 'K'])
        o = [I(f), P('(')]
        for i in range(FN[f]): o += ([P(',')] if i else []) + self.expr(d - 1, params)
        return o + [P(')')]
    def expr(self, d, params):
        r = self.r; t = r.random()
        if t < .45: return self.atom(d, params)
        if t < .6: return [P('(')] + self.expr(d - 1, params) + [P(')')] if d > 0 else self.atom(d, params)
        if t < .65 and d > 0: return [P('(')] + self.expr(d - 1, params) + [P('?')] + self.expr(d - 1, params) + [P(':')] + self.atom(0, params) + [P(')')]
        return self.expr(d - 1, params) + [P(r.choice(['+', '-', '*', '&', '<', '==', '|', '&&']))] + self.atom(d - 1, params) if d > 0 else self.atom(0, params)
    def body(self, params):
        r = self.r
        if r.random() < self.paste: return [self.word(params) if r.random() < .5 else I('v'), P('##'), self.word(params)]
        return self.expr(2, params)
    def items(self):
        r = self.r
        it = [self.define(n) for n in r.sample(OBJ + list(FN), len(OBJ) + len(FN))]
        for _ in range(r.randrange(1, 4)):
            if r.random() < .3: it.append(self.define(r.choice(OBJ + list(FN))))
            if r.random() < .5: it.append(r.choice([lambda: define('t0', r.choice([toks('char'), toks('t0'), toks('u0'), toks('short'), toks('int')])), lambda: item('undef', name='t0'),
                                                    lambda: define('u0', toks(r.choice(['p', 'u0 ( p )', 't0 ( p )', '( u0 ) p'])), ['p']), lambda: item('undef', name='u0')])())
            it.append(text([I('x'), P('=')] + self.expr(3, []) + [P(';')]))
        return it
DECLS = ['v', 'w', 'x'] + [a + b for a in 'vwx' for b in ('v', 'w', 'x', '1', '2', '10')] + OBJ[:4] + ['1']
WRAP = ('typedef int t0;\ntypedef char u0;\n' + ''.join('int %s;\n' % d for d in DECLS[:-1]) + ''.join('int %s(%s) { return 1; }\n' % (f, ', '.join('int a%d' % i for i in range(n))) for f, n in FN.items() if f != 'while') + 'int main() {\n', 'return x;\n}\n')

def main():
    ctx = pv.Ctx('P07')
    r = ctx.rng
    ctx.build(['cpp', 'sh', 'i386', 'x64'])
    cases = []
    for _ in range(ctx.budget(1500, 15000)):
        m = M(r, r.choice([0, .1, .3]), r.choice([0, .05]))
        cases.append(Case(m.items(), r=r))
    decide(ctx, cases)
    # numbers keep their spelling in ##
    sp = []
    for x, wrong in (('0x10', '16'), ('007', '7'), ('0X1f', '31'), ('00', '0')):
        for t in ('C ( v , @ ) ;', 'C ( v1 , @ ) + C ( w , 7 ) ;', 'D ( v , @ , w ) ;'):
            ts = toks(t.replace('@', 'at'))
            sp.append(Case([define('C', toks('p ## q'), ['p', 'q']), define('D', toks('p ## q ## s'), ['p', 'q', 's']), text([N(x) if y['s'] == 'at' else y for y in ts])], 'numbers as they are written', r=r)); sp[-1].wrong = ('v' if '1' not in t else 'v1') + wrong
    decide(ctx, sp, finding_key=lambda c, got: re.search(r'\b%s(w?)( |$)' % c.wrong, got) and 'paste-integer-spelling')
    if not ctx.violations:
        decide_compile(ctx, [Case(ME(r, r.choice([0, .2])).items(), r=r, nl=True, wrap=WRAP) for _ in range(ctx.budget(300, 3000))], ['sh', 'i386', 'x64'])
    ctx.finish()
if __name__ == '__main__': main()
