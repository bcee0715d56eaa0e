#!/usr/bin/env python3
"""P06: conditional inclusion.  All short directive sequences and random deep ones; CPP.tla says
which text they keep.  Observed with the preprocessor alone and in compiled programs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from cppgen import *

# conditions of skipped groups don't need to make sense
JUNK = ['(', '1 / 0', 'A +', '1 ? 2', 'Z ( , )', '* 3', '1 1', 'defined', 'F ( 1', '1 %0 ||']

class Gen:
    def __init__(self, r): self.r, self.n = r, 0
    def mark(self):
        self.n += 1
        return text([I('o'), P('('), N(self.n), P(')'), P(';')])
    # ---- conditions
    def val(self):
        r = self.r
        return r.choice([lambda: [N(r.choice([0, 1, 2, 3, 5, 7, 12, 255, 1000]))], lambda: [I(r.choice('ABCDE'))], lambda: [I('U%d' % r.randrange(3))],
                         lambda: toks('defined ' + r.choice('ABCDE')), lambda: toks('defined ( %s )' % r.choice('ABCDE')), lambda: toks('F ( %s )' % r.choice(['1', 'A', '0', '2 , 3'][:3]))])()
    def cond(self, d):
        r = self.r; t = r.random()
        if d == 0 or t < .2: return self.val()
        if t < .35: return [P(r.choice(['!', '!', '-', '~', '+']))] + self.prim(d - 1)
        if t < .42: return self.prim(d - 1) + [P('?')] + self.prim(d - 1) + [P(':')] + self.prim(d - 1)
        return self.prim(d - 1) + [P(r.choice(['&&', '||', '&&', '||', '==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']))] + self.prim(d - 1)
    def prim(self, d):
        r = self.r
        return [P('(')] + self.cond(d) + [P(')')] if r.random() < .5 else self.cond(d)
    # ---- groups; dead: certainly skipped
    def group(self, d, dead, size=3):
        r = self.r; o = []
        for _ in range(r.randrange(0, size)):
            t = r.random()
            if t < .45: o.append(self.mark())
            elif t < .6:
                n = r.choice('ABCDE')
                o.append(define(n, r.choice([[], [N(0)], [N(1)], [N(3)], [I('B')], toks('( C + 1 )')])) if r.random() < .6 else item('undef', name=n))
            elif t < .66: o.append(define('F', r.choice([toks('p'), toks('( p == 1 )'), toks('! p'), []]), ['p']))
            elif dead and t < .75: o.append(r.choice([item('err'), item('inc', sub='', name='nofile.h'), item('raw', s=r.choice(['foo bar', 'pragma once', 'define', 'undef 3', 'include', 'line 3', '', '5', 'warning w', 'define F(1', 'include "nofile.h" x']))]))
            elif t < .79: o.append(item('null'))
            elif t < .82: o.append(item('warn', s=r.choice(['x', '', '; exit 1', '< no_such_file (', '"a" | b & exit'])))
            elif d > 0: o += self.conditional(d - 1, dead)
        return o
    def conditional(self, d, dead):
        """the taken group of live conditionals isn't known here: only certainly dead groups get junk"""
        r = self.r; o = []; t = r.random()
        sure = False                       # a group was certainly taken
        alldead = dead
        if t < .2: o.append(item('ifdef', name=r.choice('ABCDE'))); g = dead
        elif t < .4: o.append(item('ifndef', name=r.choice('ABCDE'))); g = dead
        elif t < .55: o.append(item('if', toks=[N(0)])); g = True
        elif t < .7: o.append(item('if', toks=[N(1)])); g = dead; sure = True
        elif dead and t < .8: o.append(item('if', toks=toks(r.choice(JUNK)))); g = True
        else: o.append(item('if', toks=self.cond(r.choice([1, 2, 3])))); g = dead
        o += self.group(d, g)
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            if (dead or sure) and r.random() < .4: o.append(item('elif', toks=toks(r.choice(JUNK))))
            elif r.random() < .3: o.append(item('elif', toks=[N(r.choice([0, 1, 7]))])); 
            else: o.append(item('elif', toks=self.cond(r.choice([0, 1, 2]))))
            o += self.group(d, dead or sure)
        if r.random() < .6: o.append(item('else')); o += self.group(d, dead or sure)
        return o + [item('endif')]
    def chain(self, n):
        """n nested conditionals, mostly live"""
        r = self.r; o = []
        for i in range(n):
            o.append(r.choice([item('if', toks=[N(1)]), item('ifndef', name='U%d' % i), item('if', toks=toks('1 && ! U1'))]))
            if r.random() < .1: o += [self.mark(), item('else')] + self.group(0, True)
            o.append(self.mark())
        for i in range(n):
            if r.random() < .2: o += [item('elif', toks=toks(r.choice(['1', '0', '1 /0']))), self.mark()]
            if r.random() < .3: o += [item('else'), self.mark()]
            o += [item('endif'), self.mark()]
        # an else after an else is an error: drop those
        return o
def wellformed(items):
    st = []
    for it in items:
        if it['k'] in ('if', 'ifdef', 'ifndef'): st.append(False)
        elif it['k'] in ('elif', 'else'):
            if st[-1]: return False
            if it['k'] == 'else': st[-1] = True
        elif it['k'] == 'endif': st.pop()
    return not st

OPEN = [lambda: item('ifdef', name='A'), lambda: item('ifndef', name='A'), lambda: item('if', toks=[N(1)]), lambda: item('if', toks=[N(0)]), lambda: item('if', toks=[I('A')])]
MID = [lambda: item('elif', toks=[N(1)]), lambda: item('elif', toks=[N(0)]), lambda: item('elif', toks=toks('! defined A')), lambda: item('else')]
EFF = [lambda: define('A', [N(1)]), lambda: item('undef', name='A'), lambda: define('A', [N(0)])]
def shapes(n):
    """all sequences of n directives: O(pen) M(id) e(lse) E(ndif) D(efine)"""
    def go(k, st, acc):
        if k == 0:
            if not st: yield acc
            return
        if len(st) > k: return
        for s in 'OMEeD':
            if s == 'O': yield from go(k - 1, st + [0], acc + s)
            elif s == 'M' and st and not st[-1]: yield from go(k - 1, st, acc + s)
            elif s == 'e' and st and not st[-1]: yield from go(k - 1, st[:-1] + [1], acc + s)
            elif s == 'E' and st: yield from go(k - 1, st[:-1], acc + s)
            elif s == 'D': yield from go(k - 1, st, acc + s)
    yield from go(n, [], '')
def exhaustive(n, r, sample=None):
    out = []
    for sh in shapes(n):
        if 'O' not in sh: continue
        ch = [len(OPEN) if s == 'O' else 3 if s == 'M' else 3 if s == 'D' else 1 for s in sh]
        tot = 1
        for c in ch: tot *= c
        for i in range(tot):
            if sample is not None and r.random() > sample: continue
            g = Gen(r); o = [g.mark()]; x = i
            for s, c in zip(sh, ch):
                k = x % c; x //= c
                o.append(OPEN[k]() if s == 'O' else MID[k]() if s == 'M' else item('else') if s == 'e' else item('endif') if s == 'E' else EFF[k]())
                o.append(g.mark())
            out.append(o)
    return out

# the names of directives and keywords can be the names of macros
NAMES = ['else', 'endif', 'elif', 'define', 'undef', 'include', 'ifdef', 'error', 'if', 'while', 'int', 'defined_', 'A1']
KEYWORDS = ['else', 'if', 'while', 'int']
def rename(its, r):
    if r.random() < .6: return its
    used = {t['s'] for it in its if it['k'] in ('if', 'elif') for t in it['toks'] if t['k'] == 'id'}   # keywords in conditions are refused
    used |= {t['s'] for it in its if it['k'] == 'def' for t in it['body']}
    m = {}
    for a in r.sample('ABCDE', 2):
        b = r.choice(NAMES)
        if b not in m.values() and not (a in used and b in KEYWORDS): m[a] = b
    def tk(ts): return [dict(t, s=m.get(t['s'], t['s'])) if t['k'] == 'id' else t for t in ts]
    out = []
    for it in its:
        it = dict(it)
        if 'name' in it: it['name'] = m.get(it['name'], it['name'])
        for k in ('toks', 'body'):
            if k in it: it[k] = tk(it[k])
        out.append(it)
    return out

WRAP = ('void o(int x) { putchar(x); }\nint main() {\n', 'return 0;\n}\n')
def main():
    ctx = pv.Ctx('P06')
    r = ctx.rng
    ctx.build(['cpp', 'sh', 'i386', 'x64'])
    ex = [o for n in (2, 3, 4) for o in exhaustive(n, r)]
    ctx.count('exhaustive_sequences', len(ex))
    ex += exhaustive(5, r, .15 if ctx.quick else 1)
    if not ctx.quick: ex += exhaustive(6, r, .25)
    # several sequences in one file; A forgotten in between
    cases = []
    r.shuffle(ex)
    for i in range(0, len(ex), 8):
        its = []
        for o in ex[i:i + 8]: its += o + [item('undef', name='A')]
        cases.append(Case(rename(its, r), 'sequence', r=r))
    for _ in range(ctx.budget(700, 7000)):
        g = Gen(r); its = []
        for n in r.sample('ABCDE', r.randrange(0, 4)): its.append(define(n, r.choice([[N(0)], [N(1)], [N(4)], [I('B')], []])))
        its.append(define('F', toks(r.choice(['p', '( p == 1 )', 'p + 1'])), ['p']))
        for _ in range(r.randrange(1, 4)): its += g.conditional(r.choice([1, 2, 3]), False) + [g.mark()]
        cases.append(Case(rename(its, r), 'random', r=r, trail={'m.c': r.random() < .8}))
    n = 0
    while n < ctx.budget(60, 600):
        its = Gen(r).chain(r.choice([3, 8, 15, 19, 20, 20]))
        if wellformed(its): cases.append(Case(its, 'nested', r=r)); n += 1
    decide(ctx, cases)
    if not ctx.violations:
        r.shuffle(cases)
        full = [Case(c.items, c.tag, r=r, nl=True, wrap=WRAP) for c in cases[:ctx.budget(350, 3000)]]
        decide_compile(ctx, full, ['sh', 'i386', 'x64'])
    ctx.finish()
if __name__ == '__main__': main()
