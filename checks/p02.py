#!/usr/bin/env python3
"""P02: calls in expressions.  Every function prints its argument, so the output is the sequence
of calls; CMachine.tla gives all sequences C allows."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *

def lib():
    """f(x): prints x, returns x; g(x, y): prints, returns x + y; h(x): calls f twice; n(): counts down"""
    f = Func('f', ['x'], blk(ex(emit(var('x'))), ex(asg('=', var('gz'), bin('&', bin('+', bin('*', var('gz'), num(3)), var('x')), num(1023)))), ret(var('x'))))
    g = Func('g', ['x', 'y'], blk(ex(emit(bin('+', bin('*', var('x'), num(10)), var('y')))), ret(bin('+', var('x'), var('y')))))
    h = Func('h', ['x'], blk(dec('w', bin('+', call('f', bin('+', var('x'), num(20))), num(1))), ret(bin('-', var('w'), num(20)))))
    n = Func('n', [], blk(ex(asg('-', var('gn'), num(1))), ex(emit(bin('+', var('gn'), num(60)))), ret(var('gn'))))
    return [f, g, h, n]

class T:
    """Expressions with calls.  cond: whether a call may be placed where it is only evaluated
    conditionally inside a value (the shell backend refuses that)"""
    def __init__(self, r):
        self.r = r; self.k = 0; self.refusable = False
        self.side = ['sa', 'sb']
    def leaf(self):
        r = self.r
        t = r.random()
        if t < .5: return var(r.choice(['la', 'lb', 'lc']))
        return num(r.randrange(0, 8))
    def arg(self, d):
        r = self.r; t = r.random()
        if d <= 0 or t < .45: return num(r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        if t < .60: return self.leaf()
        return self.value(d - 1)
    def call(self, d):
        r = self.r; t = r.random()
        if t < .6: return call('f', self.arg(d - 1))
        if t < .8: return call('g', self.arg(d - 1), self.arg(d - 1))
        if t < .93: return call('h', self.arg(d - 1))
        return call('n')
    def value(self, d, top=True):
        r = self.r; t = r.random()
        if d <= 0: return self.call(0) if r.random() < .6 else self.leaf()
        if t < .30: return self.call(d)
        if t < .55: return bin(r.choice(['+', '-', '*', '<', '==', '&', '|', '^', '>', '!=']), self.value(d - 1), self.value(d - 1))
        if t < .67: return un(r.choice(['-', '!', '~', '(int)', '+']), self.value(d - 1))
        if t < .73: return idx(var('arr'), bin('&', self.value(d - 1), num(3)))
        if t < .80: return cnd(self.value(d - 1), self.leaf(), self.leaf())
        if t < .84 and self.side:
            return asg(r.choice(['=', '+']), var(self.side.pop()), self.value(d - 1))
        if t < .88 and self.side:
            return inc(r.choice(['++', '--']), var(self.side.pop()), r.random() < .5)
        if t < .94: return bin(r.choice(['&&', '||']), self.leaf(), self.leaf())
        # conditional calls inside values
        self.refusable = True
        if t < .97: return bin(r.choice(['&&', '||']), self.value(d - 1), self.value(d - 1))
        return cnd(self.value(d - 1), self.value(d - 1), self.value(d - 1))
    def test(self, d):
        r = self.r; t = r.random()
        if d <= 0 or t < .18:
            u = r.random()
            if u < .45: return self.call(1)
            if u < .65: return bin(r.choice(['==', '!=', '<', '>', '<=', '>=']), self.call(1), num(r.randrange(0, 4)))
            if u < .75: return un('!', self.call(1))
            if u < .85: return self.leaf()
            if u < .92: return bin(r.choice(['<', '==']), self.leaf(), self.call(1))
            return self.value(1)
        if t < .80: return bin(r.choice(['&&', '||']), self.test(d - 1), self.test(d - 1))
        if t < .92: self.refusable = True; return un('!', self.test(d - 1))
        return paren(self.test(d - 1))

GL = [('gz', 0), ('gn', 0)]
def wrap(stmts, tag, refusable):
    body = [dec('la', num(0)), dec('lb', num(1)), dec('lc', num(5)), dec('sa', num(3)), dec('sb', num(-4)), dec('k', num(0)), dec('v', num(0))]
    body += [ex(asg('=', var('gn'), num(3)))] + stmts + [ex(emit(var('gz'))), ex(emit(var('sa'))), ex(emit(var('sb')))]
    p = Prog([Func('t', [], blk(*body))] + lib(), GL, [('arr', [3, 5, 7, 11])], tag)
    p.refusable = refusable
    return p
M = lambda k: ex(emit(num(k)))

def in_context(r, c, e, e2=None):
    if c == 'if': return [if_(e, M(91), M(92))]
    if c == 'if1': return [if_(e, M(91))]
    if c == 'elif': return [if_(e, M(91), if_(e2, M(92), M(93)))]
    if c == 'elif2': return [if_(bin('==', var('lc'), num(0)), M(90), if_(e, M(91), if_(e2, M(92))))]
    if c == 'while': return [ex(asg('=', var('k'), num(0))), wh(e, blk(M(91), if_(bin('>=', inc('++', var('k'), 0), num(2)), brk())))]
    if c == 'whilec': return [ex(asg('=', var('k'), num(0))), wh(e, blk(if_(bin('>=', inc('++', var('k'), 0), num(3)), brk()), if_(bin('==', var('k'), num(1)), cnt()), M(91)))]
    if c == 'do': return [ex(asg('=', var('k'), num(0))), do(blk(M(91), if_(bin('>=', inc('++', var('k'), 0), num(3)), brk())), e)]
    if c == 'for': return [for_(asg('=', var('k'), num(0)), e, inc('++', var('k'), 1), blk(M(91), if_(bin('>=', var('k'), num(2)), brk())))]
    if c == 'forstep': return [for_(asg('=', var('k'), num(0)), bin('<', var('k'), num(2)), asg('=', var('k'), bin('+', bin('+', var('k'), num(1)), bin('*', num(0), e))), M(91))]
    if c == 'emit': return [ex(emit(e))]
    if c == 'asg': return [ex(asg('=', var('v'), e)), ex(emit(var('v')))]
    if c == 'casg': return [ex(asg(r.choice(['+', '-', '^', '*', '|']), var('v'), bin('&', e, num(63)))), ex(emit(var('v')))]
    if c == 'stmt': return [ex(e)]
    if c == 'elem': return [ex(asg('=', idx(var('arr'), num(2)), e)), ex(emit(idx(var('arr'), num(2))))]
    if c == 'elemidx': return [ex(asg('=', idx(var('arr'), bin('%', call('f', num(r.randrange(4))), num(4))), e))] + [ex(emit(idx(var('arr'), num(i)))) for i in range(4)]
    if c == 'arg': return [ex(emit(call('g', e, num(2))))]
    if c == 'init': return [ex(emit(num(80)))]
    raise ValueError(c)
TESTS = ['if', 'if1', 'elif', 'elif2', 'while', 'whilec', 'do', 'for']
VALUES = ['emit', 'asg', 'casg', 'stmt', 'elem', 'elemidx', 'arg', 'forstep']

def formulas(r):
    """all formulas of 2 or 3 leaf calls with && and ||, all truth values, random negations"""
    for ctx in TESTS:
        for shape in range(3):
            for ops in itertools.product(['&&', '||'], repeat=2 if shape else 1):
                for vals in itertools.product([0, 1], repeat=3 if shape else 2):
                    yield ctx, shape, ops, vals

def random_prog(r):
    t = T(r)
    st = []
    for _ in range(r.randrange(1, 4)):
        t.side = ['sa', 'sb']
        if r.random() < .5:
            c = r.choice(TESTS); e = t.test(r.choice([1, 2, 2, 3]))
        else:
            c = r.choice(VALUES); e = t.value(r.choice([1, 2, 2, 3, 3]))
            if c in ('casg',) and r.random() < .3: c = 'asg'
        st += in_context(r, c, e, t.test(1))
    return wrap(st, 'random', t.refusable)

REFUSALS = ('can only be used in tests', 'Conditional function calls in ternary')
def refuse(case, v, msg): return pv.is_sh(v) and getattr(case.prog, 'refusable', False) and any(m in msg for m in REFUSALS)

def main():
    ctx = pv.Ctx('P02')
    r = ctx.rng
    progs = []
    pend, ref, tags = [], False, []
    def flush():
        nonlocal pend, ref, tags
        if pend: progs.append(wrap(pend, '; '.join(tags), ref))
        pend, ref, tags = [], False, []
    for rep in range(ctx.budget(1, 6)):
        for c, shape, ops, vals in formulas(r):
            neg = False
            def leaf(i):
                nonlocal neg
                v = call('f', num(vals[i] * (i + 1) + 0)) if vals[i] else call('f', num(0))
                t = r.random()
                if t < .12: return un('!', v)
                if t < .24: return bin(r.choice(['==', '!=', '>']), v, num(0))
                if t < .30: return bin('<', var('la'), v)
                if t < .34: return un('(int)', v)
                if t < .38: return var(r.choice(['la', 'lb']))
                if t < .44: return bin('-', call('g', v, num(0)), num(0))
                return v
            a, b = leaf(0), leaf(1)
            if shape == 0: e = bin(ops[0], a, b)
            elif shape == 1: e = bin(ops[1], bin(ops[0], a, b), leaf(2))
            else: e = bin(ops[0], a, bin(ops[1], b, leaf(2)))
            if r.random() < .1: neg = True; e = un('!', e)
            st = in_context(r, c, e, call('f', num(9)))
            if neg: progs.append(wrap(st, 'negated formula in ' + c, True))
            else:
                pend += st; tags.append(c)
                if len(tags) == 5: flush()
        flush()
    for _ in range(ctx.budget(900, 14000)): progs.append(random_prog(r))
    crun.decide(ctx, progs, chunk=1500, may_reject=refuse)
    ctx.finish()
if __name__ == '__main__': main()
