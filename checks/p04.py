#!/usr/bin/env python3
"""P04: switch.  CMachine.tla gives the marks printed for each value of the controlling expression."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *
from genstmt import *

def table(r, exe):
    """One switch in a function, called with many values"""
    n = r.randrange(1, 7)
    pool = r.choice([[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [-3, -2, -1, 0, 1, 2, 10, 100], [97, 98, 65, 32, 42, 63, 91, 92, 39, 34, 36, 96, 10, 0, 126, 40, 41, 124, 59, 38],
                     [1, 10, 11, 100, 101, 12, 2], [0, 255, 256, -1, 32767, 65536, 2147483647, -128]])
    labels = r.sample(pool, min(len(pool), r.randrange(1, 9)))
    groups = []
    l2 = list(labels)
    while l2:
        k = r.choice([1, 1, 2, 3]); groups.append(l2[:k]); l2 = l2[k:]
    dp = r.choice([None, 'first', 'middle', 'last', 'with'])
    mark = [0]
    enums = []
    def m():
        mark[0] += 1; return ex(emit(num(100 + mark[0])))
    def lab(v):
        t = r.random()
        if (32 <= v < 127 or v == 10 or v == 0) and (t < .6 or pool[0] == 97): return case(v, lit(v, 'c'))
        if t < .3:
            nm = 'E%s%d' % ('N' if v < 0 else 'P', abs(v)); enums.append('%s@S = %d' % (nm, v)); return case(v, nm + '@S')
        if t < .4 and v >= 0: return case(v, hex(v))
        if t < .5: return case(v, '%d + %d' % (v - 3, 3) if v - 3 >= 0 else '(%d)' % v) if exe else case(v, str(v))
        return case(v, str(v))
    gs = [[lab(v) for v in g] for g in groups]
    if dp == 'with': r.choice(gs).append(dflt()) if not exe or True else None
    if dp == 'with':
        for g in gs:
            if g[-1].k == 'dflt' and r.random() < .5: g.insert(0, g.pop())
    if dp == 'first': gs.insert(0, [dflt()])
    if dp == 'last': gs.append([dflt()])
    if dp == 'middle': gs.insert(r.randrange(0, len(gs) + 1), [dflt()])
    l = []
    for gi, g in enumerate(gs):
        l += g + [m()]
        if r.random() < .2: l.append(if_(bin('>', var('a'), num(2)), m(), m() if r.random() < .5 else None))
        if r.random() < .12:
            l.append(sw(bin('&', var('a'), num(1)), blk(case(0), m(), brk(), case(1), m(), *( [brk()] ))))
        if r.random() < .1: l.append(wh(bin('<', inc('++', var('w'), 1), num(2)), m()))
        if exe and r.random() < .3: continue        # fall through
        if exe and r.random() < .15: l.append(if_(bin('<', var('a'), num(3)), brk())); continue
        t = r.random()
        last = gi == len(gs) - 1
        if t < .2: l.append(ret(num(300 + gi)))
        elif t < .25: l += [if_(bin('<', var('a'), num(4)), blk(m(), ret(num(5))), blk(m(), brk()))]
        elif last and t < .45: pass                  # the last clause may end without break
        else: l.append(brk())
    body = [dec('w', num(0)), sw(r.choice([var('a'), var('a'), bin('+', var('a'), num(0)), un('()', var('a')), call('id', var('a'))]), blk(*l)), ex(emit(num(99))), ret(num(1))]
    if r.random() < .3:     # inside a loop
        body = [dec('w', num(0)), dec('i', num(0)), wh(bin('<', inc('++', var('i'), 1), num(2)), blk(body[1], m())), ret(num(2))]
    vals = sorted(set(labels + [v + 1 for v in labels[:3]] + [labels[0] - 1, -1, 0, 7]))
    vals = [v for v in vals if -2 ** 31 < v < 2 ** 31 - 1]
    t = Func('t', [], blk(*[ex(emit(call('fa', num(v)))) for v in vals]))
    p = Prog([t, Func('fa', ['a'], blk(*body)), Func('id', ['x'], blk(ret(var('x'))))], [], [], 'table')
    p.enums_src = enums
    return p

def loop_in_switch(s, inside=False):
    """a break or return in a loop that is inside a switch: the shell backend refuses some of these"""
    if s is None or s.k in EXPR: return False
    if inside and s.k in ('wh', 'do', 'for'): return any(e.k in ('brk', 'ret') for e in walk(s))
    return any(loop_in_switch(x, inside or s.k == 'sw') for x in list(s.kids) + list(s.l))

def refuse(c, v, msg):
    return pv.is_sh(v) and 'Early break out of a switch case is unsupported' in msg and any(loop_in_switch(f.body) for f in c.prog.funcs)

def main():
    ctx = pv.Ctx('P04')
    r = ctx.rng
    progs = []
    for i in range(ctx.budget(420, 6000)):
        exe = r.random() < .3
        p = table(r, exe); p.exe_only = exe
        # enumerators need names of their own in a batch
        sfx = 'x%d' % i
        if p.enums_src:
            p.enums = ['enum { %s };' % ', '.join(dict.fromkeys(e.replace('@S', sfx) for e in p.enums_src))]
            for f in p.funcs:
                for e in walk(f.body):
                    if e.k == 'case' and e.name: e.name = e.name.replace('@S', sfx)
        progs.append(p)
    for i in range(ctx.budget(220, 4000)):
        exe = r.random() < .4
        p = S(r, (['exeswitch', 'switch', 'array'] if exe else ['switch']) + (['blockdec'] if r.random() < .5 else []), nfun=r.randrange(1, 4), size=r.choice([8, 12, 16])).prog('nested', r.sample(range(8), 4))
        p.exe_only = exe
        progs.append(p)
    crun.decide(ctx, progs, chunk=800, may_reject=refuse)
    ctx.finish()
if __name__ == '__main__': main()
