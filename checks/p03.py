#!/usr/bin/env python3
"""P03: control flow.  Random nestings of if/else, while, do, for, break, continue and return in
functions calling each other; CMachine.tla says which marks they print."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *
from genstmt import *

def systematic(r):
    """Every loop kind in every loop kind, with each way of leaving at each position of the inner
    and outer body, guarded or not, alone or followed by more statements"""
    ps = []
    kinds = ['wh', 'do', 'for', 'fornostep', 'forever']
    def loop(kind, i, n, body):
        step = ex(inc('++', var(i), 1))
        if kind == 'wh': return [ex(asg('=', var(i), num(0))), wh(bin('<', var(i), num(n)), blk(step, *body))]
        if kind == 'do': return [ex(asg('=', var(i), num(0))), do(blk(*body), bin('<', inc('++', var(i), 0), num(n)))]
        if kind == 'for': return [for_(asg('=', var(i), num(0)), bin('<', var(i), num(n)), inc('++', var(i), 1), blk(*body))]
        if kind == 'fornostep': return [ex(asg('=', var(i), num(0))), for_(None, bin('<', var(i), num(n)), None, blk(step, *body))]
        if kind == 'forever': return [ex(asg('=', var(i), num(0))), for_(None, None, asg('+', var(i), num(1)), blk(if_(bin('>=', var(i), num(n)), brk()), *body))]
    leaves = {'brk': brk, 'cnt': cnt, 'ret': lambda: ret(bin('+', var('a'), num(70)))}
    for ko in kinds:
        for ki in kinds:
            for lv in leaves:
                for where in ('inner', 'outer', 'both'):
                    for guard in ('if', 'ifelse', 'else', 'bare'):
                        def leave(i):
                            L = leaves[lv]()
                            g = bin('==', var(i), num(1))
                            if guard == 'if': return [if_(g, L)]
                            if guard == 'ifelse': return [if_(g, blk(ex(emit(num(41))), L), blk(ex(emit(num(42)))))]
                            if guard == 'else': return [if_(g, ex(emit(num(43))), blk(L))]
                            return [L]
                        inner = [ex(emit(bin('+', bin('*', var('i'), num(10)), var('j'))))]
                        if where in ('inner', 'both'): inner += leave('j')
                        if not (guard == 'bare' and where in ('inner', 'both') and r.random() < .5): inner.append(ex(emit(num(50))))
                        body = [ex(emit(num(51)))] + loop(ki, 'j', 3, inner)
                        if where in ('outer', 'both'): body += leave('i')
                        if r.random() < .7: body.append(ex(emit(num(52))))
                        f = [dec('i', num(0)), dec('j', num(0))] + loop(ko, 'i', 3, body)
                        if r.random() < .5: f += [ex(emit(num(53)))]
                        if r.random() < .3: f = [dec('i', num(0)), dec('j', num(0)), if_(bin('<', var('a'), num(5)), blk(*f[2:]), ex(emit(num(54))))]
                        void = r.random() < .4        # then the loops may be the last statement of the function
                        e = (lambda x: x) if void else emit
                        if not void: f.append(ret(num(9)))
                        f = blk(*f)
                        if void:
                            for x in walk(f):
                                if x.k == 'ret': x.kids = [None]
                        t = Func('t', [], blk(ex(e(call('fa', num(1)))), ex(e(call('fa', num(6))))))
                        ps.append(Prog([t, Func('fa', ['a'], f, *(['void'] if void else []))], [], [], '%s in %s, %s at %s (%s)' % (ki, ko, lv, where, guard)))
    return ps

def main():
    ctx = pv.Ctx('P03')
    r = ctx.rng
    progs = systematic(r)
    if ctx.quick: progs = r.sample(progs, 500)
    for _ in range(ctx.budget(350, 5000)):
        progs.append(S(r, (['calls'] if r.random() < .4 else []) + (['blockdec'] if r.random() < .5 else []), nfun=r.randrange(1, 4), size=r.choice([8, 12, 16, 22])).prog('random', r.sample(range(8), 4)))
    crun.decide(ctx, progs, chunk=900)
    ctx.finish()
if __name__ == '__main__': main()
