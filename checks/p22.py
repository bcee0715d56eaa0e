#!/usr/bin/env python3
"""P22: build options.  Programs of every family (expressions, calls, control flow, switch,
activations) compiled by every variant of the compiler; CMachine.tla says what they print."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pv, crun
from cgen import *
import genexpr, genstmt, p02, p04, p05

SHV = ['shset', 'shrel', 'shcompact', 'shopt', 'shsafe', 'shc', 'shchar', 'shparam', 'shrelset', 'shrelcompact', 'shcompactset', 'shinit', 'shall']
EXEV = ['i386', 'x64', 'i386safe', 'x64safe', 'i386rel', 'x64rel']

def expr_prog(r):
    g = genexpr.G(r)
    st = []
    for _ in range(r.randrange(1, 4)):
        g.side = list(genexpr.SIDE)
        e = g.good(lambda: g.expr(r.choice([2, 3, 3, 4])))
        if e is None: continue
        try: genexpr.ev(e, g.env)
        except genexpr.Undef: continue
        st.append(blk(*genexpr.contexts(g, e)))
    return g.prog(st, 'expressions')
def switch_prog(r, k):
    p = p04.table(r, False)
    sfx = 'x%d' % k
    if p.enums_src:
        p.enums = ['enum { %s };' % ', '.join(dict.fromkeys(e.replace('@S', sfx) for e in p.enums_src))]
        for f in p.funcs:
            for e in walk(f.body):
                if e.k == 'case' and e.name: e.name = e.name.replace('@S', sfx)
    return p

def main():
    ctx = pv.Ctx('P22')
    r = ctx.rng
    progs = []
    n = ctx.budget(90, 1500)
    for k in range(n):
        progs.append(expr_prog(r))
        progs.append(switch_prog(r, k))
        progs.append(p02.random_prog(r))
        progs.append(genstmt.S(r, (['calls'] if r.random() < .4 else []) + (['switch'] if r.random() < .3 else []) + (['blockdec'] if r.random() < .5 else []), nfun=r.randrange(1, 4), size=r.choice([8, 12, 16])).prog('control flow', r.sample(range(8), 4)))
        progs.append(p05.A(r, False, r.random() < .25).prog('activations'))
        if k % 2: progs.append(p05.busy(r))
    r.shuffle(progs)
    S = pv.SHELLS
    def plan(ctx, i):
        l = [(v, S[(i * 5 + k) % 6]) for k, v in enumerate(SHV)]
        return l + [(v, None) for v in EXEV]
    refuse = lambda c, v, msg: pv.is_sh(v) and (p02.refuse(c, v, msg) or p04.refuse(c, v, msg))
    crun.decide(ctx, progs, chunk=1500, plan=plan, variants=SHV + EXEV, may_reject=refuse)
    ctx.finish()
if __name__ == '__main__': main()
