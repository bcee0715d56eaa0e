#!/usr/bin/env python3
"""P17: goto in the native backends.  Random structured programs with labels and jumps at random
places; CMachine.tla replaces the continuation by that of the label."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *
from genstmt import *

def plan(ctx, i): return [('i386', None), ('x64', None)]

def main():
    ctx = pv.Ctx('P17')
    r = ctx.rng
    progs = []
    for _ in range(ctx.budget(1200, 14000)):
        ft = ['goto', 'blockdec', 'array'] + (['exeswitch', 'switch'] if r.random() < .4 else []) + (['calls'] if r.random() < .3 else [])
        progs.append(S(r, ft, nfun=r.randrange(1, 4), size=r.choice([5, 8, 12, 16])).prog('goto', r.sample(range(8), 4)))
    crun.decide(ctx, progs, chunk=1200, plan=plan, variants=['i386', 'x64'])
    ctx.finish()
if __name__ == '__main__': main()
