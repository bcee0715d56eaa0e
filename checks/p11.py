#!/usr/bin/env python3
"""P11: getchar delivers standard input.  Inputs and histories, recorded and checked against IO.tla."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from iogen import *

W = dict(getchar=8, getchars=3, putchar=2, fopen=2, open=1, close=1, fgetc=4, fgetcs=1, read=1.5, alloc=.5, store=1, peek=.5)
def main():
    ctx = pv.Ctx('P11')
    r = ctx.rng
    cases = []
    # every input of up to L bytes over a small alphabet, read to the end and twice beyond it
    L = ctx.budget(4, 6)
    for n in range(L + 1):
        for t in itertools.product(b'\nx \\', repeat=n):
            cases.append(Case(bytes(t), {'A': b''}, [dict(o='getchars', n=n + 2)], 'input of %d bytes' % n))
    for _ in range(ctx.budget(150, 2500)):
        inp = content(r, 12, .2, .06)
        t = r.random()
        if t < .4: ops = [dict(o='getchars', n=len(inp) + 3)]; files = {'A': b''}
        elif t < .55:
            files = {'A': b''}; ops = []; left = len(inp) + 2
            while left > 0 and len(ops) < 40:
                k = min(left, r.choice([1, 2, 15, 16, 17, 100, 256])); left -= k
                ops += [dict(o='getchar')] if k == 1 else [dict(o='getchars', n=k)]
                if r.random() < .3: ops.append(dict(o='putchar', n=r.randrange(1, 128)))
        else:
            files = {f: content(r, 4, .1, .03) for f in 'AB'}
            ops = Gen(r, inp, files, r.choice([10, 30, 60]), W).ops
        cases.append(Case(inp, files, ops, 'input of %d bytes' % len(inp)))
    ctx.count('cases', len(cases))
    for c in cases[100:600:97]: ctx.sample(dict(input=repr(c.inp[:120]), ops=[o['o'] for o in c.ops[:20]]))
    decide(ctx, cases, plan, VARIANTS)
    ctx.finish()
if __name__ == '__main__': main()
