#!/usr/bin/env python3
"""P13: memory objects are disjoint and keep what is stored in them.  The short histories that
HeapGen.tla generates and long random ones are performed by compiled programs; what they print is
checked against Heap.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from heapgen import *

CFG_GEN = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Report\nPROPERTY Step\n'
VARIANTS = ['sh', 'shset', 'shrel', 'shcompact', 'shinit', 'i386', 'x64']
def plan(ctx, i, c):
    S = pv.SHELLS
    if c.exe: return [('i386', None), ('x64', None)]
    # arrays without initializer are only zeroed without RT_NO_INIT_GLOBALS
    if getattr(c, 'zero', False): return [(['shinit', 'shcompact'][i % 2], S[i % 6])]
    j = [('sh', S[i % 6]), (['shrel', 'shset', 'shcompact', 'shinit'][i % 4], S[(i * 5 + 1) % 6])]
    if not ctx.quick: j += [('sh', S[(i + 3) % 6]), ('shrel', S[(i + 2) % 6])]
    return j

def main():
    ctx = pv.Ctx('P13')
    r = ctx.rng
    recs, st = ctx.tlc_ok('HeapGen', CFG_GEN, env=dict(DEPTH=ctx.budget(4, 5)))
    ctx.count('enumerated_histories', len(recs))
    r.shuffle(recs)
    n = 30
    scripts = [recs[i:i + n] for i in range(0, len(recs), n)]
    if ctx.quick: scripts = scripts[:60]
    cases = []
    for i, s in enumerate(scripts): cases.append(from_scripts(s, i % 3 == 0))
    for i in range(ctx.budget(700, 9000)):
        exe = i % 3 == 0
        zero = exe or i % 6 == 1
        g = Gen(r, exe, r.choice([15, 40, 80]), r.choice([6, 12, 20]), zero)
        cases.append(Case(g.source(), g.ops, exe, 'random history')); cases[-1].zero = zero
    ctx.count('cases', len(cases))
    for c in cases[-300:-1:70]: ctx.sample(c.src[-900:])
    decide(ctx, cases, plan, VARIANTS)
    # free of the null pointer does nothing
    for v in ('sh', 'i386', 'x64'):
        d = ctx.dir()
        with open(os.path.join(d, 'p.c'), 'w') as h: h.write('#include <stdio.h>\n#include <stdlib.h>\nint main() { char *p = 0; putchar(97); free(p); putchar(98); return 3; }\n')
        c, exe = ctx.compile(v, 'p.c', d)
        for sh in (pv.SHELLS if v == 'sh' else [None]):
            for k in range(2):
                g = ctx.execute(v, sh, exe, d)
                if (g.out, g.rc) == (b'ab', 3): break
            if (g.out, g.rc) == (b'ab', 3): ctx.count('traces_validated_against_impl')
            elif not (v == 'sh' and ctx.finding('free-null', '')):
                ctx.violation('P13: free of the null pointer under %s %s: wrote %r and ended with %d: %r' % (v, sh or '', g.out, g.rc, g.err[:200]), {})
    ctx.finish()
if __name__ == '__main__': main()
