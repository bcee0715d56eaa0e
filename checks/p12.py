#!/usr/bin/env python3
"""P12: files, descriptors and streams.  Every short history that IOGen.tla generates and long random
ones are performed by compiled programs; what they observe is checked against IO.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from iogen import *

CFG_GEN = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Report\nPROPERTY Step\n'
W = dict(open=3, fopen=2.5, close=2, read=4, write=3, fgetc=4, fgetcs=1.5, getchar=.7, putchar=.5, putcharv=.5, alloc=.6, store=1, peek=1)

def enumerated(ctx, r):
    """the histories generated by TLC, many in each program"""
    recs, st = ctx.tlc_ok('IOGen', CFG_GEN, env=dict(DEPTH=ctx.budget(4, 5)))
    ctx.count('enumerated_histories', len(recs))
    r.shuffle(recs)
    cases = []
    inp = content(r, 6, 0, 0, high=False) + b'end\n'
    ops = None
    def done():
        if ops: cases.append(Case(inp, {'A': b'a\n\nb', 'B': b'cd\n'}, ops, 'enumerated histories'))
    for n, sc in enumerate(recs):
        if n % 24 == 0:
            done(); ops = [dict(o='alloc', k=1, n=3, heap=n % 48 == 0)]
        tab = {}
        for o, h, f, k in sc:
            q = dict(o=o, h=h)
            if o in ('open', 'fopen'): q.update(f=f, m='r'); tab[h] = o
            elif o in ('close', 'fclose'): del tab[h]
            elif o == 'read': q.update(k=1, n=k, d=0)
            elif o == 'getchar': del q['h']
            ops.append(q)
        for h in list(tab): ops.append(dict(o='close' if tab[h] == 'open' else 'fclose', h=h))
    done()
    return cases

def missing(ctx):
    """opening a missing file in a script"""
    d = ctx.dir()
    open(os.path.join(d, 'p.c'), 'w').write('int main() { int f; f = open("none", 0, 0); if (f < 0) putchar(78); else putchar(89); putchar(10); return 0; }\n')
    ctx.build(['sh', 'shrel'])
    for v in ('sh', 'shrel'):
        q, exe = ctx.compile(v, 'p.c', d)
        for s in pv.SHELLS:
            r = ctx.execute(v, s, exe, d)
            ctx.count('missing_files_in_scripts')
            if r.out == b'N\n': continue
            # the script must not go on as if the file were open
            if r.rc != 0 and r.out == b'' and ctx.finding('open-missing-file', 'the script ends (%s)' % s): continue
            ctx.violation('P12: opening a missing file in a script (%s, %s): status %s, output %r' % (v, s, r.rc, r.out[-200:]), {'p.c': open(os.path.join(d, 'p.c')).read()})

def around(ctx, r):
    """lines as long as the buffer of a file, with objects allocated next to the buffer"""
    cases = []
    for L in (997, 998, 999, 1000, 1001, 1300):
        for L2 in r.sample([L - 1, L, L + 1, 2 * L - 3, 2 * L - 2, 2 * L - 1, 2 * L, 2 * L + 1], ctx.budget(3, 8)):
            for how in ('fgetcs', 'read'):
                a, b = line(r, L, 'few'), line(r, L2, 'few')
                k = [0]; ops = []
                def obj():
                    k[0] += 1; ops.append(dict(o='alloc', k=k[0], n=3, heap=True))
                def get(n):
                    if how == 'fgetcs': ops.append(dict(o='fgetcs', h=1, n=n))
                    else: ops.append(dict(o='read', h=1, k=1, n=n, d=0))
                def peek():
                    for i in range(1 + (how == 'read'), k[0] + 1): ops.append(dict(o='peek', k=i, len=3))
                if how == 'read': obj(); ops[-1].update(n=L + L2 + 40)
                ops.append(dict(o='fopen' if how == 'fgetcs' else 'open', h=1, f='A', m='r'))
                p = r.choice([0, 1, 3, L - 1]); q = r.choice([0, 1, 5, L2 - 1])   # what is read before the objects are allocated
                if p: get(p)
                obj(); obj(); get(L + 1 - p); peek()
                if q: get(q)
                obj(); obj(); get(L2 + 1 - q); get(3); peek()
                get(30)
                ops.append(dict(o='fclose' if how == 'fgetcs' else 'close', h=1))
                peek()
                cases.append(Case(b'x\n', {'A': a + b'\n' + b + b'\n' + r.choice([b'end', b'e\n\n', b''])}, ops, 'lines as long as the buffer'))
    return cases

def main():
    ctx = pv.Ctx('P12')
    r = ctx.rng
    cases = enumerated(ctx, r)
    if ctx.quick: cases = cases[:60]
    for _ in range(ctx.budget(160, 3000)):
        files = {f: content(r, 6, .12, .05) for f in r.choice(['A', 'AB', 'ABC'])}
        for f in r.choice(['W', 'WX']): files[f] = b''
        w = dict(W)
        if r.random() < .2: w.update(write=0)
        if r.random() < .2: w.update(read=0, open=.5)
        t = r.random()
        # the stream functions of the native backends only read: streams are opened for reading everywhere
        appends = False
        ops = Gen(r, b'line\n' * 3, files, r.choice([12, 30, 60, 90]), w, appends).ops
        cases.append(Case(b'line\n' * 3, files, ops, 'operations on files'))
    # appending mode, with contents already in the file
    for _ in range(ctx.budget(30, 400)):
        files = {f: content(r, 4, .1, 0) for f in 'AB'}; files['W'] = content(r, 3, 0, 0)
        cases.append(Case(b'x\n', files, Gen(r, b'x\n', files, r.choice([15, 40]), dict(W, write=6, open=5), True).ops, 'operations with appending'))
    # files that do not exist: scripts end when they open one (finding), programs of the native backends go on
    for _ in range(ctx.budget(40, 400)):
        files = {f: content(r, 4, .1, 0) for f in 'AB'}; files['W'] = b''
        cases.append(Case(b'x\n', files, Gen(r, b'x\n', files, r.choice([8, 25]), dict(W, openx=3, fopenx=3), False).ops, 'operations with missing files'))
    cases += around(ctx, r)
    missing(ctx)
    ctx.count('cases', len(cases))
    for c in cases[-100:-1:20]: ctx.sample(dict(files={f: repr(t[:60]) for f, t in c.files.items()}, ops=[o['o'] for o in c.ops[:25]]))
    decide(ctx, cases, plan, VARIANTS)
    ctx.finish()
if __name__ == '__main__': main()
