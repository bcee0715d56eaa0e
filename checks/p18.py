#!/usr/bin/env python3
"""P18: what the compiler refuses.  Reject.tla decides for every program, read from left to right,
whether each backend must accept it, must refuse it, or may do either."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, rejgen
from rejgen import *

CFG = 'SPECIFICATION Spec\nINVARIANT Plain\nINVARIANT Stricter\nINVARIANT Report\nPROPERTY Monotone\n'
SHV = ['sh', 'shset', 'shrel', 'shcompact', 'shopt', 'shsafe', 'shparam', 'shc', 'shall']
EXV = ['i386', 'x64', 'i386safe', 'x64safe', 'i386', 'x64', 'i386rel', 'x64rel']
# one process compiles many programs; resources are limited for each of them
LOOP = '''cd "$1" || exit 9
while read f v; do ( ulimit -t 10 -v 2000000; cd $f && exec "../../pnut-$v" p.c > out.$v 2> err.$v < /dev/null ) ; echo "$f $v $?" ; if [ -s $f/out.$v ]; then echo "$f $v out"; fi; if [ -s $f/err.$v ]; then echo "$f $v out"; fi; rm -f $f/out.$v $f/err.$v ; done < jobs
'''
class P:
    def __init__(self, ops, text, files, what): self.ops, self.text, self.files, self.what, self.v = ops, text, files, what, None

def key(v): return 0 if pv.is_sh(v) else 2 if 'safe' in v else 1
def judge(ver, rc, msg):
    """None, or what is wrong"""
    if rc < 0 or rc > 127: return 'the compiler crashes (status %d)' % rc
    if ver == 'ok' and rc != 0: return 'is refused'
    if ver == 'bad' and rc == 0: return 'is accepted'
    if rc != 0 and not msg: return 'is refused without a message'

def run(ctx, jobs):
    """jobs: (program, variant)"""
    def one(part):
        d = ctx.dir()
        names = {}
        for i, (p, v) in enumerate(part):
            s = 'p%d' % i
            names[s] = (p, v)
            os.mkdir(os.path.join(d, s)); os.chmod(os.path.join(d, s), 0o777)
            for n, t in dict(p.files, **{'p.c': p.text}).items(): open(os.path.join(d, s, n), 'w').write(t)
        open(os.path.join(d, 'jobs'), 'w').write(''.join('p%d %s\n' % (i, v) for i, (p, v) in enumerate(part)))
        q = ctx.run(['bash', '-c', LOOP, 'loop', d], d, timeout=600)
        got = {}
        for l in q.out.decode().split('\n'):
            l = l.split()
            if len(l) == 3:
                if l[2] == 'out': got[l[0]][1] = True
                else: got[l[0]] = [int(l[2]), False]
        bad = 0
        for s, (p, v) in names.items():
            if ctx.violations and bad: break
            ver = p.v[key(v)]
            w = judge(ver, *got[s]) if s in got else 'was not compiled'
            if w: w = again(ctx, p, v)
            if w:
                ctx.violation('%s %s with %s: specification %s; %s' % (p.what, w, v, ver, ' '.join(o['k'] for o in p.ops)[:300]), dict(p.files, **{'p.c': p.text})); bad += 1
            else:
                ctx.count('traces_validated_against_impl'); ctx.count('judged_' + ver)
                if ver == 'may': ctx.count('may_refused' if got[s][0] else 'may_accepted')
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    n = 250
    ctx.rng.shuffle(jobs)
    ctx.pmap(one, [jobs[i:i + n] for i in range(0, len(jobs), n)])

def again(ctx, p, v):
    d = ctx.dir()
    for n, t in dict(p.files, **{'p.c': p.text}).items(): open(os.path.join(d, n), 'w').write(t)
    r, _ = ctx.compile(v, 'p.c', d)
    return 'the compiler does not end' if r.to else judge(p.v[key(v)], r.rc, r.out + r.err)

def enumerated(ctx):
    res, st = ctx.tlc_ok('RejectGen', CFG, env=dict(DEPTH=ctx.budget(4, 5)))
    ctx.count('programs_enumerated', len(res))
    ps = []
    for x in res:
        ops = [dict(k='fn', n='p')] + [dict(k=k, n='a', l='l') for k in x['o']]
        d = 0
        for o in ops: d += (o['k'] in OPEN + ('fn', 'else')) - (o['k'] == 'close')
        ops += [dict(k='close')] * d
        p = P(ops, None, {}, 'a function')
        p.v = x['v']
        ps.append(p)
    r = ctx.rng
    if not ctx.quick and len(ps) > 120000: ps = [p for p in ps if len(p.ops) < 7 or r.random() < .5]
    for p in ps: p.text = Render(r, p.ops).text()
    return ps

def generated(ctx, n):
    r = ctx.rng
    keys = [(t, k) for t in (EXPR, STMT, TOP) for k in t]
    out = []
    for i in range(n):
        g = Gen(r)
        if i < len(keys) * 2: ks = [keys[i % len(keys)]]
        elif r.random() < .12: ks = []
        else: ks = [r.choice(keys) if r.random() < .5 else None for _ in range(r.choice([1, 1, 1, 2]))]
        ops, what = g.program(ks)
        R = Render(random.Random(r.random()), ops)
        t = R.text()
        out.append(P(ops, t, R.files, ' and '.join(what) or 'a plain program'))
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump([spec(p.ops) for p in out], open(f, 'w'))
    res, st = ctx.tlc_ok('RejectGen', CFG, env=dict(CASES_FILE=f))
    for x in res: out[x['c'] - 1].v = x['v']
    assert all(p.v for p in out)
    for w in ('sh', 'exe', 'safe'):
        i = ('sh', 'exe', 'safe').index(w)
        for v in ('ok', 'may', 'bad'): ctx.count('generated_%s_%s' % (w, v), sum(p.v[i] == v for p in out))
    for p in out[::max(1, len(out) // 5)]: ctx.sample(dict(what=p.what, text=p.text, verdict=p.v))
    return out

def findings(ctx):
    """known defects: each program must be refused or work; it is accepted and does the wrong thing"""
    for k, t, want in FINDINGS:
        d = ctx.dir()
        open(os.path.join(d, 'p.c'), 'w').write(t)
        r, exe = ctx.compile('sh', 'p.c', d)
        if r.rc != 0: continue
        q = ctx.execute('sh', 'dash', exe, d)
        if q.out != want and not ctx.finding(k, t): ctx.violation('%s: printed %r instead of %r and was not refused' % (k, q.out, want), {'p.c': t})
FINDINGS = [
 ('struct-assignment', '''#include <stdio.h>
struct S { int m; int n; };
int main() { struct S *p = malloc(sizeof(struct S)); struct S *q = malloc(sizeof(struct S)); q->m = 65; q->n = 66; p->m = 67; p->n = 68; *p = *q; putchar(p->m); putchar(p->n); return 0; }
''', b'AB'),
 ('struct-pointer-arithmetic', '''#include <stdio.h>
struct S { int m; int n; };
int main() { struct S *p = malloc(2 * sizeof(struct S)); struct S *q = p + 1; q->m = 65; q->n = 66; p->m = 67; p->n = 68; putchar(q->m); putchar(q->n); return 0; }
''', b'AB'),
 ('char-narrowing', '''#include <stdio.h>
int main() { char c = 321; putchar(65 + (c == 65)); return 0; }
''', b'B'),
]

def main():
    ctx = pv.Ctx('P18')
    ctx.build(sorted(set(SHV + EXV)))
    findings(ctx)
    ps = enumerated(ctx)
    r = ctx.rng
    jobs = []
    for p in ps: jobs += [(p, r.choice(SHV)), (p, r.choice(EXV))]
    run(ctx, jobs)
    ps = generated(ctx, ctx.budget(5000, 40000))
    jobs = []
    for p in ps: jobs += [(p, v) for v in r.sample(SHV, ctx.budget(2, 4)) + r.sample(EXV, ctx.budget(2, 4))]
    run(ctx, jobs)
    ctx.finish()
if __name__ == '__main__': main()
