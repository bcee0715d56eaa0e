#!/usr/bin/env python3
"""P01: values of expressions.  Programs: every pair of operators in both shapes, every unary
operator around and inside every binary operator, every (compound) assignment and increment in
value position, and random expression trees; CMachine.tla says what they print."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *
from genexpr import *

def systematic(r):
    """[(tag, function from G to expression)]"""
    fams = []
    A = lambda g: g.atom()
    for o1 in ARITH:
        for o2 in ARITH:
            fams.append(('%s then %s, left' % (o1, o2), lambda g, a=o1, b=o2: bin(b, bin(a, A(g), A(g)), A(g))))
            fams.append(('%s then %s, right' % (o1, o2), lambda g, a=o1, b=o2: bin(a, A(g), bin(b, A(g), A(g)))))
        for u in UN:
            fams.append(('%s of %s' % (u, o1), lambda g, u=u, o=o1: un(u, bin(o, A(g), A(g)))))
            fams.append(('%s in left of %s' % (u, o1), lambda g, u=u, o=o1: bin(o, un(u, A(g)), A(g))))
            fams.append(('%s in right of %s' % (u, o1), lambda g, u=u, o=o1: bin(o, A(g), un(u, A(g)))))
        for io in ('++', '--'):
            for post in (0, 1):
                fams.append(('%s%d left of %s' % (io, post, o1), lambda g, o=o1, i=io, p=post: bin(o, inc(i, g.lvalue(), p), A(g))))
                fams.append(('%s%d right of %s' % (io, post, o1), lambda g, o=o1, i=io, p=post: bin(o, A(g), inc(i, g.lvalue(), p))))
        fams.append(('?: left of ' + o1, lambda g, o=o1: bin(o, cnd(A(g), A(g), A(g)), A(g))))
        fams.append(('?: right of ' + o1, lambda g, o=o1: bin(o, A(g), cnd(A(g), A(g), A(g)))))
        for k in range(3):
            fams.append(('%s in ?: %d' % (o1, k), lambda g, o=o1, k=k: cnd(*[bin(o, A(g), A(g)) if j == k else A(g) for j in range(3)])))
        fams.append(('= left of ' + o1, lambda g, o=o1: bin(o, asg('=', g.lvalue(), A(g)), A(g))))
        fams.append(('= right of ' + o1, lambda g, o=o1: bin(o, A(g), asg('=', g.lvalue(), A(g)))))
        fams.append(('%s as index' % o1, lambda g, o=o1: idx(var('arr'), bin('&', paren(bin(o, A(g), A(g))), num(3)))))
    for o1 in ['='] + COMP:
        for o2 in ['='] + COMP:
            fams.append(('%s= of %s=' % (o1, o2), lambda g, a=o1, b=o2: asg(a, g.lvalue(), asg(b, g.lvalue(), A(g)))))
        for u in UN: fams.append(('%s of %s=' % (u, o1), lambda g, u=u, o=o1: un(u, asg(o, g.lvalue(), A(g)))))
        for o in ARITH:
            fams.append(('%s= %s' % (o1, o), lambda g, a=o1, o=o: asg(a, g.lvalue(), bin(o, A(g), A(g)))))
        fams.append(('%s= ?:' % o1, lambda g, a=o1: asg(a, g.lvalue(), cnd(A(g), A(g), A(g)))))
        fams.append(('?: of %s=' % o1, lambda g, a=o1: cnd(A(g), asg(a, g.lvalue(), A(g)), asg(a, g.lvalue(), A(g)))))
        fams.append(('%s= on element' % o1, lambda g, a=o1: asg(a, idx(var('arr'), g.index(1, True)), A(g))))
        fams.append(('%s= on *p' % o1, lambda g, a=o1: asg(a, idx(var('lp'), g.index(1, True), sty='*'), A(g))))
    for u in UN:
        for v in UN:
            fams.append(('%s %s' % (u, v), lambda g, u=u, v=v: un(u, un(v, A(g)))))
            fams.append(('%s (%s lit)' % (u, v), lambda g, u=u, v=v: un(u, un(v, g.lit()))))
        for io in ('++', '--'):
            for post in (0, 1):
                fams.append(('%s %s%d' % (u, io, post), lambda g, u=u, i=io, p=post: un(u, inc(i, g.lvalue(), p))))
    for io in ('++', '--'):
        for post in (0, 1):
            for lv in (lambda g: idx(var('arr'), g.index(1, True)), lambda g: idx(var('lp'), g.index(1, True), sty='*'), lambda g: var('gs'), lambda g: var('sa')):
                fams.append(('%s%d lvalues' % (io, post), lambda g, i=io, p=post, lv=lv: inc(i, lv(g), p)))
    for k in range(3):
        fams.append(('?: in ?: %d' % k, lambda g, k=k: cnd(*[cnd(A(g), A(g), A(g)) if j == k else A(g) for j in range(3)])))
    return fams

def main():
    ctx = pv.Ctx('P01')
    r = ctx.rng
    progs = []
    for rep in range(ctx.budget(3, 12)):
        fams = systematic(r)
        # several expressions per function, each in one of the contexts
        i = 0
        while i < len(fams):
            g = G(r)
            st, tags = [], []
            while i < len(fams) and len(st) < 9:
                tag, mk = fams[i]; i += 1
                # operands for which the value is defined, and differs from that of other groupings
                e, best = None, None
                for n in range(60):
                    g.side = list(SIDE); g.small = n % 3 > 0
                    x = g.good(lambda: mk(g), 3)
                    if x is None: continue
                    k = score(x, g.env)
                    if best is None or k < best: e, best, side = x, k, g.side
                    if k == 0: break
                g.small = False
                if e is not None: g.side = side
                if best: ctx.count('families_with_indistinct_grouping')
                if e is None: ctx.count('families_without_defined_value'); continue
                st.append(blk(*contexts(g, e)))
                ev(e, g.env)
                tags.append(tag)
            progs.append(g.prog(st + [ex(emit(idx(var('arr'), num(k)))) for k in range(6)], '; '.join(tags)))
    for k in range(ctx.budget(700, 12000)):
        g = G(r)
        st = []
        for _ in range(r.randrange(1, 5)):
            g.side = list(SIDE)
            e = g.good(lambda: g.expr(r.choice([2, 3, 3, 4, 5])))
            if e is None: continue
            try: ev(e, g.env)
            except Undef: continue
            st.append(blk(*contexts(g, e)))
        progs.append(g.prog(st, 'random'))
    # lvalues whose index has a weaker operator than +: a known finding in the shell backend
    for o in ('&', '|', '^', '<<', '>>', '<', '==', '&&', '||', '?'):
        g = G(r)
        e = cnd(var('la'), num(1), num(2)) if o == '?' else bin(o, num(1), num(1)) if o in ('<<',) else bin(o, num(3), num(1))
        p = g.prog([ex(asg('=', idx(var('arr'), e), num(5))), ex(emit(idx(var('arr'), num(0)))), ex(emit(idx(var('arr'), num(1)))), ex(emit(idx(var('arr'), num(2)))), ex(emit(idx(var('arr'), num(3))))], 'index of an lvalue: ' + o)
        p.key = 'lvalue-index-precedence'
        progs.append(p)
    # element accesses in conditionally evaluated operands whose index has side effects: another one
    g = G(r)
    for mk in (lambda e: bin('&&', num(0), e), lambda e: bin('||', num(1), e), lambda e: cnd(num(1), num(5), e), lambda e: cnd(num(0), e, num(5))):
        for acc in (lambda: idx(var('arr'), inc('++', var('sa'), 1)), lambda: idx(var('lp'), inc('++', var('sa'), 0), sty='*')):
            p = g.prog([ex(asg('=', var('sa'), num(1))), ex(asg('=', var('v'), mk(acc()))), ex(emit(var('v')))], 'side effect in the index of an unevaluated access')
            p.key = 'eager-index'; p.exe_only = False
            progs.append(p)
    key = lambda c, v: getattr(c.prog, 'key', None) if pv.is_sh(v) else None
    par = lambda: r.random() < .12
    crun.decide(ctx, progs, extra=par, finding_key=key)
    ctx.assumptions.append('gcc builds pnut correctly; the six shells implement POSIX arithmetic')
    ctx.finish()
if __name__ == '__main__': main()
