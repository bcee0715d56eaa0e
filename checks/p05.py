#!/usr/bin/env python3
"""P05: activations.  Call graphs with direct, mutual and nested recursion, parameters and locals
modified in all ways, many parameters and locals, difficult names.  CMachine.tla keeps the locals of
each activation in its own frame (ActivationsPrivate is checked by TLC on every program)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun
from cgen import *

# locals and parameters: not prefixed by the shell backend, so shell words and names of the runtime matter
LOCALS = '''a b c i j k n p q s v x y z a1 a2 x10 lc hd bit tmp res ret result count len buf str ptr value name type test let set local true read cat echo eval shift
unset endlet fi then done esac in elif select time function until export readonly exit_ok trap exec command alias type_ jobs wait argc argv args init
put get main0 defstr defarr initialize unpack_string char_to_int __none malloc_size SP size offset o1 pn1 e f g h m r t u w aVeryLongNameForALocalVariableThatGoesOnAndOn
A B Z X1 abc ABC Abc aBc a_b a_b_c x_1 foo bar baz elt idx cond step lo hi mid left right node tree next prev first last rest sum acc fp0 st ix cc dd ee'''.split()
LOCALS = [n for n in LOCALS if not n.startswith('_') and not n.endswith('_')]
GLOBALS = '''ga gb gc count total path status PATH UID HOME IFS argv test let set read cat echo eval unset fi then done esac in elif exit1 x y z a b c result buf
stack stack_ptr heap heap_alloc memory mem A B value SP free_list open_ALLOC exit_value str i n lc hd put_pstr defstr initialize unpack line next_char fd cursor'''.split()
FUNCS = '''f g h fa fb fib fact ack even odd test let set read1 cat echo eval shift unset endlet fi then done esac in elif select time local true false printf1 exit1 alloc
put_pstr unpack_string defarr defstr initialize main1 foo bar baz loop walk visit parse gcd hanoi pow mod div1 helper init reset A B X a1 b2 aVeryLongFunctionNameThatGoesOnAndOnAndOn a_b_c'''.split()

# names of locals that some shell treats specially
SPECIAL = set('''PATH UID EUID PPID GROUPS LINENO RANDOM OPTIND HISTCMD BASHPID BASHOPTS SHELLOPTS BASH_VERSINFO status histchars pipestatus COLUMNS EPOCHREALTIME EPOCHSECONDS SRANDOM
DIRSTACK FUNCNAME KSH_VERSION PIPESTATUS TTYIDLE USERNAME options commands functions aliases parameters BASH_COMMAND LC_ALL KEYBOARD_HACK zsh_eval_context FUNCNEST path argv IFS2 PS4 HOME SECONDS OPTARG'''.split())

LOCALS = list(dict.fromkeys(LOCALS + sorted(SPECIAL)))

class A:
    def __init__(self, r, names=False, big=False):
        self.r, self.names, self.big = r, names, big
        self.k = 0
    def mark(self):
        self.k += 1
        return ex(emit(num(self.k % 89 + 200)))
    def prog(self, tag):
        r = self.r
        self.nf = r.randrange(1, 5)
        fn = r.sample(FUNCS, self.nf) if self.names else ['fa', 'fb', 'fc', 'fd'][:self.nf]
        gn = [n for n in r.sample(GLOBALS, 6) if n not in fn][:r.randrange(1, 4)] if self.names else ['ga', 'gb'][:r.randrange(1, 3)]
        self.fn, self.gn = fn, gn
        self.np = [r.choice([0, 1, 1, 2, 2, 3, 4] + ([8, 9, 10, 11, 13] if self.big else [])) for _ in fn]
        self.void = [r.random() < .2 for _ in fn]
        self.arrparam = [r.random() < .25 for _ in fn]
        fs = [self.function(j) for j in range(self.nf)]
        body = []
        for _ in range(r.randrange(1, 3)):
            j = r.randrange(self.nf)
            body.append(self.callstmt(j, num(r.choice([0, 1, 2, 2, 3]) if self.calls[j] < 2 else r.choice([0, 1, 2])), lambda: num(r.randrange(-3, 9)), 'arr'))
        for g in gn: body.append(ex(emit(var(g))))
        for i in range(3): body.append(ex(emit(idx(var('arr'), num(i)))))
        t = Func('t', [], blk(*body))
        p = Prog([t] + fs, [(g, r.randrange(0, 9)) for g in gn], [('arr', [r.randrange(9) for _ in range(3)])], tag)
        return p
    def args(self, j, depth, val, arr):
        l = [depth] + [val() for _ in range(self.np[j])]
        if self.arrparam[j]: l.append(var(arr))
        return l
    def callexpr(self, j, depth, val, arr): return call(self.fn[j], *self.args(j, depth, val, arr))
    def callstmt(self, j, depth, val, arr):
        c = self.callexpr(j, depth, val, arr)
        return ex(c) if self.void[j] or self.r.random() < .15 else ex(emit(c))
    def function(self, j):
        r = self.r
        if j == 0: self.calls = [r.choice([1, 1, 2]) for _ in self.fn]
        nl = r.choice([0, 1, 2, 3, 5] + ([12, 25] if self.big else []))
        pool = [n for n in (r.sample(LOCALS, min(len(LOCALS), self.np[j] + nl + 12)) if self.names else ['p%d' % i for i in range(20)] + ['v%d' % i for i in range(30)]) if n not in self.fn and n not in self.gn]
        if self.names and r.random() < .3:      # a local or parameter with the name of a global
            pool.insert(r.randrange(2), r.choice([g for g in self.gn if g != 'IFS'] or ['gq']))
            pool = list(dict.fromkeys(pool))
        if not self.names: params, locs = ['p%d' % i for i in range(self.np[j])], ['v%d' % i for i in range(nl)]
        else: params, locs = pool[:self.np[j]], pool[self.np[j]:self.np[j] + nl]
        free = [n for n in (pool[self.np[j] + nl:] if self.names else ['d', 'ar']) if n not in params + locs]
        dname, aname = free[0], free[1]
        P = [dname] + params + ([aname] if self.arrparam[j] else [])
        vis = params + locs
        globs = [g for g in self.gn if g not in P + locs]
        def rd():
            c = vis + globs
            return var(r.choice(c)) if c and r.random() < .75 else num(r.randrange(0, 7))
        def val(noglob=False):
            c = vis if noglob else vis + globs
            x = lambda: var(r.choice(c)) if c and r.random() < .75 else num(r.randrange(0, 7))
            t = r.random()
            if t < .55: return x()
            return bin(r.choice(['+', '-', '^', '&', '|']), x(), x())
        def upd():
            c = vis + globs if vis else globs
            if not c: return self.mark()
            v = r.choice(c)
            t = r.random()
            if t < .35: return ex(asg('=', var(v), bin('&', val(), num(63))))
            if t < .6: return ex(asg(r.choice(['+', '-', '^', '|']), var(v), bin('&', val(), num(15))))
            if t < .9: return ex(inc(r.choice(['++', '--']), var(v), r.random() < .5))
            return ex(emit(inc(r.choice(['++', '--']), var(v), r.random() < .5)))
        arr = aname if self.arrparam[j] else 'arr'
        def thecall(k):
            depth = bin('-', var(dname), num(1))
            a = lambda: bin('&', val(), num(31)) if r.random() < .4 else val()
            t = r.random()
            if self.void[k]: return ex(self.callexpr(k, depth, a, arr))
            e = self.callexpr(k, depth, a, arr)
            if t < .2: return ex(emit(e))
            if t < .35 and vis: return ex(asg('=', var(r.choice(vis)), bin('&', e, num(255))))
            if t < .45 and vis: return ex(asg('+', var(r.choice(vis)), bin('&', e, num(255))))
            if t < .55: return ex(emit(bin(r.choice(['+', '-', '^']), val(True), bin('&', e, num(127)))))
            if t < .65: return ex(emit(bin(r.choice(['+', '*']), bin('&', e, num(31)), val(True))))
            if t < .75: return if_(bin(r.choice(['<', '>']), e, val(True)), blk(self.mark(), upd()), upd())
            if t < .82: return if_(bin('&&', bin('>', var(dname), num(0)), bin('>', e, num(2))), self.mark())
            if t < .88 and globs: return ex(asg('=', var(r.choice(globs)), bin('&', e, num(127))))
            if t < .93: return ex(asg('=', idx(var(arr), num(r.randrange(3))), bin('&', e, num(127))))
            return ex(e)
        l = []
        late = r.random() < .25
        decs = []
        for v in locs:
            decs.append(dec(v, None if r.random() < .3 else (num(r.randrange(0, 9)) if r.random() < .6 or not params else bin('+', var(r.choice(params)), num(r.randrange(3))))))
        l += decs
        for d in decs:
            if d.kids[0] is None: l.append(ex(asg('=', var(d.name), num(r.randrange(0, 9)))))
        l.append(if_(bin('<=', var(dname), num(0)), ret(val()) if not self.void[j] else blk(self.mark(), ret())))
        def some():
            for _ in range(r.randrange(0, 3)): l.append(upd() if r.random() < .7 else self.mark())
        for _ in range(self.calls[j]):
            some()
            s = thecall(r.randrange(self.nf))
            t = r.random()
            if t < .15: s = if_(bin('>', val(), num(2)), s, self.mark())
            l.append(s)
        some()
        for v in r.sample(vis, min(len(vis), r.randrange(0, 5))): l.append(ex(emit(var(v))))
        if r.random() < .3: l.append(ex(asg('=', idx(var(arr), num(r.randrange(3))), bin('&', val(), num(63)))))
        if r.random() < .15 and vis: l.append(ex(inc('--', var(dname), 1)))
        if not self.void[j]:
            t = r.random()
            k = r.randrange(self.nf)
            if t < .12 and not self.void[k] and self.calls[j] < 2: l.append(ret(self.callexpr(k, bin('-', var(dname), num(2)), val, arr)))
            elif t < .3: l.append(if_(bin('>', val(), num(3)), ret(val()), ret(bin('+', val(), num(1)))))
            else: l.append(ret(val()))
        elif r.random() < .3: l.append(ret())
        return Func(self.fn[j], P, blk(*l), ret='void' if self.void[j] else 'int', ptypes={aname: 'int *'} if self.arrparam[j] else {})

def special(name):
    f = Func('fa', ['d', name], blk(dec('q', var('d')), ex(asg('+', var(name), num(2))), if_(bin('>', var('d'), num(0)), ex(asg('+', var('q'), call('fa', bin('-', var('d'), num(1)), bin('*', var(name), num(2)))))), ex(emit(var(name))), ret(bin('+', var('q'), var(name)))))
    t = Func('t', [], blk(dec('w', num(3)), ex(emit(call('fa', num(2), var('w'))))))
    return Prog([t, f], [], [], 'local named ' + name)

def busy(r):
    """Functions that call several others in one expression, all of them with values of their own to keep"""
    n = r.randrange(3, 6)
    arity = [r.randrange(1, 4)] + [r.randrange(0, 4) for _ in range(n - 1)]
    P = ['p', 'q', 'u']
    fs = []
    k = [0]
    for j in range(n - 1, -1, -1):
        params = P[:arity[j]]
        loc = r.sample(['va', 'vb', 'vc'], r.randrange(0, 3))
        live = [3]
        def val(d):
            c = [var(x) for x in params + loc] + [num(r.randrange(0, 9))]
            t = r.random()
            if j + 1 < n and d > 0 and live[0] > 0 and t < .55:
                live[0] -= 1
                m = r.randrange(j + 1, n)
                return call('f' + 'abcdefgh'[m], *[val(d - 1) for _ in range(arity[m])])
            if t < .8 and d > 0: return bin(r.choice(['+', '-', '^', '*']), val(d - 1), bin('&', val(d - 1), num(15)))
            return r.choice(c)
        def three():
            x = val(2)
            for _ in range(r.randrange(0, 3)): x = bin(r.choice(['+', '-', '^']), bin('*', bin('&', x, num(255)), num(3)), val(2))
            return bin('&', x, num(1023))
        l = [dec(v, r.choice([num(r.randrange(9)), *[var(x) for x in params]])) for v in loc]
        for _ in range(r.randrange(0, 3)):
            live[0] = 2 if j else 3
            t = r.random()
            if loc and t < .5: l.append(ex(asg(r.choice(['=', '+', '^']), var(r.choice(loc)), three())))
            elif t < .8 and not j: l.append(ex(emit(three())))
            elif loc: l.append(if_(bin('>', three(), num(300)), ex(asg('=', var(loc[0]), three())), None))
        live[0] = 3
        l.append(ret(three()))
        fs.insert(0, Func('f' + 'abcdefgh'[j], params, blk(*l)))
    t = Func('t', [], blk(*[ex(emit(call('fa', *[num(r.randrange(0, 40)) for _ in range(arity[0])]))) for _ in range(3)]))
    return Prog([t] + fs, [], [], 'several calls in an expression')

def main():
    ctx = pv.Ctx('P05')
    r = ctx.rng
    progs = [A(r, False, r.random() < .25).prog('calls') for _ in range(ctx.budget(500, 7000))]
    named = [A(r, True, r.random() < .25).prog('names') for _ in range(ctx.budget(400, 6000))]
    progs += [busy(r) for _ in range(ctx.budget(90, 2500))]
    crun.decide(ctx, progs + named, props=True, chunk=1000)
    # names exactly as written, one program per file
    if not ctx.violations:
        alone = [A(r, True, r.random() < .2).prog('names, one program per file') for _ in range(ctx.budget(60, 1200))]
        sp = [special(n) for n in r.sample(sorted(SPECIAL), ctx.budget(18, len(SPECIAL)))]
        exp = crun.outcomes(ctx, alone + sp, props=True)
        cases = []
        for i, (p, e) in enumerate(zip(alone + sp, exp)):
            if e is None: continue
            p.nosuffix = True
            c = crun.Case(100000 + i, p, e)
            c.txt = ctext(p)
            cases.append(c)
        ctx.count('programs', len(cases))
        run = crun.Runner(ctx, batch=1)
        run.run(cases)
    ctx.finish()
if __name__ == '__main__': main()
