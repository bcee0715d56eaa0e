"""Random structured programs: control flow, switches, gotos and calls."""
from cgen import *

class S:
    """features: 'switch' (forms every backend accepts), 'exeswitch' (fallthrough and early exits
    from cases, native only), 'goto' (native only), 'calls' (calls in conditions),
    'blockdec' (variables of inner blocks), 'array' (local arrays among these, native only)"""
    def __init__(self, r, features=(), nfun=3, size=14):
        self.r, self.ft, self.nfun, self.size = r, set(features), nfun, size
        self.k = 0
        self.nt = 0
        self.glued, self.keep = set(), []
    def mark(self):
        self.k += 1
        return ex(emit(num(self.k % 97 + 1)))
    # -- one function ---------------------------------------------------------
    def function(self, j):
        r = self.r
        self.j = j
        self.params = ['p', 'q'][:r.randrange(1, 3)]
        self.vars = ['va', 'vb']
        self.loops = []
        self.decls = []
        self.nl = 0
        self.left = self.size
        self.void = self.voids[j] = r.random() < .4
        body = self.stmts(3, dict(loop=0, sw=False))
        fin = self.final(2) if not self.void and 'goto' not in self.ft and r.random() < .35 else None
        l = [dec(v, num(r.randrange(0, 4))) for v in self.vars] + [dec(v, num(0)) for v in self.decls]
        if 'goto' in self.ft: l.append(dec('gb', num(r.randrange(2, 7))))
        self.ndecl = len(l)
        l += body
        if self.void:
            # functions without a value may end with any statement, or just end
            if r.random() < .2: l.append(ret())
        elif fin: l.append(fin)
        elif r.random() < .8: l.append(ret(self.val()))
        else: l.append(ret(num(r.randrange(0, 50))))
        body = blk(*l)
        if 'goto' in self.ft: self.gotos(body)
        return Func('f' + 'abcdefgh'[j], self.params, body, *(['void'] if self.void else []))
    def ret(self): return ret(self.val()) if not self.void else ret() if self.r.random() < .5 else blk(ex(emit(self.val())), ret())
    def val(self):
        r = self.r
        c = [var(v) for v in self.vars + self.params] + [var(v) for v in self.loops] + [num(r.randrange(0, 6))]
        t = r.random()
        if t < .6: return r.choice(c)
        return bin(r.choice(['+', '+', '-', '&', '^']), r.choice(c), r.choice(c))
    def cond(self):
        r = self.r
        c = self.params + self.vars + self.loops
        t = r.random()
        if t < .25: e = bin('&', bin('>>', var(r.choice(self.params)), num(r.randrange(0, 3))), num(1))
        elif t < .45: e = bin(r.choice(['<', '>', '==', '!=', '<=', '>=']), var(r.choice(c)), num(r.randrange(0, 4)))
        elif t < .55 and self.loops: e = bin('==', bin('%', var(self.loops[-1]), num(2)), num(r.randrange(0, 2)))
        elif t < .62: e = var(r.choice(c))
        elif t < .70: e = bin('<', inc(r.choice(['++', '--']), var(r.choice(self.vars)), r.random() < .5), num(r.randrange(0, 4)))
        elif t < .78: e = num(r.randrange(0, 2))
        elif 'calls' in self.ft and self.values() and t < .88: e = bin('>', self.callexpr(), num(r.randrange(0, 8)))
        else: e = bin(r.choice(['&&', '||']), self.simple(), self.simple())
        if r.random() < .12: e = un('!', e)
        return e
    def simple(self):
        r = self.r
        return bin(r.choice(['<', '>', '==', '!=']), var(r.choice(self.params + self.vars + self.loops)), num(r.randrange(0, 4)))
    def callexpr(self):
        k = self.r.choice([k for k in range(self.j + 1, self.nfun) if not self.voids[k]])
        return self.callto(k)
    def values(self): return not all(self.voids[self.j + 1:self.nfun])
    def callto(self, k):
        return call('f' + 'abcdefgh'[k], *[self.val() for _ in self.fparams[k]])
    def final(self, d):
        """a last statement that always returns a value"""
        r = self.r
        t = r.random()
        c = dict(loop=0, sw=False)
        if d <= 0 or t < .2: return ret(self.val())
        if t < .6: return if_(self.cond(), blk(*self.stmts(d - 1, c), self.final(d - 1)), blk(self.final(d - 1)))
        self.nl += 1
        i = 'i%d' % self.nl
        self.decls.append(i)
        guard = if_(bin('>', inc('++', var(i), 0), num(r.randrange(1, 4))), self.final(d - 1))
        b = blk(*([self.mark()] if r.random() < .5 else []), guard, *self.stmts(d - 1, c))
        return r.choice([for_(None, None, None, b), wh(num(1), b), for_(None, None, asg('+', var(r.choice(self.vars)), num(1)), b)])
    # -- statements -----------------------------------------------------------
    def stmts(self, d, c):
        r = self.r
        l = []
        for _ in range(r.randrange(1, 5)):
            if self.left <= 0 and l: break
            l.append(self.stmt(d, c))
        while 'blockdec' in self.ft and r.random() < .25:
            # a variable of the block; used next to its initialisation and, in programs without goto, later on
            t = 't%d' % self.nt; self.nt += 1
            i = r.randrange(len(l) + 1)
            if 'array' in self.ft and r.random() < .35:
                n = r.choice([1, 2, 3, 5, 40]); k = r.randrange(n)
                grp = [darr(t, n), ex(asg('=', idx(var(t), num(k)), self.val())), ex(emit(idx(var(t), num(k))))]
                later = ex(emit(bin('+', idx(var(t), num(k)), num(1))))
            else:
                grp = [dec(t, self.val()), ex(emit(var(t)))]
                later = ex(emit(bin('+', inc('++', var(t), 0), num(1))))
            for x in grp[1:]: self.glued.add(id(x)); self.keep.append(x)
            if 'goto' not in self.ft and r.random() < .7: l.insert(r.randrange(i, len(l) + 1), later)
            l[i:i] = grp
        return l
    def gotos(self, body):
        """Adds labels and jumps to them at random places; each activation can jump a few times"""
        r = self.r
        def lists(s, sw=False):
            if s is None or s.k in EXPR: return
            if s.k == 'blk': yield s, sw
            for x in s.kids: yield from lists(x, s.k == 'sw')
            for x in s.l: yield from lists(x)
        L = list(lists(body))
        names = []
        def place(make):
            b, sw = r.choice(L)
            pos = [i for i in range(1 if sw else 0, len(b.l) + 1) if i == len(b.l) or id(b.l[i]) not in self.glued]
            if b is body: pos = [i for i in pos if self.ndecl <= i < len(b.l)]
            i = r.choice(pos)
            x = make()
            b.l = list(b.l); b.l[i:i] = x
        for _ in range(r.randrange(1, 4)):
            n = 'l%d' % len(names); names.append(n)
            place(lambda: [lbl(n)] + ([self.mark()] if r.random() < .8 else [nop()]))
        def jump():
            g = goto(r.choice(names))
            t = r.random()
            guard = bin('>', inc('--', var('gb'), 1), num(0))
            if t < .35: return [if_(guard, g)]
            if t < .6: return [if_(guard, blk(self.mark(), g))]
            if t < .8: return [if_(bin('&&', self.simple(), guard), g, self.mark() if r.random() < .5 else None)]
            return [if_(bin('<=', inc('--', var('gb'), 0), num(0)), self.ret(), g)]
        for _ in range(r.randrange(2, 6)): place(jump)
    def body(self, d, c):
        return blk(*self.stmts(d, c)) if self.r.random() < .85 else self.stmt(d, c)
    def leave(self, c):
        """break, continue or return"""
        r = self.r
        o = ['ret']
        if c['loop'] and not c['sw']: o += ['brk', 'brk', 'cnt', 'cnt']
        if c['sw'] and 'exeswitch' in self.ft: o += ['brk', 'brk'] + (['cnt'] if c['loop'] else [])
        if c['sw'] and 'exeswitch' not in self.ft: return self.mark()
        k = r.choice(o)
        return brk() if k == 'brk' else cnt() if k == 'cnt' else self.ret()
    def stmt(self, d, c):
        r = self.r
        self.left -= 1
        t = r.random()
        if d <= 0 or t < .22: return self.mark()
        if t < .30: return ex(emit(self.val()))
        if t < .38: return ex(asg(r.choice(['=', '+', '-', '^']), var(r.choice(self.vars)), bin('&', self.val(), num(7))))
        if t < .44 and self.j + 1 < self.nfun:
            k = r.randrange(self.j + 1, self.nfun)
            return ex(self.callto(k) if self.voids[k] else emit(self.callto(k)))
        if t < .50: return if_(self.cond(), self.leave(c)) if r.random() < .8 else self.leave(c)
        if t < .64:
            n = r.randrange(1, 4)
            e = None
            if r.random() < .6: e = self.body(d - 1, c)
            for _ in range(n): e = if_(self.cond(), self.body(d - 1, c), e)
            return e
        if t < .67: return blk(*self.stmts(d - 1, c))
        if t < .69: return nop()
        if 'switch' in self.ft and t < .82: return self.switch(d, c)
        return self.loop(d, c)
    def loop(self, d, c):
        r = self.r
        self.nl += 1
        i = 'i%d' % self.nl
        self.decls.append(i)
        n = r.randrange(1, 4)
        start = ex(asg('=', var(i), num(0)))
        c2 = dict(loop=c['loop'] + 1, sw=False)
        kind = r.choice(['wh', 'wh2', 'do', 'do2', 'for', 'for', 'forever', 'whever'])
        self.loops.append(i)
        step = ex(inc('++', var(i), r.random() < .5))
        lt = bin('<', var(i), num(n))
        if kind == 'wh': s = blk(start, wh(lt, blk(step, *self.stmts(d - 1, c2))))
        elif kind == 'wh2': s = blk(start, wh(bin('<', inc('++', var(i), 1), num(n)), self.body(d - 1, c2)))
        elif kind == 'do': s = blk(start, do(blk(step, *self.stmts(d - 1, c2)), bin('&&', lt, self.cond()) if r.random() < .3 else lt))
        elif kind == 'do2': s = blk(start, do(self.body(d - 1, c2), bin('<', inc('++', var(i), 0), num(n))))
        elif kind == 'for':
            a = asg('=', var(i), num(0)); b = lt; e = inc('++', var(i), r.random() < .5)
            b2 = self.body(d - 1, c2)
            pre = []
            if r.random() < .25: pre, a = [ex(a)], None
            s = for_(a, b, e, b2)
            if pre: s = blk(pre[0], s)
        elif kind == 'forever':
            # for (;; step): left by the guard at the start of the body
            e = inc('++', var(i), 1)
            guard = if_(bin('>=', var(i), num(n)), brk() if r.random() < .8 else self.ret())
            s = for_(asg('=', var(i), num(0)) if r.random() < .5 else None, None, e, blk(guard, *self.stmts(d - 1, c2)))
            s = blk(start, s)
        else:
            guard = if_(bin('>', inc('++', var(i), 0), num(n)), brk() if r.random() < .8 else self.ret())
            s = blk(start, wh(num(1), blk(guard, *self.stmts(d - 1, c2))))
        self.loops.pop()
        return s
    def switch(self, d, c):
        r = self.r
        exe = 'exeswitch' in self.ft
        sel = r.choice([bin('&', self.val(), num(r.choice([3, 7]))), self.val(), bin('-', bin('&', self.val(), num(3)), num(2)), self.val()])
        labels = r.sample([0, 1, 2, 3, 4, 5, 6, 7, -1, -2], r.randrange(1, 6))
        if r.random() < .15: labels += r.sample([65, 97, 32, 10, 92, 39], 2)
        groups = []
        while labels:
            n = r.randrange(1, 3)
            groups.append(labels[:n]); labels = labels[n:]
        l = []
        hasdef = r.random() < .7
        defpos = r.randrange(0, len(groups) + 1) if hasdef else -1
        c2 = dict(loop=c['loop'], sw=True)
        def clause(labs):
            l.extend(labs)
            inner = c2
            body = self.stmts(d - 1, c2) if r.random() < .9 else []
            if body and body[0].k in ('dec', 'darr'): body.insert(0, nop())
            if not exe:
                # a case must end with break or return in the shell backend; whole if/else may end it too
                t = r.random()
                if t < .12 and not c.get('nosubret'): end = [self.ret()]
                elif t < .25: end = [if_(self.cond(), blk(self.mark(), brk()), blk(self.mark(), brk()))]
                else: end = [brk()]
                l.extend(body + end)
            else:
                l.extend(body)
                if r.random() < .6: l.append(self.leave(c2))
            if not exe and not body and not end: l.append(brk())
        for gi, g in enumerate(groups):
            if gi == defpos: clause([dflt()])
            labs = [case(v, self.casetext(v)) for v in g]
            if gi == len(groups) - 1 and defpos == -2: labs.append(dflt())
            clause(labs)
        if defpos == len(groups): clause([dflt()])
        if l and l[-1].k in ('case', 'dflt'): l.append(nop())
        return sw(sel, blk(*l))
    def casetext(self, v):
        if self.r.random() < .5 and (32 <= v < 127 or v == 10): return lit(v, 'c')
        if self.r.random() < .1: return '(%d)' % v
        return '-%d' % -v if v < 0 else str(v)
    # -- whole program --------------------------------------------------------
    def prog(self, tag, args=range(8)):
        r = self.r
        self.fparams = [None] * self.nfun
        fs = [None] * self.nfun
        self.voids = [True] * self.nfun
        for j in range(self.nfun - 1, -1, -1):
            fs[j] = self.function(j)
            self.fparams[j] = fs[j].params
            if j: self.size = max(5, self.size)
        calls = []
        for a in args:
            x = call('fa', num(a), *[num(r.randrange(0, 4)) for _ in fs[0].params[1:]])
            calls.append(ex(x if self.voids[0] else emit(x)))
        t = Func('t', [], blk(*calls))
        return Prog([t] + fs, [], [], tag)
