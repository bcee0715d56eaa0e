#!/usr/bin/env python3
"""P15: data layout of the native backends.  Layout.tla executes generated programs over objects of generated
structure, union, array and pointer types; the compiled programs must show the same sizes, distances and values."""
import itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, uses

CFG = ('SPECIFICATION Spec\nINVARIANT MembersApart\nINVARIANT SizesKept\nINVARIANT Report\nPROPERTY OwnBytes\n')
EXV = ['i386', 'x64', 'i386rel', 'x64rel', 'i386safe', 'x64safe']
INTS = [('sc', 1, 1, ['char', 'signed char']), ('uc', 1, 0, ['unsigned char']), ('ss', 2, 1, ['short']), ('us', 2, 0, ['unsigned short']),
        ('si', 4, 1, ['int']), ('ui', 4, 0, ['unsigned int', 'unsigned']), ('sl', 8, 1, ['long long'])]

class Prog(uses.Use):
    """one case; word: size of a pointer"""
    exe = True
    def __init__(self, num, r, word):
        super().__init__(num)
        self.r, self.word = r, word
        self.types, self.ct = [], []          # types of the specification; how C names them
        self.defs, self.objs, self.prog = [], [], []
        self.lines = []                       # (indices of the statements, text); dropped when these have no effect
        self.mem = 0
        for n, w, s, c in INTS[:7 if word == 8 else 6]: self.types.append(dict(k='int', w=w, s=s)); self.ct.append(r.choice(c))
        self.nint = len(self.types)
        self.names = []                       # per object
        self.scope = []                       # visible objects
        self.ptrs = []                        # places of pointers that were set: (o, s, to)
        self.indent = '  '
    def runs(self, v, s): return super().runs(v, s) and v.startswith('x64' if self.word == 8 else 'i386')
    # types
    def add(self, t, c):
        self.types.append(t); self.ct.append(c); return len(self.types)
    def T(self, t): return self.types[t - 1]
    def arr(self, of, n): return self.add(dict(k='arr', of=of, n=n), None)
    def ptr(self, to): return self.add(dict(k='ptr', to=to), None)
    def decl(self, t, name):
        x = self.T(t)
        if x['k'] == 'arr': return self.decl(x['of'], '%s[%d]' % (name, x['n']))
        if x['k'] == 'ptr':
            if x['to'] == 0: return 'void *' + name
            if self.T(x['to'])['k'] == 'arr': return self.decl(x['to'], '(*%s)' % name)
            return self.decl(x['to'], '*' + name)
        return self.ct[t - 1] + (' ' + name if name else '')
    def struct(self, k, ms, how):
        """ms: [(name or '', type)]; how: tag, typedef, inline"""
        body = '{ ' + ' '.join(self.decl(t, n) + ';' for n, t in ms) + ' }'
        kw = dict(str='struct', uni='union')[k]
        i = len(self.types) + 1
        n = 'S%d_%d' % (self.num, i)
        if how == 'tag': self.defs.append('%s %s %s;\n' % (kw, n, body)); c = '%s %s' % (kw, n)
        elif how == 'typedef': self.defs.append('typedef %s %s %s;\n' % (kw, body, n)); c = n
        else: c = '%s %s' % (kw, body)
        return self.add(dict(k=k, ms=[dict(n=a, t=t) for a, t in ms]), c)
    def fresh(self):
        self.mem += 1; return 'm%d' % self.mem
    def rtype(self, d, inner=False):
        r = self.r; u = r.random()
        if d <= 0 or u < .3: return r.randrange(self.nint) + 1
        if u < .4:
            return self.ptr(r.choice([r.randrange(min(6, self.nint)) + 1] * 2 + [i + 1 for i, x in enumerate(self.types) if self.named(i + 1)][-3:]))
        if u < .62: return self.arr(self.rtype(d - 1, inner), r.choice([1, 2, 2, 3, 3, 5]))
        return self.rstruct(d, inner)
    def rstruct(self, d, inner=False):
        r = self.r
        ms = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
            if d > 1 and r.random() < .18:
                t = self.rstruct(d - 1, 'anon'); ms.append(('', t))
            else: t = self.rtype(d - 1, True); ms.append((self.fresh(), t))
        k = 'uni' if r.random() < .25 else 'str'
        return self.struct(k, ms, 'inline' if inner == 'anon' else r.choice(['tag', 'typedef', 'inline'] if inner else ['tag', 'tag', 'typedef']))
    def named(self, t):
        x = self.T(t)
        if x['k'] == 'int': return False
        return x['k'] in ('str', 'uni') and not self.ct[t - 1].endswith('}')
    # places
    def obj(self, t, kind):
        self.objs.append(dict(t=t, zero=kind in ('global', 'static')))
        o = len(self.objs); self.names.append('o%d_%d' % (self.num, o)); self.scope.append(o)
        return o
    def mlist(self, t):
        """members reachable by name: (name, type)"""
        for m in self.T(t)['ms']:
            if m['n']: yield m['n'], m['t']
            else: yield from self.mlist(m['t'])
    def place(self, want, objs=None, deref=True):
        """a random place whose type satisfies want: (place, type)"""
        r = self.r
        if not (objs or self.scope): return None, 0
        for _ in range(40):
            p = [q for q in self.ptrs if q[0] in self.scope] if deref else []
            s = []
            if p and r.random() < .3:
                o, s0, to = r.choice(p)
                if to == 0: continue
                s = list(s0) + [dict(k='d', t=to, i=r.choice([0, 0, 0, 1]))]; t = to
            else:
                o = r.choice(objs or self.scope); t = self.objs[o - 1]['t']
            while True:
                x = self.T(t)
                if want(t, x) and (x['k'] in ('int', 'ptr') or r.random() < .5): return dict(o=o, s=s), t
                if x['k'] == 'arr': s = s + [dict(k='i', i=r.randrange(x['n']))]; t = x['of']
                elif x['k'] in ('str', 'uni'): n, t = r.choice(list(self.mlist(t))); s = s + [dict(k='m', n=n)]
                else: break
        return None, 0
    def c(self, p, want='unary'):
        """text of a place: an operand of a unary ('unary') or postfix ('post') operator"""
        r = self.r
        x = self.names[p['o'] - 1]; post = True
        def par(): return x if post else '(' + x + ')'
        s = p['s']; i = 0
        while i < len(s):
            e = s[i]
            if e['k'] == 'm': x = par() + '.' + e['n']; post = True
            elif e['k'] == 'i':
                if r.random() < .8: x = '%s[%s]' % (par(), r.choice(['%d', '%d', 'i + %d']) % e['i']); post = True
                elif e['i'] == 0 and r.random() < .5: x = '*' + x; post = False
                else: x = '*(%s + %d)' % (x, e['i']); post = False
            else:
                nx = s[i + 1]['k'] if i + 1 < len(s) else ''
                if nx == 'm' and r.random() < .7:
                    x = (par() if e['i'] == 0 else '(%s + %d)' % (x, e['i'])) + '->' + s[i + 1]['n']; post = True; i += 1
                elif e['i'] == 0 and r.random() < .6: x = '*' + x; post = False
                else: x = '%s[%d]' % (par(), e['i']); post = True
            i += 1
        return x if post or want == 'unary' else '(' + x + ')'
    def ref(self, q):
        """text of the address of a place"""
        r = self.r; e = q['s'][-1] if q['s'] else dict(k='')
        b = dict(o=q['o'], s=q['s'][:-1])
        if e['k'] == 'i' and r.random() < .5:      # an array is the address of its first element
            return self.c(b) if e['i'] == 0 else '%s + %d' % (self.c(b), e['i'])
        if e['k'] == 'd' and r.random() < .5: return self.c(b) + (' + %d' % e['i'] if e['i'] else '')
        return '&' + self.c(q)
    # statements
    def st(self, s, text):
        self.prog.append(s); self.lines.append(([len(self.prog)], self.indent + text + '\n'))
    def raw(self, text): self.lines.append(([], text))
    def val(self):
        r = self.r
        return r.choice([0, 1, -1, 5, 100, 127, 128, -128, 200, 255, 256, 258, 1000, 32767, -32768, 65535, 70000, -70000, 16909060, 2147483647, -2147483647, r.randrange(-2**31 + 1, 2**31)])
    def get(self, p): self.st(dict(t='get', p=p), 'h(%s);' % self.c(p))
    def set(self, p, v): self.st(dict(t='set', p=p, v=v), '%s = %d;' % (self.c(p), v))
    def setptr(self, p, t):
        to = self.T(t)['to']
        q, _ = self.place(lambda t, x: t == to)
        if not q: return
        self.st(dict(t='addr', p=p, q=q), '%s = %s;' % (self.c(p), self.ref(q)))
        if len(p['s']) < 5 and not any(e['k'] == 'd' for e in p['s']) and (p['o'], p['s'], to) not in self.ptrs: self.ptrs.append((p['o'], p['s'], to))
    def leaves(self, o, t, s=()):
        x = self.T(t)
        if x['k'] in ('int', 'ptr'): yield dict(o=o, s=list(s)), t
        elif x['k'] == 'arr':
            for i in range(x['n']): yield from self.leaves(o, x['of'], list(s) + [dict(k='i', i=i)])
        elif x['k'] == 'str':
            for n, m in self.mlist(t): yield from self.leaves(o, m, list(s) + [dict(k='m', n=n)])
        else: n, m = self.r.choice(list(self.mlist(t))); yield from self.leaves(o, m, list(s) + [dict(k='m', n=n)])
    def step(self):
        r = self.r; u = r.random()
        INT = lambda t, x: x['k'] == 'int'
        if u < .33:
            p, t = self.place(INT)
            if p: self.get(p)
        elif u < .62:
            p, t = self.place(INT)
            if p: self.set(p, self.val())
        elif u < .72:
            p, t = self.place(lambda t, x: x['k'] == 'ptr')
            if p: self.setptr(p, t)
        elif u < .84:
            q, t = self.place(lambda t, x: x['k'] != 'arr')
            if q:
                p, _ = self.place(lambda t2, x: t2 == t)
                if p: self.st(dict(t='copy', p=p, q=q), '%s = %s;' % (self.c(p), self.c(q)))
        elif u < .88:
            p, t = self.place(lambda t, x: x['k'] == 'ptr')
            if p:
                q, _ = self.place(lambda t2, x: t2 == self.T(t)['to'])
                if q: self.st(dict(t='is', p=p, q=q), r.choice(['q(%s == %s);', 'q(!(%s != %s));', 'if (%s == %s) q(1); else q(0);']) % (self.c(p), self.ref(q)))
        elif u < .93:
            p, t = self.place(lambda t, x: True, deref=False)
            if p:
                v = r.random()
                if v < .5: s = 'q(sizeof(%s));' % self.c(p)
                else:
                    b = self.decl(t, '') if self.T(t)['k'] in ('int',) or self.named(t) else None
                    s = 'q(sizeof(%s));' % b if b else 'q(sizeof %s);' % self.c(p)
                self.st(dict(t='size', ty=t), s)
        elif u < .96:
            p, t = self.place(lambda t, x: x['k'] == 'arr')
            if p:
                x = self.T(t); i, j = sorted([r.randrange(x['n']), r.randrange(x['n'])])
                P = [dict(o=p['o'], s=p['s'] + [dict(k='i', i=k)]) for k in (j, i)]
                self.st(dict(t='dist', p=P[0], q=P[1], u=x['of']), 'q(&%s - &%s);' % (self.c(P[0]), self.c(P[1])))
        else:
            o = r.choice(self.scope)
            p, t = self.place(lambda t, x: True, [o], False); q, t2 = self.place(lambda t, x: True, [o], False)
            if p and q: self.st(dict(t='dist', p=p, q=q, u=0), 'q((int)((char *)&%s - (char *)&%s));' % (self.c(p), self.c(q)))
    def dump(self, objs=None):
        for o in objs or self.scope:
            for p, t in itertools.islice(self.leaves(o, self.objs[o - 1]['t']), 14):
                if self.T(t)['k'] == 'int': self.get(p)
    # initializers
    def init(self, t, const, d=3):
        """(initializer, text) or None"""
        r = self.r; x = self.T(t)
        if x['k'] == 'int':
            v = self.val()
            if r.random() < .1: return dict(k='list', e=[dict(k='num', v=v)]), '{ %d }' % v
            return dict(k='num', v=v), str(v)
        if x['k'] == 'ptr':
            objs = [o for o in self.scope if o in self.globals_ or not const]
            q, _ = self.place(lambda t2, y: t2 == x['to'], objs, False) if objs and r.random() < .7 else (None, 0)
            if not q or const: return dict(k='num', v=0), '0'
            return dict(k='addr', p=q), self.ref(q)
        if x['k'] == 'arr':
            if self.ct[x['of'] - 1] == 'char' and r.random() < .6:
                n = r.randrange(x['n'] + 1); v = [r.choice([97, 98, 122, 48, 65]) for _ in range(n)]
                return dict(k='chars', v=v), '"%s"' % ''.join(map(chr, v))
            n = r.choice([x['n']] * 3 + list(range(1, x['n'] + 1)))
            l = [self.init(x['of'], const, d - 1) for _ in range(n)]
            if None in l: return None
            return dict(k='list', e=[a for a, _ in l]), '{ %s }' % ', '.join(b for _, b in l)
        if not const and r.random() < .35:
            q, _ = self.place(lambda t2, y: t2 == t, None, False)
            if q: return dict(k='copy', p=q), self.c(q)
        ms = x['ms'] if x['k'] == 'str' else x['ms'][:1]
        n = r.choice([len(ms)] * 3 + list(range(1, len(ms) + 1)))
        l = [self.init(m['t'], const, d - 1) for m in ms[:n]]
        if None in l: return None
        return dict(k='list', e=[a for a, _ in l]), '{ %s }' % ', '.join(b for _, b in l)
    def declare(self, t, kind, allow_init=True):
        """declares an object here (local, static) or at file scope"""
        r = self.r
        const = kind in ('global', 'static')
        x = self.init(t, const) if allow_init and r.random() < .6 else None
        if x and not const and any(True for _ in ()): x = None
        o = self.obj(t, kind)
        d = self.decl(t, self.names[o - 1])
        if kind == 'static': d = 'static ' + d
        if kind == 'global': self.globals_.add(o)
        if x:
            self.prog.append(dict(t='init', o=o, x=x[0]))
            n = len(self.prog)
            if kind == 'global': self.defs.append('%s = %s;\n' % (d, x[1]))
            else: self.lines.append(([-n], (self.indent + d + ' = ' + x[1] + ';\n', self.indent + d + ';\n')))
        else:
            if kind == 'global': self.defs.append(d + ';\n')
            else: self.raw(self.indent + d + ';\n')
        return o, bool(x)
    globals_ = frozenset(); indent0 = '  '
    def finish(self, res):
        """res: output per statement"""
        out = []
        for i, x in enumerate(res):
            if x != [-1]: out += x
        bad = {i + 1 for i, x in enumerate(res) if x == [-1]}
        self.out = out
        b = ''
        self.conflict = False
        for ids, t in self.lines:
            if ids and ids[0] < 0: b += t[1] if -ids[0] in bad else t[0]
            else:
                k = [i in bad for i in ids]
                if any(k) and not all(k): self.conflict = True
                if not (ids and all(k)): b += t
        self.glob = ''.join(self.defs) + getattr(self, 'funs', '')
        self.body = self.indent0 + 'dirty();\n' + b
        self.what = 'P15: ' + (self.glob + self.body)[-700:]

def rand(p):
    r = p.r
    p.globals_ = set()
    ts = []
    for _ in range(r.choice([1, 2, 2, 3])):
        t = p.rstruct(3) if r.random() < .8 else p.arr(p.rtype(2), r.choice([2, 3]))
        ts.append(t)
    if r.random() < .5: ts.append(p.arr(r.choice([t for t in ts]), 2))
    for t in [i + 1 for i in range(len(p.types))]:
        if p.named(t) and r.random() < .3: ts.append(p.ptr(t))
        if p.T(t)['k'] == 'arr' and p.T(p.T(t)['of'])['k'] == 'arr' and r.random() < .5: ts.append(p.ptr(p.T(t)['of']))
    if r.random() < .4: ts.append(p.arr(1, r.choice([2, 4, 6])))
    ts.append(r.randrange(p.nint) + 1)
    ts.append(p.ptr(r.randrange(6) + 1))
    kinds = ['global', 'local', 'static']
    todo = [(r.choice(ts), r.choice(kinds)) for _ in range(r.choice([2, 3, 4, 5]))]
    # file scope first
    for t, k in todo:
        if k == 'global': p.declare(t, k)
    new = []
    for t, k in todo:
        if k != 'global': new.append(p.declare(t, k))
    for o, i in new:
        if not i and not p.objs[o - 1]['zero']:
            for q, t in p.leaves(o, p.objs[o - 1]['t']):
                if p.T(t)['k'] == 'int': p.set(q, p.val())
                else: p.setptr(q, t)
    if r.random() < .5: p.dump()
    n = r.choice([6, 12, 20])
    for k in range(n):
        p.step()
        u = r.random()
        if u < .07:        # a block with objects of its own
            p.raw(p.indent + '{\n'); save = list(p.scope); p.indent += '  '
            l = [p.declare(r.choice(ts), r.choice(['local', 'local', 'static'])) for _ in range(r.choice([1, 2]))]
            for o, i in l:
                if not i:
                    for q, t in p.leaves(o, p.objs[o - 1]['t']):
                        if p.T(t)['k'] == 'int': p.set(q, p.val())
            for _ in range(r.choice([2, 5, 8])): p.step()
            if r.random() < .5: p.dump([o for o, _ in l])
            for o, _ in l: p.prog.append(dict(t='end', o=o))
            p.scope = save; p.ptrs = [x for x in p.ptrs if x[0] in save]
            p.indent = p.indent[2:]; p.raw(p.indent + '}\n')
        elif u < .14:      # a structure passed to a function
            q, t = p.place(lambda t, x: p.named(t), None, False)
            if not q: continue
            save, lines, ind = list(p.scope), p.lines, p.indent
            f = 'f%d_%d' % (p.num, len(p.objs))
            src = p.c(q)
            o = p.obj(t, 'local')
            p.prog.append(dict(t='init', o=o, x=dict(k='copy', p=q)))
            p.lines = []; p.indent = '  '
            p.scope = [x for x in save if x in p.globals_] + [o]
            two = r.random() < .5
            head = 'void %s(%s%s%s) {\n' % (f, 'int i, ' if True else '', p.decl(t, p.names[o - 1]), ', int z' if two else '')
            for _ in range(r.choice([2, 4, 7])): p.step()
            if r.random() < .6: p.dump([o])
            fl = p.lines
            p.prog.append(dict(t='end', o=o))
            p.lines = lines; p.scope = save; p.indent = ind
            p.ptrs = [x for x in p.ptrs if x[0] in save]
            p.pending = getattr(p, 'pending', []) + [(head, fl)]
            p.raw(p.indent + '%s(i, %s%s);\n' % (f, src, ', 77' if two else ''))
    p.dump()

class P2(Prog):
    def finish(self, res):
        main = self.lines
        funs = ''
        for head, fl in getattr(self, 'pending', []):
            self.lines = fl; Prog.finish(self, res); funs += head + self.body + '}\n'
        self.lines = main; self.funs = funs
        Prog.finish(self, res)

# every case starts on a stack whose bytes are not zero
DIRTY = 'void dirty(void) { int a[400]; int i; for (i = 0; i < 400; i += 1) a[i] = -1 - i; }\n'

def exhaustive(ctx, new):
    """all structures and unions of up to 3 members of a set of types: sizes, distances, and members that keep their values"""
    r = ctx.rng
    kinds = range(9)
    combos = [c for n in (1, 2, 3) for c in itertools.product(kinds, repeat=n)]
    for word in (4, 8):
        for k0 in range(0, len(combos), 12):
            p = new(word); p.globals_ = set()
            a3 = p.arr(1, 3); s1 = p.struct('str', [('x', 1), ('y', 3)], 'tag'); pt = p.ptr(1); s2 = p.struct('str', [('x', 1)] if word == 4 else [('x', 1), ('y', 7)], 'tag')
            u1 = p.struct('uni', [('x', 3), ('y', a3)], 'tag'); a2 = p.arr(s1, 2)
            pool = [1, 3, 5, a3, s1, pt, s2, u1, a2]
            for comb in combos[k0:k0 + 12]:
                k = 'uni' if r.random() < .2 else 'str'
                ms = [(p.fresh(), pool[x]) for x in comb]
                t = p.struct(k, ms, r.choice(['tag', 'typedef']))
                a = p.arr(t, 2)
                o, _ = p.declare(a, r.choice(['global', 'local', 'static']), False)
                E = lambda i, *s: dict(o=o, s=[dict(k='i', i=i)] + [dict(k='m', n=x) for x in s])
                p.st(dict(t='size', ty=t), 'q(sizeof(%s));' % p.ct[t - 1])
                for n, _ in ms: p.st(dict(t='dist', p=E(1, n), q=E(0), u=0), 'q((int)((char *)&%s - (char *)&%s));' % (p.c(E(1, n)), p.c(E(0))))
                if k == 'str':
                    for q, t2 in p.leaves(o, a):
                        if p.T(t2)['k'] == 'int': p.set(q, p.val())
                    for q, t2 in p.leaves(o, a):
                        if p.T(t2)['k'] == 'int': p.get(q)

def partial(ctx, new):
    """every partial initialization of small arrays, structures and their nestings, in every storage class"""
    r = ctx.rng
    for word in (4, 8):
        for kind in ('local', 'static', 'global'):
            p = new(word); p.globals_ = set()
            def check(t, x):
                const = kind != 'local'
                o = p.obj(t, kind)
                d = ('static ' if kind == 'static' else '') + p.decl(t, p.names[o - 1])
                if kind == 'global': p.globals_.add(o)
                p.prog.append(dict(t='init', o=o, x=x[0])); n = len(p.prog)
                if kind == 'global': p.defs.append('%s = %s;\n' % (d, x[1]))
                else: p.lines.append(([-n], ('  {\n  dirty();\n  ' + d + ' = ' + x[1] + ';\n', '  {\n  ' + d + ';\n')))
                for q, t2 in p.leaves(o, t):
                    if p.T(t2)['k'] == 'int': p.get(q)
                if kind != 'global': p.prog.append(dict(t='end', o=o)); p.raw('  }\n'); p.scope.remove(o)
            def chars(n): return dict(k='chars', v=[97 + i for i in range(n)]), '"%s"' % 'abcdefgh'[:n]
            def nums(n): return dict(k='list', e=[dict(k='num', v=5 + i) for i in range(n)]), '{ %s }' % ', '.join(str(5 + i) for i in range(n))
            def lst(l): return dict(k='list', e=[a for a, _ in l]), '{ %s }' % ', '.join(b for _, b in l)
            one = (dict(k='num', v=9), '9')
            for cap in range(1, 7):
                a = p.arr(1, cap); a2 = p.arr(a, 2)
                s = p.struct('str', [(p.fresh(), 3), (p.fresh(), a), (p.fresh(), 3)], 'tag')
                sa = p.arr(s, 2)
                u = p.struct('uni', [(p.fresh(), a), (p.fresh(), 3)], 'tag')
                for n in range(0, cap + 1):
                    x = chars(n)
                    check(a, x); check(a2, lst([x, chars(cap)])); check(a2, lst([x]))
                    check(s, lst([one, x])); check(s, lst([one, x, one])); check(sa, lst([lst([one, x])])); check(u, lst([x]))
            for e in range(1, p.nint + 1):
                for cap in range(1, 5):
                    a = p.arr(e, cap); s = p.struct('str', [(p.fresh(), 1), (p.fresh(), a), (p.fresh(), e), (p.fresh(), 1)], 'tag')
                    for n in range(1, cap + 1):
                        check(a, nums(n)); check(s, lst([one, nums(n)])); check(s, lst([one]))
                        check(p.arr(a, 2), lst([nums(n)]))

def main():
    ctx = pv.Ctx('P15')
    ctx.build(EXV)
    ps = []
    def new(word): p = P2(len(ps) + 1, ctx.rng, word); ps.append(p); return p
    exhaustive(ctx, new)
    partial(ctx, new)
    for k in range(ctx.budget(500, 5000)): rand(new(4 if k % 2 else 8))
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump([dict(word=p.word, types=p.types, objs=p.objs, prog=p.prog) for p in ps], open(f, 'w'))
    res, st = ctx.tlc_ok('Layout', CFG, env=dict(CASES_FILE=f), timeout=700)
    for x in res: ps[x['c'] - 1].res = x['o']
    for p in ps: p.finish(p.res)
    ctx.count('statements', sum(len(p.prog) for p in ps)); ctx.count('statements_dropped', sum(x == [-1] for p in ps for x in p.res))
    us = [p for p in ps if not p.conflict]
    for x in us[-1:-500:-170]: ctx.sample(dict(c=x.text(), out=x.out))
    b = uses.Batch(ctx, uses.HEAD + DIRTY + 'void h(int x) { q(x & 65535); q((x >> 16) & 65535); }\n')
    jobs = []
    for w, vs in ((4, EXV[::2]), (8, EXV[1::2])):
        l = [p for p in us if p.word == w]
        for n, k in enumerate(range(0, len(l), 20)):
            jobs += [(l[k:k + 20], v, None) for v in ([vs[0], vs[1 + n % 2]] if ctx.quick else vs)]
    ctx.pmap(b.batch, jobs)
    ctx.finish()
if __name__ == '__main__': main()
