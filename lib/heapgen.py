"""Programs that allocate, free, and access memory through pointers, arrays and members, and the
histories of micro-operations (see spec/Heap.tla) that they perform.  The mirror of the state kept here
only serves to generate legal programs; the expected observations are decided by the specification."""
import json, os, re
import pv

CFG = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Report\nPROPERTY Step\n'
FIELDS = {'S': [('a', 'int'), ('b', 'char'), ('n', 'S'), ('q', 'i'), ('d', 'c')],
          'T': [('x', 'int'), ('s', 'S'), ('t', 'T'), ('y', 'char'), ('z', 'int'), ('p', 'P')]}
ELEM = {'i': 'int', 'c': 'char', 'P': 'i'}
CT = {'i': 'int *', 'c': 'char *', 'S': 'struct S *', 'T': 'struct T *', 'P': 'int **', 'int': 'int ', 'char': 'char '}
DECLS = '''struct T;
struct S { int a; char b; struct S *n; int *q; char *d; };
struct T { int x; struct S *s; struct T *t; char y; int z; int **p; };
'''
FUNS_SH = '#include <stdio.h>\n#include <stdlib.h>\nvoid o(int x) { printf("%d ", x); }\n'
FUNS_EXE = '''#include <stdio.h>
#include <stdlib.h>
void pn(int n) { if (n > 9) pn(n / 10); putchar(48 + n % 10); }
void o(int n) { if (n < 0) { putchar(45); n = -n; } pn(n); putchar(32); }
'''
FUNS = '''void puti(int *p, int k, int v) { p[k] = v; }
void putc_(char *p, int k, int v) { *(p + k) = v; }
int geti(int *p, int k) { int *q = p + k; return *q; }
int getc_(char *p, int k) { return p[k]; }
int *idi(int *p) { return p; }
struct S *ids(struct S *s) { return s; }
void swapi(int *p, int *q) { int t = *p; *p = *q; *q = t; }
void filli(int *p, int n, int v) { while (n > 0) { *p++ = v; v = v + 1; n = n - 1; } }
int sumc(char *p, int n) { int s = 0; char *e = p + n; while (p != e) { s = s + *p; p++; } return s; }
'''

class Illegal(Exception): pass
U = ['u']; NULL = ['0']
def I(n): return ['i', n]
def V(n): return ['v', n]

class Mirror:
    def __init__(self): self.vars, self.objs = {}, []
    def val(self, a): return self.vars.get(a[1], U) if a[0] == 'v' else a
    def live(self, x): return x[0] == 'p' and self.objs[x[1] - 1]['alive']
    def do(self, o):
        A, B, K = self.val(o['a']), self.val(o['b']), self.val(o['k']); x = o['o']
        if x == 'new':
            z = {'zero': I(0), 'null': NULL}.get(o['f'], U)
            self.objs.append(dict(alive=True, cells=[z] * K[1])); self.vars[o['d']] = ['p', len(self.objs), 0]
        elif x == 'free':
            if not self.live(A) or A[2] != 0: raise Illegal
            self.objs[A[1] - 1]['alive'] = False
        elif x == 'mov':
            if A == U: raise Illegal
            self.vars[o['d']] = A
        elif x == 'add':
            if not self.live(A) or not 0 <= A[2] + K[1] <= len(self.objs[A[1] - 1]['cells']): raise Illegal
            self.vars[o['d']] = ['p', A[1], A[2] + K[1]]
        elif x in ('ld', 'st'):
            if not self.live(A) or not 0 <= A[2] + K[1] < len(self.objs[A[1] - 1]['cells']): raise Illegal
            c = self.objs[A[1] - 1]['cells']
            if x == 'st':
                if B == U: raise Illegal
                c[A[2] + K[1]] = B
            else:
                if c[A[2] + K[1]] == U: raise Illegal
                self.vars[o['d']] = c[A[2] + K[1]]
        elif x == 'op':
            if A[0] != 'i' or B[0] != 'i': raise Illegal
            f = o['f']; v = {'+': A[1] + B[1], '-': A[1] - B[1], '*': A[1] * B[1]}[f] if f in '+-*' else {'&': A[1] & B[1], '|': A[1] | B[1], '^': A[1] ^ B[1]}[f]
            if abs(v) > 2 ** 31 - 1: raise Illegal
            self.vars[o['d']] = I(v)
        elif x == 'out':
            if A[0] != 'i': raise Illegal

def op(o, d='', a=U, b=U, k=U, f=''): return dict(o=o, d=d, a=a, b=b, k=k, f=f, v=0)
OUTS = ('out', 'cmp', 'diff')

class Gen:
    """A random program: body is the list of its statements, ops what they do"""
    def __init__(self, r, exe, n, nobj=10, zero=True):
        self.r, self.exe, self.zero = r, exe, zero
        self.m = Mirror()
        self.body, self.ops, self.globs = [], [], []
        self.roots = []            # (name, type, count) by object
        self.nobj = nobj
        self.nt = 0
        self.local = r.random() < .4
        self.pv = {}
        for t, names in (('i', ['p', 'q', 'u']), ('c', ['c', 'd']), ('S', ['s', 'n', 'a']), ('T', ['t']), ('P', ['w'])):
            for v in names: self.pv[v] = t
        self.iv = ['x', 'y', 'z']
        for i, v in enumerate(self.iv): self.emit('%s = %d;' % (v, i), [op('mov', v, I(i))])
        for t, k in (('i', r.choice([3, 5])), ('c', r.choice([2, 6])), ('P', 3)):
            if r.random() < .7: self.array(t, k)
            if r.random() < .4: self.array(t, r.choice([1, 2, 4]), 'h' + t)
        for v, t in self.pv.items():
            if v not in getattr(self, 'fixed', ()) and (t in 'icST' and r.random() < .5 or t in 'iS'): self.new(v)
        fails = 0
        while len(self.body) < n and fails < 400:
            if not self.step(): fails += 1
        self.dump(1.0)
    def tmp(self):
        self.nt += 1
        return '%%%d' % self.nt
    def emit(self, text, ops):
        """perform the operations on the mirror; on failure nothing is emitted"""
        import copy
        save = copy.deepcopy((self.m.vars, self.m.objs))
        try:
            for o in ops: self.m.do(o)
        except (Illegal, IndexError):
            self.m.vars, self.m.objs = save
            return False
        for k in [k for k in self.m.vars if k[0] == '%']: del self.m.vars[k]
        self.body.append(text); self.ops += ops
        # temporaries are forgotten
        return True
    # ---- objects
    def root(self, t, count):
        name = 'r%d' % (len(self.roots) + 1)
        self.roots.append((name, t, count)); self.globs.append('%s%s;' % (CT[t], name))
        return name
    def array(self, t, k, name=None):
        name = name or 'g' + t
        r = self.r
        g = {'i': 'int %s[%d]', 'c': 'char %s[%d]', 'P': 'int *%s[%d]'}[t] % (name, k)
        init = None
        if t != 'P' and r.random() < .5:
            # elements without a value of their own are zero
            n = r.choice([1, 1, 2, k, k, r.randrange(1, k + 1)]); n = min(n, k)
            if t == 'c' and r.random() < .5:
                init = [r.randrange(97, 123) for _ in range(min(n, k - 1))] + [0]
                g += ' = "%s"' % ''.join(map(chr, init[:-1]))
            else:
                init = [r.choice([0, 1, 7, 32, 65, 92, 126, 127] + ([1000, 65536, 2147483647] if t == 'i' else []) + ([-1, -300] if t == 'i' and self.exe else [])) for _ in range(n)]
                g += ' = {%s%s}' % (', '.join(map(str, init)), '')
            if len(init) == k and r.random() < .4: g = g.replace('[%d]' % k, '[]', 1)
        self.globs.append(g + ';')
        rt = self.root(t, k)
        self.emit('%s = %s;' % (rt, name), [op('new', name, k=I(k), f='undef' if not (self.zero or init) else 'null' if t == 'P' else 'zero')]
                  + [op('st', a=V(name), k=I(i), b=I(v)) for i, v in enumerate(init or [])] + [op('mov', rt, V(name))])
        self.pv[name] = t; self.fixed = getattr(self, 'fixed', set()) | {name}
    def cells(self, t, count): return count * len(FIELDS[t]) if t in FIELDS else count
    def new(self, v=None):
        r = self.r
        if len(self.roots) >= self.nobj: return False
        if v is None:
            lv = self.lvalue(ptr=True) if r.random() < .5 else None
            if lv is None: v = r.choice([x for x in self.pv if x not in getattr(self, 'fixed', ())])
        if v is not None: t = self.pv[v]
        else: t = lv['t']
        n = r.choice([1, 2, 3, 4, 7]) if t not in FIELDS else r.choice([1, 2, 3]) if self.exe else 1
        ty = {'i': 'int', 'c': 'char', 'P': 'int *', 'S': 'struct S', 'T': 'struct T'}[t]
        if t == 'c': sz = r.choice(['%d', '%d * sizeof(char)']) % n
        elif n == 1 and r.random() < .8: sz = 'sizeof(%s)' % ty
        else: sz = r.choice(['%d * sizeof(%s)' % (n, ty), 'sizeof(%s) * %d' % (ty, n), 'sizeof(%s) * (%d + 1)' % (ty, n - 1)])
        e = 'malloc(%s)' % sz
        if r.random() < .3: e = '(%s) %s' % (CT[t].strip(), e)
        tm = self.tmp()
        ops = [op('new', tm, k=I(self.cells(t, n)), f='undef')]
        if v is not None:
            text = '%s = %s;' % (v, e); ops.append(op('mov', v, V(tm)))
            back = v
        else:
            text = '%s = %s;' % (lv['x'], e); ops = lv['ops'] + ops + [op('st', a=lv['a'], k=lv['k'], b=V(tm))]
            back = lv['x']
        rt = self.root(t, n)
        # the assignment may change what its left hand side designates: it isn't evaluated again
        if r.random() < .3 or v is None: text = '%s = %s' % (rt, text) if r.random() < .6 else '%s = %s; %s = %s;' % (rt, e, back, rt)
        else: text = text + ' %s = %s;' % (rt, back)
        ops.append(op('mov', rt, V(tm)))
        if not self.emit(text, ops): self.roots.pop(); self.globs.pop(); return False
        return True
    # ---- expressions
    def index(self, want):
        """(text, operand, ops) of an integer expression with the given value"""
        r = self.r; t = r.random()
        if t < .5: return str(want) if want >= 0 else '-%d' % -want, I(want), []
        v = r.choice(self.iv); x = self.m.vars[v][1]
        if x == want and t < .9: return v, V(v), []
        d = want - x
        if abs(d) > 1000: return str(want) if want >= 0 else '-%d' % -want, I(want), []
        tm = self.tmp()
        return ('%s + %d' % (v, d) if d >= 0 else '%s - %d' % (v, -d)), V(tm), [op('op', tm, V(v), I(abs(d)), f='+' if d >= 0 else '-')]
    def ptr(self, depth=2, types=None):
        """a live pointer expression: dict(x text, p precedence, a operand, ops, t type, v value)"""
        r = self.r
        vs = [v for v, t in self.pv.items() if self.m.live(self.m.vars.get(v, U))]
        if not vs: return None
        v = r.choice(vs)
        cur = dict(x=v, p=15, a=V(v), ops=[], t=self.pv[v], v=self.m.vars[v])
        for _ in range(r.randrange(0, depth + 2)):
            c = self.elem(cur, want=lambda et, val: et in CT and et not in ('int', 'char') and self.m.live(val))
            if c is None: break
            tm = self.tmp()
            cur = dict(x=c['x'], p=c['p'], a=V(tm), ops=c['ops'] + [op('ld', tm, c['a'], k=c['k'])], t=c['t'], v=c['val'])
            if types and cur['t'] in types and r.random() < .6: break
        if types and cur['t'] not in types: return None
        # p + k, &p[k]
        k = len(self.m.objs[cur['v'][1] - 1]['cells']); i = cur['v'][2]
        w = len(FIELDS[cur['t']]) if cur['t'] in FIELDS else 1
        if r.random() < .3 and (w == 1 or self.exe):
            j = r.randrange(0, k // w + 1) * w if i % w == 0 else i
            x, ko, ops = self.index((j - i) // w)
            if w > 1:
                tm0 = self.tmp(); ops = ops + [op('op', tm0, ko, I(w), f='*')]; ko = V(tm0)
            tm = self.tmp()
            style = r.random()
            if style < .5: txt, p = self.par(cur, 12) + ' + ' + ('(%s)' % x if x[0] == '-' or ' ' in x else x), 12
            elif style < .75: txt, p = '&%s[%s]' % (self.par(cur, 15), x), 14
            else: txt, p = self.par(cur, 12) + ' - ' + '(%s)' % ('0 - (%s)' % x), 12
            cur = dict(x=txt, p=p, a=V(tm), ops=cur['ops'] + ops + [op('add', tm, cur['a'], k=ko)], t=cur['t'], v=['p', cur['v'][1], j])
        elif r.random() < .06 and cur['t'] == 'i': cur = dict(cur, x='idi(%s)' % cur['x'], p=15)
        elif r.random() < .06 and cur['t'] == 'S': cur = dict(cur, x='ids(%s)' % cur['x'], p=15)
        return cur
    def par(self, e, p): return e['x'] if e['p'] >= p else '(' + e['x'] + ')'
    def elem(self, cur, want=lambda t, v: True):
        """an element or member designated through the pointer cur, satisfying want"""
        r = self.r
        o = self.m.objs[cur['v'][1] - 1]['cells']; i = cur['v'][2]; t = cur['t']
        if t in FIELDS:
            F = FIELDS[t]; w = len(F)
            if i % w: return None
            c = [(j, f) for j in (range(0, len(o) // w) if self.exe else [i // w]) for f in range(w) if j * w + f < len(o) and want(F[f][1], o[j * w + f])]
            if not c: return None
            j, f = r.choice(c)
            fn, ft = F[f]
            if j * w == i:
                if self.exe and r.random() < .2: x = '(*%s).%s' % (self.par(cur, 14), fn)
                else: x = '%s->%s' % (self.par(cur, 15), fn)
                return dict(x=x, p=15, a=cur['a'], k=I(f), ops=cur['ops'], t=ft, val=o[i + f])
            x, ko, ops = self.index(j - i // w)
            tm, tm2 = self.tmp(), self.tmp()
            x = r.choice([lambda: '%s[%s].%s' % (self.par(cur, 15), x, fn), lambda: '(%s + %s)->%s' % (self.par(cur, 12), '(%s)' % x, fn)])()
            return dict(x=x, p=15, a=cur['a'], k=V(tm2), ops=cur['ops'] + ops + [op('op', tm, ko, I(w), f='*'), op('op', tm2, V(tm), I(f), f='+')], t=ft, val=o[j * w + f])
        et = ELEM[t]
        c = [j for j in range(len(o)) if want(et, o[j])]
        if not c: return None
        j = r.choice(c) if not (i in c and r.random() < .4) else i
        x, ko, ops = self.index(j - i)
        s = r.random()
        if j == i and s < .5: x, p = '*' + self.par(cur, 14), 14
        elif s < .25: x, p = '*(%s + %s)' % (self.par(cur, 12), '(%s)' % x if x[0] == '-' else x), 14
        elif s < .3 and not self.exe and (x.isdigit() or x in self.iv): x, p = '%s[%s]' % (x, cur['x']), 15
        else: x, p = '%s[%s]' % (self.par(cur, 15), x), 15
        return dict(x=x, p=p, a=cur['a'], k=ko, ops=cur['ops'] + ops, t=et, val=o[j])
    def lvalue(self, ptr=False, init=False, types=None):
        for _ in range(12):
            e = self.ptr()
            if e is None: return None
            def want(t, v):
                if ptr != (t not in ('int', 'char')): return False
                if types and t not in types: return False
                if init and (v == U or (v[0] == 'p' and not self.m.live(v))): return False
                return True
            c = self.elem(e, want)
            if c: return c
        return None
    def intexp(self, char):
        r = self.r; t = r.random()
        if t < .35 or (char and t < .6):
            v = r.randrange(0, 128) if char or r.random() < .6 else r.choice([1000, 65535, -1, -7, 2147483647, -2147483647, 123456])
            return (str(v) if v >= 0 else '-%d' % -v), I(v), []
        if t < .6:
            v = r.choice(self.iv)
            if not char: return v, V(v), []
            tm = self.tmp(); return '%s & 127' % v, V(tm), [op('op', tm, V(v), I(127), f='&')]
        lv = self.lvalue(init=True, types=['char'] if char else None)
        if lv is None: return '3', I(3), []
        tm = self.tmp()
        return lv['x'], V(tm), lv['ops'] + [op('ld', tm, lv['a'], k=lv['k'])]
    # ---- statements
    def step(self):
        r = self.r
        t = r.random()
        if t < .10: return self.new()
        if t < .13: return self.free()
        if t < .24: return self.assign_ptr()
        if t < .44: return self.store()
        if t < .53: return self.rmw()
        if t < .62: return self.ptr_step()
        if t < .68: return self.walk_()
        if t < .84: return self.show()
        if t < .90: return self.callf()
        if t < .94: return self.setint()
        if t < .97: return self.dump(.5)
        return self.new()
    def free(self):
        c = [n for n, t, k in self.roots if self.m.live(self.m.vars[n]) and 'g' not in n]
        c = [n for n in c if not any(g in self.m.vars and self.m.vars[g] == self.m.vars[n] for g in getattr(self, 'fixed', ()))]
        if len(c) < 3: return False
        n = self.r.choice(c); same = [v for v, x in self.m.vars.items() if x == self.m.vars[n] and v[0] != '%']
        v = self.r.choice(same)
        return self.emit('free(%s);' % v, [op('free', a=V(v))])
    def assign_ptr(self):
        r = self.r
        if r.random() < .5:
            lv = self.lvalue(ptr=True)
            if lv is None: return False
            d, t = lv['x'], lv['t']
            put = lambda a: lv['ops'] + [op('st', a=lv['a'], k=lv['k'], b=a)]
        else:
            v = r.choice([x for x in self.pv if x not in getattr(self, 'fixed', ())]); d, t = v, self.pv[v]
            put = lambda a: [op('mov', v, a)]
        if r.random() < .12: return self.emit('%s = 0;' % d, put(NULL))
        for _ in range(10):
            e = self.ptr(types=[t])
            if e: break
        else: return False
        if r.random() < .12:
            v2 = r.choice([x for x in self.pv if self.pv[x] == t])
            if v2 not in getattr(self, 'fixed', ()) and v2 != d and v2 not in d and v2 not in e['x']:
                return self.emit('%s = %s = %s;' % (d, v2, e['x']), e['ops'] + put(e['a']) + [op('mov', v2, e['a'])])
        if r.random() < .08:
            x, k, ops = self.intexp(False)
            e2 = self.ptr(types=[t])
            if e2 and k[0] == 'i':
                c = e if k[1] else e2
                return self.emit('%s = %s ? %s : %s;' % (d, x, e['x'], e2['x']), c['ops'] + put(c['a'])) if '(' not in e['x'] + e2['x'] else False
        return self.emit('%s = %s;' % (d, e['x']), e['ops'] + put(e['a']))
    def store(self):
        lv = self.lvalue()
        if lv is None: return False
        x, a, ops = self.intexp(lv['t'] == 'char')
        st = [op('st', a=lv['a'], k=lv['k'], b=a)]
        if self.r.random() < .15:
            v = self.r.choice(self.iv)
            if v not in lv['x'] and v not in x: return self.emit('%s = %s = %s;' % (v, lv['x'], x), ops + lv['ops'] + st + [op('mov', v, a)])
        return self.emit('%s = %s;' % (lv['x'], x), ops + lv['ops'] + st)
    def rmw(self):
        r = self.r
        lv = self.lvalue(init=True, types=['int'])
        if lv is None: return False
        a, b = self.tmp(), self.tmp()
        if r.random() < .5:
            o = r.choice(['+', '-', '&', '|', '^'])
            x, k, ops = self.intexp(False)
            return self.emit('%s %s= %s;' % (lv['x'], o, x), ops + lv['ops'] + [op('ld', a, lv['a'], k=lv['k']), op('op', b, V(a), k, f=o), op('st', a=lv['a'], k=lv['k'], b=V(b))])
        o = r.choice('+-'); post = r.random() < .5
        e = (self.par(lv, 15) if lv['p'] < 15 else lv['x']) + o * 2 if post else o * 2 + lv['x']
        ops = lv['ops'] + [op('ld', a, lv['a'], k=lv['k']), op('op', b, V(a), I(1), f=o), op('st', a=lv['a'], k=lv['k'], b=V(b))]
        if r.random() < .5: return self.emit(e + ';', ops)
        v = r.choice(self.iv)
        if v in lv['x']: return False
        return self.emit('%s = %s;' % (v, e), ops + [op('mov', v, V(a if post else b))])
    def ptr_step(self):
        """p++, s->q += k, ..."""
        r = self.r
        if r.random() < .6:
            vs = [v for v in self.pv if self.pv[v] in 'icP' and v not in getattr(self, 'fixed', ()) and self.m.live(self.m.vars.get(v, U))]
            if self.exe: vs += [v for v in self.pv if self.pv[v] in 'ST' and self.m.live(self.m.vars.get(v, U))]
            if not vs: return False
            v = r.choice(vs); t = self.pv[v]; tm = None; d = dict(x=v, p=16)
            src, pre, post = V(v), [], lambda a: [op('mov', v, a)]
        else:
            d = self.lvalue(ptr=True, init=True, types=['i', 'c'])
            if d is None or d['val'][0] != 'p': return False
            tm = self.tmp(); t = d['t']
            src, pre, post = V(tm), d['ops'] + [op('ld', tm, d['a'], k=d['k'])], lambda a: [op('st', a=d['a'], k=d['k'], b=a)]
        w = len(FIELDS[t]) if t in FIELDS else 1
        n = self.tmp()
        if r.random() < .5:
            s = r.choice([1, -1]); o = '++' if s > 0 else '--'
            text = (self.par(d, 15) + o if r.random() < .5 else o + d['x']) + ';'
            ops = pre + [op('add', n, src, k=I(s * w))]
        else:
            s = r.randrange(-3, 4)
            x, k, iops = self.index(abs(s))
            if w > 1: m = self.tmp(); iops = iops + [op('op', m, k, I(w), f='*')]; k = V(m)
            if s < 0: m2 = self.tmp(); iops = iops + [op('op', m2, I(0), k, f='-')]; k = V(m2)
            o = '+' if s >= 0 else '-'
            text = '%s %s= %s;' % (d['x'], o, x) if r.random() < .6 else '%s = %s %s %s;' % (d['x'], d['x'], o, '(%s)' % x)
            ops = pre + iops + [op('add', n, src, k=k)]
        return self.emit(text, ops + post(V(n)))
    def walk_(self):
        """*p++ = v, x = *--p, ..."""
        r = self.r
        vs = [v for v in self.pv if self.pv[v] in 'ic' and v not in getattr(self, 'fixed', ()) and self.m.live(self.m.vars.get(v, U))]
        if not vs: return False
        v = r.choice(vs); n = self.tmp(); tm = self.tmp()
        s = r.choice([1, -1]); post = r.random() < .6
        e = ('*%s%s' % (v, '++' if s > 0 else '--')) if post else '*%s%s' % ('++' if s > 0 else '--', v)
        step = [op('add', n, V(v), k=I(s))]
        at = V(v) if post else V(n)
        if r.random() < .5:
            x, a, ops = self.intexp(self.pv[v] == 'c')
            if re.search(r'\b%s\b' % v, x): return False
            return self.emit('%s = %s;' % (e, x), ops + step + [op('st', a=at, k=I(0), b=a), op('mov', v, V(n))])
        y = r.choice(self.iv)
        return self.emit('%s = %s;' % (y, e), step + [op('ld', tm, at, k=I(0)), op('mov', v, V(n)), op('mov', y, V(tm))])
    def show(self):
        r = self.r
        t = r.random()
        if t < .5:
            lv = self.lvalue(init=True)
            if lv is None: return False
            tm = self.tmp()
            return self.emit('o(%s);' % lv['x'], lv['ops'] + [op('ld', tm, lv['a'], k=lv['k']), op('out', a=V(tm))])
        e = self.ptr()
        if e is None: return False
        if t < .62:    # against null
            s = r.randrange(5)
            if s == 0: return self.emit('o(!%s);' % self.par(e, 14), e['ops'] + [op('cmp', a=e['a'], b=NULL, f='==')])
            if s == 1: return self.emit('o(%s == 0);' % e['x'], e['ops'] + [op('cmp', a=e['a'], b=NULL, f='==')])
            if s == 2: return self.emit('if (%s) o(1); else o(0);' % e['x'], e['ops'] + [op('cmp', a=e['a'], b=NULL, f='!=')])
            if s == 3: return self.emit('o(0 != %s);' % e['x'], e['ops'] + [op('cmp', a=NULL, b=e['a'], f='!=')])
            lv = self.lvalue(ptr=True, init=True)
            if lv is None: return False
            tm = self.tmp()
            return self.emit('o(%s == 0);' % lv['x'], lv['ops'] + [op('ld', tm, lv['a'], k=lv['k']), op('cmp', a=V(tm), b=NULL, f='==')])
        for _ in range(10):
            g = self.ptr(types=[e['t']])
            if g and (t < .75 or g['v'][1] == e['v'][1]): break
        else: return False
        w = len(FIELDS[e['t']]) if e['t'] in FIELDS else 1
        same = g['v'][1] == e['v'][1]
        if not same:
            for q in (e, g):
                if q['v'][2] >= len(self.m.objs[q['v'][1] - 1]['cells']): return False
        if same and t > .9 and w == 1:
            return self.emit('o(%s - %s);' % (self.par(e, 12), self.par(g, 13)), e['ops'] + g['ops'] + [op('diff', a=e['a'], b=g['a'])])
        f = r.choice(['==', '!='] if not same or t < .75 else ['<', '>', '<=', '>='])
        return self.emit('o(%s %s %s);' % (self.par(e, 11), f, self.par(g, 11)), e['ops'] + g['ops'] + [op('cmp', a=e['a'], b=g['a'], f=f)])
    def callf(self):
        r = self.r
        t = r.choice('iic')
        e = self.ptr(types=[t])
        if e is None: return False
        room = len(self.m.objs[e['v'][1] - 1]['cells']) - e['v'][2]
        if room <= 0: return False
        k = r.randrange(room)
        x, ko, kops = self.index(k)
        s = r.random(); tm = self.tmp()
        if s < .3:
            y, a, ops = self.intexp(t == 'c')
            return self.emit('%s(%s, %s, %s);' % ('puti' if t == 'i' else 'putc_', e['x'], x, y), e['ops'] + kops + ops + [op('st', a=e['a'], k=ko, b=a)])
        if s < .6:
            return self.emit('o(%s(%s, %s));' % ('geti' if t == 'i' else 'getc_', e['x'], x), e['ops'] + kops + [op('ld', tm, e['a'], k=ko), op('out', a=V(tm))])
        if s < .75 and t == 'i':
            n = r.randrange(room + 1); b = r.randrange(1000); ops = list(e['ops'])
            for i in range(n): ops.append(op('st', a=e['a'], k=I(i), b=I(b + i)))
            return self.emit('filli(%s, %d, %d);' % (e['x'], n, b), ops)
        if s < .85 and t == 'c':
            n = r.randrange(room + 1); ops = list(e['ops']); z = self.tmp(); ops.append(op('mov', z, I(0)))
            for i in range(n):
                a, z2 = self.tmp(), self.tmp(); ops += [op('ld', a, e['a'], k=I(i)), op('op', z2, V(z), V(a), f='+')]; z = z2
            return self.emit('o(sumc(%s, %d));' % (e['x'], n), ops + [op('out', a=V(z))])
        if t == 'i':
            g = self.lvalue(init=True, types=['int']); h = self.lvalue(init=True, types=['int'])
            if g is None or h is None: return False
            a, b = self.tmp(), self.tmp()
            # the members and elements may be the same
            return self.emit('swapi(&%s, &%s);' % (self.par(g, 15), self.par(h, 15)), g['ops'] + h['ops'] + [op('ld', a, g['a'], k=g['k']), op('ld', b, h['a'], k=h['k']), op('st', a=g['a'], k=g['k'], b=V(b)), op('st', a=h['a'], k=h['k'], b=V(a))])
        return False
    def setint(self):
        v = self.r.choice(self.iv); n = self.r.randrange(0, 4)
        return self.emit('%s = %d;' % (v, n), [op('mov', v, I(n))])
    def dump(self, p):
        """print the contents of the live objects through the variables that keep them"""
        for name, t, n in self.roots:
            x = self.m.vars.get(name)
            if not x or not self.m.live(x) or self.r.random() > p: continue
            cells = self.m.objs[x[1] - 1]['cells']
            for i, c in enumerate(cells):
                tm = self.tmp()
                if t in FIELDS:
                    F = FIELDS[t]; acc = '%s->%s' % (name, F[i][0]) if i < len(F) else '%s[%d].%s' % (name, i // len(F), F[i % len(F)][0])
                else: acc = '%s[%d]' % (name, i)
                ld = [op('ld', tm, V(name), k=I(i))]
                if c[0] == 'i': self.emit('o(%s);' % acc, ld + [op('out', a=V(tm))])
                elif c == NULL: self.emit('o(%s == 0);' % acc, ld + [op('cmp', a=V(tm), b=NULL, f='==')])
                elif self.m.live(c):
                    # compare with the pointer to the object it points into
                    rn = [q for q, _, _ in self.roots if self.m.vars.get(q) and self.m.vars[q][1] == c[1]]
                    if rn and c[2] == 0: self.emit('o(%s == %s);' % (acc, rn[0]), ld + [op('cmp', a=V(tm), b=V(rn[0]), f='==')]) if c[2] < len(self.m.objs[c[1] - 1]['cells']) else None
        return True
    def source(self):
        loc, glob = [], list(self.globs)
        for v, t in list(self.pv.items()) + [(v, 'int') for v in self.iv]:
            if v in getattr(self, 'fixed', ()): continue
            (loc if self.local else glob).append('%s%s;' % (CT[t], v))
        parts = [self.body]
        if not self.local:
            parts = [self.body[i:i + 15] for i in range(0, len(self.body), 15)]
        s = DECLS + '\n'.join(glob) + '\n' + (FUNS_EXE if self.exe else FUNS_SH) + FUNS
        for i, b in enumerate(parts): s += 'void t%d() {\n  %s\n}\n' % (i, '\n  '.join(loc + b))
        return s + 'int main() {\n%s  return 0;\n}\n' % ''.join('  t%d();\n' % i for i in range(len(parts)))

class Case:
    def __init__(self, src, ops, exe, tag, desc=None): self.src, self.ops, self.exe, self.tag = src, ops, exe, tag
    def record(self, out):
        try: v = [int(x) for x in out.split()]
        except ValueError: return None
        r = []; i = 0
        for o in self.ops:
            o = dict(o)
            if o['o'] in OUTS:
                if i >= len(v): return None
                if not -2 ** 31 < v[i] < 2 ** 31: return None
                o['v'] = v[i]; i += 1
            r.append(o)
        return r if i == len(v) else None

def decide(ctx, cases, plan, variants, timeout=30, chunk=400):
    ctx.build(variants)
    for k in range(0, len(cases), chunk):
        part = cases[k:k + chunk]
        hist = {}
        def one(ic):
            i, c = ic
            byv = {}
            for v, sh in plan(ctx, k + i, c): byv.setdefault(v, []).append(sh)
            for v, shells in byv.items():
                if ctx.violations: return
                d = ctx.dir()
                open(os.path.join(d, 'p.c'), 'w').write(c.src)
                r, exe = ctx.compile(v, 'p.c', d)
                if r.rc != 0:
                    r, exe = ctx.compile(v, 'p.c', d)
                    if r.rc != 0:
                        ctx.violation('%s: variant %s refuses the program: %s' % (ctx.pid, v, r.out[-300:]), {'p.c': c.src}); return
                for sh in shells:
                    for attempt in range(2):
                        r = ctx.execute(v, sh, exe, d, timeout=timeout * (1 + attempt))
                        ops = c.record(r.out)
                        ok = ops is not None and r.rc == 0 and not r.err
                        if ok: break
                    with ctx.lock: hist.setdefault((i, json.dumps(ops) if ok else ''), []).append((v, sh, r))
                    ctx.count('runs')
        ctx.pmap(one, list(enumerate(part)))
        if ctx.violations: return
        data, idx = [], []
        for i, key in sorted(hist):
            if key == '':
                v, sh, r = hist[(i, key)][0]
                ctx.violation('%s: %s with %s %s: no complete history: exit %s%s, stderr %r, output %r' % (ctx.pid, part[i].tag, v, sh or '', r.rc, ' timeout' if r.to else '', r.err[:300], r.out[-200:]), {'p.c': part[i].src})
                return
            data.append(json.loads(key)); idx.append((i, key))
        f = os.path.join(ctx.scratch, 'heap%d.json' % ctx.n); ctx.n += 1
        with open(f, 'w') as h: json.dump(data, h)
        recs, st = ctx.tlc_ok('HeapTrace', CFG, env=dict(CASES_FILE=f))
        os.unlink(f)
        assert len(recs) == len(data), 'TLC judged %d of %d histories' % (len(recs), len(data))
        for q in recs:
            i, key = idx[q['c'] - 1]; c = part[i]
            if q['m'] == 'done': ctx.count('traces_validated_against_impl'); continue
            o = data[q['c'] - 1][q['i'] - 1]
            if q['m'] == 'illegal': raise SystemExit('illegal operation generated: %s\n%s' % (o, c.src))
            v, sh, res = hist[(i, key)][0]
            n = sum(1 for x in data[q['c'] - 1][:q['i']] if x['o'] in OUTS)
            ctx.violation('%s: %s with %s %s: the %dth number printed, %d, is not allowed by the specification (operation %s)' % (ctx.pid, c.tag, v, sh or '', n, o['v'], json.dumps(o)), {'p.c': c.src, 'output': res.out, 'operations.json': json.dumps(data[q['c'] - 1])})
            if len(ctx.violations) >= 3: return
        ctx.log('%d histories checked' % len(data))

# ---- scripts enumerated by TLC
def from_scripts(scripts, exe, tag='enumerated histories'):
    """each script uses pointers of its own and its observations follow it"""
    ops, fns = [], []
    for n, sc in enumerate(scripts):
        m = Mirror(); body = []; rts = []; cur = []
        def do(o, text=None):
            m.do(o); cur.append(o)
            if text: body.append(text)
        ren = lambda a: ['v', '%s%d' % (a[1], n)] if a[0] == 'v' else a
        for o in sc:
            d, a, k = '%s%d' % (o['d'], n), ren(o['a']), o['k']
            x = o['o']; q = op(x, d if o['d'] else '', a, o['b'], k, o['f'])
            if x == 'new':
                body.append('%s = malloc(%d * sizeof(int));' % (o['d'], k[1])); m.do(q); cur.append(q)
                rt = 'k%d_%d' % (n, len(rts)); rts.append(rt); do(op('mov', rt, V(d)), 'k%d = %s;' % (len(rts) - 1, o['d']))
            elif x == 'free': do(q, 'free(%s);' % o['a'][1])
            elif x == 'mov': do(q, '%s = %s;' % (o['d'], o['a'][1]))
            elif x == 'add': do(q, ['%s++;', '++%s;', '%s += 1;'][n % 3] % o['d'] if k[1] > 0 else ['%s--;', '--%s;', '%s -= 1;'][n % 3] % o['d'])
            elif x == 'st': do(q, ('%s[%d] = %d;' if n % 2 else '*(%s + %d) = %d;') % (o['a'][1], k[1], o['b'][1]))
        for i, rt in enumerate(rts):
            x = m.vars[rt]
            if not m.live(x): continue
            for j, c in enumerate(m.objs[x[1] - 1]['cells']):
                if c != U:
                    tm = '%%%d' % (len(ops) + len(cur)); do(op('ld', tm, V(rt), k=I(j))); do(op('out', a=V(tm)), 'o(k%d[%d]);' % (i, j))
        for v in 'pq':
            x = m.vars.get('%s%d' % (v, n))
            if x and m.live(x):
                for i, rt in enumerate(rts):
                    if m.vars[rt][1] == x[1]: do(op('diff', a=V('%s%d' % (v, n)), b=V(rt)), 'o(%s - k%d);' % (v, i))
        fns.append('void t%d() {\n  int *p; int *q; %s\n  %s\n}\n' % (n, ' '.join('int *k%d;' % i for i in range(len(rts))), '\n  '.join(body)))
        # names of vars are unique per script; object numbers go on
        ops += cur
    src = (FUNS_EXE if exe else FUNS_SH) + ''.join(fns) + 'int main() {\n%s  return 0;\n}\n' % ''.join('  t%d();\n' % i for i in range(len(fns)))
    return Case(src, ops, exe, tag)
