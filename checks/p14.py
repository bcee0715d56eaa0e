#!/usr/bin/env python3
"""P14: what printf writes.  Printf.tla reads formats one character at a time and says what each call
writes; the calls (every single conversion, enumerated by PrintfGen.tla, and random formats with
several) are compiled, with formats known at compile time and not, and run by the shells."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv

CFG_GEN = 'SPECIFICATION GenSpec\nINVARIANT TypeOK\nINVARIANT GenReport\nPROPERTY OutGrows\n'
CFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Report\nPROPERTY OutGrows\n'
VARIANTS = ['sh', 'shset', 'shrel', 'shcompact', 'shsafe']
FORMS = ['lit', 'lit', 'lit', 'ptr', 'buf', 'val']

def clit(codes, r):
    """A C string literal denoting these characters"""
    s = '"'
    named = {10: '\\n', 9: '\\t', 92: '\\\\', 34: '\\"', 7: '\\a', 13: '\\r', 27: '\\033', 8: '\\b', 12: '\\f', 11: '\\v'}
    for i, x in enumerate(codes):
        nxt = codes[i + 1] if i + 1 < len(codes) else 0
        if x in named and r.random() < .8: s += named[x]
        elif 32 <= x < 127 and x not in (34, 92) and r.random() < .97: s += chr(x)
        else: s += '\\%03o' % x
    return s + '"'

class Call:
    """One call of printf, with the C text that performs it"""
    def __init__(self, r, num, rec, form):
        self.num, self.f, self.a, self.form = num, rec['f'], rec['a'], form
        self.out, self.m, self.y = bytes(rec['o']), rec['m'], set(rec['y'])
        if 99 in self.f and 'star' in self.y: self.y.add('cwidth')
        self.text(r)
    def refusal(self):
        """may / must / never be refused"""
        if self.m == 'unsupported': return 'must'
        if self.form == 'lit': return 'may' if self.y & {'cwidth', 'prec0'} else 'never'
        return 'may' if self.y & {'long', 'emptyprec'} else 'never'
    def finding(self):
        if self.form == 'lit': return 'string-trailing-newline' if 'newline-width' in self.y else None
        if 'newline' in self.y: return 'string-trailing-newline'
        if 'negprec' in self.y: return 'runtime-negative-precision'
        if {'cwidth', 'negwidth'} <= self.y: return 'runtime-negative-width-c'
        return None
    def shell_ok(self, sh):
        if sh == 'ksh' and self.y & {'zero-prec', 'hash', 'negwidth'}: return False   # ksh's printf pads differently
        # /usr/bin/printf, which mksh uses, rejects %0s
        if sh == 'mksh' and 'star' in self.y and 115 in self.f and self.form != 'lit': return False
        # printf(1) needs no *, and yash ignores an empty precision
        return not (sh == 'yash' and ('star' in self.y or 'emptyprec' in self.y))
    def text(self, r):
        k = self.num
        pre, decl, glob, args, post = [], [], [], [], []
        fun = r.random() < .2
        for j, x in enumerate(self.a):
            v = x['v']
            if x['t'] == 's':
                s = clit(x['s'], r)
                form = r.choice(['lit', 'lit', 'loc', 'glo', 'off', 'buf', 'call'])
                n = 's%d_%d' % (k, j)
                if form == 'lit': args.append(s)
                elif form == 'loc': decl.append('char *p%d = %s;' % (j, s)); args.append('p%d' % j)
                elif form == 'glo': glob.append('char *%s = %s;' % (n, s)); args.append(n)
                elif form == 'off':
                    q = [r.choice([120, 37, 10, 92]) for _ in range(r.randrange(1, 3))]
                    decl.append('char *p%d = %s;' % (j, clit(q + x['s'], r))); args.append('p%d + %d' % (j, len(q)))
                elif form == 'buf':
                    decl.append('char *p%d = malloc(%d);' % (j, len(x['s']) + 1))
                    pre += ['p%d[%d] = %d;' % (j, i, c) for i, c in enumerate(x['s'] + [0])]; args.append('p%d' % j)
                else:
                    glob.append('char *f%s() { return %s; }' % (n, s)); args.append('f%s()' % n)
            else:
                form = r.choice(['lit', 'lit', 'loc', 'glo', 'arr', 'call', 'post', 'pre', 'add', 'or', 'cnd', 'asg', 'neg', 'shift', 'comp', 'deref'])
                c = r.choice([1, 2, 7])
                n = 'g%d_%d' % (k, j)
                if form in ('post', 'pre', 'add', 'asg', 'comp') and not -2000000000 < v < 2000000000: form = 'loc'
                if form in ('or', 'shift') and not 0 <= v < 1000000: form = 'glo'
                if form == 'lit': args.append(str(v) if not 32 <= v < 127 or r.random() < .6 or v in (39, 92) else "'%c'" % v)
                elif form == 'loc': decl.append('int i%d = %d;' % (j, v)); args.append('i%d' % j)
                elif form == 'glo': glob.append('int %s;' % n); pre.append('%s = %d;' % (n, v)); args.append(n)
                elif form == 'arr': glob.append('int %s[3];' % n); pre.append('%s[%d] = %d;' % (n, c % 3, v)); args.append('%s[%d]' % (n, c % 3))
                elif form == 'call': glob.append('int f%s(int x) { return x; }' % n); args.append('f%s(%d)' % (n, v))
                elif form == 'post': decl.append('int i%d = %d;' % (j, v)); args.append('i%d++' % j)
                elif form == 'pre': decl.append('int i%d = %d;' % (j, v + 1)); args.append('--i%d' % j)
                elif form == 'add': decl.append('int i%d = %d;' % (j, v - c)); args.append('i%d + %d' % (j, c))
                elif form == 'or': decl.append('int i%d = %d;' % (j, v & ~c)); args.append('i%d | %d' % (j, v & c))
                elif form == 'shift': decl.append('int i%d = %d;' % (j, v * 4 + 3)); args.append('i%d >> 2' % j)
                elif form == 'cnd': decl.append('int i%d = %d;' % (j, c)); args.append('i%d == %d ? %d : %d' % (j, c, v, v ^ 5))
                elif form == 'asg': glob.append('int %s;' % n); args.append('%s = %d' % (n, v))
                elif form == 'comp': decl.append('int i%d = %d;' % (j, v - c)); args.append('i%d += %d' % (j, c))
                elif form == 'deref': glob.append('int %s[2];' % n); decl.append('int *i%d;' % j); pre.append('i%d = %s; %s[0] = %d;' % (j, n, n, v)); args.append('*i%d++' % j); post.append('i%d != %s + 1' % (j, n))
                if form in ('post', 'pre', 'comp'): post.append('i%d != %d' % (j, v + (form == 'post')))
                if form == 'asg': post.append('%s != %d' % (n, v))
                if form == 'neg': decl.append('int i%d = %d;' % (j, -v)); args.append('-i%d' % j)
                if r.random() < .25: args[-1] = '(%s)' % args[-1]
        lit = clit(self.f, r)
        al = ''.join(', ' + a for a in args)
        body = []
        if self.form == 'lit': call = 'printf(%s%s)' % (lit, al)
        elif self.form == 'val': decl.append('int z;'); call = 'z = printf(%s%s)' % (lit, al)
        elif self.form == 'ptr': decl.append('char *f;'); pre.append('f = %s;' % lit); call = 'printf(f%s)' % al
        else:
            decl.append('char *f = malloc(%d);' % (len(self.f) + 1))
            pre += ['f[%d] = %d;' % (i, c) for i, c in enumerate(self.f + [0])]
            call = 'printf(f%s)' % al
        wrap = r.choice(['plain'] * 5 + ['if', 'else', 'for', 'do', 'sw', 'while'])
        if wrap == 'plain': body = [call + ';']
        elif wrap == 'if': body = ['if (w == 1) %s;' % call]
        elif wrap == 'else': body = ['if (w != 1) w = 9; else %s;' % call]
        elif wrap == 'for': body = ['for (w = 0; w < 1; w++) %s;' % call]
        elif wrap == 'do': body = ['do { %s; } while (w == 0);' % call]
        elif wrap == 'while': body = ['while (w == 1) { %s; w = 2; }' % call]
        elif wrap == 'sw': body = ['switch (w) { case 0: w = 5; break; case 1: %s; break; }' % call]
        # the effects of the arguments take place once
        body += ['if (%s) putchar(33);' % x for x in post]
        self.c = '\n'.join(glob) + '\nvoid c%d(int w) {\n  %s\n}\n' % (k, '\n  '.join(decl + pre + body))

HEAD = '#include <stdio.h>\n#include <stdlib.h>\nvoid mark(int n) { putchar(10); putchar(1); putchar(48 + n / 100); putchar(48 + n / 10 % 10); putchar(48 + n % 10); putchar(10); }\n'
def source(calls):
    s = HEAD + ''.join(x.c for x in calls) + 'int main() {\n'
    for i, x in enumerate(calls): s += '  mark(%d); c%d(1);\n' % (i, x.num)
    return s + '  mark(%d);\n  return 0;\n}\n' % len(calls)
def split(out, n):
    """the output of each call"""
    r = []
    for i in range(n):
        m = b'\n\1%03d\n' % i
        if not out.startswith(m): return r
        out = out[len(m):]
        j = out.find(b'\n\1%03d\n' % (i + 1))
        r.append(out if j < 0 else out[:j])
        if j < 0: return r
        out = out[j:]
    return r

class Batch:
    def __init__(self, ctx): self.ctx = ctx
    def compile(self, calls, v):
        d = self.ctx.dir()
        open(os.path.join(d, 'p.c'), 'w').write(source(calls))
        r, exe = self.ctx.compile(v, 'p.c', d)
        return d, r, exe
    def one(self, x, v, s):
        """(ok, description) of one call in a program of its own"""
        d, r, exe = self.compile([x], v)
        ref = x.refusal()
        if r.rc != 0 or r.to:
            if ref != 'never' and x.form == 'lit' and 0 < r.rc < 100 and not r.to: return True, 'refused'
            return False, 'the compiler fails: %r' % r
        if ref == 'must' and x.form == 'lit': return False, 'the unsupported format is accepted'
        q = self.ctx.execute(v, s, exe, d)
        got = split(q.out, 1)
        if ref != 'never' and q.rc not in (0, -6, -11) and not q.to: 
            return got != [] and got[0].startswith(x.out if ref == 'must' and not x.y & {'long', 'emptyprec'} else b''), 'exit status %d, printed %r' % (q.rc, got)
        if ref == 'must': return False, 'the unsupported format is accepted: %r' % got
        return got == [x.out] and q.rc == 0, 'printed %r (rc %d, %s)' % (got, q.rc, q.err[:200])
    def report(self, x, v, s, desc):
        ctx = self.ctx
        ctx.violation('P14: printf(%s) with %s, format %s, under %s/%s: %s; C prescribes %r' % (
            bytes(x.f), [y['v'] if y['t'] == 'i' else bytes(y['s']) for y in x.a], dict(lit='known at compile time').get(x.form, 'interpreted at run time'), v, s, desc,
            x.out if x.m == 'end' else 'a refusal'), {'p.c': source([x])})
    def check1(self, x, v, s):
        ok, desc = self.one(x, v, s)
        if not ok: ok, desc = self.one(x, v, s)
        if ok: self.ctx.count('traces_validated_against_impl')
        else: self.report(x, v, s, desc)
        return ok
    def batch(self, arg):
        calls, v, s = arg
        ctx = self.ctx
        if ctx.violations: return
        todo = [x for x in calls if x.refusal() == 'never' and x.shell_ok(s)]
        for x in calls:
            if x.refusal() != 'never' and x.shell_ok(s):
                if ctx.violations: return
                self.check1(x, v, s)
        if not todo: return
        d, r, exe = self.compile(todo, v)
        if r.rc != 0 or r.to:
            for x in todo:
                if not self.check1(x, v, s): return
            return ctx.violation('P14: calls accepted one by one are refused together by %s: %r' % (v, r), {'p.c': source(todo)})
        q = ctx.execute(v, s, exe, d, timeout=60)
        got = split(q.out, len(todo))
        bad = [x for i, x in enumerate(todo) if i >= len(got) or got[i] != x.out]
        ctx.count('traces_validated_against_impl', len(todo) - len(bad))
        if not bad and (q.rc != 0 or q.to): bad = todo
        n = 0
        for x in bad[:8]:
            if not self.check1(x, v, s): n += 1
            if n: return
        if bad:
            q = ctx.execute(v, s, exe, d, timeout=120)
            got = split(q.out, len(todo))
            for i, x in enumerate(todo):
                if i >= len(got) or got[i] != x.out:
                    return ctx.violation('P14: after other calls, printf(%s) prints %r under %s/%s; C prescribes %r' % (bytes(x.f), got[i:i + 1], v, s, x.out), {'p.c': source(todo)})

TEXT = [ord(x) for x in 'abcxyzdsol 0159%%%%-+#.*$`"\'\\!&|;()<>[]{}~^?@/:=,_\n\t\n']
def random_call(r):
    f, a = [], []
    def num(v): a.append(dict(t='i', v=v, s=[]))
    def text(n):
        for _ in range(n):
            x = r.choice(TEXT)
            f.append(x)
            if x == 37: f.append(37)
    if r.random() < .2: f.append(45)      # a leading "-" looks like an option
    text(r.choice([0, 0, 1, 3, 6]))
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        f.append(37)
        cv = r.choice('ddiuoxXccsss')
        if r.random() < .5:
            fl = {'d': '-+ 0', 'i': '-+ 0', 'u': '-0', 'o': '-0#', 'x': '-0#', 'X': '-0#', 'c': '-', 's': '-'}[cv]
            for _ in range(r.choice([0, 1, 1, 2, 3])): f.append(ord(r.choice(fl)))
            k = r.random()
            if k < .4: f += [ord(x) for x in str(r.choice([1, 2, 3, 5, 8, 9, 10, 20, 31, 40, 64, 76, 97, r.randrange(1, 100)]))]
            elif k < .6: f.append(42); num(r.choice([0, 1, 3, 9, 12, -4, -12]))
            k = r.random()
            if cv != 'c':
                if k < .3: f += [46] + [ord(x) for x in str(r.choice([1, 2, 3, 5, 10, 14, 4, 6, 7, 8, 9, 90, r.randrange(1, 60)]))]
                elif k < .4: f += [46, 42]; num(r.choice([0, 1, 2, 6, 13, 13, -1]))
                elif k < .45: f += [46, 48]
                elif k < .5: f.append(46)
            if cv in 'diuoxX' and r.random() < .15: f += [108] * r.choice([1, 1, 2])
        if r.random() < .02: f.append(ord(r.choice('pfhnbegGEF')))       # not supported
        else: f.append(ord(cv))
        if cv == 's':
            a.append(dict(t='s', v=0, s=[x for x in (r.choice(TEXT) for _ in range(r.choice([0, 1, 2, 4, 9, 17])))]))
            if r.random() < .8:
                while a[-1]['s'] and a[-1]['s'][-1] == 10: a[-1]['s'].pop()
        elif cv == 'c': num(r.choice([r.randrange(256), r.randrange(32, 127), 0, 10, 37, 92, 34, 39, 128, 255]))
        elif cv in 'di': num(r.choice([0, 1, -1, 9, 10, -100, 12345, 2147483647, -2147483647, r.randrange(-10**6, 10**6)]))
        else: num(r.choice([0, 1, 7, 8, 255, 256, 65535, 2147483647, r.randrange(10**6)]))
        text(r.choice([0, 0, 1, 1, 3, 8]))
    return dict(f=f, a=a)

PINNED = [('string-trailing-newline', dict(f=[37, 54, 115], a=[dict(t='s', v=0, s=[97, 10])]), 'lit'),
          ('string-trailing-newline', dict(f=[37, 115], a=[dict(t='s', v=0, s=[97, 10])]), 'ptr'),
          ('runtime-negative-precision', dict(f=[37, 46, 42, 100], a=[dict(t='i', v=-2, s=[]), dict(t='i', v=5, s=[])]), 'ptr'),
          ('runtime-negative-width-c', dict(f=[37, 42, 99], a=[dict(t='i', v=-4, s=[]), dict(t='i', v=65, s=[])]), 'ptr')]

def main():
    ctx = pv.Ctx('P14')
    r = ctx.rng
    ctx.build(VARIANTS)
    recs, st = ctx.tlc_ok('PrintfGen', CFG_GEN)
    ctx.count('single_conversions', len(recs))
    recs.sort(key=lambda x: json.dumps(x))
    r.shuffle(recs)
    if ctx.quick: recs = recs[:7000]
    calls = [random_call(r) for _ in range(ctx.budget(4000, 25000))] + [p[1] for p in PINNED]
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump(calls, open(f, 'w'))
    res, st = ctx.tlc_ok('Printf', CFG, env=dict(CASES_FILE=f))
    res.sort(key=lambda x: x['c'])
    pinned = [x for x in res if x['c'] > len(calls) - len(PINNED)]
    res = [x for x in res if x['c'] <= len(calls) - len(PINNED)]
    ctx.count('discarded_undefined', sum(x['m'] == 'bad' for x in res))
    recs += [x for x in res if x['m'] != 'bad']
    r.shuffle(recs)
    B = Batch(ctx)
    for (key, _, form), x in zip(PINNED, pinned):
        c = Call(r, 0, x, form)
        for s in ('dash', 'bash'):
            ok, desc = B.one(c, 'sh', s)
            if not ok and not ctx.finding(key, desc): B.report(c, 'sh', s, desc)
    xs = [Call(r, i + 1, x, r.choice(FORMS)) for i, x in enumerate(recs)]
    xs = [x for x in xs if not x.finding()]
    ctx.count('calls', len(xs))
    for x in xs[:400:90]: ctx.sample(dict(c=x.c, out=repr(x.out)))
    jobs = []
    n = 60
    for i in range(0, len(xs), n):
        k = i // n
        b = xs[i:i + n]
        S = [s for s in pv.SHELLS]
        jobs.append((b, 'sh', S[k % 6]))
        jobs.append((b, VARIANTS[1 + k % 4], S[(k * 5 + 2 + k // 6) % 6]))
        if not ctx.quick: jobs += [(b, 'shrel', S[(k + 1) % 6]), (b, 'sh', S[(k + 3) % 6])]
    ctx.pmap(B.batch, jobs)
    ctx.assumptions += ['yash is not run on formats with * known at compile time: its printf utility, as POSIX allows, has no *',
                        'strings with width or precision are ASCII: shells count characters differently']
    ctx.finish()
if __name__ == '__main__': main()
