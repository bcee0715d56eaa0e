#!/usr/bin/env python3
"""P10: string and character literals.  Literal.tla reads source characters and says which bytes the
literal denotes; programs that use the literals in every position print the bytes they got."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv

INV = 'INVARIANT TypeOK\nINVARIANT Bounded\nINVARIANT Progress\nINVARIANT Report\nPROPERTY OutGrows\n'
CFG_GEN = 'SPECIFICATION GenSpec\n' + INV
CFG = 'SPECIFICATION Spec\n' + INV
SHV = ['shrel', 'shopt', 'shcompact', 'shchar', 'shset', 'shc', 'shinit', 'shall']
VARIANTS = ['sh'] + SHV + ['i386', 'x64', 'i386rel', 'x64rel']
WORDS = ['main', 'int', 'p', 's', 'i', 'n', 'if', 'define', 'include', '__str_0', '_p', 'o1', 'x', 'while', 'defined', 'putchar', 'printf', '__FILE__',
         'M', 'char', '-n', '-e', '*', '?', '~', '[a-z]', '/*', '//', '#', '%d', '%%', '%s', '\\$x', '$x', '$(pwd)', '`id`', '!!', "it's", '\\\\', '\\n', '${', '}', ';', '&&', 'EOF', '\\"']

FORMS = ['arg', 'glo', 'loc', 'idx', 'garr', 'garrn', 'tab', 'ret', 'cnd', 'asg', 'macro', 'cmp', 'raw', 'printf', 'larr', 'struct', 'sizeof', 'stat']
CFORMS = ['cexp', 'case', 'enum', 'if', 'cmacro', 'cglo', 'cput', 'csw']
class Use:
    """A literal (rec) in one position of a program"""
    def __init__(self, r, num, rec):
        self.num, self.src, self.out, self.m = num, rec['s'], rec['o'], rec['m']
        self.lit = self.text(r)
        ok = self.m == 'end'
        char = len(self.src) == 1 and 34 not in self.src[0][:1]
        self.char = ok and len(self.out) == 2 and len(self.src) == 1 and self.src[0] != [39] and r.random() < .5
        if not ok: self.char = len(self.src) == 1 and len(self.src[0]) == 2 and r.random() < .4
        if self.char: self.lit = "'" + self.lit[1:-1] + "'"
        z = 0 in self.out[:-1] or (ok and len(self.out) == 1)
        f = [x for x in (CFORMS if self.char else FORMS)]
        if z: f = [x for x in f if x not in ('raw', 'printf')]
        if len(self.out) > 40: f = [x for x in f if x in ('arg', 'glo', 'loc', 'raw', 'printf', 'garr')]
        self.form = r.choice(f) if ok else ('cexp' if self.char else 'arg')
        self.n = len(self.out) if ok else 1
        self.exe = self.form in ('larr', 'struct', 'sizeof', 'stat')
        self.sh = self.form == 'printf'
        self.code(r)
    def text(self, r):
        return r.choice([' ', ' ', '  ', '\n', ' /* , */ ', '']).join('"%s"' % ''.join(chr(x) for x in s) for s in self.src)
    def code(self, r):
        self.orig = self.out[0] if self.out else -1
        self.high = max([0] + self.out + [y for x in self.src for y in x]) > 127
        k, n, L, f = self.num, self.n, self.lit, self.form
        self.glob, self.pre = '', ''
        m = n - 1
        if f == 'arg': self.body = 'p(%s, %d);' % (L, m)
        elif f == 'glo': self.glob = 'char *g%d = %s;\n' % (k, L); self.body = 'p(g%d, %d);' % (k, m)
        elif f == 'loc': self.body = 'char *s = %s; p(s, %d);' % (L, m)
        elif f == 'idx':
            j = r.randrange(n)
            self.body = 'q((%s)[%d]); q(*(%s));' % (L, j, L); self.out = [self.out[j], self.out[0]]
        elif f == 'garr': self.glob = 'char a%d[] = %s;\n' % (k, L); self.body = 'p(a%d, %d);' % (k, m)
        elif f == 'garrn':
            e = r.choice([0, 1, 3])
            self.glob = 'char a%d[%d] = %s;\nchar b%d = 7;\n' % (k, n + e, L, k); self.body = 'p(a%d, %d);' % (k, m + e); self.out = self.out + [0] * e
        elif f == 'tab':
            self.glob = 'char *t%d[3] = {"x", %s, "y"};\n' % (k, L); self.body = 'p(t%d[1], %d);' % (k, m)
        elif f == 'ret': self.glob = 'char *f%d(int x) { if (x) return %s; return "no"; }\n' % (k, L); self.body = 'p(f%d(1), %d);' % (k, m)
        elif f == 'cnd': self.body = 'p(i ? "no" : %s, %d);' % (L, m)
        elif f == 'asg': self.body = 'char *s; s = %s; if (i) s = "other"; p(s, %d);' % (L, m)
        elif f == 'macro': self.glob = '#define M%d(x) x\n' % k; self.body = 'p(M%d(%s), %d);' % (k, L.replace('\n', ' '), m)
        elif f == 'cmp':
            # every character compared with the value
            self.body = 'char *s = %s; %s q(%d);' % (L, ' '.join('if ((s[%d] & 255) != %d) q(1);' % (i, x) for i, x in enumerate(self.out)), k % 256)
            self.out = [k % 256]
        elif f == 'raw': self.body = 'char *s = %s; while (*s) { putchar(*s); s = s + 1; }' % L
        elif f == 'printf': self.body = 'printf("%%s", %s);' % L
        elif f == 'larr': self.body = 'char a[%d] = %s; p(a, %d);' % (n + 2, L, m)
        elif f == 'stat': self.body = 'static char a[] = %s; p(a, %d);' % (L, m)
        elif f == 'struct':
            self.glob = 'struct S%d { int x; char *s; char y[%d]; char z; };\nstruct S%d v%d = {5, %s, %s, 6};\n' % (k, n, k, k, L, L)
            self.body = 'p(v%d.s, %d); p(v%d.y, %d); q(v%d.z);' % (k, m, k, m, k); self.out = self.out + self.out + [6]
        elif f == 'sizeof':
            self.glob = 'char a%d[] = %s;\n' % (k, L); self.body = 'q(sizeof(a%d) / 256); q(sizeof(a%d) %% 256);' % (k, k); self.out = [n // 256, n % 256]
        elif f == 'cexp': self.body = 'q(%s);' % L
        elif f == 'cput': self.body = 'putchar(%s);' % L
        elif f == 'case': self.body = 'switch (%s) { case %s: q(%d); break; default: q(0); break; }' % (('i + %s' % L) if r.random() < .5 else str(self.out[0]) if self.out[0] < 128 else L, L, k % 255 + 1); self.out = [k % 255 + 1, 0]
        elif f == 'csw': self.body = 'switch (%s + 0) { case %d: q(0); break; case %s: q(%d); break; }' % (L, (self.out[0] + 1) % 128, L, k % 255 + 1); self.out = [k % 255 + 1, 0]
        elif f == 'enum': self.glob = 'enum { E%d = %s };\n' % (k, L); self.body = 'q(E%d);' % k
        elif f == 'if':
            v = self.out[0]
            if v < 128: self.body = '\n#if %s == %d && %s + 1 > %d\nq(%d);\n#else\nq(77);\n#endif\n' % (L, v, L, v, v)
            else: self.body = 'q(%s);' % L
        elif f == 'cmacro': self.glob = '#define N%d %s\n' % (k, L); self.body = 'q(N%d);' % k
        elif f == 'cglo': self.glob = 'int h%d = %s;\n' % (k, L); self.body = 'q(h%d);' % k
        self.c = self.glob + 'void c%d(int i) {\n  %s\n}\n' % (k, self.body)
        self.raw = f in ('raw', 'printf', 'cput')
        if f != 'idx' and not self.raw and (self.char and f not in ('case', 'csw')): self.out = self.out[:1]
        if f in ('case', 'csw'): self.out = self.out[:1]
    def expected(self):
        if self.raw: return bytes(self.out[:-1])
        return b''.join(b'%d ' % x for x in self.out)
    def refusable(self, v):      # characters without a name in sh: refused loudly or right
        return self.char and pv.is_sh(v) and self.orig not in NAMED
    def runs(self, v, s):
        if s == 'yash' and self.high or s in ('mksh', 'yash', 'zsh') and self.n > 1100: return False     # slow on long strings
        return not (self.exe and pv.is_sh(v)) and not (self.sh and not pv.is_sh(v))

NAMED = [0] + list(range(7, 14)) + list(range(32, 127))
HEAD = '''#include <stdio.h>
void pn(int n) { if (n > 9) pn(n / 10); putchar(48 + n % 10); }
void q(int n) { pn(n & 255); putchar(32); }
void p(char *s, int n) { int i; for (i = 0; i <= n; i++) q(s[i]); }
'''
def source(uses):
    s = HEAD + ''.join(x.c for x in uses) + 'int main() {\n'
    for i, x in enumerate(uses): s += '  putchar(10); putchar(1); pn(%d); putchar(10); c%d(0);\n' % (i, x.num)
    return (s + '  putchar(10); putchar(1); pn(%d); putchar(10);\n  return 0;\n}\n' % len(uses)).encode('latin1')
def split(out, n):
    r = []
    for i in range(n):
        m = b'\n\1%d\n' % i
        if not out.startswith(m): return r
        out = out[len(m):]
        j = out.find(b'\n\1%d\n' % (i + 1))
        r.append(out if j < 0 else out[:j])
        if j < 0: return r
        out = out[j:]
    return r

class Batch:
    def __init__(self, ctx): self.ctx = ctx
    def compile(self, uses, v):
        d = self.ctx.dir()
        open(os.path.join(d, 'p.c'), 'wb').write(source(uses))
        r, exe = self.ctx.compile(v, 'p.c', d)
        return d, r, exe
    def one(self, x, v, s):
        d, r, exe = self.compile([x], v)
        if x.m == 'refused':
            return 0 < r.rc < 100 and not r.to, 'the bad escape sequence is accepted: %r' % r
        if r.rc != 0 or r.to:
            if 63 in [y for z in x.src for y in z]: return True, 'refused'      # \? is not implemented
            if x.refusable(v) and 0 < r.rc < 100 and not r.to and b'Unknown character' in r.out + r.err: return True, 'refused'
            return False, 'the compiler fails: %r' % r
        q = self.ctx.execute(v, s, exe, d, timeout=30)
        got = split(q.out, 1)
        return got == [x.expected()] and q.rc == 0 and not q.to, 'printed %r (rc %d, %s)' % (got, q.rc, q.err[:200])
    def check1(self, x, v, s):
        ok, desc = self.one(x, v, s)
        if not ok: ok, desc = self.one(x, v, s)
        if ok: self.ctx.count('traces_validated_against_impl')
        else: self.ctx.violation('P10: the literal %s (%s) under %s%s: %s; the specification says %s' % (
            ascii(x.lit)[:200], x.form, v, '/' + s if s else '', desc, repr(x.expected())[:300] if x.m == 'end' else 'a refusal'), {'p.c': source([x])})
        return ok
    def batch(self, arg):
        uses, v, s = arg
        ctx = self.ctx
        if ctx.violations: return
        for x in uses:
            if (x.m != 'end' or x.refusable(v) and x.runs(v, s)) and not ctx.violations: self.check1(x, v, s)
        todo = [x for x in uses if x.m == 'end' and x.runs(v, s) and not x.refusable(v)]
        if not todo or ctx.violations: return
        d, r, exe = self.compile(todo, v)
        if r.rc != 0 or r.to:
            for x in todo:
                if not self.check1(x, v, s): return
            return ctx.violation('P10: literals accepted one by one are refused together by %s: %r' % (v, r), {'p.c': source(todo)})
        q = ctx.execute(v, s, exe, d, timeout=60)
        got = split(q.out, len(todo))
        bad = [x for i, x in enumerate(todo) if i >= len(got) or got[i] != x.expected()]
        ctx.count('traces_validated_against_impl', len(todo) - len(bad))
        if not bad and (q.rc != 0 or q.to): bad = todo
        for x in bad[:10]:
            if not self.check1(x, v, s): return
        if bad:
            q = ctx.execute(v, s, exe, d, timeout=120)
            got = split(q.out, len(todo))
            for i, x in enumerate(todo):
                if i >= len(got) or got[i] != x.expected():
                    return ctx.violation('P10: among other literals, %s (%s) under %s%s gives %s; the specification says %s' % (
                        ascii(x.lit)[:200], x.form, v, '/' + s if s else '', repr(got[i:i + 1])[:300], repr(x.expected())[:300]), {'p.c': source(todo)})

def random_literal(r, long):
    n = r.choice([15, 16, 17, 31, 32, 33, 100, 255, 256, 257, 258, 511, 513, 1000, 2000, 4100]) if long else r.choice([0, 1, 2, 3, 5, 8, 12, 20])
    kind = r.choice(['word', 'print', 'print', 'mixed', 'mixed', 'high'])
    toks, cur, size = [], [], 0
    def flush():
        toks.append(list(cur)); del cur[:]
    while size < n:
        k = r.random()
        if kind == 'word' and k < .5:
            w = [ord(x) for x in r.choice(WORDS)]
            if 34 in w and w != [92, 34]: continue
            if w == [92, 34] or 92 not in w or w in ([92, 92], [92, 110]): cur.extend(w); size += len(w)
        elif kind in ('mixed', 'high') and k < .3:
            v = r.choice([r.randrange(256), 0, 10, 92, 34, 39, 9, 255, 128, 127, 200])
            e = r.choice(['o3', 'o', 'x', 'X', 's'])
            if e == 'o3': t = '\\%03o' % v
            elif e == 'o': t = '\\%o' % v
            elif e == 'x': t = '\\x%x' % v
            elif e == 'X': t = '\\x%02X' % v
            else: t = '\\' + r.choice("abfnrtv\\'\"")
            cur.extend(ord(x) for x in t); size += 1
        elif kind == 'high' and k < .6:
            cur.extend(r.choice([[0xc3, 0xa9], [0xe2, 0x82, 0xac], [r.randrange(128, 256)], [r.randrange(1, 10)], [127], [9], [0xf0, 0x9f, 0x98, 0x80]])); size += 1
        else:
            x = r.choice([r.randrange(32, 127), r.randrange(32, 127), 32, 48, 97, 36, 37, 96, 39])
            if x in (34, 92): cur.append(92)
            cur.append(x); size += 1
        if r.random() < (.3 / n if n > 20 else .05): flush()
    flush()
    return toks

def main():
    ctx = pv.Ctx('P10')
    r = ctx.rng
    ctx.build(VARIANTS)
    recs, st = ctx.tlc_ok('LiteralGen', CFG_GEN, env=dict(MAXLEN=ctx.budget(4, 4)))
    ctx.count('enumerated_literals', len(recs))
    recs.sort(key=lambda x: (len(x['s'][0]), x['s']))
    short = [x for x in recs if len(x['s'][0]) <= 2]
    rest = [x for x in recs if len(x['s'][0]) > 2]
    recs = short + r.sample([x for x in rest if x['m'] == 'end'], ctx.budget(2200, 12000)) + r.sample([x for x in rest if x['m'] == 'refused'], ctx.budget(60, 1000))
    cases = [random_literal(r, False) for _ in range(ctx.budget(1500, 12000))]
    cases += [random_literal(r, True) for _ in range(ctx.budget(60, 600))]
    for _ in range(ctx.budget(60, 500)):       # literals that differ after a zero
        a, b = random_literal(r, False)[0], random_literal(r, False)[0]
        cases += [[a], [a + [92, 48, 48, 48] + b], [a, [92, 48], b]]
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump(cases, open(f, 'w'))
    res, st = ctx.tlc_ok('Literal', CFG, env=dict(CASES_FILE=f))
    res.sort(key=lambda x: x['c'])
    ctx.count('discarded_undefined', sum(x['m'] == 'undef' for x in res))
    nr = len([x for x in recs])
    allr = [x for x in recs + res if x['m'] != 'undef']
    near = allr[-ctx.budget(150, 1200):]
    allr = allr[:-len(near)]
    r.shuffle(allr)
    small = [x for x in allr if len(x['o']) <= 40] + near
    big = [x for x in allr if len(x['o']) > 40]
    us = [Use(r, i + 1, x) for i, x in enumerate(small + big)]
    ctx.count('literals', len(us))
    for x in us[:300:70]: ctx.sample(dict(c=ascii(x.c), out=repr(x.expected())))
    B = Batch(ctx)
    groups = [us[i:i + 50] for i in range(0, len(small), 50)]
    ub = us[len(small):]
    groups += [ub[i:i + 4] for i in range(0, len(ub), 4)]
    S = pv.SHELLS
    jobs = []
    for k, g in enumerate(groups):
        jobs.append((g, 'sh', S[k % 6]))
        jobs.append((g, SHV[k % 8], S[(k * 5 + 2 + k // 8) % 6]))
        jobs.append((g, ['i386', 'x64', 'i386rel', 'x64rel'][k % 4], None))
        if not ctx.quick: jobs += [(g, SHV[(k + 3) % 8], S[(k + 1) % 6]), (g, ['x64', 'i386'][k % 2], None), (g, 'shopt', S[(k + 4) % 6])]
    ctx.pmap(B.batch, jobs)
    ctx.assumptions.append('yash is not run on literals with bytes above 127: it decodes scripts in the locale')
    ctx.finish()
if __name__ == '__main__': main()
