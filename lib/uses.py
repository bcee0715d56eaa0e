"""Programs made of many small independent cases.  Each case (Use) is a C function that prints numbers;
what it must print comes from a specification.  Cases are compiled and run in batches; when a batch
disagrees, the cases are tried one by one."""
import os
import pv

HEAD = '''#include <stdio.h>
void pn(int n) { if (n > 9) pn(n / 10); putchar(48 + n % 10); }
void q(int n) { if (n < 0) { putchar(45); pn(-n); } else { pn(n); } putchar(32); }
'''

class Use:
    what, glob, body, out = '', '', '', ()
    exe = sh = False             # only for the native backends / the shell backend
    must_refuse = False
    def __init__(self, num): self.num = num
    def expected(self): return b''.join(b'%d ' % x for x in self.out)
    def runs(self, v, s): return not (self.exe and pv.is_sh(v)) and not (self.sh and not pv.is_sh(v))
    def may_refuse(self, v, msg): return False
    def text(self): return self.glob + 'void c%d(int i) {\n%s\n}\n' % (self.num, self.body)

def split(out, n):
    r = []
    for i in range(n):
        m = b'\n\1%d\n' % i
        if not out.startswith(m): return r
        out = out[len(m):]
        j = out.find(b'\n\1%d\n' % (i + 1))
        r.append(out if j < 0 else out[:j])
        if j < 0: return r
        out = out[j:]
    return r

class Batch:
    def __init__(self, ctx, head=HEAD, timeout=60):
        self.ctx, self.head, self.timeout = ctx, head, timeout
    def source(self, uses):
        s = self.head + ''.join(x.text() for x in uses) + 'int main() {\n'
        for i, x in enumerate(uses): s += '  putchar(10); putchar(1); pn(%d); putchar(10); c%d(0);\n' % (i, x.num)
        return (s + '  putchar(10); putchar(1); pn(%d); putchar(10);\n  return 0;\n}\n' % len(uses)).encode('latin1')
    def compile(self, uses, v):
        d = self.ctx.dir()
        with open(os.path.join(d, 'p.c'), 'wb') as f: f.write(self.source(uses))
        r, exe = self.ctx.compile(v, 'p.c', d)
        return d, r, exe
    def one(self, x, v, s):
        d, r, exe = self.compile([x], v)
        if x.must_refuse: return 0 < r.rc < 100 and not r.to, 'is accepted: %r' % r
        if r.rc != 0 or r.to:
            if 0 < r.rc < 100 and not r.to and x.may_refuse(v, r.out + r.err):
                self.ctx.count('refused'); return True, ''
            return False, 'the compiler fails: rc=%d %r' % (r.rc, (r.out + r.err)[-400:])
        q = self.ctx.execute(v, s, exe, d, timeout=self.timeout)
        got = split(q.out, 1)
        return got == [x.expected()] and q.rc == 0 and not q.to, 'printed %r (rc %d, %s)' % (got, q.rc, q.err[:200])
    def check1(self, x, v, s):
        ok, desc = self.one(x, v, s)
        if not ok: ok, desc = self.one(x, v, s)
        if ok: self.ctx.count('traces_validated_against_impl')
        else: self.ctx.violation('%s under %s%s: %s; the specification says %s' % (
            x.what[:600], v, '/' + s if s else '', desc, 'a refusal' if x.must_refuse else repr(x.expected())[:300]), {'p.c': self.source([x])})
        return ok
    def batch(self, arg):
        uses, v, s = arg
        ctx = self.ctx
        uses = [x for x in uses if x.runs(v, s)]
        for x in uses:
            if x.must_refuse and not ctx.violations: self.check1(x, v, s)
        uses = [x for x in uses if not x.must_refuse]
        if not uses or ctx.violations: return
        d, r, exe = self.compile(uses, v)
        if r.rc != 0 or r.to:
            if len(uses) > 4:       # narrow down: the refusal of one case must not hide the others
                h = len(uses) // 2
                self.batch((uses[:h], v, s)); self.batch((uses[h:], v, s)); return
            for x in uses:
                if not self.check1(x, v, s): return
            return
        q = ctx.execute(v, s, exe, d, timeout=self.timeout)
        got = split(q.out, len(uses))
        bad = [x for i, x in enumerate(uses) if i >= len(got) or got[i] != x.expected()]
        ctx.count('traces_validated_against_impl', len(uses) - len(bad))
        if not bad and (q.rc != 0 or q.to): bad = uses
        for x in bad[:10]:
            if not self.check1(x, v, s): return
        if bad:
            q = ctx.execute(v, s, exe, d, timeout=2 * self.timeout)
            got = split(q.out, len(uses))
            for i, x in enumerate(uses):
                if i >= len(got) or got[i] != x.expected():
                    return ctx.violation('among other cases, %s under %s%s gives %s; the specification says %s' % (
                        x.what[:600], v, '/' + s if s else '', repr(got[i:i + 1])[:300], repr(x.expected())[:300]), {'p.c': self.source(uses)})
            if q.rc != 0 or q.to: ctx.violation('cases that run one by one fail together under %s%s (rc %d)' % (v, '/' + s if s else '', q.rc), {'p.c': self.source(uses)})
