#!/usr/bin/env python3
"""P08: #include and locations.  Random trees of files; CPP.tla says what the compiler reads, where."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv
from cppgen import *

DIRS = ['', 's/', 's/t/', 'u/']
class Tree:
    def __init__(self, r, stmts=False, err=False):
        self.r, self.n, self.stmts = r, 0, stmts
        self.top = r.choice(['m.c', 'm.c', 's/m.c', 'u/m.c'])
        self.search = r.choice(['', '', 'i/', 's/', 'i/j/'])
        k = r.randrange(1, 7)
        self.paths = []
        for i in range(k):
            d = r.choice(DIRS) if r.random() < .8 or not self.search else self.search
            self.paths.append('%sf%d.h' % (d, i))
        if r.random() < .15: self.paths.append(os.path.dirname(self.top) + ('/' if '/' in self.top else '') + 'g.h')
        self.files = {p: self.body(i, p) for i, p in enumerate(self.paths)}
        self.main = self.body(-1, self.top)
        if err:
            f = r.choice([self.main] + list(self.files.values()))
            f.insert(r.randrange(len(f) + 1), r.choice([item('err'), item('bad'), item('bad'), item('bad'), item('inc', sub='', name='missing.h')]))
    def mark(self):
        self.n += 1; r = self.r
        if self.stmts: ts = [I('o'), P('('), r.choice([N(self.n), N(self.n), I('__LINE__'), I('MM')]), P(')'), P(';')]
        else:
            ts = [I('t%d' % self.n)]
            for _ in range(r.randrange(0, 3)): ts.append(r.choice([I('__LINE__'), I('__LINE__'), I('__FILE__'), I('MM'), I('w')]))
        return text(ts)
    def include(self, i, path):
        """of a file with a greater index, so that the tree is finite; sometimes of a guarded one"""
        r = self.r
        c = [p for j, p in enumerate(self.paths) if j > i]
        if not c: return []
        p = r.choice(c)
        d = os.path.dirname(path)
        sub, name = os.path.split(p)
        if self.search and p.startswith(self.search) and r.random() < .6:
            q = p[len(self.search):]; sub, name = os.path.split(q)
            return [item('inca', sub=sub + '/' if sub else '', name=name)]
        # relative to the directory of this file
        rel = os.path.relpath(sub or '.', d or '.')
        rel = '' if rel == '.' else rel + '/'
        return [item('inc', sub=rel, name=name)]
    def body(self, i, path):
        r = self.r; o = []
        t = r.random()
        if i >= 0 and t < .08: return []
        if i >= 0 and t < .12: return [self.mark()]
        for _ in range(r.randrange(1, 7)):
            t = r.random()
            if t < .4: o.append(self.mark())
            elif t < .75: o += self.include(i, path)
            elif t < .85: o.append(define('MM', [N(r.randrange(9))] if self.stmts else r.choice([[I('__LINE__')], [I('__FILE__')], [N(3)]])))
            elif t < .9: o += [item(r.choice(['ifdef', 'ifndef']), name='MM')] + self.include(i, path) + [self.mark(), item('else')] + self.include(i, path) + [item('endif')]
            elif t < .93: o += [item('if', toks=[N(0)]), item('inc', sub='', name='missing.h'), item('endif')]
            elif t < .96: o.append(item('inca', sub='', name='stdio.h')) if not self.search else o.append(self.mark())
            else: o += [item('if', toks=[N(1)])] + self.include(i, path) + [item('endif')]
        if i >= 0 and r.random() < .3:
            g = 'G%d' % i
            o = [item('ifndef', name=g), define(g, [])] + o + ([item('inc', sub='', name=os.path.basename(path))] if r.random() < .5 else []) + [item('endif')]
        return o
    def aliases(self):
        """every spelling of a path that includes can produce"""
        real = {p: p for p in [self.top] + self.paths}
        al, todo = {}, [(self.top, self.top)]
        seen = set()
        while todo:
            sp, p = todo.pop()
            if sp in seen or len(sp) > 60: continue
            seen.add(sp)
            if sp != p: al[sp] = p
            for it in (self.main if p == self.top else self.files[p]):
                if it['k'] not in ('inc', 'inca'): continue
                d = self.search if it['k'] == 'inca' else sp[:sp.rfind('/') + 1]
                q = d + it['sub'] + it['name']; n = os.path.normpath(q)
                if n in real: todo.append((q, n))
        return al
    def case(self, tag, wrap=None):
        r = self.r
        dir = self.top[:self.top.rfind('/') + 1]
        c = Case(self.main, tag, self.files, r, self.top, dir, {p: r.random() < .6 for p in self.paths + ([self.top] if not wrap else [])}, nl=False, wrap=wrap, search=self.search)
        c.aliases = {a: c.paths[p] for a, p in self.aliases().items()}
        return c

LOC = re.compile(rb'([^\s":\x1b]+):(\d+):(\d+)')
def errors(ctx, cases):
    """the location in error messages: the file, and a line between the previous token and the offending one"""
    exp = outcomes(ctx, cases)
    def one(ce):
        c, e = ce
        if len(ctx.violations) >= 5: return
        (m, o, p, l), = set(e) if len(set(e)) == 1 else [('U', (), '', 0)]
        if m not in ('bad', 'nofile', 'err'): return
        for v in ('shrel', 'i386rel', 'x64rel'):
            ok = False
            for attempt in range(2):
                d = ctx.dir(); write(c, d)
                for root, ds, fs in os.walk(d): os.chmod(root, 0o755)
                x = ctx.run([ctx.bins[v]] + c.args() + [c.top], d, timeout=20)
                msg = re.sub(rb'\x1b\[[0-9;]*m', b'', x.out + b' ' + x.err)
                if m == 'bad':
                    loc = LOC.findall(msg)
                    ok = 0 < x.rc < 64 and loc and loc[-1][0].decode('latin1') == p and int(loc[-1][1]) == l
                    want = '%s:%d' % (p, l)
                elif m == 'err': ok = 0 < x.rc < 64 and b'stop here' in msg; want = 'the text of #error'
                else: ok = 0 < x.rc < 64 and b'missing.h' in msg; want = 'the name of the missing file'
                if ok: break
            if not ok:
                ctx.violation('P08: %s with %s: the error message must contain %s; exit %d, %r' % (c.tag, v, want, x.rc, msg[-400:]), dict(c.text)); return
            ctx.count('locations_checked')
        ctx.count('traces_validated_against_impl')
    ctx.pmap(one, list(zip(cases, exp)))

WRAP = ('void o(int x) { putchar(x); }\nint w, MM;\nint main() {\n', 'return 0;\n}\n')
def main():
    ctx = pv.Ctx('P08')
    r = ctx.rng
    ctx.build(['cpprel', 'shrel', 'i386rel', 'x64rel'])
    cases = [Tree(r).case('tree') for _ in range(ctx.budget(1500, 15000))]
    decide(ctx, cases, variant='cpprel', ignore=('U', 'bad', 'big', 'arity', 'unterminated', 'nofile', 'err'))
    if not ctx.violations:
        decide_compile(ctx, [Tree(r, True).case('tree of statements', WRAP) for _ in range(ctx.budget(300, 3000))], ['shrel', 'i386rel', 'x64rel'])
    if not ctx.violations:
        errors(ctx, [Tree(r, True, err=True).case('error', WRAP) for _ in range(ctx.budget(500, 5000))])
    ctx.finish()
if __name__ == '__main__': main()
