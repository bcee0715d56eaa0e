#!/usr/bin/env python3
"""P21: arguments, environment and exit status.  Process.tla says what generated programs write and how they
end for given arguments; they are run with these arguments in environments full of variables whose names
the generated scripts use."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, uses

CFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Progress\nINVARIANT Report\nPROPERTY OutGrows\nPROPERTY EndsOnce\n'
SHV = ['sh', 'shset', 'shrel', 'shcompact', 'shinit', 'shall', 'shrelset', 'shsafe', 'shopt']
EXV = ['i386', 'x64', 'i386rel', 'x64rel', 'i386safe', 'x64safe']

HEAD = uses.HEAD.replace('#include <stdio.h>\n', '#include <stdio.h>\n#include <stdlib.h>\n') + '''int last = 0;
int gc = 0;
char **gv = 0;
int len(char *s) { int n = 0; while (s[n] != 0) n = n + 1; return n; }
void ps(char *s) { while (*s != 0) { putchar(*s); s = s + 1; } }
'''
HEAD_SH = HEAD.replace('void ps(char *s) { while (*s != 0) { putchar(*s); s = s + 1; } }', 'void ps(char *s) { printf("%s", s); }')

LITS_ALL = b'abcx y$HOMEa\\b0q*-n'
LITS = [b'abc', b'x y', b'', b'$HOME', b'a\\b', b'0', b'q', b'*', b'-n']
class Prog:
    """fs: bodies; main's form"""
    def __init__(self, r):
        self.r = r
        self.nf = r.randrange(1, 4)
        self.exits = r.random()
        self.form = r.choice(['int main(int argc, char **argv)', 'int main(int argc, char *argv[])', 'int main(int n, char **args)', 'int main()', 'int main(void)', 'int main(int argc, char **argv)'])
        self.void = False
        self.wide = r.random() < .25     # statuses that do not fit in 8 bits
        if r.random() < .08: self.form, self.void = self.form.replace('int main', 'void main'), True
        self.params = 'char' in self.form
        self.argc, self.argv = ('n', 'args') if 'args' in self.form else ('argc', 'argv')
        self.fs = [self.body(0)] + [self.body(k) for k in range(1, self.nf)]
        self.input = r.choice([b'', b'a', b'hello\n', b'x\ny\n', b'\n\n z', b'$a`b\\'])
        self.sh_printf = r.random() < .5
    def val(self):
        r = self.r
        if not self.wide: return r.choice([0, 1, 2, 3, 42, 100, 125, 127, 128, 129, 200, 254, 255, r.randrange(256)])
        return r.choice([0, 1, 2, 3, 42, 127, 128, 255, 255, 256, 257, -1, -2, -255, -256, 511, 70000, -70000, r.randrange(-1000, 1000)])
    def body(self, k):
        r = self.r
        o = []
        for _ in range(r.randrange(1, 7)):
            t = r.random()
            if t < .2: o.append(dict(k='out', v=r.randrange(33, 127)))
            elif t < .25: o.append(dict(k='val'))
            elif t < .31: o.append(r.choice([dict(k='in'), dict(k='in'), dict(k='lit', s=list(r.choice(LITS)))]))
            elif t < .5 and self.params: o.append(r.choice([dict(k='argc'), dict(k='arg', v=r.choice([0, 1, 1, 2, 3, 9, 10, 11])), dict(k='args'), dict(k='args')]))
            elif t < .58 and self.params: o.append(dict(k='set', v=r.choice([0, 1, 2]), j=r.choice([0, 0, 1, 3]), x=r.randrange(33, 127)))
            elif t < .62 and self.params: o.append(dict(k='swap', v=r.choice([0, 1, 2]), j=r.choice([1, 2])))
            elif t < .8 and k + 1 < self.nf: o.append(dict(k='call', f=r.randrange(k + 1, self.nf) + 1, x=r.choice([0, 1, 2, 5, 250] if not self.wide else [0, 1, 2, 5, 300, -1])) if True else 0)
            elif t < .86 and k > 0: o.append(dict(k='self'))
            elif t < .94 and self.params: o.append(dict(k='when', v=r.choice([1, 1, 2, 3]), n=r.choice([1, 1, 2])))
            elif t < .94 + .06 * self.exits: o.append(r.choice([dict(k='exit', v=self.val()), dict(k='exit', v=self.val()), dict(k='exitp'), dict(k='exitarg', v=1) if self.params else dict(k='exitp')]))
            else: o.append(dict(k='out', v=r.randrange(33, 127)))
        if r.random() < .5: o.append(dict(k='ret', v=self.val()))
        elif r.random() < .2: o.append(dict(k='exit', v=self.val()))
        # depth: a recursion with a large parameter would take too long
        if any(x['k'] == 'self' for x in o): o = [x for i, x in enumerate(o) if x['k'] != 'self' or i == [y['k'] for y in o].index('self')]
        if k == 0: o = [x if x['k'] != 'exitp' else dict(k='exit', v=self.val()) for x in o]
        return o
    def fix(self):
        """functions that call themselves get small parameters"""
        rec = {i + 1 for i, b in enumerate(self.fs) if any(x['k'] == 'self' for x in b)}
        for b in self.fs:
            for x in b:
                if x['k'] == 'call' and x['f'] in rec: x['x'] = min(x['x'], 6)
            end = [len(b)]
            for i, x in enumerate(b):       # blocks nest
                while end[-1] <= i: end.pop()
                if x['k'] == 'when':
                    x['n'] = min(x['n'], end[-1] - i - 1)
                    end.append(i + 1 + x['n'])
        return self
    def data(self, args): return dict(args=[list(a) for a in args], input=list(self.input), void=self.void, fs=self.fs)
    def stmt(self, x, k, sh):
        r = self.r
        C, V = (self.argc, self.argv) if k == 0 and r.random() < .6 else ('gc', 'gv')
        o = x['k']
        num = lambda v: str(v) if v >= 0 else r.choice(['%d' % v, '(%d)' % v])
        if o == 'out': return 'putchar(%d);' % x['v']
        if o == 'in': return 'i = getchar(); if (i < 0) putchar(69); else putchar(i);'
        if o == 'lit':
            if x['s'] and r.random() < .4: return ' '.join('putchar(tab[%d]);' % (LITS_ALL.index(bytes(x['s'])) + i) for i in range(len(x['s'])))
            t = bytes(x['s']).decode().replace('\\', '\\\\')
            return r.choice(['ps("%s");', 's = "%s"; ps(s);', 'ps(name%d);']) .replace('name%d', 'name%d' % LITS.index(bytes(x['s']))).replace('%s', t)
        if o == 'val': return 'q(last);'
        if o == 'argc': return 'q(%s);' % C
        if o == 'arg': return 'if (%d < %s) ps(%s[%d]);' % (x['v'], C, V, x['v'])
        # the scripts do not end argv by a null pointer (see DESIGN.md)
        if o == 'args' and sh: return 'for (i = 0; i < %s; i++) { ps(%s[i]); q(len(%s[i])); }' % (C, V, V)
        if o == 'args': return r.choice(['v = %s; while (*v != 0) { ps(*v); q(len(*v)); v = v + 1; }' % V,
                                         'for (i = 0; i < %s; i++) { ps(%s[i]); q(len(%s[i])); }' % (C, V, V),
                                         'i = 0; while (%s[i]) { ps(%s[i]); q(len(%s[i])); i += 1; }' % (V, V, V),
                                         'for (v = %s; *v; v++) { ps(*v); q(len(*v)); }' % V])
        if o == 'set': return 'if (%d < %s) { if (%d < len(%s[%d])) { %s[%d][%d] = %d; } }' % (x['v'], C, x['j'], V, x['v'], V, x['v'], x['j'], x['x'])
        if o == 'swap': return 'if (%s > %d) { s = %s[%d]; %s[%d] = %s[%d]; %s[%d] = s; }' % (C, max(x['v'], x['j']), V, x['v'], V, x['v'], V, x['j'], V, x['j'])
        if o == 'call': return 'last = f%d(%s);' % (x['f'], num(x['x']))
        if o == 'self': return 'if (p > 0) last = f%d(p - 1);' % (k + 1)
        if o == 'exit':
            u = r.random()
            if u < .5: return 'exit(%s);' % num(x['v'])
            if u < .75: return 'i = %s; exit(i);' % num(x['v'])
            return 'exit(%s + zero);' % num(x['v'])
        if o == 'exitp': return r.choice(['exit(p);', 'exit(p + 0);', 'exit(p | 0);'])
        if o == 'exitarg': return 'if (%s > %d) { if (%s[%d][0] != 0) exit(%s[%d][0]); }' % (C, x['v'], V, x['v'], V, x['v'])
        if o == 'ret':
            if k == 0 and self.void: return 'return;'
            return r.choice(['return %s;', 'return (%s);', 'return %s + zero;', 'return (%s) | zero;']) % num(x['v'])
        raise ValueError(o)
    def block(self, b, k, sh):
        o, i = [], 0
        while i < len(b):
            if b[i]['k'] == 'when':
                n = b[i]['n']
                o.append('  if (%s > %d) {\n%s  }\n' % ('gc', b[i]['v'], self.block(b[i + 1:i + 1 + n], k, sh)))
                i += 1 + n
            else: o.append('  ' + self.stmt(b[i], k, sh) + '\n'); i += 1
        return ''.join(o)
    def source(self, sh):
        o = (HEAD_SH if sh and self.sh_printf else HEAD) + 'int zero = 0;\nint tab[%d] = {%s};\n' % (len(LITS_ALL), ', '.join(map(str, LITS_ALL))) + ''.join('char *name%d = "%s";\n' % (i, t.decode().replace('\\', '\\\\')) for i, t in enumerate(LITS))
        o += ''.join('int f%d(int p);\n' % (i + 2) for i in range(self.nf - 1))
        for k in range(self.nf - 1, 0, -1):
            o += 'int f%d(int p) {\n  char **v; int i; char *s;\n%s  return p;\n}\n' % (k + 1, self.block(self.fs[k], k, sh))
        o += (self.form.replace('*argv[]', '**argv') if sh else self.form) + ' {\n  char **v; int i; char *s;\n' + ('  gc = %s; gv = %s;\n' % (self.argc, self.argv) if self.params else '') + self.block(self.fs[0], 0, sh) + '}\n'
        return o

def arguments(r, ascii_only):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 12, r.randrange(0, 40) if r.random() < .2 else 2])
    def one():
        t = r.random()
        if t < .12: return b''
        if t < .5: return r.choice([b'a', b'-n', b'-e', b'--', b'-', b'*', b'?', b'~', b'$x', b'$(pwd)', b'`id`', b'\\', b'\\n', b'\\\\', b"'", b'"', b' ', b'  a  b ', b'\n', b'a\n', b'\n\n', b'\t', b'%s', b'%d%%', b'0x10', b'010', b'$1', b'${IFS}', b'!', b'#', b';', b'&', b'|', b'[a-z]', b'=', b'a=b', b'(', b'a b', b'\\c', b'\\0101', b'x\\', b'\x01', b'\x7f', b'\x1b[0m', b'\r', b'i=1', b'{a,b}'])
        L = r.choice([1, 2, 3, 5, 8, 20, 60])
        if t < .8: return bytes(r.randrange(32, 127) for _ in range(L))
        return bytes(r.randrange(1, 128 if ascii_only else 256) for _ in range(L))
    a = [one() for _ in range(n)]
    if r.random() < .03: a.append(bytes(r.randrange(33, 127) for _ in range(r.choice([300, 600]))))
    return [b'./p.x'] + a

CONTROL = re.compile('PATH|IFS|LC_.*|LANG.*|ENV|BASH.*|SHELLOPTS|ZDOTDIR|HOME|PWD|OLDPWD|PPID|POSIXLY.*|LD_.*|YASH.*|KSH.*|FPATH|SHELL|TERM|MAIL.*|HIST.*|FCEDIT|EDITOR|VISUAL|TMOUT|PS[0-4]|OPT.*|RANDOM|SECONDS|LINENO|U?ID|E?UID|_|CDPATH|COLUMNS|LINES|PERL.*|TZ|INSIDE_EMACS|EMACS')
VALUES = ['', '5', '-1', '1', 'abc', '1 2', '$(echo 1)', 'a[$(echo 1)]', '99999999999999999999', '0x', '*', '\n', '-n', 'readonly', '08', '7\n', '++', '%s']
def environment(r, script):
    names = sorted({w for w in re.findall(rb'[A-Za-z_]\w*', script)} | {b'_%d' % k for k in range(0, 60)} | {b'__%d' % k for k in range(0, 12)} | {b'argc', b'argv', b'last', b'gc', b'gv', b'zero'})
    names = [n.decode() for n in names if not n.startswith(b'__str_') and not CONTROL.fullmatch(n.decode())]
    k = r.choice([0, 1, 5, 20, 400])
    e = {n: r.choice(VALUES) for n in r.sample(names, min(k, len(names)))}
    if r.random() < .2: e['POSIXLY_CORRECT'] = '1'
    if r.random() < .4: e['LC_ALL'] = r.choice(['C', 'POSIX', 'C.UTF-8', ''])
    if r.random() < .2: e['LANG'] = 'C.UTF-8'
    if r.random() < .2: e['TZ'] = 'UTC'
    if r.random() < .2: e['IFS'] = r.choice(['0', '1 ', '_', '-', ''])
    return e

def main():
    ctx = pv.Ctx('P21')
    r = ctx.rng
    ctx.build(SHV + EXV)
    progs = [Prog(r).fix() for _ in range(ctx.budget(260, 3000))]
    cases = []
    for p in progs:
        for j in range(3): cases.append((p, arguments(r, j == 0)))
    f = os.path.join(ctx.scratch, 'cases.json')
    json.dump([p.data(a) for p, a in cases], open(f, 'w'))
    recs, st = ctx.tlc_ok('Process', CFG, env=dict(CASES_FILE=f), timeout=1500)
    exp = {}
    for x in recs: exp[x['c'] - 1] = (b''.join(bytes([v]) if k == 'b' else b'%d ' % v for k, v in x['o']), x['x'], x['r'])
    if len(exp) != len(cases): raise SystemExit('TLC gave %d results for %d cases' % (len(exp), len(cases)))
    ctx.count('programs', len(progs)); ctx.count('histories', len(cases))
    ctx.sample(dict(source=progs[0].source(False)[len(HEAD):], args=[repr(a) for a in cases[1][1]], status=exp[1][1]))
    rr = {i: __import__('random').Random('%d/%d' % (ctx.seed, i)) for i in range(len(progs))}
    def one(pi):
        if len(ctx.violations) >= 4: return
        p, q = progs[pi], rr[pi]
        src = {True: p.source(True), False: p.source(False)}
        vs = [q.choice(SHV), 'sh', q.choice(EXV), q.choice(['i386', 'x64'])]
        for v in vs:
            sh = pv.is_sh(v)
            if sh and p.void: continue
            d = ctx.dir()
            with open(os.path.join(d, 'p.c'), 'w') as h: h.write(src[sh])
            c, exe = ctx.compile(v, 'p.c', d, out=os.path.join(d, 'p.x'))
            if c.rc != 0 or c.to:
                ctx.violation('P21: a program is rejected by %s: %r' % (v, (c.out + c.err)[-300:]), {'p.c': src[sh]}); return
            script = open(exe, 'rb').read() if sh else b'PATH2 x y'
            for j in range(3):
                ci = 3 * pi + j
                args = cases[ci][1]
                out, status, raw = exp[ci]
                for s in (q.sample(pv.SHELLS, 2) if sh else [None]):
                    if s == 'yash' and any(b > 127 for a in args for b in a): s = 'dash'
                    if s in ('mksh', 'yash', 'zsh') and sum(map(len, args)) > 700: s = 'bash'
                    env = environment(q, script)
                    for k in range(2):
                        g = ctx.execute(v, s, './p.x', d, args=args[1:], env=env, stdin=p.input, timeout=30)
                        ok = g.out == out and g.rc == status and not g.to
                        if ok: break
                    if ok: ctx.count('traces_validated_against_impl'); continue
                    if sh and not 0 <= raw <= 255 and ctx.finding('exit-status-range', 'a status outside of 0..255 given to exit or returned by main (%d under %s)' % (raw, s)): continue
                    ctx.violation('P21: under %s%s with arguments %r and environment %r the program wrote %r and ended with %d (%r); the specification says %r and %d' % (
                        v, '/' + s if s else '', args, env, g.out[-300:], g.rc, g.err[:300], out[-300:], status), {'p.c': src[sh], 'script': script if sh else b''})
                    return
    ctx.pmap(one, range(len(progs)))
    # A variable of the environment that is named like the variable of a string
    d = ctx.dir()
    with open(os.path.join(d, 'p.c'), 'w') as h: h.write('#include <stdio.h>\nint main() { printf("%s\\n", "abc"); puts("x y"); return 0; }\n')
    ctx.compile('sh', 'p.c', d, out=os.path.join(d, 'p.x'))
    for name in ('__str_0', '__str_1', '__str_2'):
        g, h = [ctx.execute('sh', 'dash', './p.x', d, env=e) for e in ({}, {name: '5'})]
        if (g.out, g.rc) != (h.out, h.rc):
            if not ctx.finding('string-name-environment', ''): ctx.violation('P21: a variable %s of the environment replaces a string literal' % name, {})
        else: ctx.count('traces_validated_against_impl')
    ctx.finish()
if __name__ == '__main__': main()
