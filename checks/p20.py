#!/usr/bin/env python3
"""P20: layout and comments.  (a) TLC enumerates every short text and groups its characters into
tokens (Lex.tla); pnut's tokens must be these.  (b) Random programs are written with random white
space, comments, spliced directives and minimal spacing; TLC confirms that the tokens are unchanged,
and the compiled programs must behave as CMachine.tla says the original does."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, crun, genexpr, genstmt
from cgen import *
import cppgen
from p04 import refuse

INV = 'INVARIANT MaxMunch\nINVARIANT Progress\nPROPERTY OutGrows\nPROPERTY Advances\n'
CFG_GEN = 'SPECIFICATION GenSpec\nINVARIANT Report\n' + INV
CFG = 'SPECIFICATION Spec\nINVARIANT Report\n'

# -- (a) ------------------------------------------------------------------
def value(t):
    """what pnut prints for the token t; None when its spelling isn't this check's business"""
    if t[0].isdigit():
        if re.fullmatch('0|[1-9][0-9]{0,8}', t): return t
        if re.fullmatch('0[0-7]{1,9}', t): return str(int(t, 8))
        return None
    if t[0] in '"\'': return None if '\\' in t or '"' in t[1:-1] or "'" in t[1:-1] or (t[0] == "'" and len(t) != 3) or '\n' in t or '\t' in t else t
    return t
NAMES = {}
def words(out): return [NAMES.get(w, w) for w in cppgen.parse(out)]
def learn(ctx):
    """pnut has no readable form for some tokens: see how it prints these"""
    for t in ('...', '++', '--'):
        d = ctx.dir()
        with open(os.path.join(d, 'a.c'), 'w') as f: f.write('x %s y' % t)
        w = cppgen.parse(ctx.run([ctx.bins['cpp'], 'a.c'], d, timeout=10).out)
        if len(w) == 3 and len(w[1]) == 1 and ord(w[1]) > 127: NAMES[w[1]] = t

def tokens(ctx, variant, rec):
    """None when pnut's tokens are those of the record"""
    if rec['d'] or '<eol>' in rec['o']: return None
    if rec['sp'] and variant == 'cpp': return None
    # undefined in C; pnut allows newlines in literals and ''' for the quote
    if rec['m'] == 'quote' and ('\n' in rec['t'] or "'''" in ''.join(rec['t'])): return None
    exp = None
    if rec['m'] == 'done':
        exp = [value(t) for t in rec['o']]
        if None in exp: return None
    text = 'x ' + ''.join(rec['t'])
    for _ in range(2):
        d = ctx.dir()
        with open(os.path.join(d, 'a.c'), 'w', newline='') as f: f.write(text)
        r = ctx.run([ctx.bins[variant], 'a.c'], d, timeout=10)
        got = words(r.out)
        if exp is None: ok = 0 < r.rc < 64 and not r.to
        else:
            ok = r.rc == 0 and not r.to and got == ['x'] + exp
            # two dots are no C token sequence of a valid program
            if not ok and any(a == '.' and b == '.' for a, b in zip(rec['o'], rec['o'][1:])): ok = 0 < r.rc < 64
        if ok: ctx.count('traces_validated_against_impl'); return None
    return ctx.violation('P20: %s reads %r as %s (exit %d); the specification says %s' % (variant, text, got, r.rc, exp if exp is not None else 'an error: ' + rec['m']), {'a.c': text})

def enumerate_texts(ctx):
    r = ctx.rng
    for alpha, n, quick in (('ops', 4, 3500), ('com', 5, 3500), ('words', 4, 1500)):
        if ctx.quick and n == 5: n = 4
        if not ctx.quick and alpha == 'ops': n = 4
        recs, st = ctx.tlc_ok('LexGen', CFG_GEN, env=dict(MAXLEN=n, ALPHA=alpha), timeout=1500)
        ctx.count('enumerated_texts', len(recs))
        recs.sort(key=lambda x: (len(x['t']), x['t']))
        short = [x for x in recs if len(x['t']) <= 2 or (alpha != 'words' and len(x['t']) == 3)]
        rest = recs[len(short):]
        todo = short + r.sample(rest, min(len(rest), ctx.budget(quick, 60000)))
        ctx.log('%s: %d texts, %d run' % (alpha, len(recs), len(todo)))
        def one(x):
            if len(ctx.violations) >= 3: return
            tokens(ctx, 'cpp', x)
            if x['sp'] or r.random() < .1: tokens(ctx, 'cppcont', x)
        ctx.pmap(one, todo)
        if ctx.violations: return

# -- (b) ------------------------------------------------------------------
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|\S')
def split(text): return TOK.findall(text)
def glue(a, b):
    """may b directly follow a?"""
    if a in ('<bol>', '<eol>') or b == '<eol>': return True
    if (a[-1].isalnum() or a[-1] == '_') and (b[0].isalnum() or b[0] == '_' or b[0] == '.'): return False
    if a[-1] == '.' and b[0].isdigit(): return False
    x = a + b
    return not any(x.startswith(m) and len(m) > len(a) for m in cppgen.MULTI + ('...',)) and x[:2] not in ('//', '/*') and not (a == '<' and b[0] in '<=:%')

BLOCK = ['/**/', '/***/', '/* c */', '/*/ */', '/* // */', '/* "a */', "/* it's */", '/* # */', '/* \\ */', '/* /* */', '/* ; } */', '/* * / */', '/*a*//*b*/', '/** x **/', '/*//*/',
         '/* \u00e9\u20ac */', '/* $(id) `x` */', '/*+*/', '/* ??/ */', '/* %d */', '/*\t*/']
BLOCKNL = ['/*\n#define K 7\n*/', '/*\n#endif\n*/', '/*\r\n*/', '/****\n ** x\n ****/', '/*\n\n\n*/', '/* \n // */', '/*#if 0\n*/', '/* a \\\n b */', "/*\n'EOF'\n*/"]
LINE = ['//\n', '// c\n', '// /*\n', '// */ "\n', "// it's #\n", '//# \n', '// \\n x\n', '////\n', '///* \n', '// } {\n', '//\\ \n', '// \u00e9\n', '//\t$x\r\n', '//include "x"\n']
LINECONT = ['// a \\\n b }\n', '//\\\n\n', '/\\\n/ c\n', '/\\\n* c */', '/* c *\\\n/']
WHITE = [' ', ' ', ' ', '  ', '\t', '\t ', '\f', ' \f ', '\r', '\\\n ', ' \\\n ', ' \\\n\\\n']
WHITENL = ['\n', '\n', '\n  ', '\r\n', '\n\n\n', ' \n \n\t', '\n\\\n', '\f\n']

class Layout:
    def __init__(self, r, cont, style=None):
        self.r, self.cont = r, cont
        self.style = style or r.choice(['tight', 'mixed', 'wild', 'lines', 'comments'])
    def gap(self, a, b, dirline=False):
        r = self.r
        nl = not dirline
        s = self.style
        p = dict(tight=(1, 0, 0, 0), mixed=(.5, .3, .1, .1), wild=(.1, .3, .3, .3), lines=(.1, .1, .6, .2), comments=(.05, .15, .1, .7))[s]
        t = r.random()
        if t < p[0]: g = ''
        elif t < p[0] + p[1]: g = r.choice(WHITE)
        elif t < p[0] + p[1] + p[2]: g = r.choice(WHITENL if nl else WHITE)
        else:
            g = ''
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                u = r.random()
                if u < .4: g += r.choice(BLOCK)
                elif u < .6: g += r.choice(BLOCKNL)
                elif u < .8 and nl: g += r.choice(LINE)
                elif self.cont and u < .85: g += r.choice(LINECONT[2:] if not nl else LINECONT) if nl else '/* c *\\\n/'
                else: g += r.choice(WHITE)
        if g == '' and not glue(a, b): g = r.choice(WHITE[:9] if dirline else WHITE[:9] + ['\n', '/**/', '/*\n*/'])
        # a comment sign must not arise from a token and the gap
        if g and ((a[-1] == '/' and g[0] in '/*\\') or (a[-1] in '+-<>=&|.#' and g[0] == '\\')): g = ' ' + g
        if g == '' and r.random() < .03 and a[-1] not in '/+-<>=&|.#': g = '\\\n'
        return g
    def word(self, t):
        """with line continuations anywhere: also inside tokens"""
        if self.cont and len(t) > 1 and self.r.random() < .05:
            k = self.r.randrange(1, len(t))
            if t[k - 1] != '\\': return t[:k] + '\\\n' * self.r.choice([1, 1, 2]) + t[k:]
        return t
    def line(self, toks):
        """a directive"""
        r = self.r
        o = r.choice(['', '', ' ', '\t', '  ', '/* c */', '/**/ ', ' /*\n*/\t'])
        for i, t in enumerate(toks):
            o += self.word(t)
            if i + 1 < len(toks):
                g = self.gap(t, toks[i + 1], True)
                if toks[1] == 'define' and i == 2 and g.replace('\\\n', '') == '': g = ' ' + g   # not a parameter list
                o += g
        return o + r.choice(['', '', ' ', '\t', ' // c', '// "x', ' /* c */', '/*\n*/', ' \\\n ', '/* // */ ', '\r']) + r.choice(['\n', '\n', '\n\n', '\n \n'])
    def lines(self, groups):
        """groups: lists of tokens; a group that starts with # is a directive"""
        o = ''
        for g in groups:
            if g and g[0] == '#':
                if o and not o.endswith('\n'): o += self.r.choice(['\n', ' \n', '// c\n', '/* c */\n', '/* \n */ \n', '\r\n'])
                o += self.line(g)
            else:
                o += self.r.choice(['', '', ' ', '\n', '/* c */'])
                for i, t in enumerate(g): o += self.word(t) + (self.gap(t, g[i + 1]) if i + 1 < len(g) else self.r.choice(['\n', '', ' ', '/**/', '// c\n']))
        return o if o.endswith('\n') else o + '\n'

def with_macros(r, num, toks):
    """some of the tokens become macros, and directives that change nothing are inserted between declarations"""
    groups = []
    names = {}
    for i, t in enumerate(toks):
        if t.isdigit() and r.random() < .12:
            if t not in names:
                names[t] = 'K%dn%d' % (num, len(names))
                groups.append(['#', 'define', names[t]] + ([t] if r.random() < .6 else ['(', t, '+', '0', ')']))
            toks[i] = names[t]
    depth = 0
    cur = []
    for i, t in enumerate(toks):
        cur.append(t)
        depth += t == '{'; depth -= t == '}'
        if t in (';', '}', '{') and r.random() < .06 and not (t == '}' and i + 1 < len(toks) and toks[i + 1] in ('else', 'while')) and cur.count('(') == cur.count(')'):
            groups.append(cur); cur = []
            groups += r.choice([[['#', 'if', '0'], ['}', 'x', '(', '*', '/', '"b"'], ['#', 'endif']],
                                [['#', 'ifdef', 'NOTDEFINED'], ['#', 'else'], ['#', 'endif']],
                                [['#', 'undef', 'NOTDEFINED']],
                                [['#', 'define', 'Z%d' % num, '#', '"'][:3] + ['x']],
                                [['#', 'if', '1', '+', '(', '-', '1', ')'], ['return', '1', ';'], ['#', 'else'], ['#', 'endif']],
                                [['#', 'ifndef', 'NOTDEFINED'], ['#', 'else'], ['#', 'if', '1'], ['{', '{'], ['#', 'endif'], ['#', 'endif']]])
    if cur: groups.append(cur)
    return groups

def expected(groups):
    o = []
    for g in groups: o += g + (['<eol>'] if g and g[0] == '#' else [])
    return o

def relayout(ctx, cont):
    r = ctx.rng
    def post(cases):
        data = []
        for c in cases:
            groups = with_macros(r, c.num, split(c.txt))
            c.txt = Layout(r, cont).lines(groups)
            data.append(dict(t=list(c.txt), tk=expected(groups)))
        f = os.path.join(ctx.scratch, 'lex%d.json' % ctx.n); ctx.n += 1
        with open(f, 'w') as h: json.dump(data, h)
        recs, st = ctx.tlc_ok('Lex', CFG, env=dict(CASES_FILE=f), timeout=1500)
        os.unlink(f)
        if os.environ.get('P20_DEBUG'):
            for x in recs:
                if not x['eq']:
                    print(repr(cases[x['c'] - 1].txt)); print(x['m']); print(data[x['c'] - 1]['tk']); break
        keep = {x['c'] - 1 for x in recs if x['eq'] and (cont or not x['sp'])}
        ctx.count('layouts_not_confirmed', len(cases) - len(keep))
        if len(keep) < len(cases) * .9: raise SystemExit('the layouts are wrong: only %d of %d kept' % (len(keep), len(cases)))
        return [c for i, c in enumerate(cases) if i in keep]
    return post

def programs(r, n):
    P = []
    while len(P) < n:
        if r.random() < .5: P.append(genstmt.S(r, ['calls', 'switch'], nfun=r.randrange(1, 3), size=r.choice([5, 8])).prog('layout', r.sample(range(8), 2)))
        else:
            g = genexpr.G(r)
            st = []
            for _ in range(r.randrange(2, 5)):
                e = g.good(lambda: g.expr(r.choice([2, 3])))
                if e is None: continue
                try: genexpr.ev(e, g.env)
                except genexpr.Undef: continue
                st.append(blk(*genexpr.contexts(g, e)))
            P.append(g.prog(st, 'layout'))
    return P

def plan(ctx, i):
    S = pv.SHELLS
    return [('sh', S[i % 6]), ('shc', S[(i + 1) % 4]), ('shrel', S[(i + 2) % 6]), ('i386', None), ('x64', None)]
def plan_cont(ctx, i): return [('shcont', pv.SHELLS[i % 6]), ('x64cont', None)]

def main():
    ctx = pv.Ctx('P20')
    r = ctx.rng
    ctx.build(['cpp', 'cppcont'])
    learn(ctx)
    enumerate_texts(ctx)
    if not ctx.violations:
        crun.decide(ctx, programs(r, ctx.budget(400, 5000)), chunk=400, plan=plan, variants=['sh', 'shc', 'shrel', 'i386', 'x64'], post=relayout(ctx, False), may_reject=refuse)
    if not ctx.violations:
        crun.decide(ctx, programs(r, ctx.budget(200, 2500)), chunk=400, plan=plan_cont, variants=['shcont', 'x64cont'], post=relayout(ctx, True), may_reject=refuse)
    ctx.finish()
if __name__ == '__main__': main()
