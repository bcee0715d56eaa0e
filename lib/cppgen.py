"""Preprocessor inputs as data: construction, layout as source files, running pnut as a
preprocessor (DEBUG_CPP), and comparison with the behaviours of CPP.tla."""
import json, os, re
import pv

CFG = '''SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Report
PROPERTY OutGrows
PROPERTY OneGroup
PROPERTY SkipInert
'''

def I(s): return dict(k='id', s=s)
def N(n): return dict(k='int', s=str(n))
def P(s): return dict(k='p', s=s)
TOK = re.compile(r'\s*(?:([A-Za-z_]\w*)|(\d+)|(##|&&|\|\||<<|>>|<=|>=|==|!=|.))')
def toks(s):
    r = []
    for a, b, c in TOK.findall(s):
        if a: r.append(I(a))
        elif b: r.append(N(b))
        elif c.strip(): r.append(P(c))
    return r

def item(k, **a): return dict(k=k, ln=0, **a)
def text(ts): return item('t', toks=ts)
def define(name, body, ps=None): return item('def', name=name, fn=ps is not None, ps=ps or [], body=body)

MULTI = ('++', '--', '<<', '>>', '&&', '||', '##', '<=', '>=', '==', '!=', '->', '//', '/*', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')
def needs_space(a, b):
    """must white space separate these two tokens?"""
    wa, wb = a['k'] in ('id', 'int'), b['k'] in ('id', 'int')
    if wa and wb: return True
    if a['k'] == 'p' and b['k'] == 'p':
        x = a['s'] + b['s']
        return any(x.startswith(m) and len(m) > len(a['s']) for m in MULTI) or a['s'] + b['s'][:1] in MULTI
    return False

def spell(ts, r, nl=False, lead=''):
    """tokens with random white space; with nl also newlines and comments"""
    o = lead
    for i, t in enumerate(ts):
        if i:
            x = r.random()
            if nl and x < .06: o += '\n'
            elif x < .08: o += ' /* c */ '
            elif nl and x < .10: o += ' // c\n'
            elif x < .6 or needs_space(ts[i - 1], t): o += ' '
            elif x < .65: o += '\t '
        o += t['s']
    return o

def layout(items, r, nl=False, trail=True, start=1):
    """source text of the items; sets the line of each"""
    out, line = [], start
    def add(s):
        nonlocal line
        out.append(s); line += s.count('\n')
    for it in items:
        while r.random() < .08: add(r.choice(['\n', '  \n', '/* x\n y */\n', '// #endif\n']))
        it['ln'] = line
        k = it['k']
        ind = r.choice(['', '', '', '  ']) ; sp = r.choice(['', '', '', ' '])
        if k == 't':
            uses = any(t['s'] in ('__LINE__',) for t in it['toks'])
            add(spell(it['toks'], r, nl and not uses, ind) + '\n')
            continue
        if k == 'bad':
            add(ind + 'int = 5 ;\n'); continue
        if k == 'def':
            s = 'define ' + it['name']
            if it['fn']: s += '(' + (', ' if r.random() < .5 else ',').join(it['ps']) + ')'
            if it['body']: s += ' ' + spell(it['body'], r)
        elif k in ('undef', 'ifdef', 'ifndef'): s = k + ' ' + it['name']
        elif k in ('if', 'elif'): s = k + ' ' + spell(it['toks'], r)
        elif k in ('else', 'endif'): s = k
        elif k in ('inc', 'inca'):
            s = 'include' + r.choice([' ', ' ', '  ', '', '\t']) + ('"%s%s"' if k == 'inc' else '<%s%s>') % (it['sub'], it['name'])
            s += r.choice(['', '', '', ' ', ' // c', '// "x"', ' /* c */', '/* c\n d **/ ', '\t /*/ c*/ // x'])
        elif k == 'err': s = 'error stop here'
        elif k == 'null': s = ''
        elif k == 'warn': s = 'warning ' + it['s']
        elif k == 'raw': s = it['s']
        add(ind + '#' + sp + s + '\n')
    s = ''.join(out)
    if not trail and s.endswith('\n'): s = s[:-1]
    return s

class Case:
    """files: {path: items}; trail: {path: does the file end with a newline}"""
    def __init__(self, items, tag='', files=None, r=None, top='m.c', dir='', trail=None, nl=False, wrap=None, search='', aliases=None):
        self.items, self.tag, self.top, self.dir = items, tag, top, dir
        self.files = {top: items}; self.files.update(files or {})
        self.paths = {p: i + 1 for i, p in enumerate(self.files)}
        self.search, self.aliases = search, aliases or {}
        trail = trail or {}
        self.text = {p: layout(its, r, nl, trail=trail.get(p, True), start=1 + (wrap[0].count('\n') if wrap and p == top else 0)) for p, its in self.files.items()}
        self.wrap = wrap
        if wrap: self.text[top] = wrap[0] + self.text[top] + wrap[1]
    def args(self): return ['-I', self.search] if self.search else []
    def data(self):
        strip = lambda it: {k: v for k, v in it.items()}
        return dict(f=[[strip(i) for i in its] for its in self.files.values()], fs=dict(self.paths, **self.aliases), top=self.top, dir=self.dir, search=self.search)

def outcomes(ctx, cases, timeout=600):
    """[list of (mode, tokens, path, line)]: the behaviours the specification allows"""
    f = os.path.join(ctx.scratch, 'cpp%d.json' % ctx.n); ctx.n += 1
    with open(f, 'w') as h: json.dump([c.data() for c in cases], h)
    recs, st = ctx.tlc_ok('CPP', CFG, env=dict(CASES_FILE=f), timeout=timeout)
    os.unlink(f)
    res = [[] for _ in cases]
    for r in recs: res[r['c'] - 1].append((r['m'], tuple(t[1] if t[0] != 'str' else '"%s"' % t[1] for t in r['o']), r['p'], r['l']))
    return res

OUT = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\S+')
def parse(out):
    r = []
    for w in OUT.findall(out.decode('latin1')):
        if re.fullmatch(r'-\d+', w): w = w[1:]
        r.append(w)
    return tuple(r)

def write(case, d):
    for p, t in case.text.items():
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'w') as f: f.write(t)

def run_cpp(ctx, case, variant='cpp'):
    d = ctx.dir()
    write(case, d)
    for root, ds, fs in os.walk(d):
        os.chmod(root, 0o755)
    r = ctx.run([ctx.bins[variant]] + case.args() + [case.top], d, timeout=10)
    return r

IGNORE = ('U', 'bad', 'big', 'arity', 'unterminated')
def decide(ctx, cases, ignore=IGNORE, variant='cpp', chunk=3000, finding_key=None):
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        exp = outcomes(ctx, part)
        todo = []
        for c, e in zip(part, exp):
            ms = {x[0] for x in e}
            if ms & set(ignore):
                for m in ms & set(ignore): ctx.count('discarded_' + m)
                continue
            todo.append((c, e))
            if len(todo) % 211 == 1: ctx.sample(dict(source=c.text[c.top][:700], allowed=[' '.join(x[1])[:300] for x in e][:1]))
        ctx.log('%d cases, %d with a defined result' % (len(part), len(todo)))
        ctx.count('cases', len(todo))
        def one(ce):
            c, e = ce
            if len(ctx.violations) >= 5: return
            ok, got = judge(ctx, c, e, variant)
            if not ok: ok, got = judge(ctx, c, e, variant)
            if ok: ctx.count('traces_validated_against_impl'); return
            k = finding_key(c, got) if finding_key else None
            if k and ctx.finding(k, c.tag): return
            ctx.violation('%s: %s the preprocessor produced %s; the specification allows %s' % (ctx.pid, c.tag, got, sorted({(x[0], ' '.join(x[1])) for x in e})), dict(c.text))
        ctx.pmap(one, todo)
        if ctx.violations: return

def judge(ctx, c, e, variant):
    r = run_cpp(ctx, c, variant)
    if r.to: return False, 'timeout'
    for m, o, p, l in e:
        if m == 'done' and r.rc == 0 and parse(r.out) == o: return True, ''
        if m in ('err', 'unbalanced', 'nofile') and 0 < r.rc < 64:
            if m != 'err' or parse(r.out)[:len(o)] == o: return True, ''
    return False, 'exit %d: %s' % (r.rc, ' '.join(parse(r.out))[:600])

def decide_compile(ctx, cases, variants, ignore=IGNORE, chunk=3000):
    """the program and its preprocessed form (from the specification) must compile to the same code"""
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        exp = outcomes(ctx, part)
        todo = []
        for c, e in zip(part, exp):
            ms = {x[0] for x in e}
            if ms & set(ignore):
                for m in ms & set(ignore): ctx.count('discarded_' + m)
            elif ms == {'done'}: todo.append((c, sorted({x[1] for x in e})))
        ctx.log('%d programs, %d with a defined result' % (len(part), len(todo)))
        ctx.count('programs', len(todo))
        def comp(v, d, name, args=()):
            args = list(args)
            r = ctx.run([ctx.bins[v]] + args + [name], d, timeout=20)
            return ('code', re.sub(rb'(?m)^[ \t]*#(?!!).*\n', b'', r.out) if v.startswith('sh') else r.out) if r.rc == 0 else ('rejected', ctx.code(r.rc) if hasattr(ctx, 'code') else min(r.rc, 64))
        def one(ce):
            c, outs = ce
            if len(ctx.violations) >= 5: return
            for v in variants:
                d = ctx.dir()
                write(c, d)
                refs = []
                for k, o in enumerate(outs):
                    with open(os.path.join(d, 'e%d.c' % k), 'w') as f: f.write(c.wrap[0] + ' '.join(o).replace(' ; ', ' ;\n') + '\n' + c.wrap[1])
                os.chmod(d, 0o755)
                for root, ds, fs in os.walk(d): os.chmod(root, 0o755)
                for k in range(len(outs)): refs.append(comp(v, d, 'e%d.c' % k))
                got = comp(v, d, c.top, c.args())
                if got not in refs: got = comp(v, d, c.top, c.args())
                if got not in refs:
                    ctx.violation('%s: %s with variant %s the program does not compile like its preprocessed form %s (%s, expected %s)' % (ctx.pid, c.tag, v, [' '.join(o) for o in outs], got[0], [x[0] for x in refs]),
                                  dict(c.text, **{'expected%d.c' % k: c.wrap[0] + ' '.join(o) + c.wrap[1] for k, o in enumerate(outs)}))
                    return
                ctx.count('compiled_alike' if got[0] == 'code' else 'refused_alike')
            ctx.count('traces_validated_against_impl')
        ctx.pmap(one, todo)
        if ctx.violations: return
