"""Source files of many kinds, for checks that need inputs and no oracle of their own."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import pv, cgen, crun, genexpr, genstmt, cppgen, iogen, heapgen, rejgen

class Input:
    def __init__(self, kind, files, top='m.c', args=()): self.kind, self.files, self.top, self.args = kind, files, top, list(args)
    def lines(self): return sum(t.count('\n') for t in self.files.values())
    def size(self): return sum(len(t) for t in self.files.values())

def statements(r, exe):
    ft = [f for f in ('calls', 'switch', 'blockdec') if r.random() < .5] + (['goto'] if exe and r.random() < .4 else [])
    p = genstmt.S(r, ft, nfun=r.randrange(1, 4), size=r.choice([4, 8, 12])).prog('s', r.sample(range(8), 2))
    c = crun.Case(0, p, [])
    return Input('statements', {'m.c': cgen.file_text([(0, p, c.txt)], exe)})
def expressions(r, exe):
    import p22
    p = p22.expr_prog(r)
    c = crun.Case(0, p, [])
    return Input('expressions', {'m.c': cgen.file_text([(0, p, c.txt)], exe)})
def switches(r, exe):
    import p22
    p = p22.switch_prog(r, 0)
    c = crun.Case(0, p, [])
    return Input('switches', {'m.c': cgen.file_text([(0, p, c.txt)], exe)})
def heap(r, exe):
    g = heapgen.Gen(r, exe, r.choice([8, 20]), r.choice([4, 8]), exe)
    return Input('heap', {'m.c': g.source()})
def io(r, exe):
    import p12
    files = {f: b'a\n' for f in 'AB'}; files['W'] = b''
    ops = iogen.Gen(r, b'x\n', files, r.choice([6, 12]), p12.W, False).ops
    return Input('io', {'m.c': iogen.Case(b'x\n', files, ops).source(exe, r)})
def refused(r, exe):
    g = rejgen.Gen(r)
    keys = [(t, k) for t in (rejgen.EXPR, rejgen.STMT, rejgen.TOP) for k in t]
    ops, what = g.program(r.choice([[], [r.choice(keys)], [r.choice(keys)], [None]]))
    R = rejgen.Render(r, ops)
    t = R.text()
    return Input('refusals', dict(R.files, **{'m.c': t}))
def macros(r, exe):
    import p07
    return from_cpp('macros', cppgen.Case(p07.ME(r, r.choice([0, .2])).items(), r=r, nl=True, wrap=p07.WRAP))
def trees(r, exe):
    import p08
    return from_cpp('includes', p08.Tree(r, True, err=r.random() < .2).case('tree of statements', p08.WRAP))
def conditionals(r, exe):
    import p06
    g = p06.Gen(r); its = []
    for n in r.sample('ABCDE', r.randrange(0, 4)): its.append(cppgen.define(n, r.choice([[cppgen.N(0)], [cppgen.N(1)], [cppgen.N(4)], [cppgen.I('B')], []])))
    its.append(cppgen.define('F', cppgen.toks(r.choice(['p', '( p == 1 )', 'p + 1'])), ['p']))
    for _ in range(r.randrange(1, 4)): its += g.conditional(r.choice([1, 2, 3]), False)
    return from_cpp('conditionals', cppgen.Case(its, r=r, wrap=('int main() {\n', '\nreturn 0; }\n')))
def from_cpp(kind, c): return Input(kind, dict(c.text), c.top, c.args())

WORDS = ['a', 'b', 'x1', 'value', 'very_long_identifier_number_', 'i', 'l0', 'O0', 'return_', 'whileX', 'Int', 'main2', 'IFS', 'PATH', 'argv', 'argc', 'printf_', 'zz9']
def names(r, exe):
    """many identifiers, strings and numbers: hash tables and pools"""
    n = r.choice([5, 15, 30])
    ids = list(dict.fromkeys(r.choice(WORDS) + ''.join(r.choice('abcXYZ019_') for _ in range(r.choice([1, 2, 5, 30]))) + 'q' for _ in range(n)))
    lits = ['"%s"' % ''.join(r.choice('abc $`"\'!*?[]{}()<>|&;#~=%+-,./:@^_').replace('"', '\\"') for _ in range(r.randrange(0, 25))) for _ in range(n)]
    num = lambda: r.choice([str(r.randrange(0, 2 ** r.randrange(1, 32))), '0x%X' % r.randrange(0, 2 ** 31), '0%o' % r.randrange(0, 2 ** 20), "'%s'" % r.choice('abcxyzAZ09 #$&*(){};:,.<>|!?@[]^_`~+-/=%"'), "'\\n'", "'\\0'", "'\\''", "'\\\\'"])
    t = '#include <stdio.h>\n#include <stdlib.h>\n'
    for x in ids:
        t += r.choice(['int %s = %s;\n' % (x, num()), 'char *%s = %s;\n' % (x, r.choice(lits)), 'enum { %s = %s };\n' % (x, num()), 'struct %s { int %sm; char *%sn; struct %s *%so; };\n' % (x, x, x, x, x),
                       'typedef int %s;\n' % x, '#define %s %s\n' % (x, num()), 'int %s(int a, int b) { return a * b + %s; }\n' % (x, num()), 'int %s[3] = { %s, %s, %s };\n' % (x, num(), num(), num()), 'char %s[%d];\n' % (x, r.randrange(1, 40))])
    t += 'int main() {\n' + ''.join('  puts(%s);\n' % l for l in lits[:6]) + ''.join('  putchar(%s);\n' % num() for _ in range(4))
    if not exe: t += ''.join('  printf(%s);\n' % l.replace('%', '%%') for l in lits[6:9])
    return Input('names', {'m.c': t + '  return 0;\n}\n'})
def nested(r, exe):
    """deep nesting and long lists"""
    d = r.choice([5, 15, 40])
    k = r.randrange(5)
    if k == 0: b = 'return ' + '(' * d + 'g' + ')' * d + ';'
    elif k == 1: b = 'return ' + ' + '.join(r.choice(['g', '1', 'h(2)', '-3', '~g']) for _ in range(d)) + ';'
    elif k == 2: b = ''.join('if (g == %d) { ' % i for i in range(d)) + 'g = 1;' + ' }' * d + ' return 0;'
    elif k == 3: b = 'return ' + 'h(' * d + '1' + ')' * d + ';'
    else: b = 'return ' + ''.join('g == %d ? %d : ' % (i, r.randrange(99)) for i in range(d)) + '0;'
    return Input('nesting', {'m.c': 'int g;\nint h(int a) { return a + g; }\nint main() { %s }\n' % b})
def repo_files(lim=150):
    out = []
    for base in ('examples', 'tests'):
        for root, ds, fs in sorted(os.walk(os.path.join(pv.REPO, base))):
            if 'compiled' in root: continue
            for f in sorted(fs):
                if f.endswith('.c'):
                    t = open(os.path.join(root, f), encoding='latin1').read()
                    if t.count('\n') <= lim and '#include "' not in t and all(ord(c) < 128 for c in t): out.append(Input('repository', {'m.c': t}))
    return out
TOK = re.compile(r'\w+|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\s+|[^\w\s]')
def mutated(r, x):
    """x with tokens removed, repeated, exchanged or replaced"""
    t = x.files[x.top]
    ts = TOK.findall(t)
    ix = [i for i, w in enumerate(ts) if not w.isspace()]
    if len(ix) < 4: return x
    for _ in range(r.choice([1, 1, 2, 3])):
        i, j = r.choice(ix), r.choice(ix)
        k = r.randrange(5)
        if k == 0: ts[i] = ''
        elif k == 1: ts[i] = ts[i] + ' ' + ts[i]
        elif k == 2: ts[i], ts[j] = ts[j], ts[i]
        elif k == 3: ts[i] = ts[j]
        else: ts[i] = r.choice(['(', ')', '{', '}', ';', ',', '*', '&', '=', '0', '1', 'int', 'if', 'return', 'struct', 'x', '[', ']', '"s"', '+', '->', ':', '?', 'case', 'break', 'char', '#', 'while', 'sizeof', 'typedef', 'enum'])
    return Input('mutated ' + x.kind, dict(x.files, **{x.top: ''.join(ts)}), x.top, x.args)
KINDS = [statements, expressions, switches, heap, io, refused, refused, macros, trees, conditionals, names, names, nested]
def make(r, exe, mutate=.25):
    while True:
        try: x = r.choice(KINDS)(r, exe)
        except (IndexError, genexpr.Undef): continue
        return mutated(r, x) if r.random() < mutate else x
