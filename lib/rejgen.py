"""Programs for P18: sequences of operations (see spec/Reject.tla), their C text, and the catalogue of
constructs that the backends refuse."""

# name: (text, verdicts of shell / native / native in safe mode (o accepted, m may be refused, b refused), class, flags)
# class: lex (found by the scanner), syn (by the parser), sem (by the code generation)
# flags: c contains a call, d is a declaration, 1 at most once in a program, m must not be put in a macro
EXPR = {
 'address of a local': ('((int) &loc)', 'boo', 'sem', ''), 'address of a parameter': ('((int) &p)', 'boo', 'sem', ''),
 'call in a branch': ('(loc ? f(1) : 0)', 'boo', 'sem', 'c'), 'call in the other branch': ('(loc ? 0 : f(1))', 'boo', 'sem', 'c'),
 'call deep in a branch': ('(loc ? 1 + (2 * f(1)) : 0)', 'boo', 'sem', 'c'), 'call in a nested branch': ('(loc ? (g ? 2 : f(1)) : 0)', 'boo', 'sem', 'c'),
 'floating constant': ('(1.5)', 'bbb', 'syn', ''), 'floating constant 2': ('(1e3)', 'bbb', 'syn', ''), 'floating constant 3': ('(.5)', 'bbb', 'syn', ''),
 'wide character constant': ("('ab')", 'bbb', 'lex', ''), 'empty character constant': ("('')", 'bbb', 'lex', ''), 'escape': ("('\\q')", 'bbb', 'lex', ''),
 'escape in a string': ('(*"ab\\q")', 'bbb', 'lex', ''), 'hexadecimal without digits': ('(0x)', 'bbb', 'lex', ''), 'hexadecimal with a bad digit': ('(0xg)', 'bbb', 'lex', ''),
 'hexadecimal escape': ("('\\x')", 'bbb', 'lex', ''), 'character': ('(1 @ 2)', 'bbb', 'lex', ''), 'character $': ('(g$)', 'bbb', 'lex', ''), 'character `': ('(`g`)', 'bbb', 'lex', ''),
 'sizeof of an array': ('sizeof(ga)', 'boo', 'sem', ''), 'sizeof of a variable': ('sizeof(loc)', 'boo', 'sem', ''),
 'compound literal': ('((int[]){1})', 'bbb', 'syn', ''), 'undeclared identifier': ('undecl', 'mbb', 'sem', ''), 'undeclared function': ('undeclf(1)', 'mbb', 'sem', 'c'),
 'missing argument': ('f2(1)', 'mmb', 'sem', 'c'), 'surplus argument': ('f2(1, 2, 3)', 'mmb', 'sem', 'c'), 'surplus argument 2': ('f(1, 2)', 'mmb', 'sem', 'c'),
 'assignment to a constant': ('(1 = 2)', 'bbb', 'sem', ''), 'assignment to a call': ('(f(1) = 2)', 'mbb', 'sem', 'c'), 'increment of a call': ('(++f(1))', 'mbb', 'sem', 'c'),
 'increment of a call 2': ('(f(1)++)', 'mbb', 'sem', 'c'), 'address of a constant': ('((int) &1)', 'bbb', 'sem', ''), 'address of a call': ('((int) &f(1))', 'bbb', 'sem', 'c'),
 'assignment to a sum': ('((loc + 1) = 2)', 'bbb', 'sem', ''), 'increment of a sum': ('(++(loc + 1))', 'bbb', 'sem', ''), 'assignment to a negation': ('(-loc = 1)', 'bbb', 'sem', ''),
 'increment of a sum 2': ('((loc + 1)++)', 'bbb', 'sem', ''), 'compound assignment to a sum': ('((loc + 1) += 2)', 'bbb', 'sem', ''),
 'dereference of an int': ('(*loc)', 'mbb', 'sem', ''), 'index of an int': ('loc[loc]', 'mbb', 'sem', ''), 'member of an int': ('(loc->m)', 'mbb', 'sem', ''),
 'unknown member': ('(gp->zz)', 'mbb', 'sem', ''), 'member with .': ('(loc.m)', 'bbb', 'sem', ''), 'unknown struct': ('(((struct T*) gp)->m)', 'mbb', 'sem', ''),
 'member of a value': ('((*gp).m)', 'boo', 'sem', ''),
 'floating cast': ('((float) 1)', 'bbb', 'syn', ''), 'floating cast 2': ('((double) loc)', 'bbb', 'syn', ''),
 'call of an int': ('loc(1)', 'bmm', 'sem', 'c'), 'call through a pointer': ('(&f)(1)', 'boo', 'sem', 'c'), 'call through a pointer 2': ('(*f)(1)', 'boo', 'sem', 'c'),
 'function as a value': ('((int) f)', 'boo', 'sem', ''), 'function as a condition': ('(f == 0)', 'boo', 'sem', ''),
 'assignment to an array': ('((int) (ga = 1))', 'mmm', 'sem', ''), 'number with letters': ('(12ab)', 'bbb', 'syn', ''), 'octal digit': ('(09)', 'bbb', 'syn', ''),
 'stray #': ('(1 # 2)', 'bbb', 'syn', 'm'), 'empty parentheses': ('()', 'bbb', 'syn', ''), 'missing operand': ('(1 +)', 'bbb', 'syn', ''), 'missing member': ('(gp->)', 'bbb', 'syn', ''),
 'missing index': ('(ga[])', 'bbb', 'syn', ''), '_Alignof': ('(_Alignof(int))', 'bbb', 'syn', ''), '_Generic': ('(_Generic(1, int: 2))', 'bbb', 'syn', ''), 'statement expression': ('({ 1; })', 'bbb', 'syn', ''),
 'address of a label': ('(&&lab)', 'bbb', 'syn', ''), 'omitted operand': ('(loc ?: 3)', 'bbb', 'syn', ''), 'missing bracket': ('(ga[1)', 'bbb', 'syn', ''), 'missing colon': ('(g ? 1)', 'bbb', 'syn', ''),
 'dots': ('(1 .. 2)', 'bbb', 'lex', ''), 'two operands': ('(1 2)', 'bbb', 'syn', ''), 'surplus comma': ('(f(1,))', 'bbb', 'syn', 'c'), 'unsigned cast': ('((unsigned) loc)', 'boo', 'syn', ''),
}
GOODX = [('f(g)', 'c'), ('ga[1]', ''), ('gp->m', ''), ('(*gs)', ''), ('(-g)', ''), ('(!g)', ''), ('(g ? 1 : 2)', ''), ('f2(f(1), f(2))', 'c'), ('(g = 1)', ''), ('(loc, 2)', ''), ('sizeof(int)', ''),
         ('sizeof(char*)', ''), ('((int) gs)', ''), ('(loc++)', ''), ('(--ga[loc & 3])', ''), ("'a'", ''), ("'\\n'", ''), ('0x1F', ''), ('017', ''), ('(loc += 2)', ''), ('gp->next->m', ''), ('(g && loc)', ''),
         ('(f(1) + f(g))', 'c'), ('(&ga[1] - ga)', ''), ('(*(ga + loc))', ''), ('(g < loc || !loc)', '')]
STMT = {
 'static local': ('static int s%d = 3;', 'boo', 'sem', 'd'), 'extern local': ('extern int e%d;', 'bbb', 'sem', 'd'), 'local array': ('int la%d[2];', 'boo', 'sem', 'd'),
 'initialized local array': ('int la%d[2] = {1, 2};', 'boo', 'sem', 'd'), 'local array without size': ('int la%d[];', 'bbb', 'sem', 'd'), 'local struct': ('struct S ls%d;', 'boo', 'sem', 'd'),
 'local array of structs': ('struct S ls%d[2];', 'boo', 'sem', 'd'), 'name _x': ('int _x%d;', 'boo', 'sem', 'd'), 'name x_': ('int x_;', 'boo', 'sem', 'd1'), 'name IFS': ('int IFS;', 'boo', 'sem', 'd1'),
 'name argv_': ('int argv_;', 'boo', 'sem', 'd1'), 'name PATH_': ('int PATH_;', 'boo', 'sem', 'd1'), 'float local': ('float q%d;', 'bbb', 'syn', 'd'), 'double local': ('double q%d;', 'bbb', 'syn', 'd'),
 'pointer to float': ('float *q%d;', 'bbb', 'syn', 'd'), 'local union': ('union { int a; char b; } w%d;', 'boo', 'sem', 'd'), 'nested function': ('int nf%d(int q) { return q; }', 'bbb', 'syn', 'd'),
 'initializer in braces': ('int q%d = {1};', 'boo', 'sem', 'd'), 'surplus initializer': ('int q%d = {1, 2};', 'bbb', 'sem', 'd'), 'variable length': ('int vl%d[loc];', 'bbb', 'syn', 'd'),
 'switch without body': ('switch (loc) ;', 'bmm', 'sem', ''), 'empty switch': ('switch (loc) {}', 'bmm', 'sem', ''), 'else without if': (';else g = 1;', 'bbb', 'syn', ''),
 'missing semicolon': ('g = 1 g = 2;', 'bbb', 'syn', ''), 'missing semicolon 2': ('do g = 1; while (0) g = 2;', 'bbb', 'syn', ''), 'two values': ('return 1 2;', 'bbb', 'syn', ''),
 'braces in a call': ('f({1});', 'bbb', 'syn', ''), 'keyword as name': ('int while;', 'bbb', 'syn', 'd'), 'number as name': ('int 1a;', 'bbb', 'syn', 'd'), 'two types': ('int char q%d;', 'bbb', 'syn', 'd'),
 'two storage classes': ('static extern int q%d;', 'bbb', 'syn', 'd'), 'declaration in for': ('for (int i%d = 0; g < 2; g++) g = 1;', 'bbb', 'syn', ''), 'if without condition': ('if () g = 1;', 'bbb', 'syn', ''),
 'if without parentheses': ('if g g = 1;', 'bbb', 'syn', ''), 'while without condition': ('while () g = 1;', 'bbb', 'syn', ''), 'for with two parts': ('for (g = 0; g < 1) g = 1;', 'bbb', 'syn', ''),
 'conversion %y': ('printf("%%y\\n", 1);', 'bmm', 'sem', ''), 'conversion %f': ('printf("a%%f\\n", 1);', 'bmm', 'sem', ''), 'width of %c': ('printf("%%5c", 65);', 'bmm', 'sem', ''),
 'two precisions': ('printf("%%.3.4d", 1);', 'bmm', 'sem', ''), 'flag after width': ('printf("%%5-d", 1);', 'bmm', 'sem', ''), 'pointer to a function': ('int (*fp%d)(int) = f;', 'boo', 'sem', 'd'),
 'declared twice': ('int ld%d, ld%d;', 'bmm', 'sem', 'd'), 'struct in a function': ('struct LT%d { int k; };', 'bbb', 'sem', 'd'), 'enum in a function': ('enum { LE%d };', 'bbb', 'sem', 'd'),
 'typedef in a function': ('typedef int LT%d;', 'bbb', 'sem', 'd'), 'unsigned local': ('unsigned int u%d;', 'boo', 'syn', 'd'), 'missing brace': ('if (g { g = 1; }', 'bbb', 'syn', ''),
 'case without colon': ('switch (g) { case 1 g = 1; break; }', 'bbb', 'syn', ''), 'return in an expression': ('g = return 1;', 'bbb', 'syn', ''),
}
TOP = {
 'struct variable': ('struct S s%d;', 'boo', 'sem', ''), 'array of structs': ('struct S s%d[2];', 'boo', 'sem', ''), 'array of arrays': ('int a%d[2][2];', 'boo', 'sem', ''),
 'union': ('union U%d { int a; char b; };', 'boo', 'sem', ''), 'union variable': ('union U%d { int a; char b; } u%d;', 'boo', 'sem', ''), 'struct in a struct': ('struct N%d { struct S s; int k; };', 'boo', 'sem', ''),
 'anonymous struct in a struct': ('struct N%d { struct { int a; } s; int k; };', 'boo', 'sem', ''), 'array in a struct': ('struct N%d { int a[3]; };', 'boo', 'sem', ''), 'float variable': ('float fl%d;', 'bbb', 'syn', ''),
 'float function': ('float ff%d(int a) { return 1; }', 'bbb', 'syn', ''), 'float parameter': ('int ff%d(float a) { return 1; }', 'bbb', 'syn', ''), 'struct parameter': ('int ff%d(struct S s) { return 1; }', 'boo', 'sem', ''),
 'struct result': ('struct S ff%d(int a) { return *gp; }', 'bbb', 'sem', ''), 'array parameter': ('int ff%d(int a[]) { return a[0]; }', 'boo', 'sem', ''), 'array parameter 2': ('int ff%d(int b, int a[3]) { return a[0]; }', 'boo', 'sem', ''),
 'array without size': ('int na%d[];', 'bbb', 'sem', ''), 'too many initializers': ('int as%d[2] = {1, 2, 3};', 'bbb', 'sem', ''), 'too long string': ('char ss%d[2] = "abc";', 'bbb', 'sem', ''), 'string without room': ('char ss%d[3] = "abc";', 'boo', 'sem', ''),
 'array of no elements': ('int n%d[0];', 'bbb', 'sem', ''), 'size no constant': ('int n%d[g];', 'bbb', 'syn', ''), 'bit field': ('struct B%d { int a : 3; };', 'bbb', 'syn', ''), 'unsigned variable': ('unsigned int u%d;', 'boo', 'syn', ''),
 'unsigned parameter': ('int ff%d(unsigned a) { return 1; }', 'boo', 'syn', ''), 'extern variable': ('extern int e%d;', 'bbb', 'sem', ''), 'global _u': ('int _u%d;', 'boo', 'sem', ''), 'global u_': ('int u_;', 'boo', 'sem', '1'),
 'old definition': ('int kr%d(a) int a; { return a; }', 'bbb', 'syn', ''), 'no type': ('nr%d(int a) { return a; }', 'bbb', 'syn', ''), 'enumerator no constant': ('enum { A%d = g };', 'bbb', 'syn', ''),
 'typedef of another name': ('typedef struct S TS%d;', 'boo', 'sem', ''), 'function pointer': ('int (*fpg%d)(int) = f;', 'boo', 'sem', ''), 'designated initializer': ('int da%d[3] = {[1] = 2};', 'bbb', 'syn', ''),
 'designated member': ('struct S sd%d = {.m = 1};', 'bbb', 'syn', ''), 'nested initializers': ('int ni%d[2][2] = {{1, 2}, {3, 4}};', 'boo', 'sem', ''), 'unknown type': ('foo bar%d;', 'bbb', 'syn', ''), 'operator': ('+;', 'bbb', 'syn', ''),
 'surplus semicolon': (';', 'mmm', 'syn', ''), 'no type of a variable': ('x%d = 2;', 'bbb', 'syn', ''), 'surplus brace': ('}', 'bbb', 'syn', ''), 'parameter without name': ('int pn%d(int) { return 1; }', 'bbb', 'syn', ''),
 'parameters of one name': ('int dp%d(int a, int a) { return a; }', 'bbb', 'sem', ''), 'parameter _a': ('int pu%d(int _a) { return _a; }', 'boo', 'sem', ''), 'parameter a_': ('int pu%d(int b, int a_) { return b; }', 'boo', 'sem', ''),
 '#error': ('#error e%d', 'bbb', 'syn', ''), 'missing file': ('#include "nofile%d.h"', 'bbb', 'syn', ''), 'unknown directive': ('#fooo', 'bbb', 'syn', ''), 'stray #endif': ('#endif', 'bbb', 'dir', ''), 'stray #else': ('#else', 'bbb', 'dir', ''),
 'stray #elif': ('#elif 1', 'bbb', 'dir', ''), '#if without condition': ('#if\n#endif', 'bbb', 'dir', ''), '#if with half a condition': ('#if 1 +\n#endif', 'bbb', 'dir', ''), '#if with a string': ('#if "a"\n#endif', 'bbb', 'dir', ''),
 '#define without name': ('#define', 'bbb', 'syn', ''), '#define of a number': ('#define 1 2', 'bbb', 'syn', ''), '#undef of a number': ('#undef 1', 'bbb', 'syn', ''), '#ifdef without name': ('#ifdef\n#endif', 'bbb', 'dir', ''),
 '#include without file': ('#include', 'bbb', 'syn', ''), 'unfinished parameters': ('#define F%d(a', 'bbb', 'syn', ''), 'variadic macro': ('#define F%d(...) f(__VA_ARGS__)', 'bbb', 'syn', ''), 'variadic macro 2': ('#define F%d(a, ...) f(__VA_ARGS__)', 'bbb', 'syn', ''), 'number as a parameter': ('#define F%d(a, 1) (a)', 'bbb', 'syn', ''), 'function twice': ('int f(int a) { return 2; }', 'mbb', 'sem', ''), 'struct twice': ('struct S { int k; };', 'mbb', 'sem', ''),
 'unfinished string': ('char *us%d = "abc;', 'mmm', 'lex', ''), 'missing separator': ('int ms%d int y;', 'bbb', 'syn', ''), 'unfinished declaration': ('int ud%d, ;', 'bbb', 'syn', ''), 'unknown struct variable': ('struct UN%d un%d;', 'bbb', 'sem', ''),
 'text': ('"abc";', 'bbb', 'syn', ''), '__func__ style': ('int 5;', 'bbb', 'syn', ''), 'two stars misplaced': ('int ts%d * *;', 'bbb', 'syn', ''), 'local storage': ('int lp%d(static int a) { return a; }', 'mmm', 'syn', ''),
}
GOODT = ['static int cs%d;', 'const int cc%d = 3;', 'typedef int CT%d;', 'struct CF%d; struct CF%d *cf%d;', 'enum { CA%d = -3, CB%d };', 'char *ca%d[2] = {"a", "b"};', 'struct CN%d { int k%d; struct S *s%d; };',
         'int ci%d[2] = {1, 2};', 'char cg%d[4] = "abc";', 'int cp%d(int a, char *b);', 'void cv%d() { g = 1; }', '#define CM%d(a) (a)', '#undef NOTHING%d', '#ifdef NOTHING%d\n#error no\n#endif', 'volatile int cw%d;',
         'int *cq%d, **cr%d, cz%d[3];', 'typedef struct CY%d { int y%d; } CY%d;', 'enum CE%d { CX%d = 5 };', '#ifndef CU%d\n#define CU%d\n#endif', 'inline int ck%d(int a) { return a; }']

HEAD = '''#include <stdio.h>
struct S { int m; int n; struct S *next; };
int g; int ga[4]; char *gs; struct S *gp;
int f(int a) { return a + g; }
int f2(int a, int b) { return a + b; }
'''
V = dict(o='ok', m='may', b='bad')
OPEN = ('loop', 'if', 'block', 'switch')

def fill(t, n): return t.replace('%d', str(n)).replace('%%', '%')

class Render:
    """C text of a list of operations.  Operations may carry t, the text of an expression or construct."""
    def __init__(self, rng, ops): self.r, self.ops, self.n, self.stack, self.out, self.pp, self.files = rng, ops, 0, [], [], [], {}
    def w(self, t): self.out.append('  ' * len(self.stack) + t)
    def nextlive(self, i):
        pp = list(self.pp)
        for o in self.ops[i:]:
            k = o['k']
            if k in ('pp0', 'pp1'): pp.append(k == 'pp1')
            elif k == 'ppelse': pp[-1] = not pp[-1]
            elif k == 'ppend':
                # an operation of an outer group: what follows is what counts
                if pp: pp.pop()
            elif all(pp): return o
        return dict(k='close')
    def cond(self): return self.r.choice(['g', 'g < 5', 'ga[1] == 2', '!g', 'g && ga[0]', '*gs', 'gp->m > g'])
    def text(self):
        for i, o in enumerate(self.ops): self.op(i, o)
        return HEAD + '\n'.join(self.out) + '\nint main() { return 0; }\n'
    def op(self, i, o):
        r, k = self.r, o['k']
        if k == 'fn':
            self.n += 1
            self.w('int t%d(int %s) {' % (self.n, o['n'])); self.stack.append('fn')
        elif k == 'close':
            if not self.stack: return
            s = self.stack[-1]
            if s == 'fn': self.w('return 0;')
            self.stack.pop()
            self.w('} while (%s);' % self.cond() if s == 'do' else '}')
        elif k == 'loop':
            s = r.choice(['while', 'for', 'do'])
            self.w({'while': 'while (%s) {' % self.cond(), 'for': r.choice(['for (g = 0; g < 3; g++) {', 'for (; %s; ) {' % self.cond()]), 'do': 'do {'}[s])
            self.stack.append(s)
        elif k == 'if': self.w('if (%s) {' % self.cond()); self.stack.append(k)
        elif k == 'else': self.w('else {'); self.stack.append(k)
        elif k == 'block': self.w('{'); self.stack.append(k)
        elif k == 'switch': self.w('switch (%s) {' % r.choice(['g', 'g + 1', 'ga[2]', 'p'])); self.stack.append(k)
        elif k in ('case', 'default', 'label'):
            self.n += 1
            t = {'case': 'case %d:' % self.n, 'default': 'default:', 'label': o.get('l', '') + ':'}[k]
            x = self.nextlive(i + 1)
            if x['k'] in ('close', 'decl') or 'd' in x.get('f', '') or (x['k'] not in ('case', 'default') and r.random() < .2): t += ' ;'
            self.w(t)
        elif k in ('break', 'continue'): self.w(k + ';')
        elif k == 'ret': self.w(r.choice(['return 1;', 'return g;', 'return (g);']))
        elif k == 'stmt': self.w(o.get('t') or r.choice(['g = 1;', 'f(1);', 'g++;', 'g = f(g) + 2;', '*gs = 1;', 'gp->m = g;', ';', 'f2(1, f(2));', 'putchar(65);']))
        elif k == 'goto': self.w('goto %s;' % o['l'])
        elif k == 'decl': self.w('int %s;' % o['n'] if r.random() < .5 else 'int %s = 1;' % o['n'])
        elif k == 'pp0': self.out.append(r.choice(['#if 0', '#ifdef NONE', '#if 1 - 1', '#ifndef EOF_NONE_\n#if 0'][:3])); self.pp.append(False)
        elif k == 'pp1': self.out.append(r.choice(['#if 1', '#ifndef NONE', '#if 2 > 1'])); self.pp.append(True)
        elif k == 'ppelse': self.out.append('#else'); self.pp[-1] = not self.pp[-1]
        elif k == 'ppend': self.out.append('#endif'); self.pp.pop()
        elif k in ('haz', 'calls'):
            if o.get('inc'):
                self.files['h%d.h' % i] = o['t'] + '\n'
                self.out.append('#include "h%d.h"' % i)
            else:
                for l in o['t'].split('\n'): self.out.append(l if l.startswith('#') else '  ' * len(self.stack) + l)

def place(r, root, x, n):
    """A statement with the expression x in the context root"""
    if root == 'val': return r.choice(['g = %s;', 'ga[1] = %s;', 'g += %s;', 'gp->m = %s;']) % x
    if root == 'arg': return r.choice(['f(%s);', 'g = f2(1, %s);', 'f2(%s, 2);']) % x
    if root == 'test':
        return r.choice(['if (%s) g = 1;', 'while (%s) { g = 1; }', 'for (g = 0; %s; g++) { g = 2; }', 'do { g = 1; } while (%s);', 'if (%s) { g = 1; } else { g = 2; }']) % x
    if root == 'idx': return r.choice(['g = ga[%s];', 'ga[%s] = 1;', '*(ga + %s) = 1;']) % x
    if root == 'init': return 'int in%d = %s;' % (n, x)
    if root == 'stmt': return '%s;' % x
    if root == 'sw': return 'switch (%s) { case 1: g = 1; break; }' % x
    if root == 'for': return r.choice(['for (%s; g < 1; g++) g = 1;', 'for (g = 0; g < 1; %s) g = 1;']) % x

WRAP = dict(par=['(%s)'], plus=['(%s + 1)', '(2 * %s)', '(g - %s)', '(%s == 1)', '(g < %s)', '(~%s)', '(-%s)', '(%s & 3)', '(%s << 1)'], asg=['(g = %s)', '(loc += %s)'], cast=['((int) %s)'],
            comma=['(g, %s)', '(%s, g)'], idx=['ga[%s]'], arg=['f(%s)', 'f2(g, %s)', 'f2(%s, 1)'], tern=['(g ? %s : 1)', '(g ? 1 : %s)', '(%s ? 1 : 2)'],
            **{'and': ['(%s && g)', '(g && %s)'], 'or': ['(%s || loc)', '(loc || %s)'], 'not': ['(!%s)']})
def wrap(r, path, x):
    for w in reversed(path): x = r.choice(WRAP[w]) % x
    return x

class Gen:
    def __init__(self, rng): self.r, self.n = rng, 0
    def name(self): self.n += 1; return 'v%d' % self.n
    # -- programs that every backend accepts
    def stmts(self, n, d, loop, sw):
        r, out = self.r, []
        for _ in range(n):
            x = r.random()
            if d <= 0 or x < .35: out.append(self.good() if r.random() < .4 else dict(k='stmt'))
            elif x < .42: out.append(dict(k='decl', n=self.name()))
            elif x < .58:
                out += [dict(k='if')] + self.stmts(r.randrange(1, 3), d - 1, loop, sw) + (self.leave(loop) if loop and not sw and r.random() < .4 else []) + [dict(k='close')]
                if r.random() < .5: out += [dict(k='else')] + self.stmts(r.randrange(0, 3), d - 1, loop, sw) + [dict(k='close')]
            elif x < .7: out += [dict(k='block')] + self.stmts(r.randrange(0, 3), d - 1, loop, sw) + [dict(k='close')]
            elif x < .86: out += [dict(k='loop')] + self.stmts(r.randrange(1, 4), d - 1, True, sw) + [dict(k='close')]
            else: out += self.switch(d, loop)
        return out
    def leave(self, loop): return [dict(k=self.r.choice(['break', 'continue'] if loop else ['ret']))]
    def switch(self, d, loop):
        r = self.r
        out = [dict(k='switch')]
        n = r.randrange(1, 4)
        de = r.choice([None] + list(range(n)))
        for i in range(n):
            out += [dict(k='case')] * r.choice([1, 1, 1, 2])
            if i == de: out.insert(len(out) - r.randrange(2), dict(k='default'))
            out += self.stmts(r.randrange(0, 3), d - 1, False, True)
            x = r.random()
            if x < .15: out += [dict(k='if')] + self.stmts(1, d - 2, False, True) + [dict(k='break'), dict(k='close'), dict(k='else'), dict(k=r.choice(['break', 'ret'])), dict(k='close')]
            elif x < .25: out += [dict(k='block')] + self.stmts(1, d - 2, False, True) + [dict(k='break'), dict(k='close')]
            elif i < n - 1 or x < .9: out.append(dict(k=r.choice(['break', 'break', 'break', 'ret'])))
            elif out[-1]['k'] in ('case', 'default'): out.append(dict(k='stmt'))
        return out + [dict(k='close')]
    def paths(self, calls, n):
        return [self.r.choice(['par', 'plus', 'asg', 'cast', 'comma', 'idx'] + (['arg', 'arg'] if calls else ['tern', 'and', 'or', 'not'])) for _ in range(n)]
    def expr(self, x, flags, hz=''):
        """a statement with x, perhaps by way of a macro"""
        r = self.r
        calls = 'c' in flags or r.random() < .5
        x = wrap(r, self.paths(calls, r.choice([0, 0, 0, 1, 1, 2, 3])), x)
        pre = ''
        self.n += 1
        if 'm' not in flags and r.random() < .2:
            if r.random() < .5 and "'" not in x and '"' not in x and hz != 'lex': pre, x = '#define HW%d(a) (a)\n' % self.n, 'HW%d(%s)' % (self.n, x) if x.count('(') == x.count(')') else x
            else: pre, x = '#define HZ%d %s\n' % (self.n, x), 'HZ%d' % self.n
        root = r.choice(['val', 'val', 'arg', 'test', 'test', 'idx', 'init', 'sw', 'for'])
        t = place(r, root, x, self.n)
        if root == 'init': pre = pre
        return dict(t=pre + t, f=flags + ('d' if root == 'init' else ''))
    def good(self):
        x, fl = self.r.choice(GOODX)
        o = self.expr(x, fl)
        return dict(o, k='haz', v=dict(sh='ok', exe='ok', safe='ok'), s='sem')
    def goodtop(self):
        self.n += 1
        return dict(k='haz', t=fill(self.r.choice(GOODT), self.n), v=dict(sh='ok', exe='ok', safe='ok'), s='sem', inc=self.r.random() < .2)
    def haz(self, table, key):
        t, v, cls, fl = table[key]
        self.n += 1
        v = dict(zip(('sh', 'exe', 'safe'), [V[c] for c in v]))
        if table is EXPR: o = self.expr(t, fl, cls)
        else: o = dict(t=fill(t, self.n), f=fl)
        return dict(o, k='haz', v=v, s=cls, name=key)
    def calls(self):
        r = self.r
        root = r.choice(['test', 'test', 'test', 'val', 'arg', 'idx', 'stmt', 'init', 'for'])
        if root == 'test': p = [r.choice(['par', 'and', 'or', 'not', 'plus', 'cast', 'asg', 'comma', 'tern', 'arg', 'idx'] if r.random() < .4 else ['par', 'and', 'or']) for _ in range(r.randrange(0, 4))]
        elif root in ('stmt', 'for'): p = []
        else: p = self.paths(False, r.randrange(0, 3))
        self.n += 1
        x = wrap(r, p, r.choice(['(g && f(1))', '(f(1) || g)', '(f(1) && f2(1, 2))', '(loc || (g && f(2)))', '((f(1) < 3) && loc)', '(g || !f(1))', '(loc && 1 + f(1))', '((g && f(1)) || loc)']))
        return dict(k='calls', w=['stmt' if root in ('stmt', 'for') else root] + p, t=place(r, root, x, self.n), f='d' if root == 'init' else '')
    def function(self, size):
        r = self.r
        ops = [dict(k='fn', n='p'), dict(k='decl', n='loc')] + self.stmts(size, 3, False, False)
        if r.random() < .3: ops.append(dict(k='ret'))
        return ops + [dict(k='close')]
    # -- groups of conditional directives around constructs
    def range_of(self, ops, i):
        """the end of the construct that begins at i"""
        if ops[i]['k'] in OPEN or ops[i]['k'] == 'fn':
            d, j = 0, i
            while True:
                k = ops[j]['k']
                if k in OPEN + ('else', 'fn'): d += 1
                elif k == 'close':
                    d -= 1
                    if d == 0 and not (j + 1 < len(ops) and ops[j + 1]['k'] == 'else'): return j + 1
                j += 1
                if j >= len(ops): return None
        return i + 1
    def group(self, ops):
        r = self.r
        c = [i for i, o in enumerate(ops) if o['k'] not in ('else', 'close', 'fn', 'pp0', 'pp1', 'ppelse', 'ppend') and not (i and ops[i - 1]['k'] == 'fn') and o.get('s') not in ('lex', 'dir')]
        if not c: return ops
        i = r.choice(c)
        j = self.range_of(ops, i)
        if j is None or any(o.get('s') in ('lex', 'dir') for o in ops[i:j]): return ops
        if sum(o['k'] in ('pp0', 'pp1') for o in ops[i:j]) != sum(o['k'] == 'ppend' for o in ops[i:j]): return ops
        x = ops[i:j]
        junk = lambda: [dict(k=r.choice(['break', 'case', 'goto', 'default', 'continue', 'stmt']), l='zz') for _ in range(r.randrange(0, 3))]
        return ops[:i] + r.choice([lambda: [dict(k='pp0')] + x + [dict(k='ppend')], lambda: [dict(k='pp1')] + x + [dict(k='ppend')],
                                   lambda: [dict(k='pp1')] + x + [dict(k='ppelse')] + junk() + [dict(k='ppend')], lambda: [dict(k='pp0')] + junk() + [dict(k='ppelse')] + x + [dict(k='ppend')]])() + ops[j:]
    def spots(self, ops):
        """where a statement may be inserted"""
        out, d = [], 0
        for i, o in enumerate(ops):
            if d and o['k'] not in ('else', 'ppend', 'ppelse', 'pp0', 'pp1') and not (ops[i - 1]['k'] in ('fn', 'pp0', 'pp1', 'ppelse', 'ppend') and o['k'] not in ('stmt', 'if', 'loop', 'switch', 'block', 'close')) and ops[i - 1]['k'] != 'fn': out.append(i)
            if o['k'] in OPEN + ('else', 'fn'): d += 1
            elif o['k'] == 'close': d -= 1
        return out
    def violation(self, ops, key=None):
        """inserts something into ops; returns the new list and a name"""
        r = self.r
        if key is None: key = r.choice(['break', 'continue', 'case', 'default', 'dup', 'goto', 'label', 'drop', 'calls', 'calls', 'calls'])
        i = r.choice(self.spots(ops))
        if key == 'drop':
            c = [j for j, o in enumerate(ops) if o['k'] in ('break', 'ret')]
            if c: j = r.choice(c); return ops[:j] + ops[j + 1:], 'drop'
            key = 'break'
        if key == 'dup': o = dict(k='decl', n=r.choice([x['n'] for x in ops if x['k'] in ('decl', 'fn')] + ['loc', 'p']))
        elif key == 'goto': o = dict(k='goto', l=r.choice(['zz', 'zy']))
        elif key == 'label': o = dict(k='label', l=r.choice(['zz', 'zy']))
        elif key == 'calls': o = self.calls()
        elif isinstance(key, tuple):
            o = self.haz(*key)
            if key[0] is TOP:
                ends = [0] + [j + 1 for j, x in enumerate(ops) if x['k'] == 'close' and self.depth(ops, j + 1) == 0]
                i = r.choice(ends)
                if r.random() < .25: o['inc'] = True
        else: o = dict(k=key)
        return ops[:i] + [o] + ops[i:], str(key if not isinstance(key, tuple) else key[1])
    def depth(self, ops, i): return sum(o['k'] in OPEN + ('else', 'fn') for o in ops[:i]) - sum(o['k'] == 'close' for o in ops[:i])
    def program(self, keys):
        r = self.r
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < .4: ops.append(self.goodtop())
            ops += self.function(r.randrange(1, 6))
        what = []
        for k in keys:
            ops, w = self.violation(ops, k); what.append(w)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])): ops = self.group(ops)
        return ops, what
def spec(ops):
    """what the specification reads"""
    out = []
    for o in ops:
        if o['k'] == 'haz': out.append(dict(k='haz', v=o['v'], s=o['s'] != 'sem'))
        elif o['k'] == 'calls': out.append(dict(k='calls', w=o['w']))
        else: out.append({a: b for a, b in o.items() if a in 'knl'})
    return out
