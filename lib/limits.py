"""Programs with n copies of a part: what the compiler must hold grows with n.  DEEP ones nest."""
J = ''.join
def rep(f): return lambda n: J(f(i) for i in range(n))
M = 'int main(){return 0;}\n'
G = 'int g; int f(int a){return a;}\n'
WIDE = dict(
 identifiers=lambda n: rep(lambda i: 'int v%d;\n' % i)(n) + M,
 identifier_length=lambda n: 'int v' + 'a' * n + ';\n' + M,
 strings=lambda n: 'int main(){char *s;\n' + rep(lambda i: 's = "str%d";\n' % i)(n) + 'return 0;}',
 string_length=lambda n: 'int main(){char *s = "' + 'x' * n + '"; return 0;}',
 escapes=lambda n: 'int main(){char *s = "' + '\\n' * n + '"; return 0;}',
 adjacent_strings=lambda n: 'int main(){ char *s = ' + '"abc" ' * (n + 1) + '; return 0;}',
 functions=lambda n: rep(lambda i: 'int f%d(int a){return a;}\n' % i)(n) + M,
 locals=lambda n: 'int main(){\n' + rep(lambda i: 'int v%d = %d;\n' % (i, i))(n) + 'return 0;}',
 local_list=lambda n: 'int main(){int z' + rep(lambda i: ', v%d' % i)(n) + ';return 0;}',
 global_list=lambda n: 'int z' + rep(lambda i: ', v%d' % i)(n) + ';' + M,
 parameters=lambda n: 'int f(int z' + rep(lambda i: ', int a%d' % i)(n) + '){return z;}\nint main(){return f(0' + ', 1' * n + ');}',
 statements=lambda n: G + 'int main(){' + 'g = g + 1;\n' * n + ' return 0;}',
 calls=lambda n: G + 'int main(){' + 'f(g);\n' * n + ' return 0;}',
 cases=lambda n: G + 'int main(){switch(g){' + rep(lambda i: 'case %d: g = 1; break;\n' % i)(n) + '} return 0;}',
 case_labels=lambda n: G + 'int main(){switch(g){' + rep(lambda i: 'case %d: ' % i)(n) + 'case -1: g = 1; break;} return 0;}',
 labels=lambda n: G + 'int main(){' + rep(lambda i: 'l%d: g = 1;\n' % i)(n) + 'return 0;}',
 gotos=lambda n: G + 'int main(){' + rep(lambda i: 'goto l%d;\n' % i)(n) + rep(lambda i: 'l%d: g = 1;\n' % i)(n) + ' return 0;}',
 macros=lambda n: rep(lambda i: '#define M%d %d\n' % (i, i))(n) + M,
 macro_parameters=lambda n: '#define M(a' + rep(lambda i: ',a%d' % i)(n) + ') a\nint main(){return M(0' + ',1' * n + ');}',
 macro_body=lambda n: '#define M ' + '+ 1 ' * n + '\nint main(){return 1;}',
 pasted=lambda n: '#define P(a,b) a##b\nint main(){' + rep(lambda i: 'int P(x,%d);\n' % i)(n) + 'return 0;}',
 members=lambda n: 'struct S {int z;' + rep(lambda i: 'int m%d;\n' % i)(n) + '};\n' + M,
 structs=lambda n: rep(lambda i: 'struct S%d { int m%d; };\n' % (i, i))(n) + M,
 enumerators=lambda n: 'enum {Z' + rep(lambda i: ',E%d' % i)(n) + '};\n' + M,
 typedefs=lambda n: rep(lambda i: 'typedef int T%d;\n' % i)(n) + M,
 initializers=lambda n: 'int a[] = {0' + ',1' * n + '};\n' + M,
 comment=lambda n: '/*' + 'x' * n + '*/' + M,
 newlines=lambda n: '\n' * n + M,
 blanks=lambda n: 'int main(){ return 0;' + ' ' * n + '}',
 zeros=lambda n: 'int main(){ return 0x' + '0' * n + '1;}',
 directives=lambda n: '#define A\n#undef A\n' * n + M,
 conditionals=lambda n: '#ifdef A\nint x;\n#endif\n' * n + M,
)
LONG = dict(
 identifier_length=WIDE['identifier_length'],
 string_length=WIDE['string_length'],
 pasted_length=lambda n: '#define P(a,b) a##b\nint P(' + 'x' * n + ',' + 'y' * n + ');\n' + M,
 pasted_digits=lambda n: '#define P(a) a##12345\n#define Q(a) P(a)\nint v' + 'x' * n + ';\nint Q(v' + 'x' * n + ');\n' + M,
 include_length=lambda n: '#include <' + 'x' * n + '.h>\n' + M,
 macro_name_length=lambda n: '#define A' + 'b' * n + ' 1\nint main(){return A' + 'b' * n + ';}',
)
DEEP = dict(
 blocks=lambda n: 'int main(){' + '{' * n + '}' * n + 'return 0;}',
 ifs=lambda n: G + 'int main(){' + 'if (g) ' * n + 'g = 1; return 0;}',
 elses=lambda n: G + 'int main(){' + rep(lambda i: 'if (g == %d) g = 1; else ' % i)(n) + 'g = 1; return 0;}',
 whiles=lambda n: G + 'int main(){' + 'while (g) ' * n + 'g = 1; return 0;}',
 fors=lambda n: G + 'int main(){' + 'for (g = 0; g; g++) { ' * n + 'g = 1;' + '}' * n + ' return 0;}',
 dos=lambda n: G + 'int main(){' + 'do {' * n + 'g = 0;' + '} while (g);' * n + ' return 0;}',
 switches=lambda n: G + 'int main(){' + 'switch (g) { case 1: ' * n + 'g = 1;' + ' break; }' * n + ' return 0;}',
 parentheses=lambda n: G + 'int main(){ g = ' + '(' * n + 'g' + ')' * n + '; return 0;}',
 sums=lambda n: G + 'int main(){ g = g' + ' + g' * n + '; return 0;}',
 right_sums=lambda n: G + 'int main(){ g = ' + 'g - (' * n + 'g' + ')' * n + '; return 0;}',
 nested_calls=lambda n: G + 'int main(){ g = ' + 'f(' * n + '1' + ')' * n + '; return 0;}',
 conjunctions=lambda n: G + 'int main(){ if (g' + ' && g' * n + ') g = 1; return 0;}',
 ternaries=lambda n: G + 'int main(){ g = ' + 'g ? 1 : ' * n + '0; return 0;}',
 negations=lambda n: G + 'int main(){ g = ' + '!' * n + 'g; return 0;}',
 pointers=lambda n: 'int ' + '*' * n + 'p;' + M,
 casts=lambda n: 'int main(){return ' + '(int)' * n + '1;}',
 ifdefs=lambda n: '#ifdef A\n' * n + '#endif\n' * n + M,
 preprocessor_ifs=lambda n: '#if 1\n' * n + '#endif\n' * n + M,
 macro_chain=lambda n: '#define M0 1\n' + rep(lambda i: '#define M%d M%d\n' % (i + 1, i))(n) + 'int main(){return M%d;}' % n,
 macro_function_chain=lambda n: '#define M0(x) x\n' + rep(lambda i: '#define M%d(x) M%d(x)\n' % (i + 1, i))(n) + 'int main(){return M%d(1);}' % n,
 macro_arguments=lambda n: '#define M(x) x\nint main(){return ' + 'M(' * n + '1' + ')' * n + ';}',
 constant_parentheses=lambda n: '#if ' + '(' * n + '1' + ')' * n + '\n#endif\n' + M,
 assignments=lambda n: G + 'int main(){ ' + 'g = ' * (n + 1) + '1; return 0;}',
)
