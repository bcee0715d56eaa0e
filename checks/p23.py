#!/usr/bin/env python3
"""P23: the compiler ends on every input, with a program or with a diagnostic, and stays inside its own
memory.  Inputs: every short sequence of tokens in every kind of place (Tokens.tla), programs of all kinds
with edits, and texts that fill the tables of the compiler; Session.tla decides about the recorded runs."""
import json, os, re, shutil, struct, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, inputs, limits
from inputs import Input

GEN = 'SPECIFICATION Spec\nINVARIANT Short\nINVARIANT Report\n'
CFG = 'SPECIFICATION Spec\nINVARIANT Capacity\nINVARIANT Report\nPROPERTY Ends\n'
WATCH = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=shift,signed-integer-overflow,alignment,pointer-overflow,function', '-fno-sanitize-recover=all']
ENV = dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1', TMPDIR='/tmp')
LOOP = '''cd "$1" || exit 9
while read -r f script cmd; do ( ulimit -t "$2" -f 200000; cd "$f/t" && exec $cmd ) > "$f/out" 2> "$f/err" < /dev/null ; r=$?
p=-; if [ $r = 0 ] && [ $script = 1 ]; then dash -n "$f/out" 2> "$f/perr"; p=$?; fi
echo "$f $r $p" ; done < jobs
'''
PLAIN, SAFE = ['sh', 'i386', 'x64', 'shset', 'shc'], ['shsafe', 'i386safe', 'x64safe']
# internal checks of the builds with SAFE_MODE report the line of the compiler
CHECK = re.compile(rb'(?:^|[/\n])(?:pnut|sh|exe|x86|elf)\.c:\d+: (?:Expected (?:child )?node|get_val called|Index \d+ out of)[^\n]*')

PLACE = dict(
 statement='int x; struct S { int a; char *b; }; int f(int a) { return a; }\nint main() {\n%s\n; return 0; }',
 expression='int x; int a[3]; struct S { int a; char *b; } *p; int f(int a) { return a; }\nint main() {\nx = %s\n; return 0; }',
 declaration='int x; struct S { int a; char *b; }; typedef int T;\n%s\nint main() { return 0; }',
 member='typedef int T; struct S { int a; };\nstruct Q { %s };\nint main() { return 0; }',
 initializer='int f(int a) { return a; }\nstruct S { int a; int *b; }; int x[3] = %s ;\nint main() { return 0; }',
 parameter='typedef int T; struct S { int a; };\nint f( %s ) { return 0; }\nint main() { return 0; }',
 condition='#define A 3\n#define F(q) q + 1\n#if %s\nint x;\n#endif\nint main() { return 0; }',
 directive='int x;\n# %s\nint y;\n#endif\nint main() { return 0; }',
 macro='#define A 3\n#define F(q) q\n#define M(a,b) %s\nint x = M(1,2);\nint y = M(,x);\nint main() { return 0; }',
 invocation='#define A 3\n#define F(q) q\n#define G(a,b) a F(b)\n#define G2() F\nint x = F %s;\nint main() { return 0; }')
VOC = ['(', ')', '{', '}', ';', ',', '*', '&', '=', '0', '1', 'int', 'if', 'return', 'struct', 'x', '[', ']', '"s"', '+', '->', ':', '?', 'case', 'break', 'char', '#', 'while', 'sizeof', 'typedef', 'enum', 'union', 'goto', 'do', 'for', 'else', 'switch', 'default', 'continue', 'void',
 'unsigned', 'long', 'short', 'const', 'static', 'extern', '...', '.', '++', '--', '<<', '>>', '+=', '<<=', '&&', '||', '!', '~', '-', '/', '%', '^', '|', '==', '<', '"', '\'', "'a'", '\n', '\n#define ', '\n#if ', '\n#endif\n', '\n#else\n', '\n#elif ', '\n#undef ', '\n#include ', '\n#ifdef ', '##', '/*', '*/', '//', '\\', '0x', '099', '1e5', '4294967296',
 '0x80000000', '__VA_ARGS__', '__LINE__', '__FILE__', 'defined', 'main', 'a', 'b', 'y', 'z', 'S', 'T', 'putchar', 'printf', 'malloc', 'NULL', 'signed', 'float', 'double', 'inline', 'asm', 'volatile', 'register', '$', '@', '`', '\x80', '\x00', '\xff', '\x01']
def noise(r): return ''.join(r.choice(VOC) + r.choice([' ', ' ', ' ', '', '\n']) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 30])))
def edited(r, x):
    """cut, extended with tokens, or with characters removed"""
    s = x.files[x.top]; a = r.randrange(len(s) + 1); k = r.random()
    if k < .35: s = s[:a]
    elif k < .7: s = s[:a] + noise(r) + s[a:]
    else: s = s[:a] + s[a + r.choice([1, 2, 5, 20, 100]):]
    return Input('edited', dict(x.files, **{x.top: s}), x.top, x.args)

def form(v): return 'script' if pv.is_sh(v) else 'elf'
def elf(data):
    """do the headers describe the file?"""
    try:
        if data[:4] != b'\x7fELF': return False
        if data[4] == 1: entry, ph = struct.unpack_from('<II', data, 24); pes, pn = struct.unpack_from('<HH', data, 42); T = lambda o: (struct.unpack_from('<I', data, o)[0],) + struct.unpack_from('<IIIII', data, o + 4)[:1] + struct.unpack_from('<I', data, o + 8) + struct.unpack_from('<II', data, o + 16)
        else: entry, ph = struct.unpack_from('<QQ', data, 24); pes, pn = struct.unpack_from('<HH', data, 54); T = lambda o: (struct.unpack_from('<I', data, o)[0],) + struct.unpack_from('<QQ', data, o + 8) + struct.unpack_from('<QQ', data, o + 32)
        ok = False
        for i in range(pn):
            t, off, va, fs, ms = T(ph + i * pes)
            if t != 1: continue
            if off + fs > len(data) or fs > ms: return False
            if va <= entry < va + fs: ok = True
        return ok
    except struct.error: return False

class Watch:
    def __init__(self, ctx):
        self.ctx, self.bins = ctx, {}
        def one(v):
            out = os.path.join(ctx.scratch, 'watch-' + v)
            q = subprocess.run(['clang', '-w'] + WATCH + pv.VARIANTS[v] + ['-o', out, os.path.join(pv.REPO, 'pnut.c')], capture_output=True, cwd=pv.REPO)
            if q.returncode: raise SystemExit('cannot build %s: %s' % (v, q.stderr.decode('latin1')[-500:]))
            os.chmod(out, 0o755); self.bins[v] = out
        ctx.pmap(one, PLAIN + SAFE)
    def runs(self, todo, cpu=10):
        """todo: (input, variant); the events of each run"""
        ctx = self.ctx
        d = ctx.dir(); jobs = []
        for k, (x, v) in enumerate(todo):
            f = 'p%d' % k
            os.makedirs(os.path.join(d, f, 't')); os.chmod(os.path.join(d, f), 0o777); os.chmod(os.path.join(d, f, 't'), 0o755)
            for n, t in x.files.items():
                q = os.path.join(d, f, 't', n)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'w', newline='', encoding='latin1') as h: h.write(t)
            jobs.append('%s %d %s\n' % (f, pv.is_sh(v), ' '.join([self.bins[v]] + x.args + [x.top])))
        open(os.path.join(d, 'jobs'), 'w').write(''.join(jobs))
        q = ctx.run(['bash', '-c', LOOP, 'loop', d, str(cpu)], d, timeout=800, env=ENV, fsize=1 << 30)
        st = {}
        for l in q.out.decode('latin1').split('\n'):
            w = l.split()
            if len(w) == 3: st[w[0]] = (int(w[1]), w[2])
        out = []
        for k, (x, v) in enumerate(todo):
            f = os.path.join(d, 'p%d' % k)
            rc, parse = st.get('p%d' % k, (999, '-'))
            rd = lambda n: open(os.path.join(f, n), 'rb').read() if os.path.exists(os.path.join(f, n)) else b''
            data, err = rd('out'), re.sub(rb'(?m)^warning:.*\n?', b'', rd('err'))   # #warning is no complaint
            ev = [dict(k='start', s=getattr(x, 'n', 0), form='')]
            add = lambda k, s=0, form='': ev.append(dict(k=k, s=s, form=form))
            m = CHECK.search(data[-2000:])
            detail = ''
            if rc == 152 or rc == 137: add('spin')
            elif err or rc == 999: add('memory'); detail = ' '.join(re.findall(r'(?:runtime error: .*|ERROR: AddressSanitizer: \S+|#[0-4] \S+ in \w+)', err.decode('latin1')))[:400] or repr(err[:200])
            elif rc > 127: add('signal', rc)
            elif v in SAFE and rc != 0 and m: add('check'); detail = m.group(0).decode('latin1')
            elif rc == 0:
                if parse == '0' or not pv.is_sh(v) and elf(data): add('product', form=form(v))
                else: add('broken'); detail = (rd('perr')[:200] or data[-100:]).decode('latin1')
                add('exit')
            else:
                if data.strip(): add('message')
                add('exit', rc)
            out.append((ev, detail, data))
        shutil.rmtree(d, ignore_errors=True)
        return out

def decide(ctx, W, rows, what):
    """rows: [(form, mono, events of one or several runs, source)]"""
    if not rows: return
    # equal histories are judged once
    uniq, idx = {}, []
    for f, mono, ev, src in rows:
        key = json.dumps(dict(form=f, mono=mono, ev=ev), sort_keys=True)
        uniq.setdefault(key, []).append(src)
    keys = sorted(uniq)
    path = os.path.join(ctx.scratch, 'sessions%d.json' % ctx.n); ctx.n += 1
    open(path, 'w').write('[' + ','.join(keys) + ']')
    rec, st = ctx.tlc_ok('Session', CFG, env=dict(CASES_FILE=path))
    assert len(rec) == len(keys), '%d of %d' % (len(rec), len(keys))
    for v in sorted(rec, key=lambda v: v['c']):
        srcs = uniq[keys[v['c'] - 1]]
        if v['ok']: ctx.count('traces_validated_against_impl', len(srcs)); continue
        bad = json.loads(keys[v['c'] - 1])['ev'][v['i']]
        srcs.sort(key=lambda s: sum(len(x.size() * 'x') for x, w in s))
        n = 0
        for src in srcs:
            # once more, with more time
            again = [W.runs([(x, w)], 100)[0] for x, w in src[-3:]]
            evs = [e for a in again for e in a[0]]
            if all(e['k'] in ('start', 'message', 'exit', 'product') for e in evs) and bad['k'] not in ('exit', 'product'): ctx.count('not_reproduced'); continue
            x, w = src[-1]
            kind = evs[-1] if evs else {}
            ctx.violation('P23: a run of the compiler (%s, %s) has no step for %s: %s %s' % (w, x.kind, json.dumps(bad), again[-1][1], 'output ends with %r' % again[-1][2][-150:]), dict(x.files, **{'events.json': json.dumps(evs)}))
            n += 1
            if n >= 2: break
        if len(ctx.violations) > 6: break

def tables(ctx, W):
    """for each kind of table the largest n that is accepted, by bisection, and the surroundings"""
    jobs = []
    for tab, top in ((limits.LONG, 600000), (limits.WIDE, ctx.budget(24000, 60000)), (limits.DEEP, ctx.budget(300, 1500))):
        for name, f in tab.items():
            for v in (('sh', 'x64', 'i386safe') if not ctx.quick else (ctx.rng.choice(['sh', 'sh', 'shset', 'shsafe', 'shc']), ctx.rng.choice(['x64', 'i386', 'x64safe', 'i386safe']))):
                if ctx.quick and tab is not limits.LONG and ctx.rng.random() < .4: continue
                jobs.append((name, f, v, top, ctx.rng.random()))
    def one(a):
        name, f, v, top, z = a
        src, ev = [], []
        def probe(n):
            x = Input('table ' + name, {'m.c': f(n)}); x.n = n
            r = W.runs([(x, v)], 60)[0]
            src.append((x, v)); ev.extend(r[0])
            return r[0][-1] if r[0][-1]['k'] == 'exit' else None
        lo, hi = 0, top
        t0 = time.time()
        r = probe(1)
        if r is None or r['s'] != 0: return form(v), True, ev, src      # not supported by this backend
        for n in (int(2 + z * 20), int(20 + z * top / 30)): probe(n)
        r = probe(top)
        if r is None or r['s'] == 0: return form(v), True, ev, src
        lo = 1
        while hi - lo > 1 and len(src) < 40 and time.time() - t0 < ctx.budget(15, 400):
            n = (lo + hi) // 2
            r = probe(n)
            if r is None: return form(v), True, ev, src
            if r['s'] == 0: lo = n
            else: hi = n
        if os.environ.get('PV_DEBUG'): ctx.log('%s %s %d %.1f s' % (name, v, lo, time.time() - t0))
        for n in (lo - 1, hi + 1, hi + 2): probe(max(n, 1))
        with ctx.lock: ctx.counts_limits[name + ' ' + v] = lo
        return form(v), True, ev, src
    ctx.counts_limits = {}
    rows = ctx.pmap(one, jobs)
    ctx.count('tables', len(rows)); ctx.count('table_probes', sum(len(r[3]) for r in rows)); ctx.count('limits_found', len(ctx.counts_limits))
    decide(ctx, W, rows, 'tables')
    ctx.sample(dict(limits=dict(sorted(ctx.counts_limits.items())[:60])))

def main():
    ctx = pv.Ctx('P23')
    r = ctx.rng
    W = Watch(ctx)
    ctx.log('%d compilers' % len(W.bins))
    seqs, st = ctx.tlc_ok('Tokens', GEN, env=dict(DEPTH=3))
    ctx.count('enumerated_sequences', len(seqs))
    short = [s for s in seqs if len(s[1]) < 3]; long = [s for s in seqs if len(s[1]) == 3]
    seqs = None
    if ctx.quick: r.shuffle(long); long = long[:9000]
    V = PLAIN[:3] + SAFE
    todo = [(Input('tokens ' + p, {'m.c': PLACE[p] % ' '.join(t)}), v) for p, t in short for v in (r.sample(V, 2) if ctx.quick else V)]
    todo += [(Input('tokens ' + p, {'m.c': PLACE[p] % ' '.join(t)}), v) for p, t in long for v in r.sample(V, 1 if ctx.quick else 3)]
    files = inputs.repo_files(400)
    for i in range(ctx.budget(5000, 100000)):
        t = r.random()
        if t < .2: x = Input('noise', {'m.c': r.choice(list(PLACE.values())).replace('%s', noise(r))})
        elif t < .35: x = edited(r, r.choice(files))
        elif t < .5: x = inputs.mutated(r, r.choice(files))
        else: x = inputs.make(r, i % 2 == 0, .7)
        if t > .75: x = edited(r, x)
        todo.append((x, r.choice(PLAIN + SAFE)))
    ctx.count('inputs', len(todo))
    r.shuffle(todo)
    parts = [todo[i::64] for i in range(64)]
    rows = []
    for p, res in zip(parts, ctx.pmap(lambda p: W.runs(p), parts)):
        for (x, v), (ev, detail, data) in zip(p, res):
            ctx.count(x.kind.split()[0]); ctx.count('accepted' if ev[-1]['k'] == 'exit' and ev[-1]['s'] == 0 else 'refused')
            rows.append((form(v), False, ev, [(x, v)]))
    ctx.log('%d runs' % len(rows))
    decide(ctx, W, rows, 'runs')
    if not ctx.violations: tables(ctx, W)
    for x, v in todo[:400:50]: ctx.sample(dict(kind=x.kind, variant=v, text=x.files[x.top][:400]))
    ctx.finish()
if __name__ == '__main__': main()
