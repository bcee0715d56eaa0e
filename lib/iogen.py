"""Programs that perform sequences of library operations, and the histories recorded from them,
checked against IO.tla (spec/IOTrace.tla)."""
import json, os, re
import pv

CFG = 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Report\nPROPERTY Step\n'

PRELUDE = '''int last;
void pi(int n) { if (n < 0) { putchar('-'); n = -n; } if (n > 9) { pi2(n / 10); } putchar(48 + n % 10); putchar(' '); }
'''
PRELUDE = '''void pi2(int n) { if (n > 9) { pi2(n / 10); } putchar(48 + n % 10); }
void pi(int n) { if (n < 0) { putchar('-'); n = -n; } pi2(n); putchar(' '); }
void pe(char *b, int n) { int i; i = 0; while (i < n) { pi(b[i] & 255); i = i + 1; } }
void fill(char *b, int n, int k) { int i; i = 0; while (i < n) { b[i] = (i * 7 + k * 13) % 97 + 1; i = i + 1; } }
'''
def fillv(n, k): return [(i * 7 + k * 13) % 97 + 1 for i in range(n)]

class Case:
    """inp: bytes; files: {name: bytes}; ops: list of dicts (without results)"""
    def __init__(self, inp, files, ops, tag=''):
        self.inp, self.files, self.ops, self.tag = inp, files, ops, tag
        self.native = any(o['o'] in ('openx', 'fopenx') for o in ops)     # finding open-missing-file
        self.ascii = all(b < 128 for x in [inp] + list(files.values()) for b in x)
    def source(self, exe, r):
        g, init, body = [], [], []
        hs = sorted({o['h'] for o in self.ops if o.get('h')})
        sizes = {o['k']: o['n'] for o in self.ops if o['o'] == 'alloc' and not o.get('heap')}
        heaps = sorted({o['k'] for o in self.ops if o['o'] == 'alloc' and o.get('heap')})
        for h in hs: g.append('int h%d;' % h)
        for k, n in sizes.items(): g.append('char b%d[%d];' % (k, max(n, 1)))
        for k in heaps: g.append('char *b%d;' % k)
        loc = r.random() < .3          # are the descriptors local variables?
        if exe: streams = ''
        funs, cur = [], []
        self.tmps = 0
        for o in self.ops:
            x = o['o']; h = 'h%d' % o.get('h', 0); b = 'b%d' % o.get('k', 0)
            if x in ('open', 'fopen'):
                f = '"%s"' % o['f']
                if x == 'open': fl = {'r': '0', 'w': '1', 'a': '1025' if exe else '2'}[o['m']]; e = 'open(%s, %s, 0)' % (f, fl)
                else: e = '(int) fopen(%s, "%s")' % (f, o['m'])
                s = '%s = %s; pi(%s);' % (h, e, h)
            elif x == 'openx': s = '%s = open("%s", %s, 0); pi(%s);' % (h, o['f'], r.choice(['0', '0', '1']), h)
            elif x == 'fopenx': s = r.choice(['%s = (int) fopen("%s", "r"); pi(%s);' % (h, o['f'], h), 'if (fopen("%s", "r") == 0) pi(0); else pi(1);' % o['f']])
            elif x == 'close': s = r.choice(['pi(close(%s));' % h, 'last = close(%s); pi(last);' % h])
            elif x == 'fclose': s = 'pi(fclose(%s));' % h
            elif x == 'read':
                a = '%s + %d' % (b, o['d']) if o['d'] else b
                s = 'last = read(%s, %s, %d); pi(last); pe(%s, last);' % (h, a, o['n'], a)
            elif x == 'write':
                a = '%s + %d' % (b, o['d']) if o['d'] else b
                s = 'pi(write(%s, %s, %d));' % (h, a, o['n'])
            elif x == 'fgetc': s = r.choice(['pi(fgetc(%s));' % h, 'last = fgetc(%s); pi(last);' % h])
            elif x == 'getchar': s = r.choice(['pi(getchar());', 'last = getchar(); pi(last);', 'last = 5; last = last * 0 + getchar(); pi(last);', 'if ((last = getchar()) == -1) pi(-1); else pi(last);'])
            elif x == 'getchars': s = 'n = 0; while (n < %d) { pi(getchar()); n = n + 1; }' % o['n']
            elif x == 'fgetcs': s = 'n = 0; while (n < %d) { pi(fgetc(%s)); n = n + 1; }' % (o['n'], h)
            elif x == 'putchar': s = 'putchar(%s);' % (o['n'] if not 33 <= o['n'] < 127 or o['n'] in (39, 92) or r.random() < .5 else "'%c'" % o['n'])
            elif x == 'putcharv':
                e = '%d' % o['n'] if o['n'] >= 0 else r.choice(['%d', '(%d)', '0 + %d', '(0 - %d)'])
                if '%' in e: e = e % (o['n'] if '0 -' not in e else -o['n'])
                s = r.choice(['pi(putchar(%s));', 'last = putchar(%s); pi(last);', 'n = %s; last = putchar(n); pi(last);', 'n = %s; pi(putchar(n));', 'last = 1; last += putchar(%s); pi(last - 1);', 'if ((last = putchar(%s)) >= 0) pi(last);']) % e
            elif x == 'alloc': s = ('b%d = malloc(%d); ' % (o['k'], o['n']) if o.get('heap') else '') + 'fill(%s, %d, %d);' % (b, o['n'], o['k'])
            elif x == 'store': s = '%s[%d] = %d;' % (b, o['d'], o['n'])
            elif x == 'peek': s = 'pe(%s, %d);' % (b, o['len'])
            cur.append(s)
            if len(cur) >= 12 and r.random() < .3: funs.append(cur); cur = []
        funs.append(cur)
        o = ['int last; int n;'] + g + [PRELUDE]
        for i, f in enumerate(funs): o.append('void t%d() {\n  %s\n}' % (i, '\n  '.join(f)))
        o.append('int main() {\n%s  return 0;\n}' % ''.join('  t%d();\n' % i for i in range(len(funs))))
        return '\n'.join(o) + '\n'
    def record(self, out):
        """the operations with the results in the output; None when the output isn't of this form"""
        pos = 0; res = []; self_out = []
        num = re.compile(rb'(-?\d+) ')
        def take():
            nonlocal pos
            m = num.match(out, pos)
            if not m: raise ValueError
            pos = m.end(); return int(m.group(1))
        try:
            for o in self.ops:
                q = dict(o=o['o'], h=o.get('h', 0), f=o.get('f', ''), m=o.get('m', ''), n=o.get('n', 0), k=o.get('k', 0), d=o.get('d', 0), b=[], v=0)
                x = o['o']
                if x in ('open', 'fopen', 'openx', 'fopenx', 'close', 'fclose', 'write', 'fgetc', 'getchar'): q['v'] = take()
                elif x == 'read':
                    q['v'] = take()
                    q['b'] = [take() for _ in range(max(0, q['v']))]
                elif x in ('getchars', 'fgetcs'): q['b'] = [take() for _ in range(o['n'])]
                elif x == 'peek': q['b'] = [take() for _ in range(o['len'])]
                elif x == 'alloc': q['b'] = fillv(o['n'], o['k'])
                elif x in ('putchar', 'putcharv'):
                    if pos >= len(out): raise ValueError
                    self_out.append(out[pos]); pos += 1
                    if x == 'putcharv': q['v'] = take()
                res.append(q)
            if pos != len(out): raise ValueError
        except ValueError:
            return None, None
        return res, self_out

def decide(ctx, cases, plan, variants, timeout=60, chunk=150):
    """run the cases, record the histories and have TLC check them"""
    ctx.build(variants)
    for k in range(0, len(cases), chunk):
        part = cases[k:k + chunk]
        hist = {}
        def one(ic):
            i, c = ic
            jobs = plan(ctx, i, c)
            byv = {}
            for v, sh in jobs: byv.setdefault(v, []).append(sh)
            for v, shells in byv.items():
                d0 = ctx.dir()
                src = c.source(not pv.is_sh(v), ctx_rng(ctx, k + i, pv.is_sh(v)))
                open(os.path.join(d0, 'p.c'), 'w').write(src)
                r, exe = ctx.compile(v, 'p.c', d0)
                if r.rc != 0:
                    r, exe = ctx.compile(v, 'p.c', d0)
                    if r.rc != 0:
                        ctx.violation('%s: variant %s refuses a program of library calls: %s' % (ctx.pid, v, r.out[-300:]), {'p.c': src}); return
                for sh in shells:
                    for attempt in range(2):
                        d = ctx.dir()
                        for f, t in c.files.items():
                            open(os.path.join(d, f), 'wb').write(t); os.chmod(os.path.join(d, f), 0o666)
                        r = ctx.execute(v, sh, exe, d, stdin=c.inp, timeout=timeout * (1 + attempt))
                        ops, out = c.record(r.out)
                        end = {f: list(open(os.path.join(d, f), 'rb').read()) for f in c.files}
                        ok = ops is not None and r.rc == 0 and not r.err
                        key = json.dumps(dict(ops=ops, out=out, end=end, ok=ok))
                        if ok: break
                    with ctx.lock: hist.setdefault((i, key), []).append((v, sh, src, r))
                    ctx.count('runs')
        ctx.pmap(one, list(enumerate(part)))
        if ctx.violations: return
        rows = sorted(hist)
        data, idx = [], []
        for i, key in rows:
            h = json.loads(key); c = part[i]
            if not h['ok']:
                v, sh, src, r = hist[(i, key)][0]
                ctx.violation('%s: %s with %s %s: no complete history: exit %s%s, stderr %r, output %r' % (ctx.pid, c.tag, v, sh or '', r.rc, ' timeout' if r.to else '', r.err[:200], r.out[-200:]),
                              dict({'p.c': src, 'stdin': c.inp}, **c.files)); 
                if len(ctx.violations) >= 5: return
                continue
            data.append(dict(**{'in': list(c.inp)}, files={f: list(t) for f, t in c.files.items()}, ops=h['ops'], end=h['end'], out=h['out'])); idx.append((i, key))
        if not data: continue
        f = os.path.join(ctx.scratch, 'io%d.json' % ctx.n); ctx.n += 1
        with open(f, 'w') as hd: json.dump(data, hd)
        recs, st = ctx.tlc_ok('IOTrace', CFG, env=dict(CASES_FILE=f))
        os.unlink(f)
        assert len(recs) == len(data), 'TLC judged %d of %d histories' % (len(recs), len(data))
        for r in recs:
            i, key = idx[r['c'] - 1]; c = part[i]
            if r['m'] == 'done': ctx.count('traces_validated_against_impl'); continue
            if r['m'] == 'illegal': raise SystemExit('illegal operation generated: %s' % c.ops[r['i'] - 1])
            v, sh, src, res = hist[(i, key)][0]
            op = json.loads(key)['ops'][r['i'] - 1] if r['m'] == 'bad' else r['m']
            ctx.violation('%s: %s with %s %s: operation %d is not allowed by the specification: %s' % (ctx.pid, c.tag, v, sh or '', r['i'], json.dumps(op)[:600]),
                          dict({'p.c': src, 'stdin': c.inp, 'operation.json': json.dumps(op)}, **c.files))
        ctx.log('%d histories checked' % len(data))
        if ctx.violations: return

def ctx_rng(ctx, i, sh):
    import random
    return random.Random('%s/%s/%s/%s' % (ctx.pid, ctx.seed, i, sh))

# ---- contents
LENS = [0, 0, 1, 2, 3, 7, 14, 15, 16, 17, 31, 32, 33, 48, 64]
BIG = [255, 256, 257, 272, 271, 511, 512, 513, 768]
HUGE = [997, 998, 999, 1000, 1001, 1500, 1996, 2001, 3100]
def line(r, n, kind):
    if kind == 'ascii': return bytes(r.randrange(32, 127) for _ in range(n))
    if kind == 'few': return bytes(r.choice(b" \\ab'\"$*?-n%\t`#") for _ in range(n))
    if kind == 'ctl': return bytes(r.choice([x for x in range(1, 128) if x != 10]) for _ in range(n))
    if kind == 'all': return bytes(r.choice([x for x in range(1, 256) if x != 10]) for _ in range(n))
    return r.choice([b'a', b' ', b'\\', b'e', b'*', b'-']) * n
def content(r, maxlines=6, big=.15, huge=.05, high=True):
    n = r.choice([0, 1, 1, 2, 3, maxlines, r.randrange(maxlines + 1)])
    o = b''
    for i in range(n):
        t = r.random()
        ln = r.choice(HUGE) + r.randrange(-1, 2) if t < huge else r.choice(BIG) if t < huge + big else r.choice(LENS) + r.choice([0, 0, 0, r.randrange(9)])
        o += line(r, ln, r.choice(['ascii', 'ascii', 'few', 'few', 'ctl', 'same'] + (['all'] if high else [])))
        if i < n - 1 or r.random() < .6: o += b'\n'
    return o

class Gen:
    """a random legal sequence of operations"""
    def __init__(self, r, inp, files, n, w, appends=False):
        self.r, self.n, self.w, self.appends = r, n, w, appends
        self.inp, self.files = inp, dict(files)
        self.tab, self.ops, self.bufs, self.pos, self.h = {}, [], {}, 0, 0
        self.vars = list(range(1, r.choice([2, 3, 5, 7])))
        self.written = {f: len(t) for f, t in files.items()}
        self.alloc()
        for _ in range(n): self.step()
        for h in list(self.tab):
            if r.random() < .7: self.close(h)
        for k in self.bufs:
            if r.random() < .6: self.ops.append(dict(o='peek', k=k, len=self.bufs[k]))
    def alloc(self):
        k = len(self.bufs) + 1
        n = self.r.choice([1, 3, 8, 16, 40])
        self.bufs[k] = n
        self.ops.append(dict(o='alloc', k=k, n=n, heap=self.r.random() < .6))
    def close(self, h):
        s = self.tab.pop(h)
        self.ops.append(dict(o='fclose' if s['s'] else 'close', h=h))
    def step(self):
        r = self.r
        x = r.choices(list(self.w), list(self.w.values()))[0]
        rd = [h for h, e in self.tab.items() if e['m'] == 'r']
        if x in ('open', 'fopen'):
            hs = [h for h in self.vars if h not in self.tab]
            if not hs: return
            m = 'r' if x == 'fopen' or r.random() < .7 else r.choice(['w', 'w', 'a']) if self.appends else 'w'
            fs = [f for f in self.files if all(e['f'] != f or (m == 'r' and e['m'] == 'r') for e in self.tab.values()) and (m != 'w' or self.written[f] == 0)]
            if not fs: return
            f, h = r.choice(fs), r.choice(hs)
            self.tab[h] = dict(f=f, m=m, s=x == 'fopen', p=0)
            self.ops.append(dict(o=x, h=h, f=f, m=m))
        elif x in ('openx', 'fopenx'):
            hs = [h for h in self.vars if h not in self.tab]
            if hs: self.ops.append(dict(o=x, h=r.choice(hs), f=r.choice(['none', 'nodir/A', 'a', 'AA', ''])))
        elif x == 'close':
            if self.tab: self.close(r.choice(list(self.tab)))
        elif x == 'read':
            hs = [h for h in rd if not self.tab[h]['s']]
            if hs:
                k = r.choice(list(self.bufs)); n = r.randrange(self.bufs[k] + 1)
                self.ops.append(dict(o='read', h=r.choice(hs), k=k, n=n, d=r.randrange(self.bufs[k] - n + 1)))
        elif x == 'write':
            hs = [h for h, e in self.tab.items() if e['m'] != 'r']
            if hs:
                h = r.choice(hs); k = r.choice(list(self.bufs)); n = r.randrange(self.bufs[k] + 1)
                self.written[self.tab[h]['f']] += n
                self.ops.append(dict(o='write', h=h, k=k, n=n, d=r.randrange(self.bufs[k] - n + 1)))
        elif x in ('fgetc', 'fgetcs'):
            hs = [h for h in rd if self.tab[h]['s']]
            if hs: self.ops.append(dict(o=x, h=r.choice(hs), n=r.choice([2, 5, 17, 40, 300]) if x == 'fgetcs' else 0))
        elif x == 'getchar': self.ops.append(dict(o=x))
        elif x == 'getchars': self.ops.append(dict(o=x, n=r.choice([2, 3, 16, 33, 260])))
        elif x == 'putchar': self.ops.append(dict(o=x, n=r.randrange(0, 128)))
        elif x == 'putcharv': self.ops.append(dict(o=x, n=r.choice([0, 0, 0, 256, -256, 512, -512, 65536]) + r.randrange(128)))
        elif x == 'alloc':
            if len(self.bufs) < 8: self.alloc()
        elif x == 'store':
            k = r.choice(list(self.bufs))
            if self.bufs[k]: self.ops.append(dict(o='store', k=k, d=r.randrange(self.bufs[k]), n=r.randrange(1, 128)))
        elif x == 'peek':
            k = r.choice(list(self.bufs)); self.ops.append(dict(o='peek', k=k, len=self.bufs[k]))

VARIANTS = ['sh', 'shrel', 'shopt', 'shcompact', 'shset', 'shrelcompact', 'i386', 'x64']
def plan(ctx, i, c):
    # yash can't read bytes that aren't characters; printf is an external command of mksh, which makes output slow
    size = len(c.inp) + sum(len(t) for t in c.files.values())
    S = [s for s in pv.SHELLS if (c.ascii or s != 'yash') and (size < 300 or s != 'mksh')]
    n = len(S)
    j = [('sh', S[i % n]), ('shrel', S[(i * 5 + 1) % n]), (['shopt', 'shcompact', 'shrelcompact', 'shset'][i % 4], S[(i * 3 + 2) % n]), (['i386', 'x64'][i % 2], None)]
    if c.native: j = [(['i386', 'x64'][i % 2], None)]
    elif not ctx.quick: j += [('sh', S[(i + 3) % n]), ('shrel', S[(i + 4) % n]), (['i386', 'x64'][1 - i % 2], None)]
    return j
