"""Binds CMachine.tla to the code: computes with TLC every way each program may behave,
compiles the program with pnut and checks that it behaves in one of these ways."""
import json, os
from cgen import *
import pv

CFG = 'SPECIFICATION Spec\nINVARIANT Report\n'
CFG_PROPS = 'SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Report\nPROPERTY TraceGrows\nPROPERTY ActivationsPrivate\n'

def outcomes(ctx, progs, props=False, timeout=600, module='CMachine'):
    """[set of (trace, status) or None when the behaviour may be undefined]"""
    if not progs: return []
    f = os.path.join(ctx.scratch, 'cases%d.json' % ctx.n); ctx.n += 1
    with open(f, 'w') as h: json.dump([flatten(p) for p in progs], h)
    recs, st = ctx.tlc_ok(module, CFG_PROPS if props else CFG, env=dict(CASES_FILE=f), timeout=timeout)
    os.unlink(f)
    res = [set() for _ in progs]
    for r in recs:
        i = r['c'] - 1
        if r['m'] == 'U': res[i] = None
        elif res[i] is not None: res[i].add((tuple(r['t']), r['x']))
    return [r or None for r in res]

class Case:
    def __init__(self, num, prog, exp, extra=None, tight=False):
        self.num, self.prog, self.exp = num, prog, exp
        self.txt = ctext(prog, str(num), extra, tight)
    def traces(self): return {t for t, x in self.exp}

def parse(out):
    """{case number: tuple of values, or None when not numeric}; the last key is '$' when the run completed"""
    r = {}
    for line in out.decode('latin1').split('\n'):
        if line == '$': r['$'] = ()
        elif line.startswith('#'):
            w = line[1:].split(' ')
            try: r[int(w[0])] = tuple(int(x) for x in w[1:] if x != '')
            except ValueError: r[w[0]] = None
    return r

def plan_default(ctx, i):
    """Configurations (variant, shell) for batch i; all shells for the base variant, the others in turn"""
    S = pv.SHELLS
    r = [('sh', s) for s in S] + [('i386', None), ('x64', None)]
    for k, v in enumerate(('shset', 'shrel', 'shcompact')):
        r.append((v, S[(i * 2 + k) % 6]))
        if not ctx.quick: r.append((v, S[(i * 2 + k + 3) % 6]))
    return r
PLAN_VARIANTS = ['sh', 'shset', 'shrel', 'shcompact', 'i386', 'x64']

class Runner:
    def __init__(self, ctx, plan=plan_default, variants=PLAN_VARIANTS, batch=24, may_reject=None, header='', finding_key=None, timeout=20):
        self.ctx, self.plan, self.batchsize, self.header = ctx, plan, batch, header
        self.may_reject = may_reject or (lambda case, variant, msg: False)
        self.finding_key = finding_key or (lambda case, variant: None)
        self.timeout = timeout
        ctx.build(variants)
        self.rejected = 0
        self.badcases = set()
    def source(self, cases, variant):
        return self.header + file_text([(c.num, c.prog, c.txt) for c in cases], not pv.is_sh(variant))
    def compile(self, cases, variant, d):
        src = os.path.join(d, variant + '.c')
        with open(src, 'w', encoding='utf-8', newline='') as f: f.write(self.source(cases, variant))
        return self.ctx.compile(variant, variant + '.c', d)
    def single(self, case, variant, shell):
        """(ok, description) of one case run alone"""
        d = self.ctx.dir()
        r, exe = self.compile([case], variant, d)
        if r.rc != 0 or r.to: return False, 'rejected by %s: %s' % (variant, (r.out + r.err)[-300:].decode('latin1'))
        q = self.ctx.execute(variant, shell, exe, d, timeout=self.timeout)
        got = parse(q.out)
        ok = got.get(case.num, 'missing') in case.traces() and '$' in got and q.rc == 0 and not q.to
        return ok, 'printed %s rc=%s%s stderr=%s' % (list(got.get(case.num) or ()) if case.num in got else 'nothing', q.rc, ' (timeout)' if q.to else '', q.err[:200].decode('latin1'))
    def report(self, case, variant, shell, desc):
        with self.ctx.lock:
            if case.num in self.badcases: return 0
            self.badcases.add(case.num)
        k = self.finding_key(case, variant)
        if k and self.ctx.finding(k, desc): return 0
        d = {'program.c': self.source([case], variant), 'program.json': json.dumps(flatten(case.prog))}
        self.ctx.violation('%s: program %d (%s) under %s%s %s; the specification allows %s' % (
            self.ctx.pid, case.num, case.prog.tag, variant, '/' + shell if shell else '', desc, sorted(list(t) for t in case.traces())[:4]), d)
        return 1
    def batch(self, arg):
        i, cases = arg
        ctx = self.ctx
        if ctx.violations: return
        byv = {}
        for v, s in self.plan(ctx, i): byv.setdefault(v, []).append(s)
        for v, shells in byv.items():
            d = ctx.dir()
            todo = [c for c in cases if not (pv.is_sh(v) and getattr(c.prog, 'exe_only', False)) and not (not pv.is_sh(v) and getattr(c.prog, 'sh_only', False))]
            if not todo: continue
            r, exe = self.compile(todo, v, d)
            if r.rc != 0 or r.to:
                keep = []
                for c in todo:
                    d1 = ctx.dir()
                    r1, _ = self.compile([c], v, d1)
                    if r1.rc == 0 and not r1.to: keep.append(c); continue
                    msg = (r1.out + r1.err)[-300:].decode('latin1')
                    if not r1.to and 0 < r1.rc < 64 and self.may_reject(c, v, msg):
                        self.rejected += 1; ctx.count('rejected_as_allowed'); continue
                    ok, desc = self.single(c, v, shells[0])
                    if not ok: self.report(c, v, None, desc)
                if len(keep) == len(todo):
                    self.ctx.violation('%s: programs accepted one by one by %s are rejected together: %s' % (ctx.pid, v, (r.out + r.err)[-300:].decode('latin1')),
                                       {'program.c': self.source(todo, v)})
                    return
                todo = keep
                if not todo: continue
                r, exe = self.compile(todo, v, d)
            for s in shells:
                if ctx.violations: return
                q = ctx.execute(v, s, exe, d, timeout=self.timeout)
                got = parse(q.out)
                bad = [c for c in todo if got.get(c.num, 'missing') not in c.traces()]
                if '$' not in got or q.rc != 0 or q.to: bad = bad or todo
                ctx.count('traces_validated_against_impl', len(todo) - len(bad))
                if not bad: continue
                n = 0
                for c in bad:
                    if ctx.violations: return
                    ok, desc = self.single(c, v, s)
                    if not ok: ok, desc = self.single(c, v, s)
                    if ok: ctx.count('traces_validated_against_impl')
                    else: n += self.report(c, v, s, desc)
                    if n >= 1: return
                if n == 0 and not any(c.num in self.badcases for c in bad):   # only fails in company
                    q = ctx.execute(v, s, exe, d, timeout=self.timeout * 2)
                    got = parse(q.out)
                    bad = [c for c in todo if got.get(c.num, 'missing') not in c.traces()]
                    if bad or '$' not in got or q.rc != 0:
                        ctx.violation('%s: programs that behave alone misbehave in one file under %s/%s: %s' % (ctx.pid, v, s, [(c.num, got.get(c.num), sorted(c.traces())[:2]) for c in bad[:3]]),
                                      {'program.c': self.source(todo, v)})
                        return
    def run(self, cases):
        b = [cases[i:i + self.batchsize] for i in range(0, len(cases), self.batchsize)]
        self.ctx.pmap(self.batch, list(enumerate(b)))

def decide(ctx, progs, runner=None, props=False, extra=None, tight=None, chunk=1500, post=None, **kw):
    """The whole pipeline.  Returns the number of programs that were run.  post may change the text of the cases or drop some."""
    runner = runner or Runner(ctx, **kw)
    total = 0
    undef = 0
    num = 0
    for i in range(0, len(progs), chunk):
        part = progs[i:i + chunk]
        exp = outcomes(ctx, part, props)
        cases = []
        for p, e in zip(part, exp):
            num += 1
            if e is None: undef += 1; continue
            cases.append(Case(num, p, e, extra, tight() if tight else False))
            if len(cases) % 97 == 1: ctx.sample(dict(tag=p.tag, source=cases[-1].txt[:900], allowed=sorted(list(t) for t, x in e)[:3]))
        if post: cases = post(cases)
        ctx.log('%d programs, %d defined' % (len(part), len(cases)))
        runner.run(cases)
        total += len(cases)
        if ctx.violations: break
    ctx.count('programs', total)
    ctx.count('discarded_undefined', undef)
    return total
