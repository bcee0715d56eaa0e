#!/usr/bin/env python3
"""P19: the output of a compiler depends on its options and its input only.  Chains.tla lists the chains of
builds; the compilers at their ends read the same inputs; Bootstrap.tla validates the recorded history."""
import hashlib, json, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pv, inputs

CHAINS = 'SPECIFICATION Spec\nINVARIANT Collapse\nINVARIANT Report\n'
CFG = 'SPECIFICATION Spec\nINVARIANT Report\nPROPERTY Remembers\n'
LOOP = '''cd "$1" || exit 9
while read -r f id cmd; do ( ulimit -t 60 -v 4000000; cd "$f/t" && exec $cmd ) > "$f/out.$id" 2> "$f/err.$id" < "$2" ; echo "$f $id $?" ; done < jobs
'''
class Comp:
    """A compiler: a native program, or a script that shells run"""
    def __init__(self, n, opt, chain, path, script): self.n, self.opt, self.chain, self.path, self.script = n, opt, chain, path, script

def flags(o): return pv.VARIANTS[o]
def digest(data, rc): return hashlib.md5(data + b'/%d' % rc).hexdigest()

def construct(ctx, comps, events):
    """builds the compilers of all chains; equal artefacts are kept once"""
    chains, st = ctx.tlc_ok('Chains', CHAINS, env=dict(DEPTH=ctx.budget(3, 4)))
    chains = [tuple(c) for c in chains]
    ctx.count('chains', len(chains))
    art = os.path.join(ctx.scratch, 'art'); os.mkdir(art); os.chmod(art, 0o755)
    for k, t in (('gcc', ['gcc', '-w', '-O1']), ('clang', ['clang', '-w', '-O2', '-fno-strict-aliasing'])):
        def one(c):
            out = os.path.join(art, '%s-%s' % c)
            q = subprocess.run(t + ['-o', out] + flags(c[1]) + [os.path.join(pv.REPO, 'pnut.c')], capture_output=True, cwd=pv.REPO)
            if q.returncode: raise SystemExit('cannot build %s with %s: %s' % (c[1], c[0], q.stderr.decode('latin1')[-500:]))
            os.chmod(out, 0o755)
            return c, out
        for c, out in ctx.pmap(one, sorted(c for c in chains if len(c) == 2 and c[0] == k)):
            comps[c] = Comp(len(comps) + 1, c[1], c, out, False)
            events.append(dict(k='host', n=comps[c].n, opt=c[1]))
    for n in range(3, max(map(len, chains)) + 1):
        todo = sorted(c for c in chains if len(c) == n and c[:-1] in comps and not comps[c[:-1]].script)
        def one(c):
            p = comps[c[:-1]]
            out = os.path.join(art, '-'.join(c))
            q = ctx.run(['sh', '-c', 'cd "$1" && shift && exec "$@"', 'sh', pv.REPO, p.path] + flags(c[-1]) + ['pnut.c'], '/tmp', timeout=60)
            with open(out, 'wb') as f: f.write(q.out)
            os.chmod(out, 0o755)
            return c, out, q
        for c, out, q in ctx.pmap(one, todo):
            x = Comp(len(comps) + 1, c[-1], c, out, pv.is_sh(c[-2]))
            # the script compilers: the compiler with options c[-1] as translated by a shell backend
            comps[c] = x
            events.append(dict(k='self', c=comps[c[:-1]].n, opt=c[-1], d=digest(q.out, q.rc), n=x.n))
            if q.rc != 0 or q.to:
                ctx.violation('the compiler %s does not compile pnut.c for %s: %r' % ('-'.join(c[:-1]), c[-1], q.out[-300:]), {'chain.txt': repr(c)}); return False
    return True

def self_shell(ctx, comps, events, shells):
    """shell compilers compile pnut: minutes each"""
    def one(a):
        c, s, o = a
        out = os.path.join(ctx.scratch, 'art', '-'.join(c) + '-' + s + '-' + o)
        q = ctx.run(['sh', '-c', 'cd "$1" && shift && exec "$@"', 'sh', pv.REPO, s, comps[c].path] + flags(o) + ['pnut.c'], '/tmp', timeout=1500)
        return c, o, q
    for c, o, q in ctx.pmap(one, shells):
        n = len(comps) + 1
        comps[c + (o, n)] = Comp(n, o, c + (o,), None, False)
        events.append(dict(k='self', c=comps[c].n, opt=o, d=digest(q.out, q.rc), n=n))

def prepare(ctx, todo):
    """todo: (input, [(compiler, shell)])"""
    d = ctx.dir()
    jobs, res = [], {}
    for k, (x, cs) in enumerate(todo):
        f = 'p%d' % k
        os.makedirs(os.path.join(d, f, 't')); os.chmod(os.path.join(d, f), 0o777); os.chmod(os.path.join(d, f, 't'), 0o755)
        for n, t in x.files.items():
            q = os.path.join(d, f, 't', n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w', newline='') as h: h.write(t)
        for j, (c, s) in enumerate(cs): jobs.append('%s %d %s %s\n' % (f, j, ' '.join(([s] if s else []) + [c.path] + x.args), x.top))
    open(os.path.join(d, 'jobs'), 'w').write(''.join(jobs))
    return d

def execute(ctx, todo, timeout=850):
    d = prepare(ctx, todo)
    q = ctx.run(['bash', '-c', LOOP, 'loop', d, os.path.join(pv.REPO, 'README.md') if ctx.rng.random() < .5 else '/dev/null'], d, timeout=timeout,
                env=ctx.rng.choice([{}, dict(LC_ALL='C'), dict(FOO='bar', x='1', _x='2', g='7', IFS=':', ENV='/dev/null')]))
    rcs = {}
    for l in q.out.decode('latin1').split('\n'):
        w = l.split()
        if len(w) == 3: rcs[w[0], int(w[1])] = int(w[2])
    out = []
    for k, (x, cs) in enumerate(todo):
        row = []
        for j, (c, s) in enumerate(cs):
            try: data = open(os.path.join(d, 'p%d' % k, 'out.%d' % j), 'rb').read()
            except OSError: data = b'?'
            try: limit = c.script and b'maximum nested function level' in open(os.path.join(d, 'p%d' % k, 'err.%d' % j), 'rb').read()   # zsh
            except OSError: limit = False
            row.append((digest(data, rcs.get(('p%d' % k, j), 999)), rcs.get(('p%d' % k, j), 999), data, limit))
        out.append(row)
    shutil.rmtree(d, ignore_errors=True)
    return out

def main():
    ctx = pv.Ctx('P19')
    r = ctx.rng
    comps, events = {}, []
    if not construct(ctx, comps, events): ctx.finish()
    ctx.log('%d compilers' % len(comps))
    native, script = {}, {}
    seen = set()
    for c, x in comps.items():
        h = hashlib.md5(open(x.path, 'rb').read()).hexdigest()
        if (x.opt, h) in seen: continue            # the same artefact once more
        seen.add((x.opt, h))
        (script if x.script else native).setdefault(x.opt, []).append(x)
    ctx.count('different_artefacts', len(seen))
    opts = sorted(native)
    ins = inputs.repo_files(60 if ctx.quick else 400)
    r.shuffle(ins)
    ins = ins[:ctx.budget(40, 400)]
    for i in range(ctx.budget(2600, 30000)): ins.append(inputs.make(r, i % 2 == 0))
    SH = ['dash'] * 5 + ['ksh'] * 4 + ['bash'] * 2 + ['yash', 'zsh', 'mksh']
    todo = []
    budget = ctx.budget(300, 7000)               # runs of compilers written in shell, in some unit
    scripted = 0
    for k, x in enumerate(ins):
        o = r.choice(opts)
        cs = [(c, None) for c in native[o]]
        hosts = [c for c in cs if len(c[0].chain) == 2]; others = [c for c in cs if len(c[0].chain) > 2]
        cs = r.sample(hosts, 2) + r.sample(others, min(len(others), 2))
        n = x.lines()
        if o in script and scripted < budget and x.size() < 6000 and (k % 6 == 0 or x.kind == 'repository'):
            scripted += 1
            cs.append((r.choice(script[o]), r.choice(SH if n < 70 else SH[:9])))
            ctx.count('runs_of_scripts')
        if r.random() < .1: cs.append(cs[0])      # the same once more
        r.shuffle(cs)
        todo.append((x, cs))
    # scripts first, spread evenly
    todo.sort(key=lambda t: -sum(s is not None for c, s in t[1]))
    parts = [todo[i::64] for i in range(64)]
    res = ctx.pmap(lambda p: execute(ctx, p), parts)
    runs, where = [], []
    for p, rows in zip(parts, res):
        for (x, cs), row in zip(p, rows):
            host = [w for (c, s), w in zip(cs, row) if len(c.chain) == 2]
            if any(w[1] > 127 or w[1] == 999 for w in host): ctx.count('discarded_crash'); continue     # judged by P18
            if any(w[3] for w in row):
                keep = [j for j, w in enumerate(row) if not w[3]]
                cs, row = [cs[j] for j in keep], [row[j] for j in keep]
                ctx.count('limit_of_zsh')
            # scripts end with an error of the shell when they open a missing file: P12's finding open-missing-file
            if b'Could not open file' in host[0][2]:
                keep = [j for j, (c, s) in enumerate(cs) if not s]
                cs, row = [cs[j] for j in keep], [row[j] for j in keep]
            ctx.count('input_' + x.kind.split()[0]); ctx.count('accepted' if host[0][1] == 0 else 'refused')
            runs.append([dict(k='run', c=c.n, i=len(runs), d=w[0]) for (c, s), w in zip(cs, row)]); where.append((x, cs, row))
    if not ctx.quick:
        S = ['ksh', 'dash', 'bash']
        base = [c for c in comps if len(c) == 3 and c[0] == 'gcc' and comps[c].script]
        self_shell(ctx, comps, events, [(c, S[i % 3] if i % 4 else 'ksh', o) for i, (c, o) in enumerate([(c, o) for c in base if c[1] in ('sh', 'shrel') and c[2] in ('sh', 'x64', 'i386') for o in ('sh', 'x64')][:8])])
    f = os.path.join(ctx.scratch, 'trace.json')
    json.dump(dict(builds=events, runs=runs), open(f, 'w'))
    rec, st = ctx.tlc_ok('Bootstrap', CFG, env=dict(CASES_FILE=f))
    assert len(rec) == len(runs) + 1
    ctx.count('keys', sum(v['keys'] for v in rec))
    for v in sorted(rec, key=lambda v: v['h']):
        if v['h'] == 0:
            if not v['ok']:
                e = events[v['at'] - 1]
                name = [c for c in comps if comps[c].n == e['n']]
                ctx.violation('the chain %s gives another compiler than other chains with the same last options' % '-'.join(map(str, name[0])), {'events.json': json.dumps(events[:v['at']])})
            ctx.count('builds_validated', v['at']); continue
        if v['ok']: ctx.count('traces_validated_against_impl', v['at']); continue
        x, cs, row = where[v['h'] - 1]
        # once more, alone
        again = execute(ctx, [(x, cs)])[0]
        if len({w[0] for w in again}) == 1: ctx.count('not_reproduced'); continue
        files = dict(x.files)
        desc = []
        for j, ((c, s), w) in enumerate(zip(cs, again)):
            files['out.%d' % j] = w[2]; desc.append('%s%s: status %d, %d bytes, %s' % ('-'.join(map(str, c.chain)), '/' + s if s else '', w[1], len(w[2]), w[0][:6]))
        ctx.violation('compilers with options %s give different outputs for an input (%s): %s' % (cs[0][0].opt, x.kind, '; '.join(desc)), files)
        if len(ctx.violations) > 4: break
    ctx.sample(dict(chains=['-'.join(map(str, c)) for c in list(comps)[:40]]))
    for x, cs, row in where[:300:75]: ctx.sample(dict(kind=x.kind, text=x.files[x.top][:700], compilers=['-'.join(map(str, c.chain)) + (s or '') for c, s in cs], digest=row[0][0]))
    ctx.finish()
if __name__ == '__main__': main()
