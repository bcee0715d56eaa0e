"""Shared driver code: builds pnut from /repo, runs TLC, runs compiled programs,
reports results.  Python standard library only."""
import atexit, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PNUT_REPO', '/repo')
SHELLS = ['dash', 'ksh', 'bash', 'mksh', 'yash', 'zsh']
NPROC = max(2, os.cpu_count() or 2)
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

VARIANTS = {
    'sh':      ['-Dsh', '-DRT_NO_INIT_GLOBALS'],
    'shset':   ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSH_SAVE_VARS_WITH_SET'],
    'shrel':   ['-DRELEASE_PNUT_SH'],
    'shcompact': ['-Dsh', '-DRT_COMPACT'],
    'shopt':   ['-Dsh', '-DOPTIMIZE_LONG_LINES'],
    'shsafe':  ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSAFE_MODE'],
    'i386':    ['-Dtarget_i386_linux'],
    'x64':     ['-Dtarget_x86_64_linux'],
    'i386safe': ['-Dtarget_i386_linux', '-DSAFE_MODE'],
    'x64safe':  ['-Dtarget_x86_64_linux', '-DSAFE_MODE'],
    'shc':     ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSH_INCLUDE_C_CODE'],
    'shchar':  ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSH_INLINE_CHAR_LITERAL'],
    'shparam': ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSH_SAVE_VARS_WITH_SET', '-DOPTIMIZE_CONSTANT_PARAM'],
    'shrelset': ['-DRELEASE_PNUT_SH', '-DSH_SAVE_VARS_WITH_SET'],
    'shrelcompact': ['-DRELEASE_PNUT_SH', '-DRT_COMPACT'],
    'shcompactset': ['-Dsh', '-DRT_COMPACT', '-DSH_SAVE_VARS_WITH_SET'],
    'shinit':  ['-Dsh'],
    'shall':   ['-DRELEASE_PNUT_SH', '-DSH_SAVE_VARS_WITH_SET', '-DSH_INLINE_CHAR_LITERAL', '-DSH_INCLUDE_C_CODE'],
    'i386rel': ['-DRELEASE_PNUT_i386_linux'],
    'x64rel':  ['-DRELEASE_PNUT_x86_64_linux'],
    'cpp':     ['-DDEBUG_CPP', '-Dtarget_i386_linux'],
    'cppcont': ['-DDEBUG_CPP', '-DSUPPORT_LINE_CONTINUATION', '-Dtarget_i386_linux'],
    'shcont':  ['-Dsh', '-DRT_NO_INIT_GLOBALS', '-DSUPPORT_LINE_CONTINUATION'],
    'x64cont': ['-Dtarget_x86_64_linux', '-DSUPPORT_LINE_CONTINUATION'],
    'cpprel':  ['-DDEBUG_CPP', '-DRELEASE_PNUT_i386_linux'],
}
def is_sh(v): return v.startswith('sh')

class Result:
    __slots__ = ('rc', 'out', 'err', 'to')
    def __init__(self, rc, out, err, to): self.rc, self.out, self.err, self.to = rc, out, err, to
    def __repr__(self): return 'rc=%s%s out=%r err=%r' % (self.rc, ' TIMEOUT' if self.to else '', self.out[:300], self.err[:300])

def _can_drop():
    try:
        return os.getuid() == 0 and subprocess.run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'true'],
                                                   capture_output=True).returncode == 0
    except OSError:
        return False

class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1: self.tier = sys.argv[1]
        self.quick = self.tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='pv-%s-' % pid.lower(), dir=os.environ.get('TMPDIR', '/tmp'))
        os.chmod(self.scratch, 0o777)
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.bins = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.notes = []
        self.lock = threading.Lock()
        self.drop = _can_drop()
        self.n = 0

    # -- small helpers -------------------------------------------------------
    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)
    def budget(self, quick, thorough): return quick if self.quick else thorough
    def elapsed(self): return time.time() - self.t0
    def dir(self, name=None):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, name or 'd%d' % self.n)
        os.makedirs(d, exist_ok=True); os.chmod(d, 0o777)
        return d
    def pmap(self, f, xs):
        with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(f, xs))
    def count(self, key, k=1):
        with self.lock: self.cov[key] = self.cov.get(key, 0) + k
    def sample(self, s, limit=6):
        with self.lock:
            if len(self.cov['samples']) < limit: self.cov['samples'].append(s)

    # -- building and running ------------------------------------------------
    def build(self, names):
        def one(v):
            out = os.path.join(self.scratch, 'pnut-' + v)
            q = subprocess.run(['gcc', '-w', '-O1', '-o', out] + VARIANTS[v] + [os.path.join(REPO, 'pnut.c')],
                               capture_output=True, cwd=REPO)
            if q.returncode: raise SystemExit('cannot build pnut variant %s:\n%s' % (v, q.stderr.decode('latin1')[-2000:]))
            os.chmod(out, 0o755)
            self.bins[v] = out
        self.pmap(one, [v for v in names if v not in self.bins])

    def run(self, argv, cwd, stdin=b'', timeout=10, env=None, drop=True, fsize=20 << 20):
        """Runs argv (as an unprivileged user), output through files with a size limit."""
        with self.lock:
            self.n += 1
            base = os.path.join(self.scratch, 'io%d' % self.n)
        pre = ['prlimit', '--fsize=%d' % fsize, '--core=0', '--cpu=%d' % (timeout + 5)]
        if drop and self.drop: pre += ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups']
        e = dict(PATH='/usr/local/bin:/usr/bin:/bin', HOME=cwd, LC_ALL='C.UTF-8')
        if env: e.update(env)
        fi = open(base + '.i', 'w+b'); fi.write(stdin); fi.flush(); fi.seek(0)
        fo = open(base + '.o', 'w+b'); fe = open(base + '.e', 'w+b')
        to = False
        p = subprocess.Popen(pre + list(argv), cwd=cwd, stdin=fi, stdout=fo, stderr=fe, env=e, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        p.wait()
        fo.seek(0); fe.seek(0); out, err = fo.read(), fe.read()
        for f, s in ((fi, '.i'), (fo, '.o'), (fe, '.e')):
            f.close(); os.unlink(base + s)
        return Result(p.returncode, out, err, to)

    def compile(self, variant, src, cwd, out=None, timeout=20, args=()):
        """pnut variant on src (a file name in cwd); the result is written to out."""
        out = out or os.path.join(cwd, os.path.splitext(os.path.basename(src))[0] + '.' + variant)
        r = self.run(['sh', '-c', 'o=$1; shift; "$@" > "$o"; r=$?; chmod 755 "$o"; exit $r', 'sh', out,
                      self.bins[variant]] + list(args) + [src], cwd, timeout=timeout)
        r.out = b''
        if r.rc != 0:
            try: r.out = open(out, 'rb').read()[-2000:]
            except OSError: pass
        return r, out

    def execute(self, variant, shell, exe, cwd, args=(), **kw):
        argv = [shell, exe] if shell else [exe]
        return self.run(argv + list(args), cwd, **kw)

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=600, extra=(), workers=None, count=True, heap='6g'):
        """Runs TLC on spec/<module>.tla with the given configuration text and returns
        (records printed as "@@<json>", statistics, full output)."""
        d = self.dir()
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'): shutil.copy(os.path.join(VERIF, 'spec', f), d)
        open(os.path.join(d, module + '.cfg'), 'w').write(cfg)
        e = dict(os.environ)
        for k in ('JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS'): e.pop(k, None)
        if env: e.update({k: str(v) for k, v in env.items()})
        argv = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', TLAJARS, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
                '-metadir', os.path.join(d, 'meta'), '-workers', str(workers or NPROC), '-config', module + '.cfg'] + list(extra) + [module + '.tla']
        p = subprocess.Popen(argv, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            raise SystemExit('TLC timed out on %s' % module)
        out = out.decode('utf-8', 'replace')
        recs = []
        for line in out.split('\n'):
            if line.startswith('"@@'):
                recs.append(json.loads(json.loads(line)[2:]))
        st = dict(rc=p.returncode, states=0, transitions=0)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m: st['transitions'], st['states'] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            if m: st['transitions'] = st['states'] = int(m[-1])
        if count:
            self.count('states', st['states']); self.count('transitions', st['transitions'])
        shutil.rmtree(d, ignore_errors=True)
        return recs, st, out
    def tlc_ok(self, *a, **k):
        r, st, out = self.tlc(*a, **k)
        if st['rc'] != 0: raise SystemExit('TLC failed (rc %d):\n%s' % (st['rc'], out[-4000:]))
        return r, st

    # -- reporting -----------------------------------------------------------
    def violation(self, what, files):
        """files: {name: text}; kept under replays/ so that the failure can be replayed."""
        with self.lock:
            self.violations.append(what)
            k = len(self.violations)
        if k > 5: return
        d = os.path.join(VERIF, 'replays', '%s-%d' % (self.pid, k))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for n, t in dict(files, **{'what.txt': what + '\n'}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
        self.log('violation:', what[:1500])
        print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(d, VERIF)), flush=True)

    def known(self, key):
        """Is key listed in known_findings.txt for this property?"""
        for f in load_findings():
            if f[0] == 'finding' and f[1] == self.pid and f[2] == key: return f[3]
        return None
    def finding(self, key, what):
        t = self.known(key)
        if t is None: return False
        with self.lock:
            if key in self.findings: return True
            self.findings.append(key)
        print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, t), flush=True)
        return True

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        if self.findings: self.cov['known_findings'] = self.findings
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        self.log('done: %d violation(s); %s' % (len(self.violations), json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})))
        sys.exit(1 if self.violations else 0)

def load_findings():
    """Lines of known_findings.txt:
         finding: property=P01 key=<key> <what>
         fixed: property=P01 <commit> <what>"""
    r = []
    try: lines = open(os.path.join(VERIF, 'known_findings.txt')).read().split('\n')
    except FileNotFoundError: return r
    for l in lines:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m: r.append(('finding',) + m.groups())
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m: r.append(('fixed',) + m.groups())
    return r
