"""Shared machinery of the MACIS model-based checks: building the harnesses
against /repo's working tree, running them (serially or under mpirun), and
running TLC on the specifications and on the recorded traces."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MACIS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
               OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1',
               OMPI_MCA_rmaps_base_oversubscribe='1',
               OMPI_MCA_hwloc_base_binding_policy='none',
               OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_btl_vader_single_copy_mechanism='none',
               OMPI_MCA_plm_rsh_agent='/bin/false', OPENBLAS_NUM_THREADS='1')


class CheckError(Exception):
    """An error of the check itself (exit 2), never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- building
INC_MACIS = ['-I%s/compat' % VERIF, '-I%s/inc' % BUILD, '-I%s/harness' % VERIF,
             '-I%s/include' % REPO, '-I%s/src/lobpcgxx/include' % REPO,
             '-I%s/src/sparsexx/include' % REPO, '-I%s/src/macis' % REPO,
             '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
             '-isystem', '/usr/include/eigen3']
CXXFLAGS = ['-std=c++17', '-O1', '-DNDEBUG', '-fopenmp', '-w', '-DFMT_SHARED',
            '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB']
LDFLAGS = ['-fopenmp', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib',
           '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_cxx', '-lmpi',
           '-llapackpp', '-lblaspp', '-lblas', '-llapack', '-lspdlog', '-lfmt',
           '-lpthread', '-lm', '-ldl']


def configure_header(src, dst, on):
    txt = open(src).read()

    def rep(m):
        return '#define ' + m.group(1) if m.group(1) in on else '/* #undef %s */' % m.group(1)
    txt = re.sub(r'#cmakedefine\s+(\w+)', rep, txt)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst).read() != txt:
        open(dst, 'w').write(txt)


def build(name, sources, macis=(), extra_flags=(), std=None, libs=(), incs=None, internals=False, ldflags=None):
    """As build1.  With `internals` the harness also drives helper functions of
    the implementation (-DVERIF_INTERNALS); when those are gone or have another
    shape (a refactoring), it is built without them: the public behaviour is
    still checked."""
    if internals:
        try:
            return build1(name, sources, macis, list(extra_flags) + ['-DVERIF_INTERNALS'], std, libs, incs, ldflags)
        except CheckError:
            log('building %s without the internal helpers' % name)
    return build1(name, sources, macis, extra_flags, std, libs, incs, ldflags)


def build1(name, sources, macis=(), extra_flags=(), std=None, libs=(), incs=None, ldflags=None):
    """Build harness `name` from `sources` (relative to /verif/harness, or
    absolute) plus the library sources named in `macis` ('*' = all of
    /repo/src/macis).  Returns the path of the executable."""
    configure_header(REPO + '/include/macis/macis_config.hpp.in',
                     BUILD + '/inc/macis/macis_config.hpp', {'MACIS_ENABLE_MPI'})
    configure_header(REPO + '/src/sparsexx/include/sparsexx/sparsexx_config.hpp.in',
                     BUILD + '/inc/sparsexx/sparsexx_config.hpp', {'SPARSEXX_ENABLE_MPI'})
    srcs = [s if os.path.isabs(s) else os.path.join(VERIF, 'harness', s) for s in sources]
    lib = []
    for m in macis:
        if m == '*':
            lib += sorted(glob.glob(REPO + '/src/macis/*.cxx'))
        else:
            lib.append(os.path.join(REPO, m))
    flags = list(CXXFLAGS) + list(extra_flags)
    if std:
        flags[0] = '-std=' + std
    inc = INC_MACIS if incs is None else incs
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    nin = ['ninja_required_version = 1.3', 'builddir = .',
           'rule cxx', '  command = g++ %s %s -MMD -MF $out.d -c $in -o $out' % (' '.join(flags), ' '.join(inc)),
           '  depfile = $out.d', '  deps = gcc',
           'rule link', '  command = g++ -o $out $in %s %s' % (' '.join(libs), ' '.join(LDFLAGS if ldflags is None else ldflags))]
    objs = []
    for s in srcs + lib:
        o = hashlib.md5(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s) + '.o'
        objs.append(o)
        nin.append('build %s: cxx %s' % (o, s))
    nin.append('build run: link %s' % ' '.join(objs))
    txt = '\n'.join(nin) + '\n'
    nf = os.path.join(d, 'build.ninja')
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, 'w').write(txt)
    r = subprocess.run(['ninja', '-C', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log('\n'.join(x for x in r.stdout.split('\n') if 'error' in x)[:3000])
        raise CheckError('harness %s does not build' % name)
    return os.path.join(d, 'run')


# ----------------------------------------------------------------- running
class RunResult:
    pass


def run_prog(cmd, timeout, env=None, np=None, cwd=None, stdin=None, out_file=None):
    """Run a harness; returns rc ('timeout' on time-out), stdout, stderr.
    A run that still writes records (on a busy machine message passing can be a
    hundred times slower) is not stopped before four times the limit (240 s for short ones)."""
    e = dict(os.environ)
    e.update(MPI_ENV)
    e.setdefault('OMP_NUM_THREADS', '2')
    e.setdefault('MALLOC_PERTURB_', '90')     # memory never written does not read as zero
    if env:
        e.update(env)
    full = list(cmd)
    if np is not None:
        full = ['mpirun.openmpi', '--oversubscribe', '-np', str(np)] + full
    t0 = time.time()
    p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         env=e, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL if stdin is None else stdin, errors='replace')
    def size():
        return sum(os.path.getsize(f) for f in glob.glob(glob.escape(out_file) + '*')) if out_file else 0
    last, seen = t0, 0
    cap = timeout * 4 if timeout > 240 else max(timeout, min(4 * timeout, 240))
    while True:
        try:
            out, err = p.communicate(timeout=max(0.1, min(5, last + timeout - time.time())))
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            now, n = time.time(), size()
            if n > seen:
                last, seen = now, n
            if now < last + timeout and now < t0 + cap:
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = 'timeout'
        break
    r = RunResult()
    r.rc, r.out, r.err, r.cmd, r.np, r.wall = rc, out, err, cmd, np, time.time() - t0
    return r


# --------------------------------------------------------------------- TLC
class Tlc:
    pass


TLC_HEAP = os.environ.get('TLC_HEAP', '3g')


def tlc(spec, cfg=None, env=None, workers='auto', timeout=600, extra=(), deque=False, heap=None):
    """Run TLC on spec/<spec>.tla.  Returns an object with the counts, printed
    values, error text and whether TLC finished without error."""
    meta = os.path.join(BUILD, 'tlc', '%s-%d-%d' % (spec, os.getpid(), random.getrandbits(48)))
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xmx' + (heap or TLC_HEAP), '-Xss64m', '-XX:+UseParallelGC']
    if deque:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', JAR, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
            '-config', os.path.join(SPEC, (cfg or spec) + '.cfg')] + list(extra) + [os.path.join(SPEC, spec + '.tla')]
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=SPEC,
                         start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = 'timeout'
    shutil.rmtree(meta, ignore_errors=True)
    r = Tlc()
    r.spec, r.rc, r.out, r.wall = spec, rc, out, time.time() - t0
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    r.generated, r.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    m = re.search(r'The depth of the complete state graph search is (\d+)', out)
    r.depth = int(m.group(1)) if m else 0
    r.ok = rc == 0 and 'Model checking completed. No error has been found' in out or (rc == 0 and 'The number of states generated' in out)
    r.printed = re.findall(r'^<<.*>>$', out, re.M)
    return r


def eval_error(r):
    """(record, message) when TLC stopped because an expression of the trace
    specification has no value on the current record; None otherwise."""
    if r.rc in (0, 'timeout') or not re.search(r'The error occurred when TLC was evaluating|Evaluating invariant \w+ failed', r.out):
        return None
    if re.search(r'StackOverflow|OutOfMemory|Parsing or semantic', r.out):
        return None
    m = re.findall(r'^(?:/\\ )?l = (\d+)', r.out, re.M)
    e = re.search(r'Error: (?!The behavior|The error)(.*(?:\n(?!Error).*)?)', r.out)
    return (int(m[-1]) if m else 0, (e.group(1) if e else '')[:300].replace('\n', ' '))


def tlc_design(ctx, spec, cfg=None, **kw):
    """A design-level model check: TLC must finish without error.  A failure is
    an error of the specification, not of the implementation."""
    r = tlc(spec, cfg, **kw)
    if not r.ok:
        log(r.out[-5000:])
        raise CheckError('TLC failed on design specification %s/%s (%s)' % (spec, cfg, r.rc))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.notes.append('%s/%s: exhaustive, %d distinct states, %d generated, depth %d, %.1fs' %
                     (spec, cfg or spec, r.distinct, r.generated, r.depth, r.wall))
    return r


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = self.records = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.assumptions = []
        self.hung = False
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'out', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.findings = load_findings(prop)
        self.rule_counts = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def path(self, n):
        return os.path.join(self.dir, n)

    def violation(self, what, replay_text, key=None):
        """Record a violation (or a known finding, when `key` is listed)."""
        for f in self.findings:
            if key is not None and f['key'] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((what, replay_text))

    # -- traces -----------------------------------------------------------
    def check_trace(self, spec, path, cfg=None, env=None, timeout=600, key=None, workers=None, label=''):
        """Validate one recorded trace (ndjson) against spec/<spec>.tla.  The
        trace specification prints <<"REJECT", line>> for each record that is
        no behaviour of the specification.  A rejection counts only when a
        second TLC run repeats it."""
        n = sum(1 for _ in open(path))
        if n == 0:
            raise CheckError('empty trace ' + path)

        def once(workers=workers):
            e = {'TRACE': path}
            if env:
                e.update(env)
            r = tlc(spec, cfg or ('replay' if not os.path.exists(os.path.join(SPEC, spec + '.cfg')) else None),
                    env=e, workers=workers or 1, timeout=timeout)
            rej = sorted({int(x) for x in re.findall(r'<<"REJECT", (\d+)', r.out)})
            done = re.search(r'<<"ACCEPTED", (\d+)>>', r.out)
            return r, rej, done
        r, rej, done = once()
        bad = eval_error(r)
        if bad:
            # the record lies outside the domain the specification is defined
            # on (an index out of range, a field missing): no behaviour either
            r2, rej, _ = once(1)
            bad = eval_error(r2)
            if not bad:
                raise CheckError('evaluation error on %s not repeatable' % path)
            lines = open(path).read().split('\n')
            i = bad[0]
            rec = lines[i - 1] if 1 <= i <= len(lines) else ''
            self.violation('%s is undefined on record %d of %s: %s' % (spec, i, os.path.basename(path), bad[1]), rec)
            for j in rej:
                self.violation('%s rejects record %d of %s' % (spec, j, os.path.basename(path)), lines[j - 1])
            return [i]
        if not r.ok or not done or int(done.group(1)) != n:
            log(r.out[-1500:] + '\n'.join(x for x in r.out.split('\n') if 'rror' in x)[:1500])
            raise CheckError('TLC did not consume trace %s with %s (rc %s)' % (path, spec, r.rc))
        self.states += r.distinct
        self.transitions += r.generated
        self.records += n
        if rej:
            r2, rej2, _ = once()
            if rej2 != rej:
                raise CheckError('rejection of %s not repeatable' % path)
            lines = open(path).read().split('\n')
            for i in rej:
                rec = lines[i - 1]
                try:
                    d = json.loads(rec)
                except Exception:
                    d = {}
                self.violation('%s rejects record %d of %s' % (spec, i, os.path.basename(path)),
                               rec, key=key(d) if key else d.get('key'))
        else:
            self.traces += 1
        if len(self.samples) < 4:
            with open(path) as f:
                ls = f.readlines()
            self.samples.append({'trace': label or os.path.basename(path), 'records': n,
                                 'record': ls[min(len(ls) - 1, len(ls) // 2)].strip()[:600]})
        self.notes.append('%s on %s: %d records, %d rejected, %.1fs' % (spec, label or os.path.basename(path), n, len(rej), r.wall))
        return rej

    def check_traces(self, jobs, par=None):
        """jobs: list of dicts of check_trace keyword arguments; run in parallel."""
        with ThreadPoolExecutor(par or max(1, NCPU - 1)) as ex:
            fs = [ex.submit(self.check_trace, **j) for j in jobs]
            return [f.result() for f in fs]

    # -- harness runs -----------------------------------------------------
    def run(self, cmd, out, timeout=120, env=None, np=None, allow_fail=False, what=''):
        """Run a harness which writes its trace to `out`.  A crash, a time-out
        or a non-zero exit on a legal input is a violation (confirmed by a
        second run); the last line written says what it was doing."""
        env = dict(env or {})
        env['VERIF_OUT'] = out
        env.setdefault('VERIF_SEED', str(self.seed))
        env.setdefault('VERIF_TIER', self.tier)

        def once():
            for f in glob.glob(glob.escape(out) + '*'):
                os.unlink(f)
            return run_prog(cmd, timeout, env=env, np=np, out_file=out)
        if self.hung:
            return None            # reported already
        r = once()
        if r.rc != 0:
            r2 = once()
            if r2.rc == 0:
                # load-dependent (e.g. a time-out under load): take the good run
                self.notes.append('run of %s first ended with %s, second run fine' % (cmd, r.rc))
                r = r2
            elif not allow_fail:
                self.hung = r.rc == 'timeout' and r2.rc == 'timeout'
                last = ''
                for f in sorted(glob.glob(glob.escape(out) + '*')):
                    ls = open(f, errors='replace').read().strip().split('\n')
                    last += '\n%s: %s' % (os.path.basename(f), ls[-1][:500])
                self.violation('harness %s %s%s ended with %s' % (' '.join(map(str, cmd)), what,
                                                                  ' (np=%s)' % np if np else '', r2.rc),
                               'rc=%s\nstderr: %s\nlast records: %s' % (r2.rc, r2.err[-1500:], last),
                               key='crash:' + (what or os.path.basename(str(cmd[0]))))
                return None
        return r

    # -- end ----------------------------------------------------------------
    def finish(self, level='model_checking', exhaustive=False):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                trace_records=self.records, samples=self.samples or ['none'],
                                runs=self.notes, exhaustive=bool(exhaustive)),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        if self.violations:
            rp = os.path.join(EVID, 'replay-%s.txt' % self.prop)
            with open(rp, 'w') as f:
                f.write('property %s tier %s seed %d\n' % (self.prop, self.tier, self.seed))
                for w, t in self.violations:
                    f.write('--- %s\n%s\n' % (w, t))
            for w, t in self.violations[:5]:
                print('  %s :: %s' % (w, t[:400].replace('\n', ' | ')))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d records=%d wall=%.1fs' %
              (self.prop, self.states, self.transitions, self.traces, self.records, time.time() - self.t0))
        return 0


def load_findings(prop):
    """known-findings.txt lines:  finding: property=<id> key=<key> <what fails>
    (`fixed:` lines are a record only and suppress nothing)."""
    res = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), what=m.group(3).strip()))
    return res
