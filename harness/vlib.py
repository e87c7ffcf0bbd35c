'''Shared machinery of the checks: running TLC, reading back what the
specification prints, comparing with the real code, verdicts, evidence.

A check is a function run(ctx) in harness/checks/<id>.py.  The verdict is total:
  * ctx.violation(...)   -> the property is broken on the code under test (exit 1)
  * known findings       -> printed, do not change the verdict
  * anything the *code under test* raises is turned into a violation by ctx.guard
  * machinery trouble (TLC does not run, spec error) -> exit 2
'''
import contextlib, io, json, math, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MARK = '@@'


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc, prints, generated, distinct, coverage, wall):
        self.out, self.rc, self.prints = out, rc, prints
        self.generated, self.distinct, self.coverage, self.wall = generated, distinct, coverage, wall


def rat(x):
    'JSON <<num, den>> -> Fraction.'
    return Fraction(int(x[0]), int(x[1]))


def close(a, b, rtol=1e-4, atol=1e-5):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.coverage = {}
        self.spec_runs = []
        self.assumptions = []
        self.violations = []
        self.findings_seen = {}
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'open']

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, constants=None, init='Init', next_='Next', spec=None, invariants=(),
            properties=(), constraint=None, action_constraint=None, view=None, postcondition=None,
            workers=None, simulate=None, depth=None, env=None, timeout=600, expect_error=False,
            extra_modules=None, heap='6g', coverage=True, deque=False, checkdeadlock=False):
        '''Run TLC on spec/<module>.tla in a scratch copy. Returns TlcResult; the
        lines the specification prints with PrintT("@@" \\o ToJson(x)) are parsed.'''
        work = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (extra_modules or {}).items():
            with open(os.path.join(work, name), 'w') as f:
                f.write(text)
        cfg = []
        if spec:
            cfg.append('SPECIFICATION %s' % spec)
        else:
            cfg += ['INIT %s' % init, 'NEXT %s' % next_]
        for k, v in (constants or {}).items():
            cfg.append('CONSTANT %s %s %s' % (k, '<-' if isinstance(v, Sub) else '=', cfgval(v)))
        for i in invariants:
            cfg.append('INVARIANT %s' % i)
        for p in properties:
            cfg.append('PROPERTY %s' % p)
        if constraint:
            cfg.append('CONSTRAINT %s' % constraint)
        if action_constraint:
            cfg.append('ACTION_CONSTRAINT %s' % action_constraint)
        if view:
            cfg.append('VIEW %s' % view)
        if postcondition:
            cfg.append('POSTCONDITION %s' % postcondition)
        cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if checkdeadlock else 'FALSE'))
        with open(os.path.join(work, 'run.cfg'), 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m']
        if deque:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', TLA_CP, 'tlc2.TLC', '-config', 'run.cfg', '-metadir', os.path.join(work, 'meta'),
                '-noGenerateSpecTE', '-lncheck', 'final']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed), '-depth', str(depth or 100),
                    '-workers', str(workers or 1)]
        else:
            cmd += ['-workers', str(workers or 4)]
            if coverage:
                cmd += ['-coverage', '60']
        cmd.append(module + '.tla')
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
            out, rc = p.stdout.decode('utf8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as x:
            raise MachineryError('TLC timeout on %s: %s' % (module, (x.stdout or b'')[-2000:].decode('utf8', 'replace')))
        wall = time.time() - t
        prints, rest = [], []
        for line in out.splitlines():
            if line.startswith('"' + MARK):
                prints.append(json.loads(json.loads(line)[len(MARK):]))
            else:
                rest.append(line)
        rest = '\n'.join(rest)
        gen = dist = 0
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', re.sub(r'(?<=\d),(?=\d)', '', rest))
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', re.sub(r'(?<=\d),(?=\d)', '', rest))
        if m:
            gen = int(m[-1]); dist = dist or gen
        cov = {}
        for m in re.finditer(r'^<(\w+) line \d+[^>]*>: (\d+):(\d+)', rest, re.M):
            cov[m.group(1)] = int(m.group(3))
        ok = rc == 0
        if not ok and not expect_error:
            raise MachineryError('TLC failed on %s (rc %d)\n%s' % (module, rc, tlc_tail(rest)))
        self.states += dist
        self.transitions += gen
        self.spec_runs.append(dict(module=module, generated=gen, distinct=dist, behaviours=len(prints),
                                   mode='simulate' if simulate else 'exhaustive', wall_s=round(wall, 2),
                                   actions_taken=cov))
        shutil.rmtree(work, ignore_errors=True)
        return TlcResult(rest, rc, prints, gen, dist, cov, wall)

    # -------------------------------------------------------------- verdicts
    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def violation(self, clause, detail, case=None):
        '''Record a violation, unless the known-findings file lists this very case.'''
        rec = dict(property=self.pid, clause=clause, detail=str(detail)[:2000], case=case)
        for k in self.known:
            if k['clause'] == clause and (k.get('match') is None or re.search(k['match'], str(detail))):
                self.findings_seen.setdefault(k['id'], rec)
                return
        self.violations.append(rec)
        if len(self.violations) >= 200:
            raise Stop()

    @contextlib.contextmanager
    def guard(self, clause, case=None):
        'Exceptions of the code under test are violations of the clause.'
        try:
            yield
        except (Stop, MachineryError, KeyboardInterrupt):
            raise
        except SystemExit as e:
            self.violation(clause, 'SystemExit %s' % e, case)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
            self.violation(clause, '%s: %s (%s)' % (type(e).__name__, e, where), case)

    def enough(self, n=20):
        return len(self.violations) >= n

    def finish(self):
        vio_path = None
        for k in self.known:
            what = k['what']
            if k['id'] in self.findings_seen:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
            elif not k.get('probe_free'):
                print('note: known finding %s was not met on this run' % k['id'])
        if self.violations:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            vio_path = os.path.join(d, '%s.json' % self.pid)
            with open(vio_path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=self.violations[:50]), f, indent=1, default=str)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples or ['none'],
                   spec_runs=self.spec_runs)
        cov.update(self.coverage)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.pid), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            v = self.violations[0]
            for v in self.violations[:5]:
                print('  clause %s: %s' % (v['clause'], v['detail'][:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, vio_path))
            return 1
        print('OK property=%s states=%d transitions=%d replayed=%d wall=%.1fs' % (
            self.pid, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0


def tlc_tail(out):
    out = re.split(r'\nThe coverage statistics', out)[0]
    keep = [l for l in out.splitlines() if not re.match(r'(Parsing file|Semantic processing|Running|TLC2|Starting|Finished|\s*$)', l)]
    t = '\n'.join(k for k in keep if not k.startswith('CostModel'))
    i = t.find('Error:')
    return t[i:i + 1500] + '\n...\n' + t[-1500:] if i >= 0 else t[-2500:]


def cfgval(v):
    if isinstance(v, bool):
        return str(v).upper()
    if isinstance(v, (set, frozenset, list, tuple, range)):
        return '{' + ', '.join(cfgval(x) for x in sorted(v)) + '}'
    return str(v)


class Stop(Exception):
    'Enough violations collected.'


class Sub(str):
    'cfg substitution (CONSTANT X <- Y).'


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


class Log:
    'Logger stand-in recording messages.'
    def __init__(self):
        self.records = []
    def _add(self, lvl, msg):
        self.records.append((lvl, str(msg)))
    def debug(self, m, *a): self._add('debug', m)
    def info(self, m, *a): self._add('info', m)
    def warning(self, m, *a): self._add('warning', m)
    def error(self, m, *a): self._add('error', m)
    warn = warning
    def setLevel(self, *a): pass
    def level(self, lvl):
        return [m for l, m in self.records if l == lvl]


def cli(group, command, argv, stdin='', logger=None, outer_cls=None):
    '''Run one `beer <group> <command>` in this process, as the beer script
    does: setup the parser, parse, call main. Returns (stdout, logger).'''
    import argparse, importlib
    mod = importlib.import_module('beer.cli.subcommands.%s.%s' % (group, command))
    parser = argparse.ArgumentParser(prog='beer')
    mod.setup(parser)
    args = parser.parse_args([str(a) for a in argv])
    logger = logger or Log()
    old_in, out = sys.stdin, io.StringIO()
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            mod.main(args, logger)
    finally:
        sys.stdin = old_in
    return out.getvalue(), logger


def setup_python():
    'Import beer from REPO, deterministic and silent.'
    import warnings
    warnings.filterwarnings('ignore')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import torch
    torch.set_num_threads(1)
    import beer
    here = os.path.realpath(os.path.dirname(beer.__file__))
    if not here.startswith(os.path.realpath(REPO)):
        raise MachineryError('beer imported from %s' % here)
    return beer


def main(argv):
    pid = argv[1]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import importlib
    ctx = Ctx(pid)
    try:
        try:
            setup_python()
        except MachineryError:
            raise
        except BaseException as e:
            ctx.violation('import', 'the package cannot be imported: %r' % e)
            return ctx.finish()
        mod = importlib.import_module('checks.%s' % pid.lower())
        random.seed(ctx.seed)
        import numpy, torch
        numpy.random.seed(ctx.seed); torch.manual_seed(ctx.seed)
        try:
            mod.run(ctx)
        except (Stop, MachineryError) as e:
            if isinstance(e, MachineryError):
                raise
        except Exception as e:
            # On the unchanged tree the run is exception free: an exception that
            # escapes the per-case guards comes from what the code under test returned.
            traceback.print_exc()
            ctx.violation('unexpected-exception', repr(e))
        return ctx.finish()
    except MachineryError as e:
        print('MACHINERY ERROR %s: %s' % (pid, e))
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    except BaseException:
        traceback.print_exc()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 3
