"""Common machinery of all checks: environment, generation driver, shrinking,
replay files, evidence.

A check is a module in /verif/checks with
    ID, RULE                     property id, text of the non-triviality rule
    def strategies(tier)         -> list of (name, hypothesis strategy of plain
                                    JSON-able dicts, number of examples)
    def run_case(name, case, ctx)-> None, or raises Violation; ctx.nontrivial(),
                                    ctx.label(...) classify the case
Cases are plain data, and running one is a deterministic function of the case,
so a shrunk failure saved as JSON replays without Hypothesis.
"""
import atexit
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MODRED_REPO', '/repo')
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for p in (os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.path.insert(0, REPO)
if TOOLS_SITE not in sys.path:
    sys.path.append(TOOLS_SITE)      # only what the venv lacks (hypothesis)
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore', category=SyntaxWarning)
for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(var, '1')


class Violation(Exception):
    """The property does not hold on this case."""
    no_shrink = False


class HarnessError(Exception):
    """Something outside the code under test went wrong."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def import_modred():
    import modred
    path = os.path.realpath(modred.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('modred imported from %s, not %s' % (path, REPO))
    return modred


class Ctx(object):
    """Per-case context handed to run_case."""
    def __init__(self, check):
        self.check = check
        self.labels = set()
        self.is_nontrivial = False
        self.no_shrink = False

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def label(self, *names):
        self.labels.update(n for n in names if n)

    def scratch(self):
        return self.check.scratch_dir()


class CaseTimeout(BaseException):
    pass


def _from_modred(tb):
    root = os.path.realpath(os.path.join(REPO, 'modred')) + os.sep
    for frame, _ in traceback.walk_tb(tb):
        if os.path.realpath(frame.f_code.co_filename).startswith(root):
            return True
    return False


class Check(object):
    CASE_TIMEOUT = 150      # only a guard against endless loops

    def __init__(self, module_name, tier, seed):
        self.mod = importlib.import_module(module_name)
        self.id = self.mod.ID
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.label_counts = {}
        self.samples = []
        self.sample_labels = set()
        self.inconclusive = 0
        self._scratch_root = None
        self._scratch_n = 0
        self.findings = load_findings(self.id)

    # -- scratch files -----------------------------------------------------
    def scratch_root(self):
        if self._scratch_root is None:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            self._scratch_root = tempfile.mkdtemp(
                prefix='vmodred_%s_' % self.id, dir=base)
            os.chmod(self._scratch_root, 0o755)
            atexit.register(self.cleanup)
        return self._scratch_root

    def scratch_dir(self):
        self._scratch_n += 1
        d = os.path.join(self.scratch_root(), 'c%d' % self._scratch_n)
        os.mkdir(d)
        return d

    def cleanup(self):
        root, self._scratch_root = self._scratch_root, None
        if root is not None and os.path.basename(root).startswith('vmodred_'):
            shutil.rmtree(root, ignore_errors=True)

    # -- one case ----------------------------------------------------------
    def execute(self, name, case):
        """Runs one case; returns (ctx, None) or (ctx, violation text)."""
        ctx = Ctx(self)
        out = io.StringIO()
        n_before = self._scratch_n
        def on_alarm(signum, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(self.CASE_TIMEOUT)
        err = None
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(out):
                warnings.simplefilter('ignore')
                self.mod.run_case(name, case, ctx)
        except Violation as e:
            err = str(e) or 'violation'
            ctx.no_shrink = e.no_shrink
        except CaseTimeout:
            ctx.no_shrink = True
            err = 'no result after %d s' % self.CASE_TIMEOUT
        except HarnessError:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            where = ('unexpected exception' if _from_modred(e.__traceback__)
                     else 'a result could not be used')
            err = '%s: %s: %s\n%s' % (
                where, type(e).__name__, e, traceback.format_exc(limit=-6))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            if self._scratch_root:
                for i in range(n_before + 1, self._scratch_n + 1):
                    shutil.rmtree(os.path.join(
                        self._scratch_root, 'c%d' % i), ignore_errors=True)
        return ctx, err

    def note(self, name, case, ctx):
        self.evaluations += 1
        for l in ctx.labels:
            self.label_counts[l] = self.label_counts.get(l, 0) + 1
        if ctx.is_nontrivial:
            self.label_counts['%s:nontrivial' % name] = \
                self.label_counts.get('%s:nontrivial' % name, 0) + 1
            key = hashlib.sha1(json.dumps(
                [name, case], sort_keys=True).encode()).digest()[:10]
            self.keys.add(key)
            new = ctx.labels - self.sample_labels
            if (len(self.samples) < 2 or (new and len(self.samples) < 8)):
                self.sample_labels |= ctx.labels
                self.samples.append(dict(
                    kind=name, case=_short(case), labels=sorted(ctx.labels)))

    # -- driver ------------------------------------------------------------
    def run(self):
        import hypothesis
        from hypothesis.configuration import set_hypothesis_home_dir
        set_hypothesis_home_dir(os.path.join(self.scratch_root(), 'hyp'))
        from hypothesis import given, settings, HealthCheck, Phase
        independent_examples()
        budget = float(os.environ.get(
            'VERIF_BUDGET_S', 600 if self.tier == 'quick' else 6 * 3600))
        best = None
        self.replay_corpus()
        for number, (sname, strat, n_examples) in enumerate(
                self.mod.strategies(self.tier)):
            state = dict(best=None, shrink_until=None)

            def body(case):
                if state['shrink_until'] is not None and \
                        time.time() > state['shrink_until']:
                    if case == state['best'][0]:
                        raise AssertionError(state['best'][1])
                    return              # shrinking budget used up
                if state['best'] is None and time.time() - self.t0 > budget:
                    self.inconclusive += 1
                    return
                ctx, err = self.execute(sname, case)
                self.note(sname, case, ctx)
                if err is not None:
                    if state['shrink_until'] is None:
                        state['shrink_until'] = time.time() + float(
                            os.environ.get('VERIF_SHRINK_S', '60'))
                    if ctx.no_shrink:
                        state['shrink_until'] = 0
                    size = len(json.dumps(case))
                    if state['best'] is None or size <= state['best'][2]:
                        state['best'] = (case, err, size)
                    raise AssertionError(err)

            test = given(strat)(body)
            test = hypothesis.seed(self.seed * 1000 + number)(test)
            test = settings(
                max_examples=n_examples, database=None, deadline=None,
                print_blob=False, report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))(test)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    test()
            except HarnessError:
                raise
            except BaseException as e:
                if state['best'] is None:
                    raise HarnessError('generation failed: %s' % (
                        traceback.format_exc()))
            if state['best'] is not None:
                best = (sname,) + state['best'][:2]
                break
        return best

    def replay_corpus(self):
        """Known findings are re-run first; unlisted failures are generated."""
        for f in self.findings:
            if f.get('status') != 'known':
                continue
            ctx, err = self.execute(f['kind'], f['case'])
            if err is not None:
                print('KNOWN-FINDING: property=%s %s' % (self.id, f['what']))

    def evidence(self, violations):
        cov = dict(
            evaluations=self.evaluations,
            distinct_nontrivial=len(self.keys),
            rule=self.mod.RULE,
            samples=self.samples,
            label_counts=dict(sorted(self.label_counts.items())))
        if self.inconclusive:
            cov['skipped_for_time'] = self.inconclusive
        extra = getattr(self.mod, 'extra_coverage', None)
        if extra:
            cov.update(extra())
        data = dict(
            property=self.id, tier=self.tier, seed=self.seed,
            level='exploration', coverage=cov,
            assumptions=list(getattr(self.mod, 'ASSUMPTIONS', [])),
            wall_s=round(time.time() - self.t0, 2), violations=violations)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.id)
        with open(tmp, 'w') as f:
            json.dump(data, f, indent=1)
        os.replace(tmp, os.path.join(d, '%s.json' % self.id))


def independent_examples():
    """Hypothesis makes variants of every example by repeating parts of it;
    without them the examples are independent, and the rarer choices among
    many are all made."""
    from hypothesis.internal.conjecture import engine
    if hasattr(engine.ConjectureRunner, 'generate_mutations_from'):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


def _short(obj, limit=1500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else s[:limit] + '...'


def load_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == pid]


def main(argv):
    pid = argv[0]
    module = pid.lower()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        import_modred()
        check = Check(module, tier, seed)
        if '--replay' in argv:
            with open(argv[argv.index('--replay') + 1]) as f:
                rep = json.load(f)
            ctx, err = check.execute(rep['kind'], rep['case'])
            if err:
                print(err)
                print('VIOLATION property=%s replay=%s' % (
                    pid, argv[argv.index('--replay') + 1]))
                return 1
            print('replay: property held')
            return 0
        best = check.run()
        check.evidence(0 if best is None else 1)
        if best is None:
            print('OK property=%s evaluations=%d distinct_nontrivial=%d '
                  'wall=%.1fs' % (pid, check.evaluations, len(check.keys),
                                  time.time() - check.t0))
            if os.environ.get('VERIF_VERBOSE'):
                print(json.dumps(check.label_counts, indent=1))
            return 0
        kind, case, err = best
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s_seed%d.json' % (pid, seed))
        with open(rpath, 'w') as f:
            json.dump(dict(property=pid, kind=kind, case=case, error=err), f,
                      indent=1)
        print('case: %s' % json.dumps(_short(case)))
        print(err)
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        return 1
    except HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        return 2
    finally:
        try:
            stop = getattr(sys.modules.get('pool'), 'stop_all', None)
            if stop:
                stop()
            check.cleanup()
        except Exception:
            pass
