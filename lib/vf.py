"""Property-check runner.

A check is a module that creates one ``Prop`` and registers tests.  A test is a Hypothesis strategy that yields plain
JSON data (the *case*) and a function that executes the case against the real code and an oracle.  The function returns
an info dict ({'nontrivial': bool, 'labels': [...], 'inconclusive': str|None}) or raises ``Violation``.

The runner splits every test into shards with seeds derived from VERIF_SEED, runs the shards in forked processes, lets
Hypothesis shrink the first failure, confirms the shrunk case in a fresh process and writes it as a replay file which is
executed without Hypothesis (``--replay FILE``).  Exit codes: 0 held, 1 VIOLATION, anything else = error of the check.
"""
import os, sys, json, time, hashlib, traceback, tempfile, shutil, signal, glob, io, contextlib, warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('MPLBACKEND', 'Agg')
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
sys.dont_write_bytecode = True


def _bootstrap():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    cand = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if os.path.isdir(os.path.join(cand, 'hypothesis')):
        sys.path.append(cand)        # appended last: numpy & co. of the project's own venv win
    else:
        import zipfile
        d = os.path.join(tempfile.gettempdir(), 'verif_hyp_%d' % os.getuid())
        if not os.path.isdir(d):
            tmp = tempfile.mkdtemp()
            for pat in ('hypothesis-*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
                for w in glob.glob('/opt/veriftools/wheels/' + pat):
                    zipfile.ZipFile(w).extractall(tmp)
            os.rename(tmp, d)
        sys.path.append(d)


_bootstrap()
import hypothesis                                            # noqa: E402
from hypothesis import strategies as st                      # noqa: E402
from hypothesis import settings as hsettings, HealthCheck, Phase  # noqa: E402

try:  # Hypothesis must not write anything into the tree
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(tempfile.gettempdir(), 'hyp_home_%d' % os.getpid()))
except Exception:
    pass


class Violation(Exception):
    """The property is broken for this case."""


class Inconclusive(Exception):
    """The case could not be decided (e.g. neither solver converged)."""


class HarnessError(Exception):
    """The check itself failed before it reached the code under test."""


def harness(fn):
    """Mark a function that does not touch the code under test: its exceptions are errors of the check."""
    import functools

    @functools.wraps(fn)
    def g(*a, **k):
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive, HarnessError):
            raise
        except Exception as e:
            raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]) from e
    return g


class _ShrinkTimeout(BaseException):
    pass


ENV_ERRORS = (MemoryError, OSError, ImportError, KeyboardInterrupt)


def canon(case):
    return json.loads(json.dumps(case))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Test:
    def __init__(self, name, strategy, fn, quick, thorough, nontrivial_default):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough


def classify_exception(e):
    """Violation / crash of the code under test / error of the harness."""
    if isinstance(e, Violation):
        return 'violation', str(e)
    if isinstance(e, HarnessError):
        return 'error', str(e)
    frames = traceback.extract_tb(e.__traceback__)
    inrepo = any(os.path.abspath(f.filename).startswith(os.path.join(REPO, 'do_mpc')) for f in frames)
    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if isinstance(e, hypothesis.errors.HypothesisException):
        return 'error', tb
    if inrepo and not isinstance(e, MemoryError):
        return 'violation', 'unexpected %s from do_mpc on valid input: %s\n%s' % (type(e).__name__, e, tb)
    if isinstance(e, ENV_ERRORS):
        return 'error', tb
    # Outputs of do_mpc that the oracle cannot even read (missing key, wrong shape/type) break the stated contract.
    return 'violation', 'output of do_mpc not usable as documented: %s: %s\n%s' % (type(e).__name__, e, tb)


@contextlib.contextmanager
def quiet():
    """Silence C-level and Python-level stdout/stderr (ipopt, casadi warnings)."""
    sys.stdout.flush(); sys.stderr.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    so, se = os.dup(1), os.dup(2)
    os.dup2(dn, 1); os.dup2(dn, 2)
    po, pe = sys.stdout, sys.stderr
    sys.stdout = io.StringIO(); sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = po, pe
        os.dup2(so, 1); os.dup2(se, 2)
        os.close(so); os.close(se); os.close(dn)


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.tests, self.knowns = {}, {}

    def test(self, name, strategy, quick, thorough):
        def deco(fn):
            self.tests[name] = Test(name, strategy, fn, quick, thorough, True)
            return fn
        return deco

    def known(self, key):
        """Register the deterministic reproduction of a recorded finding; fn raises Violation while it persists."""
        def deco(fn):
            self.knowns[key] = fn
            return fn
        return deco

    # ------------------------------------------------------------------ one job
    def _exec(self, test, case):
        with quiet():
            try:
                return test.fn(case) or {}
            except Inconclusive as e:
                return {'nontrivial': False, 'inconclusive': str(e) or 'inconclusive'}

    def run_job(self, job, outfile, deadline, shrink_s):
        test = self.tests[job['test']]
        R = dict(job=job, evaluations=0, hashes=[], labels={}, inconclusive={}, skipped=0, samples=[], fail=None,
                 first_fail=None, error=None, wall=0.0, vac=0)
        t0 = time.time()
        state = {'fail_t': None, 'best': None}

        def body(case):
            if state['fail_t'] is None and time.time() > deadline:
                R['skipped'] += 1
                return
            if state['fail_t'] is not None and time.time() - state['fail_t'] > shrink_s:
                raise _ShrinkTimeout()
            case = canon(case)
            blob = json.dumps(case, sort_keys=True)
            if state['fail_t'] is None:
                R['evaluations'] += 1
            try:
                info = self._exec(test, case)
            except Exception as e:
                kind, msg = classify_exception(e)
                if kind == 'error':
                    R['error'] = msg
                    raise _ShrinkTimeout()
                if state['fail_t'] is None:
                    state['fail_t'] = time.time()
                    R['first_fail'] = {'case': case, 'msg': msg}
                    R['fail'] = R['first_fail']
                    with open(outfile + '.fail.tmp', 'w') as f:
                        json.dump(R, f)
                    os.rename(outfile + '.fail.tmp', outfile + '.fail')
                if len(blob) <= len(json.dumps(R['fail']['case'], sort_keys=True)):
                    R['fail'] = {'case': case, 'msg': msg}
                raise Violation('violated') from None
            if state['fail_t'] is None:
                for l in info.get('labels', ()):
                    R['labels'][l] = R['labels'].get(l, 0) + 1
                if info.get('inconclusive'):
                    k = str(info['inconclusive'])[:80]
                    R['inconclusive'][k] = R['inconclusive'].get(k, 0) + 1
                elif info.get('nontrivial', True):
                    R['hashes'].append(hashlib.sha1(blob.encode()).hexdigest()[:16])
                    if len(R['samples']) < 2 and len(blob) < 6000:
                        R['samples'].append(case)
                else:
                    R['vac'] += 1

        prop = hypothesis.seed(job['seed'])(hsettings(
            max_examples=job['n'], database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
        )(hypothesis.given(test.strategy)(body)))
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                prop()
        except _ShrinkTimeout:
            pass
        except Violation:
            pass
        except BaseException as e:
            if R['fail'] is None:
                R['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        R['wall'] = time.time() - t0
        tmp = outfile + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(R, f)
        os.rename(tmp, outfile)

    def _fork(self, fn):
        pid = os.fork()
        if pid:
            return pid
        code = 0
        try:
            os.setpgid(0, 0)
            fn()
        except BaseException:
            traceback.print_exc()
            code = 70
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)

    def _confirm(self, test, case, timeout=240):
        """Re-run one case in a fresh forked process; returns (failed, msg)."""
        fd, path = tempfile.mkstemp(); os.close(fd)

        def go():
            try:
                self._exec(test, canon(case))
                res = [False, '']
            except Exception as e:
                kind, msg = classify_exception(e)
                res = [kind == 'violation', msg]
            with open(path, 'w') as f:
                json.dump(res, f)
        pid = self._fork(go)
        t0 = time.time()
        while time.time() - t0 < timeout:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.02)
        else:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
        try:
            res = json.load(open(path))
        except Exception:
            res = [False, 'no result']
        os.unlink(path)
        return res

    # ------------------------------------------------------------------ driver
    def main(self):
        argv = sys.argv[1:]
        if '--replay' in argv:
            return self._replay(argv[argv.index('--replay') + 1])
        t_start = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        if '--thorough' in argv:
            tier = 'thorough'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        only = [a.split('=', 1)[1] for a in argv if a.startswith('--only=')]
        nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
        budget = float(os.environ.get('VERIF_BUDGET_S', '420' if tier == 'quick' else '5400'))
        deadline = t_start + budget
        shrink_s = 45 if tier == 'quick' else 240
        jobs = []
        for t in self.tests.values():
            if only and t.name not in only:
                continue
            n = max(1, int(round((t.quick if tier == 'quick' else t.thorough) * scale)))
            shards = max(1, min(8 if tier == 'quick' else 32, n // 2))       # the cases do not depend on the number of cores
            for s in range(shards):
                ns = n // shards + (1 if s < n % shards else 0)
                h = hashlib.sha256(('%s|%s|%d|%d' % (self.pid, t.name, seed, s)).encode()).digest()
                jobs.append(dict(test=t.name, shard=s, n=ns, seed=int.from_bytes(h[:8], 'big')))
        jobs.sort(key=lambda j: j['shard'])           # interleave tests
        work = tempfile.mkdtemp(prefix='vf_%s_' % self.pid)
        results, failed, errors = [], [], []
        try:
            running, queue = {}, list(enumerate(jobs))
            stop_at = None
            while queue or running:
                while queue and len(running) < nproc and stop_at is None:
                    i, j = queue.pop(0)
                    out = os.path.join(work, '%d.json' % i)
                    pid = self._fork(lambda: self.run_job(j, out, deadline, shrink_s))
                    running[pid] = (j, out)
                if not running:
                    break
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    time.sleep(0.02)
                    if stop_at is None and any(os.path.exists(o + '.fail') for _, o in running.values()):
                        # a failing job has written its first failure: give it time to shrink, then stop everything
                        stop_at = time.time() + shrink_s + 20
                    if stop_at is not None and time.time() > stop_at:
                        for p in list(running):
                            try:
                                os.killpg(p, signal.SIGKILL)
                            except OSError:
                                pass
                        stop_at = time.time() + 5
                    if time.time() > deadline + 300:
                        for p in list(running):
                            try:
                                os.killpg(p, signal.SIGKILL)
                            except OSError:
                                pass
                        errors.append('a worker did not finish in time')
                        deadline = time.time() + 60
                        queue = []
                    continue
                if pid not in running:
                    continue
                j, out = running.pop(pid)
                try:
                    R = json.load(open(out if os.path.exists(out) else out + '.fail'))
                except Exception:
                    if stop_at is None:
                        errors.append('worker for %s shard %d ended without a result (status %s)' % (j['test'], j['shard'], status))
                    continue
                results.append(R)
                if R['fail']:
                    failed.append(R)
                    queue = []
                    if stop_at is None:
                        stop_at = time.time() + 15
                    else:
                        stop_at = min(stop_at, time.time() + 15)
                if R['error']:
                    errors.append('%s: %s' % (j['test'], R['error']))
        finally:
            shutil.rmtree(work, ignore_errors=True)

        violations = 0
        # known findings: reproduce each listed one
        kf = self._known_file()
        for key, fn in self.knowns.items():
            entry = kf.get(key)
            try:
                with quiet():
                    fn()
                still = None
            except Exception as e:
                kind, still = classify_exception(e)
                if kind == 'error':
                    errors.append('known finding %s: %s' % (key, still))
                    continue
            if still is not None:
                if entry:
                    print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, entry, key))
                else:
                    violations += 1
                    path = self._write_replay({'property': self.pid, 'kind': 'known', 'key': key, 'message': still})
                    print('VIOLATION property=%s replay=%s' % (self.pid, path)); print(still[:2000])

        for R in sorted(failed, key=lambda r: len(json.dumps(r['fail']['case']))):
            test = self.tests[R['job']['test']]
            ok = False
            for cand in (R['fail'], R['first_fail']):
                bad, msg = self._confirm(test, cand['case'])
                if bad:
                    path = self._write_replay({'property': self.pid, 'kind': 'case', 'test': test.name,
                                               'case': cand['case'], 'message': msg})
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                    print('test %s: %s' % (test.name, msg[:2500]))
                    violations += 1; ok = True
                    break
            if not ok:
                # fails only after the earlier cases of the same process: replay the whole seeded job
                out = tempfile.mktemp()
                pid = self._fork(lambda: self.run_job(R['job'], out, time.time() + 600, 1))
                os.waitpid(pid, 0)
                try:
                    R2 = json.load(open(out)); os.unlink(out)
                except Exception:
                    R2 = {'fail': None}
                if R2['fail']:
                    path = self._write_replay({'property': self.pid, 'kind': 'job', 'job': R['job'], 'message': R2['fail']['msg'],
                                               'case': R2['fail']['case']})
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                    print('test %s (state carried over between cases): %s' % (test.name, R2['fail']['msg'][:2500]))
                    violations += 1; ok = True
                else:
                    errors.append('failure of %s did not reproduce: %s' % (test.name, R['fail']['msg'][:1500]))
            if violations:
                break
        self._evidence(tier, seed, results, violations, time.time() - t_start)
        if violations:
            sys.exit(1)
        if errors:
            for e in errors[:5]:
                print('ERROR', e)
            sys.exit(3)
        ev = sum(r['evaluations'] for r in results)
        nt = len({h for r in results for h in r['hashes']})
        inc = sum(sum(r['inconclusive'].values()) for r in results)
        print('%s held: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs' % (self.pid, ev, nt, inc, time.time() - t_start))
        if nt == 0:
            print('ERROR no non-trivial case was executed'); sys.exit(3)
        # vacuity guard: a mostly undecided test decides nothing
        for name in self.tests:
            rs = [r for r in results if r['job']['test'] == name]
            e = sum(r['evaluations'] for r in rs); i = sum(sum(r['inconclusive'].values()) for r in rs)
            if e >= 20 and i > 0.6 * e:
                print('ERROR test %s: %d of %d cases undecided' % (name, i, e)); sys.exit(3)
        sys.exit(0)

    def _known_file(self):
        """known_findings.txt: 'known: property=<id> key=<key> <what>' lines (fixed: lines suppress nothing)."""
        path = os.path.join(HERE, 'known_findings.txt')
        out = {}
        if os.path.exists(path):
            for line in open(path):
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + self.pid and w[2].startswith('key='):
                    out[w[2][4:]] = w[3].strip()
        return out

    def _write_replay(self, obj):
        d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s_%s.json' % (self.pid, h))
        with open(path, 'w') as f:
            json.dump(obj, f, indent=1)
        return path

    def _replay(self, path):
        obj = json.load(open(path))
        if obj['kind'] == 'known':
            try:
                with quiet():
                    self.knowns[obj['key']]()
            except Exception as e:
                print('VIOLATION property=%s replay=%s' % (self.pid, path)); print(classify_exception(e)[1]); sys.exit(1)
            print('replay passes'); sys.exit(0)
        if obj['kind'] == 'job':
            out = tempfile.mktemp()
            self.run_job(obj['job'], out, time.time() + 3600, 1)
            R = json.load(open(out)); os.unlink(out)
            if R['fail']:
                print('VIOLATION property=%s replay=%s' % (self.pid, path)); print(R['fail']['msg']); sys.exit(1)
            print('replay passes'); sys.exit(0)
        try:
            self._exec(self.tests[obj['test']], obj['case'])
        except Exception as e:
            kind, msg = classify_exception(e)
            if kind == 'error':
                print(msg); sys.exit(3)
            print('VIOLATION property=%s replay=%s' % (self.pid, path)); print(msg); sys.exit(1)
        print('replay passes'); sys.exit(0)

    def _evidence(self, tier, seed, results, violations, wall):
        per = {}
        for r in results:
            d = per.setdefault(r['job']['test'], dict(evaluations=0, hashes=set(), trivial=0, inconclusive={}, skipped_by_time_budget=0, labels={}, samples=[]))
            d['evaluations'] += r['evaluations']; d['trivial'] += r['vac']; d['skipped_by_time_budget'] += r['skipped']
            d['hashes'].update(r['hashes'])
            for k in ('inconclusive', 'labels'):
                for a, b in r[k].items():
                    d[k][a] = d[k].get(a, 0) + b
            if len(d['samples']) < 3:
                d['samples'] += r['samples'][:3 - len(d['samples'])]
        samples = [dict(test=k, case=c) for k, d in per.items() for c in d.pop('samples')]
        total_nt = 0
        for d in per.values():
            d['distinct_nontrivial'] = len(d.pop('hashes')); total_nt += d['distinct_nontrivial']
        cov = dict(evaluations=sum(d['evaluations'] for d in per.values()), distinct_nontrivial=total_nt, rule=self.rule,
                   samples=samples or ['(none)'], tests=per)
        obj = dict(property=self.pid, tier=tier, seed=seed, level='exploration', coverage=cov,
                   assumptions=self.assumptions, wall_s=round(wall, 2), violations=violations)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(obj, f, indent=1)
        os.rename(path + '.tmp', path)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vfs_')
    cwd = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
