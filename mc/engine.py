"""Exhaustive-exploration engine.

A check module defines

    ID, LEVEL, TITLE          constants
    jobs(tier)  -> list       JSON-able partitions of the bounded space, simplest first
    explore(job, ctx)         enumerate *every* case of the partition; for each one call
                              ctx.run(case)
    run_case(case, obs) -> None | str
                              execute one case on the real code, compare with the
                              reference model; a string describes the disagreement
    BOUNDS(tier) -> str       what was enumerated, in words

Nothing here samples: a partition is enumerated completely, or the run says that it was
not (a partition is cut short only after it has found violations).
"""
import hashlib
import importlib
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_S = 20          # processor seconds one execution may take before it counts as not terminating
MAX_VIOLATIONS_PER_JOB = 3
MAX_VIOLATIONS = int(os.environ.get('VERIF_MAXV', '6'))       # of all partitions together; then the others end too
FOUND = multiprocessing.Value('i', 0)


class NonTermination(BaseException):
    """Raised by the watchdog inside an execution that uses up its processor budget."""


def _on_alarm(_sig, _frm):
    raise NonTermination('execution used more than %d s of processor time' % CASE_CPU_S)


def setup_process():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    soft = 3 * 1024 ** 3
    try:
        resource.setrlimit(resource.RLIMIT_AS, (soft, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGVTALRM, _on_alarm)


class watchdog(object):
    """CPU-time watchdog (processor time, so a loaded machine raises no alarm)."""

    def __init__(self, seconds=CASE_CPU_S):
        self.seconds = seconds

    def __enter__(self):
        # re-armed every second: code that swallows the exception is interrupted again
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def h8(x):
    if not isinstance(x, bytes):
        x = repr(x).encode()
    return hashlib.blake2b(x, digest_size=8).digest()


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def exc_text(e):
    """A one-line description of an exception from the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if REPO in f.filename:
            where = ' at %s:%s' % (os.path.relpath(f.filename, REPO), f.name)
            break
    return '%s: %s%s' % (type(e).__name__, short(str(e), 160), where)


class Ctx(object):
    """Collects what one partition explored."""

    def __init__(self, module, tier, seed):
        self.module = module
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.outcomes = set()
        self.counts = Counter()
        self.samples = []
        self.violations = []
        self.known = []
        self.complete = True

    # --- coverage of the reference model
    def state(self, key):
        self.states.add(h8(key))

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(h8(key))

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    # --- execution
    def run(self, case):
        """Executes one case against the implementation; returns True if it agreed."""
        if FOUND.value >= MAX_VIOLATIONS:
            self.complete = False
            raise StopJob()
        self.executions += 1
        err = execute(self.module, case, self)
        if err is not None and isinstance(case, dict) and isinstance(case.get('s'), list) and len(case['s']) > 1:
            for x in case['s']:     # a batch: the first member that fails alone is the counterexample
                one = dict(case, s=[x])
                e1 = execute(self.module, one, NullObs())
                if e1 is not None and finding_key(self.module, one, e1) == finding_key(self.module, case, err):
                    case, err = one, e1
                    break
        if len(self.samples) < 1:
            self.samples.append(json.loads(json.dumps(case, default=repr)))
        if err is not None:
            k = finding_key(self.module, case, err)
            if k in KNOWN.get(self.module.ID, {}):
                self.known.append(k)
            else:
                self.violations.append({'case': case, 'error': err, 'key': k})
                with FOUND.get_lock():
                    FOUND.value += 1
                if len(self.violations) >= MAX_VIOLATIONS_PER_JOB or err.startswith('does not terminate'):
                    self.complete = False
                    raise StopJob()
        return err is None


class NullObs(object):
    def state(self, *_): pass
    def trans(self, *_): pass
    def outcome(self, *_): pass
    def count(self, *_): pass
    def sample(self, *_): pass


class StopJob(Exception):
    pass


def execute(module, case, obs):
    try:
        with watchdog(getattr(module, 'CASE_CPU_S', CASE_CPU_S)):
            return module.run_case(case, obs)
    except StopJob:
        raise
    except NonTermination as e:
        return 'does not terminate: %s' % e
    except MemoryError:
        return 'MemoryError (more than 3 GB)'
    except Exception as e:      # the implementation (or the oracle) blew up
        return 'unexpected exception: ' + exc_text(e) + \
            ('' if _in_repo(e) else ' [in checker]\n' + ''.join(traceback.format_exception(e))[-1500:])


def _in_repo(e):
    return any(REPO in f.filename for f in traceback.extract_tb(e.__traceback__))


def finding_key(module, case, err):
    f = getattr(module, 'finding_key', None)
    if f:
        return f(case, err)
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:24]


KNOWN = {}


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    KNOWN.clear()
    if os.path.exists(p):
        d = json.load(open(p))
        for f in d.get('findings', []):
            KNOWN.setdefault(f['property'], {})[f['key']] = f['what']


def import_check(cid):
    return importlib.import_module('checks.' + cid.lower())


def _worker(args):
    cid, tier, seed, index, job, workdir = args
    module = import_check(cid)
    own = os.path.join(workdir, str(os.getpid()))    # its own scratch files
    os.makedirs(own, exist_ok=True)
    os.chdir(own)
    ctx = Ctx(module, tier, seed)
    t = time.time()
    try:
        module.explore(job, ctx)
    except StopJob:
        pass
    except NonTermination as e:
        # between executions (enumeration itself): a checker problem
        return {'index': index, 'fatal': 'enumeration of %r took too long: %s' % (job, e)}
    except Exception as e:
        return {'index': index, 'fatal': 'enumeration of %r failed: %s' % (
            short(job), ''.join(traceback.format_exception(e))[-2500:])}
    return {'index': index, 'states': ctx.states, 'transitions': ctx.transitions,
            'executions': ctx.executions, 'outcomes': ctx.outcomes, 'counts': ctx.counts,
            'samples': ctx.samples, 'violations': ctx.violations, 'known': ctx.known,
            'complete': ctx.complete, 's': time.time() - t}


def main(cid, tier=None, only_job=None, procs=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup_process()
    load_known()
    module = import_check(cid)
    jobs = module.jobs(tier)
    if only_job is not None:
        jobs = [jobs[only_job]]
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % cid)
    res, fatal = [], []
    try:
        args = [(cid, tier, seed, i, j, scratch) for i, j in enumerate(jobs)]
        if procs == 1:
            res = [_worker(a) for a in args]
        else:
            mp = multiprocessing.get_context('fork')
            with ProcessPoolExecutor(min(procs, max(1, len(args))), mp_context=mp,
                                     initializer=setup_process) as ex:
                futs = {ex.submit(_worker, a): a for a in args}
                for f in as_completed(futs):
                    try:
                        res.append(f.result())
                    except BrokenProcessPool as e:
                        fatal.append('a worker process died while exploring %r: %s' % (short(futs[f][4]), e))
                        break
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)
    res.sort(key=lambda r: r['index'])
    fatal += [r['fatal'] for r in res if 'fatal' in r]
    res = [r for r in res if 'fatal' not in r]
    states, outcomes, counts = set(), set(), Counter()
    trans = execs = 0
    samples, violations, known = [], [], []
    complete = not fatal
    for r in res:
        states |= r['states']
        outcomes |= r['outcomes']
        counts.update(r['counts'])
        trans += r['transitions']
        execs += r['executions']
        if len(samples) < 4:
            samples += r['samples'][:1]
        violations += r['violations']
        known += r['known']
        complete = complete and r['complete']
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
          'coverage': {}, 'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    cov = ev['coverage']
    traces = counts.pop('traces', 0) or execs
    if module.LEVEL == 'model_checking':
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=traces, distinct_nontrivial=len(states),
                   rule=getattr(module, 'RULE', ''))
    cov['samples'] = [short(json.dumps(s, default=repr), 1500) for s in samples] or ['none']
    cov['impl_executions'] = execs
    cov['distinct_outcomes'] = len(outcomes)
    cov['partitions'] = len(jobs)
    cov['bounds'] = module.BOUNDS(tier) if callable(getattr(module, 'BOUNDS', None)) else getattr(module, 'BOUNDS', '')
    cov['exhaustive'] = bool(complete)
    for k, v in sorted(counts.items()):
        cov['n_' + k] = v
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (cid, KNOWN[cid][k]))
    rc = 0
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, v in enumerate(violations[:5]):
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (cid, n))
            with open(path, 'w') as f:
                json.dump({'property': cid, 'case': v['case'], 'error': v['error'], 'key': v['key']},
                          f, indent=1, default=repr)
            print('  case: %s' % short(json.dumps(v['case'], default=repr), 700))
            print('  %s' % short(v['error'], 1500))
            print('VIOLATION property=%s replay=%s' % (cid, path))
        rc = 1
    if fatal:
        for x in fatal[:3]:
            print('ERROR %s: %s' % (cid, x), file=sys.stderr)
        rc = rc or 2
    print('%s %s: states=%d transitions=%d executions=%d traces=%d outcomes=%d partitions=%d exhaustive=%s '
          'violations=%d wall=%.1fs %s' % (cid, tier, len(states), trans, execs, traces, len(outcomes), len(jobs),
                                           complete, len(violations), time.time() - t0,
                                           ' '.join('%s=%d' % kv for kv in sorted(counts.items()))))
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(res, key=lambda r: -r['s'])[:5]:
            print('   job %d %s %.1fs' % (r['index'], short(jobs[r['index']], 100), r['s']))
    return rc


def replay(path):
    setup_process()
    load_known()
    d = json.load(open(path))
    module = import_check(d['property'])
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    os.chdir(scratch)
    try:
        err = execute(module, d['case'], NullObs())
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)
    if err is None:
        print('replay: the execution agrees with the reference model')
        return 0
    print(err)
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1
