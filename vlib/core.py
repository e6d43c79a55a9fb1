"""Runs the sub-checks of a property over generated cases, shrinks and records failures, counts what was covered."""
import collections
import hashlib
import json
import os
import resource
import shutil
import signal
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
from hypothesis.errors import Flaky, FlakyFailure, UnsatisfiedAssumption  # noqa

CASE_CPU_LIMIT = 60     # seconds of CPU time for one case; cases take milliseconds
SHRINK_WALL = 25        # seconds of shrinking after the first failure
MEMORY = 4 << 30
QUICK = 2.5             # The quick tier has this many times the cases that its checks state


class Check:
    """One executable statement about a property.

    name      short name
    strategy  generates JSON-serialisable cases
    fn        fn(case, ctx) -> raises on a violation, otherwise returns True for a non-trivial case
    quick     number of cases in the quick tier, over all shards
    thorough  the same, in the thorough tier
    rule      how cases are made and what makes one non-trivial
    examples  cases that are always run
    """

    def __init__(self, name, strategy, fn, quick, rule, thorough=None, examples=()):
        self.name, self.strategy, self.fn, self.rule = name, strategy, fn, rule
        self.quick, self.thorough = quick, thorough or quick * 25
        self.examples = list(examples)


class Violation(AssertionError):
    pass


class CaseTimeout(Exception):
    pass


class Stop(BaseException):
    pass


class Ctx:
    """What a check may use besides its case"""

    def __init__(self, root):
        self.root = root
        self.labels = collections.Counter()
        self.case_labels = set()
        self.known = set()
        self.n = 0
        self._dir = None

    def label(self, name):
        self.case_labels.add(str(name))

    @property
    def dir(self):
        """A scratch directory for this case, removed after it"""
        if self._dir is None:
            self.n += 1
            self._dir = os.path.join(self.root, 'w', 'c%d' % self.n)
            os.makedirs(self._dir)
        return self._dir

    def write(self, name, content):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = 'wb' if isinstance(content, bytes) else 'w'
        kw = {} if mode == 'wb' else dict(encoding='utf8', newline='')
        with open(p, mode, **kw) as f:
            f.write(content)
        return p

    def cleanup(self):
        os.chdir(self.root)
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None
        self.case_labels = set()


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg.format(*args) if args else str(msg))


def same(got, expected, what=''):
    if got != expected:
        raise Violation('%s\n  got:      %r\n  expected: %r' % (what, got, expected))


def raises(excs, fn, *args, **kwargs):
    """fn must raise one of excs; returns the exception"""
    try:
        r = fn(*args, **kwargs)
    except excs as e:
        return e
    raise Violation('expected %s, but got result %r' % (excs, r))


def _on_timer(signum, frame):
    raise CaseTimeout('The case did not end within %d seconds of CPU time' % CASE_CPU_LIMIT)


def run(mod, pid, tier, seed, shard, shards, shard_dir, replay=None):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGVTALRM, _on_timer)

    ctx = Ctx(shard_dir)
    res = dict(checks={}, failures=[], known=[])
    checks = mod.CHECKS

    if replay:
        with open(replay) as f:
            r = json.load(f)
        for c in checks:
            if c.name == r['check']:
                st = State(c)
                try:
                    one(c, r['case'], ctx, st)
                except Exception:
                    res['failures'].append(dict(check=c.name, case=r['case'], error=traceback.format_exc()))
                res['checks'][c.name] = st.result()
        return res

    t_start = time.time()
    wall = 600 if tier == 'quick' else 5 * 3600

    for idx, c in enumerate(checks):
        st = State(c)
        total = int((c.quick * QUICK if tier == 'quick' else c.thorough) * float(os.environ.get('VERIF_SCALE', '1')))
        n = total // shards + (1 if shard < total % shards else 0)
        for i, case in enumerate(c.examples):
            if i % shards == shard:
                try:
                    one(c, case, ctx, st)
                except Exception:
                    st.fail(case, traceback.format_exc())
        if n and not st.failure:
            explore(c, n, seed * 1000003 + shard * 1009 + idx, ctx, st, t_start + wall)
        res['checks'][c.name] = st.result()
        if st.failure:
            res['failures'].append(st.failure)
            break  # One violation decides the property
    res['known'] = sorted(ctx.known)
    return res


class State:
    def __init__(self, c):
        self.c = c
        self.evaluations = self.nontrivial = self.excluded = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.first_failure = None
        self.stopped = False

    def fail(self, case, error):
        size = len(json.dumps(case))
        if self.failure is None or size < self.failure['size']:
            self.failure = dict(check=self.c.name, case=case, error=error, size=size)
        if self.first_failure is None:
            self.first_failure = time.time()

    def result(self):
        return dict(evaluations=self.evaluations, nontrivial=self.nontrivial, excluded=self.excluded,
                    hashes=sorted(self.hashes), labels=dict(self.labels), samples=self.samples, rule=self.c.rule,
                    stopped_early=self.stopped)


def one(c, case, ctx, st):
    """Run one case"""
    text = json.dumps(case, sort_keys=True)
    case = json.loads(text)  # A check gets a private copy, of exactly what a replay file would hold
    st.evaluations += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        nt = c.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for l in ctx.case_labels:
            st.labels[l] += 1
        ctx.cleanup()
    if nt:
        st.nontrivial += 1
        h = hashlib.sha1(text.encode()).hexdigest()[:16]
        if h not in st.hashes and len(st.samples) < 2 and 40 < len(text) < 1500 and st.nontrivial > 5:
            st.samples.append(json.loads(text))
        st.hashes.add(h)


def explore(c, n, seed, ctx, st, deadline):

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], print_blob=False, stateful_step_count=50,
              suppress_health_check=list(HealthCheck))
    @given(c.strategy)
    def test(case):
        now = time.time()
        if st.first_failure and now - st.first_failure > SHRINK_WALL:
            raise Stop()
        if now > deadline:
            st.stopped = True
            raise Stop()
        try:
            one(c, case, ctx, st)
        except CaseTimeout:
            st.fail(case, traceback.format_exc())
            raise Stop()
        except Exception:
            st.fail(case, traceback.format_exc())
            raise

    try:
        test()
    except Stop:
        pass
    except Exception:
        if st.failure is None:
            raise
