"""
A small bounded-exhaustive model-checking engine.

A check module declares *families*.  A family has a generator, which enumerates
its whole bounded space in a fixed order (simplest first, no sampling, nothing
depends on VERIF_SEED), and a function which executes one element of that space
- one history of operations, one input configuration - on the real code and
judges every step of it against a reference model.

The engine runs all elements over forked workers, gives every element a
watchdog, treats any unexpected exception, hang or crash as a violation, and
reports the violation with the smallest index, so the first counterexample is
also the simplest one and the same on every run.
"""
import collections
import itertools
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 30
HANG_SECONDS = 120
WORKERS = int(os.environ.get('MC_WORKERS', '8'))
MEMORY = 6 << 30


class Violation(AssertionError):
    pass


class CaseTimeout(BaseException):
    pass


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


class Ctx(object):
    """Collects what a run covered; handed to every family function."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.scratch = None

    def state(self, *key):
        """A state of the model (or a non-trivial input configuration) reached."""
        self.states.add(hash(key))

    def outcome(self, *key):
        """A kind of observed result; read to see that the exploration is not vacuous."""
        self.outcomes.add(key)

    def step(self, n=1):
        """Calls into the code under test which were judged against the model."""
        self.transitions += n


class Families(object):
    def __init__(self):
        self.items = collections.OrderedDict()

    def family(self, generator):
        def decorate(fn):
            self.items[fn.__name__] = (generator, fn)
            return fn
        return decorate

    def cases(self, tier):
        for name, (generator, _) in self.items.items():
            n = 0
            for args in generator(tier):
                n += 1
                yield (name, args)
            if n == 0 and tier == 'thorough':
                raise RuntimeError('family %s is empty' % name)

    def run(self, case, ctx):
        name, args = case
        self.items[name][1](ctx, *args)


def product(*sets):
    return itertools.product(*[list(s) for s in sets])


def histories(alphabet, depth):
    """All operation sequences of exactly this length; shorter ones are their
    prefixes and are judged on the way."""
    return itertools.product(list(alphabet), repeat=depth)


def tiered(quick, thorough):
    return lambda tier: (thorough if tier == 'thorough' else quick)()


# -- one case -------------------------------------------------------------------

SLOW = 'no answer'


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, ctx, seconds=CASE_SECONDS):
    """None if the property held on this case, else a description."""
    case = json.loads(json.dumps(case))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        module.FAMILIES.run(case, ctx)
        return None
    except CaseTimeout:
        return SLOW + ' within %d s' % seconds
    except Violation as e:
        return '%s' % e
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # anything unexpected out of the code under test
        tail = traceback.format_exc().strip().splitlines()[-6:]
        return 'unexpected %s: %s\n    %s' % (type(e).__name__, e, '\n    '.join(tail))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# -- known findings ---------------------------------------------------------------

KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


def case_key(case):
    return json.dumps(case, separators=(',', ':'))


def known_findings(prop):
    """Lines `known: property=<id> case=<json> :: <what fails>`.  Lines starting
    with `fixed:` are a record only; they suppress nothing."""
    known = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith('known: property=%s case=' % prop):
                case, what = line.split(' case=', 1)[1].split(' :: ', 1)
                known[case_key(json.loads(case))] = what.strip()
    return known


# -- all cases ------------------------------------------------------------------

def _worker(wid, module, cases, known, chunk, counter, best, current, started, path, scratch):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    ctx = Ctx()
    ctx.scratch = scratch
    found = {}
    n = len(cases)
    stop = False
    while not stop:
        with counter.get_lock():
            lo = counter.value
            counter.value += chunk
        if lo >= n or lo > best.value:
            break
        for i in range(lo, min(lo + chunk, n)):
            current[wid] = i
            started[wid] = time.time()
            what = run_case(module, cases[i], ctx)
            ctx.traces += 1
            if what is not None:
                started[wid] = time.time()
                again = run_case(module, cases[i], _scratch_ctx(scratch))
                if again is None and what.startswith(SLOW):  # a busy machine, not an answer
                    continue
                found[i] = (what, again is not None)
                if case_key(cases[i]) not in known:
                    with best.get_lock():
                        best.value = min(best.value, i)
                    stop = True
                    break
    started[wid] = 0
    with open(path + '.part', 'wb') as f:
        pickle.dump((ctx.states, ctx.outcomes, ctx.transitions, ctx.traces, found), f)
    os.rename(path + '.part', path)
    os._exit(0)


def _scratch_ctx(scratch):
    ctx = Ctx()
    ctx.scratch = scratch
    return ctx


def explore(module, tier, scratch):
    cases = list(module.FAMILIES.cases(tier))
    prop = module.PROPERTY
    known = known_findings(prop)
    n = len(cases)
    mp = multiprocessing.get_context('fork')
    counter = mp.Value('q', 0)
    best = mp.Value('q', 1 << 60)
    current = mp.Array('q', [-1] * WORKERS)
    started = mp.Array('d', [0.0] * WORKERS)
    chunk = max(1, min(getattr(module, 'CHUNK', 64), n // (WORKERS * 8) + 1))
    paths, procs = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(WORKERS):
        path = os.path.join(scratch, 'worker-%d' % wid)
        paths.append(path)
        proc = mp.Process(target=_worker, args=(
            wid, module, cases, known, chunk, counter, best, current, started, path, scratch))
        proc.start()
        procs.append(proc)
    hung = {}
    while any(p.is_alive() for p in procs):
        for wid, p in enumerate(procs):
            since = started[wid]  # read once: the worker resets it to 0 when it is done
            if p.is_alive() and since and time.time() - since > HANG_SECONDS:
                hung[wid] = current[wid]
                with best.get_lock():
                    best.value = min(best.value, current[wid])
                p.kill()
        time.sleep(0.02)
    total = Ctx()
    found = {}
    for wid, p in enumerate(procs):
        p.join()
        if os.path.exists(paths[wid]):
            states, outcomes, transitions, traces, f = pickle.load(open(paths[wid], 'rb'))
            total.states |= states
            total.outcomes |= outcomes
            total.transitions += transitions
            total.traces += traces
            found.update(f)
        elif wid in hung:
            found[hung[wid]] = ('no answer within %d s (killed)' % HANG_SECONDS, True)
        else:
            i = max(0, current[wid])
            found[i] = ('the process died (exit code %s) while executing this case' % p.exitcode, True)
    return cases, total, found, known


def samples(cases, k=6):
    """A few actual cases of this run: the first and last of each family."""
    first, last = collections.OrderedDict(), {}
    for c in cases:
        first.setdefault(c[0], c)
        last[c[0]] = c
    out = []
    for name in first:
        out.append(list(first[name]))
        if last[name] is not first[name]:
            out.append(list(last[name]))
    return out


def main(module, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc-%s-' % module.PROPERTY)
    try:
        if hasattr(module, 'prepare'):
            module.prepare(scratch)
        cases, total, found, known = explore(module, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    prop = module.PROPERTY
    fresh = {i: w for i, w in found.items() if case_key(cases[i]) not in known}
    sizes = collections.Counter(c[0] for c in cases)
    complete = not fresh
    if complete and total.traces != len(cases):
        raise RuntimeError('%d of %d cases ran' % (total.traces, len(cases)))
    if complete and not total.transitions:
        raise RuntimeError('nothing was judged')
    coverage = {
        'exhaustive': complete,
        'bounds': module.BOUNDS[tier],
        'families': dict(sizes),
        'distinct_outcomes': len(total.outcomes),
        'outcomes': sorted(repr(o) for o in total.outcomes)[:40],
        'samples': samples(cases),
    }
    if module.LEVEL == 'model_checking':
        coverage.update(states=len(total.states), transitions=total.transitions,
                        traces_validated_against_impl=total.traces)
    else:
        coverage.update(evaluations=total.transitions, distinct_nontrivial=len(total.states),
                        rule=module.RULE, cases_executed=total.traces)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
        'coverage': coverage,
        'assumptions': module.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', '%s.json' % prop)
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print('%s %s: cases=%d states=%d judged=%d outcomes=%d wall=%.1fs' % (
        prop, tier, total.traces, len(total.states), total.transitions,
        len(total.outcomes), time.time() - t0))
    for i in sorted(found):
        if i not in fresh:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[case_key(cases[i])]))
    if not fresh:
        return 0
    i = min(fresh)
    what, again = fresh[i]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay = os.path.join(VERIF, 'replays', '%s.json' % prop)
    with open(replay, 'w') as f:
        json.dump({'property': prop, 'case': list(cases[i]), 'what': what,
                   'fails_again_in_the_same_process': again}, f, indent=1)
        f.write('\n')
    print('case %s' % case_key(cases[i]))
    print(what)
    if not again:
        print('(a second run of this case in the same process passed: the answer depends on earlier calls)')
    print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, VERIF)))
    return 1
