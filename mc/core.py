"""Explicit-state / bounded-exhaustive exploration engine.

A check is a list of Spaces. A Space enumerates a finite set of cases completely; every case is one
execution (usually several operations) of the real GiMPy code, run in lock step with a small reference
model. Cases are distributed over forked workers by index, so the set explored never depends on timing
or on a seed. An exception of the code under test, a wrong answer, or a case that burns more than its
CPU-time horizon (non-termination) is a violation.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get('MC_WORKERS', '8'))
MAX_VIOL_PER_WORKER = 12
HANGS = ('no answer within', 'unexpected MemoryError')


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(BaseException):
    """The machinery itself is broken (never raised by the code under test)."""


class NonTermination(BaseException):
    """The case exceeded its CPU-time horizon."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Space(object):
    """name: short id. bound: what is enumerated, in words. cases: callable -> iterator of JSON-able
    cases. run: callable(case, ctx). horizon: CPU seconds one case may use."""

    def __init__(self, name, bound, cases, run, horizon=10.0):
        self.name, self.bound, self.cases, self.run, self.horizon = name, bound, cases, run, horizon


class Ctx(object):
    """What one worker counts."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.frames = 0
        self.notes = collections.Counter()

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes[key] += 1


def freeze(x):
    """A hashable picture of a value, insertion order of dicts included."""
    if isinstance(x, dict):
        return ('d',) + tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted((repr(v) for v in x)))
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return (type(x).__name__, x)
    d = getattr(x, '__dict__', None)
    if d is not None and not callable(x):
        return (type(x).__name__, freeze(d))
    return type(x).__name__


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def _alarm(signum, frame):
    raise NonTermination()


def load_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data['findings'] if f['property'] == pid and f['status'] == 'known']


def case_key(space, case):
    return space + ':' + json.dumps(case, sort_keys=True, separators=(',', ':'), default=str)


def run_case(space, case, ctx):
    """None, or the violation message."""
    signal.setitimer(signal.ITIMER_PROF, space.horizon, 1.0)
    try:
        with quiet():
            space.run(case, ctx)
        ctx.traces += 1
        return None
    except Violation as v:
        return str(v)
    except NonTermination:
        return 'no answer within %s s of CPU time' % space.horizon
    except HarnessError:
        raise
    except (Exception, SystemExit, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
        return 'unexpected %s: %s  [%s]' % (type(e).__name__, str(e)[:300], ' > '.join(where))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(pid, tier, w, nw, conn, stop=None):
    try:
        signal.signal(signal.SIGPROF, _alarm)
        lim = int(3.4 * 1024 ** 3)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        sys.setrecursionlimit(3000)
        devnull = open(os.devnull, 'w')
        sys.stderr = devnull
        mod = importlib.import_module('mc.props.' + pid.lower())
        ctx = Ctx()
        viol = []
        counts = {}
        samples = {}
        capped = False
        burnt, t0 = 0.0, time.time()
        for si, space in enumerate(mod.spaces(tier)):
            n = mine = 0
            for idx, case in enumerate(space.cases()):
                n += 1
                if ((idx * 2654435761) >> 8) % nw != w:
                    continue
                mine += 1
                if len(samples.setdefault(space.name, [])) < 1 and (mine == 1 or mine % 97 == 0):
                    samples[space.name].append(case)
                if capped or stop is not None and stop.is_set():
                    capped = True
                    if stop is not None:
                        break
                    continue
                msg = run_case(space, case, ctx)
                if viol and time.time() - t0 > 240:
                    capped = True                     # the verdict is in; do not run out of time over the rest
                if msg is not None:
                    if stop is not None:
                        stop.set()
                    viol.append((si, idx, space.name, case, msg))
                    if msg.startswith(HANGS):
                        burnt += space.horizon
                        capped |= burnt >= 30
                    if len(viol) >= MAX_VIOL_PER_WORKER and not getattr(mod, 'NO_CAP', False):
                        capped = True
            counts[space.name] = (n, mine, space.bound)
        conn.send(('ok', dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
                              outcomes=ctx.outcomes, frames=ctx.frames, notes=ctx.notes,
                              viol=viol, counts=counts, samples=samples, capped=capped)))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def explore(pid, tier):
    mod = importlib.import_module('mc.props.' + pid.lower())   # imports GiMPy once, before forking
    del mod
    procs = []
    mp = multiprocessing.get_context('fork')
    stop = mp.Event() if os.environ.get('MC_STOP') else None      # development only: end at the first violation
    for w in range(NWORK):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(pid, tier, w, NWORK, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    tot = None
    for p, a in procs:
        try:
            kind, r = a.recv()
        except EOFError:
            raise HarnessError('a worker died (see /root/.vp/ended.log for memory)')
        if kind != 'ok':
            raise HarnessError(r)
        p.join()
        if tot is None:
            tot = r
        else:
            tot['states'] |= r['states']
            for k in ('transitions', 'traces', 'frames'):
                tot[k] += r[k]
            tot['outcomes'].update(r['outcomes'])
            tot['notes'].update(r['notes'])
            tot['viol'] += r['viol']
            tot['capped'] |= r['capped']
            for s, (n, m, bd) in r['counts'].items():
                tot['counts'][s] = (n, tot['counts'][s][1] + m, bd)
            for s, c in r['samples'].items():
                tot['samples'].setdefault(s, []).extend(c)
    for s, (n, m, bd) in tot['counts'].items():
        if n != m and stop is None:
            raise HarnessError('space %s: %d cases enumerated, %d run' % (s, n, m))
    tot['viol'].sort(key=lambda v: v[:2])
    return tot


def replay_file(path):
    rec = json.load(open(path))
    mod = importlib.import_module('mc.props.' + rec['property'].lower())
    signal.signal(signal.SIGPROF, _alarm)
    for space in mod.spaces(rec.get('tier', 'quick')):
        if space.name == rec['space']:
            msg = run_case(space, rec['case'], Ctx())
            return msg, str(msg).startswith(HANGS) or msg == run_case(space, rec['case'], Ctx())
    raise HarnessError('no such space: ' + rec['space'])


def confirm(path):
    """Replay a recorded case in a fresh process: (reproduced, message)."""
    import subprocess
    p = subprocess.run([sys.executable, '-m', 'mc.core', '--replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode == 1, p.stdout.strip()


def main(argv):
    if argv and argv[0] == '--replay':
        msg, same = replay_file(argv[1])
        if msg is None:
            print('the recorded case passes')
            return 0
        print('REPRODUCED%s: %s' % ('' if same else ' (the second run in this process differs)', msg))
        return 1
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import gimpy
    src = os.path.realpath(gimpy.__file__)
    if not src.startswith('/repo/'):
        raise HarnessError('gimpy was imported from ' + src)
    tot = explore(pid, tier)
    mod = importlib.import_module('mc.props.' + pid.lower())
    known = {f['key']: f for f in load_findings(pid)}
    seen_known = collections.OrderedDict()
    bad = []
    for v in tot['viol']:
        f = known.get(case_key(v[2], v[3]))
        if f is not None and f.get('message', '') in v[4]:
            seen_known[f['key']] = f
        else:
            bad.append(v)
    for f in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    level = getattr(mod, 'LEVEL', 'model_checking')
    spaces = {s: {'cases': n, 'bound': bd} for s, (n, m, bd) in tot['counts'].items()}
    samples = [{'space': s, 'case': c[0]} for s, c in sorted(tot['samples'].items()) if c][:12]
    ncases = sum(n for n, m, bd in tot['counts'].values())
    cov = {
        'states': len(tot['states']),
        'transitions': tot['transitions'],
        'traces_validated_against_impl': tot['traces'],
        'samples': samples,
        'exhaustive': not tot['capped'],
        'rule': getattr(mod, 'RULE', 'every case of every space below is executed on the real code in lock step '
                                     'with the reference model; states counts distinct abstract states '
                                     '(input graph x algorithm, or observable picture reached), transitions '
                                     'counts calls of the real code that were judged, '
                                     'traces_validated_against_impl counts complete cases'),
        'displayed_states_observed': tot['frames'],
        'distinct_outcomes': len(tot['outcomes']),
        'outcome_histogram': {str(k): v for k, v in tot['outcomes'].most_common(12)},
        'spaces': spaces,
        'notes': {str(k): v for k, v in tot['notes'].items()},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s %s: %d cases, %d states, %d transitions, %d traces validated, %d displayed states, '
          '%d distinct outcomes, %.1f s' % (pid, tier, ncases, cov['states'], cov['transitions'],
                                            cov['traces_validated_against_impl'], tot['frames'],
                                            cov['distinct_outcomes'], time.time() - t0))
    if not bad:
        return 0
    os.makedirs(rdir, exist_ok=True)
    for k, (si, idx, sname, case, msg) in enumerate(bad[:3]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, k))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'space': sname, 'index': idx, 'case': case,
                       'message': msg, 'how': './run.sh --replay ' + path}, f, indent=1, default=str)
            f.write('\n')
        again, out = (None, '') if os.environ.get('MC_STOP') else confirm(path) if k == 0 or not msg.startswith(HANGS) else (None, '')
        print('  %s #%d  %s' % (sname, idx, json.dumps(case, default=str)[:600]))
        print('    ' + msg[:1500])
        print('    replay in a fresh process: %s' % ('reproduced' if again else 'not tried' if again is None else
              'NOT reproduced alone (depends on what ran before in the same process): ' + out[-300:]))
    n = len(bad)
    print('  %d%s violating cases in all' % (n, '+' if tot['capped'] else ''))
    print('VIOLATION property=%s replay=%s' % (pid, os.path.join(rdir, pid + '-0.json')))
    return 1


if __name__ == '__main__':
    from mc import core as _core          # one copy of the classes, whoever imports them
    try:
        rc = _core.main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
