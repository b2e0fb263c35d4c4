"""Engine: runs the generated-input search of one property.

A property is a list of Sub(name, strategy, check, quick, thorough).  The
strategy generates plain JSON-serialisable cases; check(case, ev) builds qosy
objects from the case, compares them against an independent oracle and raises
Violation on disagreement.  Any other exception that escapes from a check is
also reported as a violation (the generators only make inputs the code is
documented to accept), except for resource errors.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case lies outside of the property's domain (counted, not judged)."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Ev:
    """What one case did: labels for the distribution, and triviality."""

    def __init__(self):
        self.labels = []
        self.nontrivial_ = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_ = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self.strategy = strategy      # callable tier -> strategy
        self.check = check            # callable (case, ev)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


class Prop:
    def __init__(self, pid, rule, subs, assumptions=(), known=None):
        self.pid = pid
        self.rule = rule
        self.subs = subs
        self.assumptions = list(assumptions)
        self.known = known or {}      # finding id -> predicate(subname, case)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


def jdump(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


CASE_CPU_S = 40.0


class CaseTimeout(BaseException):
    """A case used CASE_CPU_S seconds of processor time (the cases take milliseconds)."""


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Run one case.  Returns (ev, error) where error is None or a message."""
    timed = threading.current_thread() is threading.main_thread()
    if timed:
        signal.signal(signal.SIGPROF, _on_timer)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 1.0)
    try:
        return _run_case(sub, case)
    except CaseTimeout:
        return Ev(), 'no result after {} s of processor time (does not terminate?)'.format(CASE_CPU_S)
    finally:
        if timed:
            signal.setitimer(signal.ITIMER_PROF, 0)


def _run_case(sub, case):
    ev = Ev()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(io.StringIO()):
                sub.check(case, ev)
    except Violation as e:
        return ev, str(e) or 'violation'
    except Skip:
        ev.label('skipped')
        ev.nontrivial_ = False
        return ev, None
    except Exception as e:
        return ev, 'unexpected {}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc(limit=-8))
    return ev, None


class Task:
    """One (sub-check, shard) search; run in a worker process."""

    def __init__(self, prop, sub, shard, count, seed, tier, deadline, stop, shrink_s):
        self.__dict__.update(locals())

    def run(self):
        from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
        stats = dict(sub=self.sub.name, evaluations=0, nontrivial=set(), labels={}, samples=[],
                     known=0, truncated=0, slowest=0.0)
        best = {}
        first_fail = [None]
        sub = self.sub

        def test(case):
            now = time.time()
            if first_fail[0] is None:
                if now > self.deadline or (self.stop is not None and self.stop.is_set()):
                    stats['truncated'] += 1
                    return
            elif now - first_fail[0] > self.shrink_s:
                return
            for fid, pred in self.prop.known.items():
                if pred(sub.name, case):
                    stats['known'] += 1
                    return
            ev, err = run_case(sub, case)
            dt = time.time() - now
            if dt > stats['slowest']:
                stats['slowest'] = dt
                if os.environ.get('VERIF_SLOW') and dt > float(os.environ['VERIF_SLOW']):
                    sys.stderr.write('slow {:.1f}s {} {}\n'.format(dt, sub.name, jdump(case)[:1500]))
            if first_fail[0] is None:
                stats['evaluations'] += 1
                for l in ev.labels:
                    stats['labels'][l] = stats['labels'].get(l, 0) + 1
                text = jdump(case)
                if ev.nontrivial_ and err is None:
                    stats['nontrivial'].add(hashlib.sha1((sub.name + text).encode()).digest()[:10])
                    n = len(stats['nontrivial'])
                    if n in (2, 20, 60) and len(text) < 1500:
                        stats['samples'].append(dict(check=sub.name, case=case))
            if err is not None:
                if first_fail[0] is None:
                    first_fail[0] = now
                text = jdump(case)
                if not best or (len(text), text) < (len(best['text']), best['text']):
                    best.update(text=text, case=case, err=err)
                raise Violation(err)

        n = int(hashlib.sha256('{}|{}|{}|{}'.format(self.seed, self.prop.pid, sub.name, self.shard).encode()).hexdigest()[:12], 16)
        t = given(sub.strategy(self.tier))(test)
        t = settings(max_examples=self.count, database=None, deadline=None, print_blob=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=(Phase.generate, Phase.shrink))(t)
        t = hseed(n)(t)
        crash = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                t()
        except BaseException as e:          # noqa: a Violation, or Hypothesis' Flaky report
            if not best:
                crash = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt,)):
                raise
        if best and self.stop is not None:
            self.stop.set()
        return stats, (dict(sub=sub.name, case=best['case'], err=best['err']) if best else None), crash


def load_regressions(pid):
    d = os.path.join(VERIF, 'regress', pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.json'):
                with open(os.path.join(d, f)) as fh:
                    out.append((os.path.join(d, f), json.load(fh)))
    return out


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [e for e in json.load(fh).get('findings', []) if e['property'] == pid]
