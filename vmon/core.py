"""Runtime-monitoring core: observation counters, three-valued verdicts, witnesses.

A check is a module `vmon.checks.<id>` with

    PROP      property id
    RULE      one sentence: how cases are made and what makes one non-trivial
    CASES     dict kind -> function(mon, rng, i): drives the real code and feeds the monitor
    PLAN      dict tier -> dict kind -> number of cases
    REQUIRED  dict oracle -> minimal number of observations (fewer: no verdict, exit 2)

The deciding step is always an oracle that observes an execution of the code in /repo;
an oracle that observed nothing never counts as a pass.
"""
import collections
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np


class CaseAbort(Exception):
    """The rest of the case cannot be observed (a violation was recorded already)"""


class CaseTimeout(BaseException):
    pass


def _brief(x, limit=1500):
    try:
        import scipy.sparse as sp
        if sp.issparse(x):
            x = x.toarray() if np.prod(x.shape) < 400 else repr(x)
        if isinstance(x, np.ndarray):
            with np.printoptions(threshold=60, precision=17):
                x = '%s%s %s' % (x.dtype, x.shape, np.array2string(x, threshold=60))
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:                      # details must never break a verdict
        s = '<unprintable %s: %r>' % (type(x).__name__, e)
    return s if len(s) <= limit else s[:limit] + '...'


def from_repo(tb):
    """true if the traceback passes through the code under test"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.sep + 'pycomplex' + os.sep in f and os.sep + 'vmon' + os.sep not in f:
            return True
        tb = tb.tb_next
    return False


class Mon(object):
    """What one case observed"""

    def __init__(self, prop, kind, index, seed, tier='quick'):
        self.prop, self.kind, self.index, self.seed, self.tier = prop, kind, index, seed, tier
        self.counts = collections.Counter()
        self.violations = []
        self.states = set()
        self.notes = []
        self.skips = collections.Counter()
        self._label = ''

    # -- bookkeeping
    def note(self, **kw):
        """describe the input of this case, for the evidence samples and the witness"""
        self.notes.append({k: _brief(v, 300) for k, v in kw.items()})

    def state(self, *parts):
        """register a distinct non-trivial state/input that an oracle got to look at"""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(str(p.dtype).encode() + str(p.shape).encode())
                if p.dtype == object:
                    h.update(repr(p.tolist()).encode())
                else:
                    h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
            h.update(b'|')
        self.states.add(h.hexdigest())

    def skip(self, why):
        self.skips[why] += 1

    def fail(self, oracle, tag='', **detail):
        self.violations.append(dict(
            oracle=oracle, tag=tag, kind=self.kind, index=self.index, label=self._label,
            detail={k: _brief(v) for k, v in detail.items()}))

    @contextlib.contextmanager
    def label(self, text):
        old, self._label = self._label, (self._label + '/' + text).strip('/')
        try:
            yield
        finally:
            self._label = old

    # -- oracles
    def check(self, oracle, cond, tag='', **detail):
        self.counts[oracle] += 1
        ok = bool(cond)
        if not ok:
            self.fail(oracle, tag, **detail)
        return ok

    def eq(self, oracle, got, want, tag='', **detail):
        """exact equality of shape and values"""
        self.counts[oracle] += 1
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and bool(np.all(g == w))
        except Exception as e:
            ok = False
            detail['comparison'] = repr(e)
        if not ok:
            self.fail(oracle, tag, got=got, want=want, **detail)
        return ok

    def close(self, oracle, got, want, rtol=1e-9, atol=0., tag='', **detail):
        """|got - want| <= atol + rtol * max|want|: scaled by the largest magnitude of the reference"""
        self.counts[oracle] += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            ok = g.shape == w.shape
            if ok and g.size:
                tol = atol + rtol * np.max(np.abs(w))
                err = np.max(np.abs(g - w))
                ok = bool(np.all(np.isfinite(g))) and bool(err <= tol)
                detail.update(max_err=float(err), tol=float(tol))
            else:
                detail.update(shapes=(g.shape, w.shape))
        except (TypeError, ValueError) as e:
            ok = False
            detail['comparison'] = repr(e)
        if not ok:
            self.fail(oracle, tag, got=got, want=want, **detail)
        return ok

    @contextlib.contextmanager
    def calling(self, oracle, tag='', **detail):
        """the enclosed calls are required to return: an exception out of the code is a violation"""
        self.counts[oracle] += 1
        try:
            yield
        except (CaseAbort, CaseTimeout):
            raise
        except Exception as e:
            if not from_repo(e.__traceback__):
                raise
            self.fail(oracle, tag, raised=repr(e), where=traceback.format_exc()[-1500:], **detail)
            raise CaseAbort()

    def raises(self, oracle, exc, func, tag='', **detail):
        """the call is required to be rejected with `exc`"""
        self.counts[oracle] += 1
        try:
            r = func()
        except exc:
            return True
        except (CaseAbort, CaseTimeout):
            raise
        except Exception as e:
            self.fail(oracle, tag, raised=repr(e), wanted=repr(exc), **detail)
            return False
        self.fail(oracle, tag, returned=r, wanted=repr(exc), **detail)
        return False


def case_rng(prop, kind, index, seed):
    h = zlib.crc32(('%s/%s' % (prop, kind)).encode())
    ss = np.random.SeedSequence([int(seed) & 0xffffffff, h, int(index)])
    s = ss.generate_state(2)
    np.random.seed(int(s[0]))
    random.seed(int(s[1]))
    return np.random.default_rng(ss)


def _alarm(*a):
    raise CaseTimeout()


# what a result of an unexpected form provokes in an oracle that reads it
MALFORMED = (TypeError, ValueError, LookupError, AttributeError, AssertionError, ArithmeticError, NotImplementedError, np.linalg.LinAlgError)


def run_case(module, kind, index, seed, tier, timeout=None):
    """Run one case; returns plain data"""
    mon = Mon(module.PROP, kind, index, seed, tier)
    rng = case_rng(module.PROP, kind, index, seed)
    error = None
    timeout = timeout or (90 if tier == 'quick' else 300)
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        armed = True
    except ValueError:
        armed = False
    try:
        with np.errstate(all='ignore'):
            module.CASES[kind](mon, rng, index)
    except CaseAbort:
        pass
    except CaseTimeout:
        mon.fail('terminates', seconds=timeout)
    except Exception as e:
        if from_repo(e.__traceback__):
            mon.fail('no-crash', raised=repr(e), where=traceback.format_exc()[-2500:])
        elif isinstance(e, MALFORMED) and sum(mon.counts.values()):
            # the workload is valid and the oracles read what they were promised; see DESIGN.md
            mon.fail('well-formed', raised=repr(e), where=traceback.format_exc()[-2500:])
        else:
            error = traceback.format_exc()
    finally:
        if armed:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(kind=kind, index=index, counts=dict(mon.counts), violations=mon.violations,
                states=sorted(mon.states), notes=mon.notes, skips=dict(mon.skips), error=error,
                wall=time.time() - t0)
