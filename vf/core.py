"""Case context shared by all monitors (runs inside the worker interpreter)."""
import hashlib
import math
import os
import random
import traceback


class CaseEnd(Exception):
    """Abandon the current case (a violation was recorded, or it is skipped)."""


class CaseSlow(BaseException):
    """Raised by the CPU timer of a case: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed, known=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.case_idx = None
        self.case_desc = None
        self.skips = {}
        self.errors = []

    # Observation counters -------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maxi(self, name, v):
        k = 'max_' + name
        self.counts[k] = max(self.counts.get(k, 0), v)

    def seen(self, key):
        """Record a non-trivial observation (hashed; counted if distinct)."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.distinct.add(h)

    def desc(self, d):
        self.case_desc = d

    # Verdicts ---------------------------------------------------------------
    def violation(self, mechanism, detail, end=True):
        self.violations.append(dict(case=self.case_idx, mechanism=mechanism,
                                    detail=str(detail)[:3000], desc=str(self.case_desc)[:3000]))
        if end:
            raise CaseEnd()

    def check(self, cond, mechanism, detail, end=True):
        if not cond:
            self.violation(mechanism, detail() if callable(detail) else detail, end)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1
        raise CaseEnd()

    def call(self, what, f, *args, **kwargs):
        """Run an operation the property says is supported: it must not raise."""
        try:
            return f(*args, **kwargs)
        except CaseEnd:
            raise
        except RecursionError as e:
            self.violation('exception:%s:RecursionError' % what, traceback.format_exc()[-1500:])
        except MemoryError:
            raise
        except Exception as e:
            self.violation('exception:%s:%s' % (what, type(e).__name__),
                           '%s\n%s' % (e, traceback.format_exc()[-1800:]))

    def rejects(self, what, f, detail, types=(Exception,)):
        """Run an operation that must be rejected with an error."""
        try:
            r = f()
        except types:
            return True
        self.violation('accepted:%s' % what, '%s\nreturned %r' % (detail() if callable(detail) else detail, r))


def in_sppl(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.sep + 'sppl' + os.sep in fn:
            return True
        tb = tb.tb_next
    return False


def rng_for(seed, prop, idx):
    h = hashlib.blake2b(('%s:%s:%s' % (seed, prop, idx)).encode(), digest_size=8).hexdigest()
    return random.Random(int(h, 16))


def close(a, b, tol=1e-9, rel=0.0):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))
