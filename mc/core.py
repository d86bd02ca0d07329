"""Explorer core: every property module enumerates a finite list of cases (closed
sub-spaces); each case is explored exhaustively on the real code and judged by an
independent oracle.  Results are merged, known findings filtered, evidence written."""
from __future__ import annotations
import contextlib, hashlib, io, json, math, os, signal, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT_S = int(os.environ.get("MC_CASE_TIMEOUT", "420"))


class Stop(Exception):
    """Raised inside a case once enough violations have been recorded."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    MAX = 3

    def __init__(self, sub, case):
        self.sub, self.case = sub, case
        self.states = 0          # distinct states / configurations judged
        self.transitions = 0     # real-code operations executed
        self.judgements = 0      # oracle comparisons
        self.traces = 0          # reference-model traces replayed against the implementation
        self.outcomes = set()    # distinct observable outcomes (hashes), for vacuity checks
        self.violations = []

    def outcome(self, *vals):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(repr(rnd(vals))))

    def fail(self, what, **detail):
        self.violations.append({"what": what, "detail": jsonable(detail)})
        if len(self.violations) >= self.MAX:
            raise Stop()

    def check(self, cond, what, **detail):
        self.judgements += 1
        if not cond:
            self.fail(what, **detail)
        return bool(cond)

    def close(self, got, want, what, rtol=1e-6, atol=1e-6, **detail):
        return self.check(close(got, want, rtol, atol), what, got=got, want=want, **detail)


def close(a, b, rtol=1e-6, atol=1e-6):
    try:
        a = float(a); b = float(b)
    except (TypeError, ValueError):
        return a is b
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def rnd(v, nd=7):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return float(f"{v:.{nd}g}")
    if isinstance(v, (list, tuple)):
        return tuple(rnd(x, nd) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), rnd(x, nd)) for k, x in v.items()))
    if hasattr(v, "tolist"):
        return rnd(v.tolist(), nd)
    return str(v)


def jsonable(v):
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x) for x in v]
    if hasattr(v, "tolist"):
        return jsonable(v.tolist())
    return repr(v)


@contextlib.contextmanager
def quiet():
    """Run code under test with its stdout and warnings swallowed."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def in_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath("/repo") + os.sep):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(args):
    modname, sub, case = args
    import importlib
    ctx = Ctx(sub, case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        with quiet():
            getattr(mod, "sub_" + sub)(ctx, **case)
    except Stop:
        pass
    except CaseTimeout:
        ctx.violations.append({"what": "code under test did not finish within the case time limit",
                               "detail": {"limit_s": CASE_TIMEOUT_S}})
    except Exception as e:  # an unexpected exception raised by the code under test
        ctx.violations.append({"what": f"unexpected {type(e).__name__}: {e}"[:300],
                               "detail": {"traceback": traceback.format_exc()[-2500:]}})
    finally:
        signal.alarm(0)
    return dict(sub=sub, case=case, states=ctx.states, transitions=ctx.transitions,
                judgements=ctx.judgements, traces=ctx.traces, outcomes=ctx.outcomes,
                violations=ctx.violations, wall=time.time() - t0)


def finding_key(sub, case, what):
    return hashlib.sha1(json.dumps([sub, jsonable(case), what], sort_keys=True).encode()).hexdigest()[:12]
