"""Property harness: facets (executable sub-properties), runner, evidence, replay.

A *facet* is a function  f(case, ctx)  plus a Hypothesis strategy that produces JSON-able
`case` values.  Everything random is in the case, so a case *is* the reproduction: the
replay file stores it and `run.sh --replay FILE` runs the facet on it without Hypothesis.
"""
import hashlib, json, math, os, pathlib, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


def add_hypothesis_path():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    for cand in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)       # at the end: /opt/venv keeps precedence
            return


add_hypothesis_path()

import numpy as np          # noqa: E402
import hypothesis           # noqa: E402
from hypothesis import strategies as st, settings, HealthCheck, Phase   # noqa: E402


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class ShrinkBudget(BaseException):
    pass


class OutOfTime(BaseException):
    pass


def jdefault(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def cjson(o):
    return json.dumps(o, sort_keys=True, default=jdefault)


class Ctx:
    """Per-case context: comparisons, labels, non-triviality, known-finding exclusion."""

    def __init__(self, facet, open_findings=(), probe=False):
        self.facet = facet
        self.labels = set()
        self.is_nontrivial = False
        self.probe = probe                  # probing a listed finding: no exclusions
        self._open = set(open_findings)
        self.excluded = []
        self.comparisons = 0

    # --- classification
    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def skip(self, why="outside the domain"):
        """Case outside the property's domain (counted)."""
        self.label("skip:" + why)
        raise _Skip()

    def excludes(self, finding_id, cond=True):
        """True when `cond` says the case hits a *listed* open finding (so it is not judged)."""
        if cond and not self.probe and finding_id in self._open:
            self.excluded.append(finding_id)
            return True
        return False

    # --- judgement
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, what, rtol=1e-8, atol=1e-10, scale=None):
        """|got-want| <= atol + rtol*max|want| (elementwise atol+rtol*|want| when scale='elem')."""
        self.comparisons += 1
        g = _dense(got)
        w = _dense(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape} != {w.shape}")
        if g.size == 0:
            return
        if not np.all(np.isfinite(g) == np.isfinite(w)):
            raise Violation(f"{what}: finiteness differs: got {_short(g)} want {_short(w)}")
        fin = np.isfinite(w)
        if not np.all(fin):
            ok = (g[~fin] == w[~fin]) | (np.isnan(g[~fin]) & np.isnan(w[~fin]))
            if not np.all(ok):
                raise Violation(f"{what}: non-finite values differ: got {_short(g)} want {_short(w)}")
        if not fin.any():
            return
        d = np.abs(g[fin] - w[fin])
        s = np.abs(w[fin])
        tol = atol + rtol * (s if scale == "elem" else (s.max() if scale is None else scale))
        bad = d > tol
        if np.any(bad):
            i = int(np.argmax(d - tol)) if np.ndim(tol) else int(np.argmax(d))
            raise Violation(f"{what}: max abs diff {d[i]:.6g} (tol {float(tol if np.ndim(tol)==0 else tol[i]):.3g}); "
                            f"got {_short(g)} want {_short(w)}")

    def equal(self, got, want, what):
        self.comparisons += 1
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)) and any(isinstance(x, (tuple, list, dict)) for x in list(got) + list(want)):
            if not (len(got) == len(want) and all(_same(a, b) for a, b in zip(got, want))):
                raise Violation(f"{what}: got {got!r} want {want!r}"[:600])
            return
        g, w = _dense(got), _dense(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            raise Violation(f"{what}: got {_short(g)} want {_short(w)}")

    def finite(self, got, what):
        self.comparisons += 1
        g = _dense(got)
        if not np.all(np.isfinite(g)):
            raise Violation(f"{what}: not finite: {_short(g)}")

    def raises(self, exc, fn, what):
        self.comparisons += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(f"{what}: no {exc} raised, returned {r!r}"[:500])


class _Skip(Exception):
    pass


def _same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(np.all(r)) and np.shape(a) == np.shape(b)


def _dense(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    return np.asarray(a)


def _short(a):
    s = np.array2string(np.asarray(a), precision=6, threshold=20, edgeitems=3).replace("\n", " ")
    return s if len(s) < 300 else s[:297] + "..."


class Facet:
    def __init__(self, prop, name, fn, strategy, quick, thorough, rule, shards, cost, examples, asan, machine):
        self.prop, self.name, self.fn = prop, name, fn
        self.strategy, self.quick, self.thorough = strategy, quick, thorough
        self.rule, self.shards, self.cost, self.examples, self.asan = rule, shards, cost, examples, asan
        self.machine = machine


class Property:
    def __init__(self, pid, title):
        self.id, self.title = pid, title
        self.facets = {}
        self.assumptions = []

    def facet(self, name, strategy, quick=200, thorough=None, rule="", shards=1, cost=1.0, examples=(), asan=False):
        """Register f(case, ctx).  quick/thorough: number of generated cases (split over shards).
        cost: relative time of the whole facet, for scheduling only."""
        def deco(fn):
            if name in self.facets:
                raise HarnessError("duplicate facet " + name)
            self.facets[name] = Facet(self, name, fn, strategy, quick, thorough or quick * 12, rule or (fn.__doc__ or "").strip(),
                                      shards, cost, list(examples), asan, None)
            return fn
        return deco


# ---------------------------------------------------------------- findings file
def load_findings(pid=None):
    """known_findings.txt, one finding per line:
         KNOWN-FINDING: property=<id> <what fails> ## {"id":..., "facet":..., "case":...}
         fixed: property=<id> <commit> <what failed> ## {"id":..., "facet":..., "case":...}
    An open finding suppresses exactly its own id (see Ctx.excludes); a fixed one suppresses nothing
    and its case is replayed as a regression.  Never written at run time."""
    p = VERIF / "known_findings.txt"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            head, _, js = line.partition(" ## ")
            kind, _, rest = head.partition(": property=")
            prop, _, what = rest.partition(" ")
            d = json.loads(js)
            d.update(property=prop, what=what.strip(), status={"KNOWN-FINDING": "open", "fixed": "fixed"}[kind])
            if pid is None or prop == pid:
                out.append(d)
    return out


# ---------------------------------------------------------------- one case
def classify_exception(e):
    """'violation' if the code under test failed, else 'harness'."""
    if isinstance(e, Violation):
        return "violation"
    if isinstance(e, (HarnessError, MemoryError)):
        return "harness"
    root = str(REPO / "pystatsm") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return "violation"
        fn = tb.tb_frame.f_code.co_filename
        if fn.endswith(".pyx"):
            return "violation"
        tb = tb.tb_next
    # raised while the check handled a returned value (wrong type, wrong shape, missing field ...)
    if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, np.linalg.LinAlgError)) \
            and "module '" not in str(e):
        return "violation"
    return "harness"


def describe_exception(e):
    if isinstance(e, Violation):
        return str(e)
    root = str(REPO) + os.sep
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(root) or f.filename.endswith(".pyx")]
    where = "; ".join(f"{f.filename.replace(root,'')}:{f.lineno} {f.name}" for f in fr[-2:])
    if not where:
        last = traceback.extract_tb(e.__traceback__)[-1]
        return f"result cannot be judged: {type(e).__name__}: {str(e)[:200]} (at {last.filename.replace(str(VERIF) + os.sep, '')}:{last.lineno})"
    return f"raised {type(e).__name__}: {str(e)[:200]} (at {where})"


def run_case(facet, case, open_findings=(), probe=False):
    """Returns (status, message, ctx): status in ok/skip/violation; harness errors propagate."""
    ctx = Ctx(facet, open_findings, probe)
    try:
        import warnings
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            facet.fn(case, ctx)
        return "ok", "", ctx
    except _Skip:
        return "skip", "", ctx
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        if classify_exception(e) == "violation":
            return "violation", describe_exception(e), ctx
        raise


def shard_seed(pid, facet, shard, seed):
    h = hashlib.sha256(f"{pid}/{facet}/{shard}/{seed}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def run_shard(facet, shard, n, seed, open_findings, stop_at, crumb=None, shrink_s=45.0):
    """Run n generated cases of one facet; returns a JSON-able result."""
    res = dict(facet=facet.name, shard=shard, requested=n, evaluations=0, skipped=0, nontrivial=0, hashes=[], labels={},
               excluded={}, comparisons=0, samples=[], failure=None, incomplete=False, error=None)
    hashes = set()
    state = dict(fail=None, t_fail=None)

    def body(case):
        if time.time() > stop_at:
            raise OutOfTime()
        if state["t_fail"] and time.time() - state["t_fail"] > shrink_s:
            raise ShrinkBudget()
        text = cjson(case)
        case = json.loads(text)             # exactly what a replay will see
        if crumb is not None:
            crumb(facet.name, text)
        status, msg, ctx = run_case(facet, case, open_findings)
        if state["fail"] is None:
            res["evaluations"] += 1
            res["comparisons"] += ctx.comparisons
            for l in ctx.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            for x in ctx.excluded:
                res["excluded"][x] = res["excluded"].get(x, 0) + 1
            if status == "skip":
                res["skipped"] += 1
            elif ctx.is_nontrivial:
                h = hashlib.sha1(text.encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(res["samples"]) < 2 and len(text) < 3000:
                        res["samples"].append(case)
        if status == "violation":
            if state["fail"] is None:
                state["t_fail"] = time.time()
            state["fail"] = (case, msg)
            raise Violation(msg)

    sett = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False)
    test = hypothesis.seed(shard_seed(facet.prop.id, facet.name, shard, seed))(
        sett(hypothesis.given(facet.strategy)(lambda case: body(case))))
    t0 = time.time()
    try:
        # explicit cases first (plain regressions)
        if shard == 0:
            for ex in facet.examples:
                body(ex)
        if n > 0:
            test()
    except ShrinkBudget:
        pass
    except OutOfTime:
        res["incomplete"] = True
    except Exception as e:
        if state["fail"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if state["fail"] is not None:
        res["failure"] = dict(case=state["fail"][0], message=state["fail"][1])
        res["error"] = None
    res["hashes"] = sorted(hashes)
    res["nontrivial"] = len(hashes)
    res["wall_s"] = time.time() - t0
    return res


# ---------------------------------------------------------------- strategies helpers
def seeds():
    return st.integers(0, 2**32 - 1)


def rng_of(case, key="seed", salt=0):
    """Deterministic generator: a pure function of the (shrinkable) drawn integer."""
    return np.random.default_rng([int(case[key]), salt])


def dicts(**kw):
    return st.fixed_dictionaries(kw)
