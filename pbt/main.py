"""Runner: pbt.main <property> [tier] | --replay FILE | --setup | --list"""
import importlib, json, multiprocessing as mp, os, pathlib, signal, sys, tempfile, time, traceback, hashlib, shutil

from . import core, build
from .core import VERIF

QUICK_BUDGET = float(os.environ.get("VERIF_BUDGET", "420"))
THOROUGH_BUDGET = float(os.environ.get("VERIF_BUDGET", "3000"))
NPROC = int(os.environ.get("VERIF_NPROC", str(min(8, os.cpu_count() or 8))))


def load_property(pid):
    for f in sorted((VERIF / "pbt" / "props").glob("*.py")):
        if f.stem.split("_")[0].upper() == pid:
            return importlib.import_module("pbt.props." + f.stem).P
    raise SystemExit("unknown property " + pid)


def worker(pid, conn, crumb_path, paths, seed, open_findings, stop_at):
    try:
        os.environ["VERIF_WORKER"] = "1"
        build.install(paths)
        dump = None
        if os.environ.get("VERIF_COV"):
            sys.path.insert(0, str(VERIF / "tools"))
            import cov
            dump = cov.start(build.REPO, os.environ["VERIF_COV"], pid)
        P = load_property(pid)
        fd = os.open(crumb_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

        def crumb(name, text):
            b = (json.dumps([name]) + "\n" + text).encode()
            os.pwrite(fd, b, 0)
            os.ftruncate(fd, len(b))
        while True:
            task = conn.recv()
            if task is None:
                if dump:
                    dump()
                return
            name, shard, n = task
            r = core.run_shard(P.facets[name], shard, n, seed, open_findings, stop_at, crumb)
            conn.send(r)
    except BaseException as e:                      # noqa
        try:
            conn.send(dict(worker_error="".join(traceback.format_exception(e))[-4000:]))
        except Exception:
            pass


class Pool:
    def __init__(self, pid, paths, seed, open_findings, stop_at, tmp):
        self.args = (pid, paths, seed, open_findings, stop_at)
        self.ctx = mp.get_context("spawn")
        self.tmp = tmp
        self.k = 0

    def start(self):
        pid, paths, seed, of, stop = self.args
        a, b = self.ctx.Pipe()
        self.k += 1
        crumb = os.path.join(self.tmp, f"crumb-{self.k}")
        p = self.ctx.Process(target=worker, args=(pid, b, crumb, paths, seed, of, stop), daemon=True)
        p.start()
        b.close()
        return dict(proc=p, conn=a, crumb=crumb, task=None)


def replay_path(pid, facet, case):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    h = hashlib.sha1(core.cjson(case).encode()).hexdigest()[:10]
    return d / f"{pid}-{facet}-{h}.json"


def save_replay(pid, facet, case, message, seed, tier):
    p = replay_path(pid, facet, case)
    p.write_text(json.dumps(dict(property=pid, facet=facet, case=case, message=message, seed=seed, tier=tier), indent=1, default=core.jdefault) + "\n")
    return p


def cmd_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    stop_at = t0 + budget
    hard = stop_at + 150
    paths = build.build()
    build.install(paths)                            # before the property module, which may import pystatsm
    P = load_property(pid)
    if any(f.asan for f in P.facets.values()):
        build.build(sanitize=True)
    findings = core.load_findings(pid)
    open_ids = [f["id"] for f in findings if f["status"] == "open"]
    failures, errors, known_lines = [], [], []

    tasks = []
    # listed findings / regressions first, as one-case tasks in a worker
    for f in P.facets.values():
        n = f.quick if tier == "quick" else f.thorough
        sh = max(1, f.shards)
        if tier == "thorough":
            sh = max(sh, NPROC if f.cost >= 1 else 2)
        base, extra = divmod(n, sh)
        for s in range(sh):
            tasks.append((f.cost / sh, (f.name, s, base + (1 if s < extra else 0))))
    only = os.environ.get("VERIF_ONLY")
    if only:
        tasks = [t for t in tasks if t[1][0] in only.split(",")]
    tasks.sort(key=lambda t: -t[0])
    queue = [t[1] for t in tasks]

    results = []
    tmp = tempfile.mkdtemp(prefix="verif-")
    pool = Pool(pid, paths, seed, open_ids, stop_at, tmp)
    workers = []
    inconclusive = []
    try:
        for _ in range(min(NPROC, len(queue))):
            workers.append(pool.start())
        for w in workers:
            w["task"] = queue.pop(0) if queue else None
            w["conn"].send(w["task"])
        active = [w for w in workers if w["task"]]
        restarts = 0
        while active:
            ready = mp.connection.wait([w["conn"] for w in active], timeout=5)
            if time.time() > hard:
                for w in active:
                    inconclusive.append(w["task"][0])
                    w["proc"].kill()
                break
            for w in list(active):
                if w["conn"] not in ready:
                    continue
                try:
                    r = w["conn"].recv()
                except (EOFError, OSError):
                    w["proc"].join(10)
                    code = w["proc"].exitcode
                    name = w["task"][0]
                    crashed = code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                    if crashed:
                        txt = open(w["crumb"]).read().split("\n", 1)
                        failures.append(dict(facet=json.loads(txt[0])[0], case=json.loads(txt[1]), crash=True,
                                             message=f"process killed by signal {-code} while running this case"))
                    else:
                        errors.append(f"worker for {name} ended with exit code {code}")
                    active.remove(w)
                    restarts += 1
                    if queue and restarts < 5 and not failures:
                        nw = pool.start()
                        workers.append(nw)
                        nw["task"] = queue.pop(0)
                        nw["conn"].send(nw["task"])
                        active.append(nw)
                    continue
                if "worker_error" in r:
                    errors.append(r["worker_error"])
                    active.remove(w)
                    continue
                results.append(r)
                if r["failure"]:
                    failures.append(dict(facet=r["facet"], case=r["failure"]["case"], message=r["failure"]["message"]))
                if r["error"]:
                    errors.append(f"facet {r['facet']}: {r['error']}")
                if r["incomplete"]:
                    inconclusive.append(r["facet"])
                # after a violation, do not start new work
                if queue and not failures:
                    w["task"] = queue.pop(0)
                    w["conn"].send(w["task"])
                else:
                    w["conn"].send(None)
                    active.remove(w)
        # probes: listed findings (expected to fail) and repaired ones (must pass)
        probes = [f for f in findings if f.get("case") is not None]
        if probes and not os.environ.get("VERIF_NOPROBE") and not only:
            for f in probes:
                fac = P.facets.get(f["facet"])
                if fac is None:
                    errors.append("finding " + f["id"] + " names unknown facet " + f["facet"])
                    continue
                try:
                    status, msg, _ = core.run_case(fac, json.loads(core.cjson(f["case"])), open_ids, probe=True)
                except Exception as e:
                    errors.append("probe " + f["id"] + ": " + "".join(traceback.format_exception(e))[-1500:])
                    continue
                if status == "violation":
                    if f["status"] == "open":
                        known_lines.append(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
                    else:
                        failures.append(dict(facet=f["facet"], case=f["case"], message=f"repaired finding {f['id']} is back: {msg}"))
    finally:
        for w in workers:
            try:
                w["conn"].send(None)
            except Exception:
                pass
        for w in workers:
            w["proc"].join(2)
            if w["proc"].is_alive():
                w["proc"].kill()
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- evidence
    agg = {}
    for r in results:
        a = agg.setdefault(r["facet"], dict(evaluations=0, skipped=0, comparisons=0, labels={}, excluded_known={}, hashes=set(), samples=[], wall_s=0.0, rule=P.facets[r["facet"]].rule))
        for k in ("evaluations", "skipped", "comparisons"):
            a[k] += r[k]
        a["wall_s"] = round(a["wall_s"] + r["wall_s"], 2)
        for k, v in r["labels"].items():
            a["labels"][k] = a["labels"].get(k, 0) + v
        for k, v in r["excluded"].items():
            a["excluded_known"][k] = a["excluded_known"].get(k, 0) + v
        a["hashes"].update(r["hashes"])
        a["samples"] += r["samples"]
    samples = []
    for name, a in agg.items():
        a["distinct_nontrivial"] = len(a.pop("hashes"))
        s = a.pop("samples")
        if s:
            samples.append(dict(facet=name, case=s[-1]))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(a["evaluations"] for a in agg.values()),
                  distinct_nontrivial=sum(a["distinct_nontrivial"] for a in agg.values()),
                  rule="Each facet draws JSON-able cases from its Hypothesis strategy; a case counts when its canonical JSON is new in its shard/facet "
                       "and it meets the facet's non-triviality rule (facets[*].rule).",
                  samples=samples,
                  facets=agg,
                  known_findings_seen=known_lines,
                  inconclusive=sorted(set(inconclusive))),
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(failures))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=core.jdefault) + "\n")

    for l in known_lines:
        print(l)
    tot = ev["coverage"]
    print(f"{pid} {tier} seed={seed}: {tot['evaluations']} cases, {tot['distinct_nontrivial']} distinct non-trivial, {len(agg)} facets, {ev['wall_s']} s"
          + (f", inconclusive: {tot['inconclusive']}" if tot["inconclusive"] else ""))
    if os.environ.get("VERIF_VERBOSE"):
        for name, a in sorted(agg.items(), key=lambda kv: -kv[1]["wall_s"]):
            print(f"  {name}: {a['evaluations']} ev, {a['distinct_nontrivial']} nt, {a['skipped']} skip, {a['wall_s']} s, {a['labels']} {a['excluded_known'] or ''}")
    for f in failures:
        p = save_replay(pid, f["facet"], f["case"], f["message"], seed, tier)
        print(f"facet {f['facet']}: {f['message']}")
        print(f"VIOLATION property={pid} replay={p}")
    sys.stdout.flush()
    if failures:
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR: " + e, file=sys.stderr)
        return 2
    return 0


def cmd_replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    paths = build.build()
    build.install(paths)
    P = load_property(d["property"])
    f = P.facets[d["facet"]]
    if f.asan:
        build.build(sanitize=True)
    status, msg, ctx = core.run_case(f, d["case"], (), probe=True)
    print(f"{d['property']}/{d['facet']}: {status} {msg}")
    if status == "violation":
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main(argv):
    if argv and argv[0] == "--setup":
        build.build()
        build.build(sanitize=True)
        print("setup ok")
        return 0
    if argv and argv[0] == "--replay":
        return cmd_replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return cmd_check(pid, tier)
    except build.BuildError as e:
        print("HARNESS ERROR: build failed\n" + str(e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    import multiprocessing.connection  # noqa
    sys.exit(main(sys.argv[1:]))
