"""Line coverage of the code under test while a check runs (development aid; VERIF_COV=<dir>).

Every worker records the lines of pystatsm it executed once each (sys.monitoring, so the cost is
negligible) and writes them to <dir>/<pid>-<process id>.json at exit.  `python3 tools/cov.py <dir> <repo>`
lists the functions no check entered and the lines of entered functions no check reached."""
import ast, json, os, pathlib, sys


def start(repo, out, pid):
    import atexit
    mon = sys.monitoring
    hit = {}
    root = str(repo) + "/pystatsm/"
    mon.use_tool_id(3, "verif-cov")

    def line(code, no):
        f = code.co_filename
        if f.startswith(root):
            hit.setdefault(f[len(root):], set()).add(no)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)

    def dump():
        p = pathlib.Path(out)
        p.mkdir(parents=True, exist_ok=True)
        (p / f"{pid}-{os.getpid()}.json").write_text(json.dumps({k: sorted(v) for k, v in hit.items()}))
    return dump


def report(d, repo):
    hit = {}
    for f in pathlib.Path(d).glob("*.json"):
        for k, v in json.loads(f.read_text()).items():
            hit.setdefault(k, set()).update(v)
    root = pathlib.Path(repo) / "pystatsm"
    tot = cov = 0
    for f in sorted(root.rglob("*.py")):
        rel = str(f.relative_to(root))
        if rel.startswith("tests/"):
            continue
        h = hit.get(rel, set())
        tree = ast.parse(f.read_text())
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef,)):
                continue
            body = {n.lineno for s in fn.body for n in ast.walk(s) if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))}
            if not body:
                continue
            tot += len(body)
            miss = sorted(body - h)
            cov += len(body) - len(miss)
            if len(miss) == len(body):
                print(f"{rel}:{fn.lineno} {fn.name} ({len(body)}) NEVER")
            elif miss:
                print(f"{rel}:{fn.lineno} {fn.name} misses {miss}")
    print("statements", tot, "covered", cov)


if __name__ == "__main__":
    report(*sys.argv[1:3])
