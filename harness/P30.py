"""P30: the benchmark comparison puts every measured change where it belongs."""
import contextlib
import importlib.util
import io
import itertools
import json
import math
import os
import re
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy  # noqa: E402

REPO = os.environ.get("MC_REPO", "/repo")
VENV = "/opt/vp/venv"
MISSING = "missing"
VALUES = [0, 0.5, 0.89, 0.95, 1, 1.04, 1.3, 2, 400, "unused", MISSING]
# path below algorithm/task/qubits, component and metric in the table, is a larger value better
METRICS = [
    (("runtime",), "", "runtime", False),
    (("dd", "active_memory_mib"), "", "active_memory_mib", False),
    (("dd", "compute_tables", "matrix_add", "hits"), "compute_tables_matrix_add", "hits*", True),
    (("dd", "compute_tables", "matrix_add", "hit_ratio"), "compute_tables_matrix_add", "hit_ratio*", True),
    (("dd", "compute_tables", "matrix_add", "lookups"), "compute_tables_matrix_add", "lookups", False),
    (("dd", "matrix", "unique_table", "total", "hits"), "matrix_unique_table", "total_hits*", True),
    (("dd", "matrix", "unique_table", "total", "collisions"), "matrix_unique_table", "total_collisions", False),
    (("dd", "vector", "node_manager", "num_used"), "vector_node_manager", "num_used", False),
]
# the other entries of the files: algorithm, task, qubits, metric, before, after
BACK = [
    ("BV", "Simulation", 7, 0, 1.0, 1.5), ("BV", "Simulation", 7, 2, 10, 20), ("GHZ", "Functionality", 7, 0, 2, 1),
    ("GHZ", "Functionality", 12, 6, 3, 3), ("QPE", "Simulation", 12, 0, 1, MISSING), ("QPE", "Functionality", 3, 4, MISSING, 5),
    ("BV", "Functionality", 12, 0, 8, 8.1), ("GHZ", "Simulation", 3, 1, 4, 40),
]
OPTIONS = [dict(zip(("factor", "sort", "dd", "only_changed", "no_split"), o))
           for o in itertools.product((0.1, 0.35, 0), ("ratio", "algorithm"), (False, True), (False, True), (False, True))]
DEFAULTS = dict(factor=0.1, sort="ratio", dd=False, only_changed=False, no_split=False, algorithm=None, task=None,
                num_qubits=None)
FILTERS = [dict(algorithm=a, task=t, num_qubits=n) for a in (None, "BV", "ghz", "QPE", "none")
           for t in (None, "Simulation", "functionality") for n in (None, 7, 12) if a is not None or n is None]


def load():
    spec = importlib.util.spec_from_file_location("dd_evaluation", f"{REPO}/src/mqt/core/dd_evaluation.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def nan(x):
    return isinstance(x, str) or math.isnan(x)


def entry(d, path, v):
    if v == MISSING:
        return
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def rows(text):
    """The tables of the output: title (last line that is no row) and rows as dictionaries."""
    out, head, title = {}, None, []
    section = ""
    for line in re.sub(r"\x1b\[\d+m", "", text).splitlines():
        line = line.strip()
        if not line:
            continue
        if not line.startswith("|"):
            if line in ("Runtime:", "DD Package details:"):
                section, title, head = line, [], None
            else:
                title, head = [line], None
            out.setdefault((section, title[0] if title else ""), [])
            continue
        cells = [c.strip() for c in line.strip("|").split("|")]
        if set(line) <= set("|-: "):
            continue
        if cells[0] == "before":
            out.setdefault((section, title[0] if title else ""), [])
            if head is not None:  # a second table without a title of its own
                out.setdefault((section, "again"), [])
                title = ["again"]
            head = cells
            continue
        out[section, title[0] if title else ""].append(dict(zip(head, cells)))
    return out


def define(w):
    ev = load()
    d = tempfile.mkdtemp(dir=w.path)
    files = [f"{d}/base.json", f"{d}/feature.json"]

    def call(opt, how):
        short = {k: v for k, v in opt.items() if DEFAULTS[k] != v}
        if how == "all":
            ev.compare(*files, **opt)
        elif how == "defaults":
            ev.compare(*files, **short)
        else:
            argv = [a for k, v in short.items() for a in ([f"--{k}"] if v is True else [f"--{k}", str(v)])]
            old = sys.argv
            sys.argv = ["mqt-core-compare", *files, *argv] if how == "cli" else ["mqt-core-compare", *argv, *files]
            try:
                ev.main()
            except SystemExit as e:
                raise RuntimeError(f"the command line {argv} is refused") from e
            finally:
                sys.argv = old

    def run(ctx, entries, opt, what, how="all"):
        data = [{}, {}]
        for algo, task, n, m, b, a in entries:
            for x, v in zip(data, (b, a)):
                entry(x, (algo, task, str(n), *METRICS[m][0]), v)
        for f, x in zip(files, data):
            with open(f, "w") as o:
                json.dump(x, o)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                call(opt, how)
        except Exception as e:  # noqa: BLE001
            ctx.check(False, "raised", lambda: f"{what}, {opt}: {type(e).__name__}: {e}")
            return
        ctx.trans()
        got = rows(out.getvalue())
        for section in ("Runtime:", "DD Package details:"):
            dd = section != "Runtime:"
            if dd and not opt.get("dd"):
                ctx.check(not any(s == section for s, _ in got), "dd-shown", lambda: f"{what}, {opt}")
                continue
            want = {"better": [], "worse": [], "same": [], "either": []}
            for algo, task, n, m, b, a in entries:
                if (b == MISSING and a == MISSING) or (METRICS[m][2] == "runtime") == dd:
                    continue
                if opt.get("algorithm") is not None and opt["algorithm"].lower() not in algo.lower():
                    continue
                if opt.get("task") is not None and opt["task"].lower() not in task.lower():
                    continue
                if opt.get("num_qubits") not in (None, n):
                    continue
                key = (algo, task, str(n)) + ((METRICS[m][1], METRICS[m][2]) if dd else ())
                f = opt["factor"]
                if nan(b) or nan(a):
                    r = math.nan
                else:
                    x, y = (a, b) if METRICS[m][3] else (b, a)  # y/x: above one is worse
                    r = y / x if x else 1.0 if not y else math.inf
                if math.isnan(r):
                    kind = "same"
                elif min(abs(r - 1 + f), abs(r - 1 - f)) < 1e-3:
                    kind = "either"  # rounding may decide
                else:
                    kind = "better" if r < 1 - f else "worse" if r > 1 + f else "same"
                want[kind].append((key, b, a, r))
            titles = {"better": "Benchmarks that have improved:", "worse": "Benchmarks that have worsened:",
                      "same": "Benchmarks that have stayed the same:"}
            if opt["no_split"]:
                tables = {"": ["better", "worse"] + ([] if opt["only_changed"] else ["same"])}
            else:
                tables = {titles[k]: [k] for k in titles if k != "same" or not opt["only_changed"]}
            shown = {t: r for (s, t), r in got.items() if s == section and (t in tables or r)}
            for t in shown:
                ctx.check(t in tables, "extra-table", lambda t=t: f"{what}, {opt}: {section} {t or 'untitled'} {shown[t]}")
            for t, kinds in tables.items():
                have = shown.get(t, [])
                keys = [(r["algo"], r["task"], r["n"]) + ((r["component"], r["metric"]) if dd else ()) for r in have]
                must = [e for k in kinds for e in want[k]]
                may = want["either"]
                ok = all(keys.count(e[0]) == 1 for e in must) and all(
                    k in [e[0] for e in must + may] for k in keys)
                if opt["no_split"] and not opt["only_changed"]:
                    ok = ok and all(keys.count(e[0]) == 1 for e in may)
                ctx.check(ok, "rows", lambda t=t, keys=keys, must=must: f"{what}, {opt}: {section} {t} lists {keys} instead of "
                          f"{[e[0] for e in must]}")
                vals = {e[0]: e for e in must + may}
                for k, r in zip(keys, have):
                    if k not in vals:
                        continue
                    for col, v in zip(("before", "after", "ratio"), vals[k][1:]):
                        x = float(r[col])
                        good = math.isnan(x) if nan(v) else x == v or abs(x - v) <= 6e-4 + 1e-4 * abs(v)
                        ctx.check(good, "value", lambda t=t, col=col, v=v, r=r: f"{what}, {opt}: {section} {t}: {col} is "
                                  f"{r[col]} instead of {v}: {r}")
                # sorted by the ratio, or by algorithm, task, qubits
                if opt["sort"] == "ratio":
                    col = [float(r["ratio"]) for r in have]
                    col = [x for x in col if not math.isnan(x)]
                else:
                    col = [(r["algo"], r["task"], int(r["n"])) for r in have]
                srt = sorted(col)
                ctx.check(col in (srt, srt[::-1]), "order", lambda t=t, col=col: f"{what}, {opt}: {section} {t}: {col}")
            ctx.state((what, section, tuple(sorted((k, len(v)) for k, v in want.items()))))

    pairs = list(itertools.product(range(len(VALUES)), repeat=2))

    def f_values(idx, ctx):
        m, p = idx % len(METRICS), idx // len(METRICS)
        b, a = (VALUES[x] for x in pairs[p])
        for k, o in enumerate(OPTIONS):
            if not w.thorough and k % 4 != idx % 4 and not (o["factor"] == 0.1 and o["dd"]):
                continue
            run(ctx, [*BACK, ("Grover", "Simulation", 5, m, b, a)], o, f"{METRICS[m][0]} from {b} to {a}")

    w.space("values", len(pairs) * len(METRICS), f"every pair of {len(VALUES)} values (numbers, unused, missing) of "
            f"{len(METRICS)} metrics x factors, sorting, and kinds of tables", f_values)

    def f_filters(idx, ctx):
        for o in OPTIONS:
            run(ctx, BACK, {**o, **FILTERS[idx]}, "fixed entries")

    w.space("filters", len(FILTERS), "every filter by algorithm, task and number of qubits x all other options", f_filters)

    def f_calls(idx, ctx):
        how = ("defaults", "cli", "cli-options-first")[idx % 3]
        for o in OPTIONS:
            run(ctx, BACK, {**o, **FILTERS[idx // 3]}, f"fixed entries ({how})", how)

    w.space("calls", len(FILTERS) * 3, "every filter x all other options with the defaults left out, and by the command line",
            f_calls)

    def f_refused(idx, ctx):
        run(ctx, BACK, {**OPTIONS[0], "dd": True}, "fixed entries")
        for o in ({"factor": -0.1}, {"sort": "n"}, {"num_qubits": 3}, {"factor": -1e-9}):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ev.compare(*files, **o)
                ctx.check(False, "accepted", lambda o=o: f"{o} is accepted")
            except ValueError:
                ctx.check(True, "accepted", "")

    w.space("refused", 1, "invalid options", f_refused)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        mcpy.worker_main(define)
    args = [a for a in sys.argv[1:] if a != "quick"]
    if args == ["build"]:
        sys.exit(0)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[v] = "1"
    sys.exit(mcpy.drive("P30", os.path.abspath(__file__), f"{VENV}/bin/python", env, [
        "The module is loaded from /repo's sources by the Python 3.12, pandas and tabulate of /opt/vp/venv.",
        "A ratio within 0.001 of the threshold may be put on either side; the direction of sorting is free.",
    ], args))
