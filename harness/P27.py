"""P27: the Python interface agrees with the circuit it manipulates."""
import fcntl
import glob
import itertools
import math
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy  # noqa: E402

VENV = "/opt/vp/venv"
REPO = os.environ.get("MC_REPO", "/repo")
ROOT = os.environ.get("VERIF_ROOT", "/verif")


def build():
    """Builds mqt.core (Python sources and the extension modules) into build/py."""
    out = f"{ROOT}/build/py"
    pkg = f"{out}/mqt/core"
    os.makedirs(f"{out}/obj", exist_ok=True)
    with open(f"{out}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = f"{REPO}/src/mqt/core"
        keep = set()
        for f in glob.glob(f"{src}/**/*.py", recursive=True):
            rel = os.path.relpath(f, src)
            if rel == "_version.py":
                continue
            keep.add(rel)
            dst = f"{pkg}/{rel}"
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
        for f in glob.glob(f"{pkg}/**/*.py", recursive=True):
            if os.path.relpath(f, pkg) not in keep:
                os.unlink(f)
        with open(f"{pkg}/_version.py", "w") as f:
            f.write("version = '0.0.0'\nversion_tuple = (0, 0, 0)\n")
        py = subprocess.check_output(
            [f"{VENV}/bin/python", "-c",
             "import sysconfig as s,pybind11 as p;print(s.get_paths()['include']);"
             "print(s.get_config_var('EXT_SUFFIX'));print(p.get_include())"], text=True).split()
        defs = " ".join(f"-DMQT_CORE_{x}_STATIC_DEFINE" for x in
                        "IR QASM DD ZX NA DS ALGORITHMS CIRCUIT_OPTIMIZER".split())
        lines = ["ninja_required_version = 1.3", "rule cxx",
                 f"  command = g++ -std=c++17 -O1 -g0 -DNDEBUG -fPIC -fvisibility=hidden -ffp-contract=off {defs} "
                 f"-I{REPO}/include/mqt-core -I{ROOT}/harness/inc -isystem {py[0]} -isystem {py[2]} "
                 "-MD -MF $out.d -c $in -o $out",
                 "  depfile = $out.d", "  deps = gcc",
                 "rule link", "  command = g++ -shared $in -o $out -lpthread"]
        done = {}
        for mod, comps in (("ir", ["ir", "qasm3"]), ("dd", ["ir", "qasm3", "circuit_optimizer", "dd"])):
            srcs = glob.glob(f"{REPO}/src/python/{mod}/**/*.cpp", recursive=True)
            for c in comps:
                srcs += glob.glob(f"{REPO}/src/{c}/**/*.cpp", recursive=True)
            srcs.sort(key=lambda s: -os.path.getsize(s))
            objs = []
            for s in srcs:
                o = f"{out}/obj/{os.path.relpath(s, REPO).replace('/', '_')}.o"
                if o not in done:
                    lines.append(f"build {o}: cxx {s}")
                    done[o] = 1
                objs.append(o)
            lines.append(f"build {pkg}/{mod}{py[1]}: link {' '.join(objs)}")
            lines.append(f"default {pkg}/{mod}{py[1]}")
        with open(f"{out}/P27.ninja", "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run(["ninja", "-C", out, "-f", f"{out}/P27.ninja", "-j", "8"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            print("BUILD-FAILED property=P27")
            sys.exit(2)
    return out


# ---------------------------------------------------------------- the checks
def define(w):  # noqa: C901
    import warnings

    import numpy as np
    import mqt.core
    from mqt.core import ir, load
    from mqt.core.ir import QuantumComputation
    from mqt.core.ir import operations as ops
    from mqt.core.ir.symbolic import Expression, Term, Variable
    from mqt.core.plugins.qiskit import mqt_to_qiskit, qiskit_to_mqt
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, transpile
    from qiskit.circuit import AncillaRegister, Gate, Parameter, library
    from qiskit.quantum_info import Operator

    warnings.simplefilter("ignore")
    assert mqt.core.__file__.startswith(f"{ROOT}/build/py/"), mqt.core.__file__
    assert ir.__file__.startswith(f"{ROOT}/build/py/"), ir.__file__
    T = w.thorough
    SO, CO, NU, OT = ops.StandardOperation, ops.CompoundOperation, ops.NonUnitaryOperation, ops.OpType

    # ------------------------------------------------ reference semantics
    X = np.array([[0, 1], [1, 0]], complex)
    Y = np.array([[0, -1j], [1j, 0]])
    Z = np.diag([1, -1]).astype(complex)
    I2 = np.eye(2, dtype=complex)
    R = 1 / math.sqrt(2)

    def ex(a):
        return complex(math.cos(a), math.sin(a))

    def u3(t, p, la):
        c, s = math.cos(t / 2), math.sin(t / 2)
        return np.array([[c, -ex(la) * s], [ex(p) * s, ex(p + la) * c]])

    def rpp(a, b, t):
        return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * np.kron(a, b)

    def perm(*im):
        m = np.zeros((4, 4), complex)
        for c, (r, ph) in enumerate(im):
            m[r, c] = ph
        return m

    peres = perm((2, 1), (3, 1), (1, 1), (0, 1))
    isw = perm((0, 1), (2, 1j), (1, 1j), (3, 1))
    le = np.array([[0, 1, 0, 1j], [1, 0, -1j, 0], [0, 1j, 0, 1], [-1j, 0, 1, 0]]) * R
    sw = [0, 2, 1, 3]
    ecr = le[np.ix_(sw, sw)]

    def xxm(t, b):
        c, s = math.cos(t / 2), math.sin(t / 2)
        m = np.eye(4, dtype=complex)
        m[0, 0] = m[3, 3] = c
        m[0, 3], m[3, 0] = -1j * s * ex(-b), -1j * s * ex(b)
        return m

    def xxp(t, b):
        c, s = math.cos(t / 2), math.sin(t / 2)
        m = np.eye(4, dtype=complex)
        m[1, 1] = m[2, 2] = c
        m[1, 2], m[2, 1] = -1j * s * ex(b), -1j * s * ex(-b)
        return m

    # name -> (targets, params, matrix; first target is the more significant index)
    GATES = {
        "i": (1, 0, lambda: I2), "x": (1, 0, lambda: X), "y": (1, 0, lambda: Y), "z": (1, 0, lambda: Z),
        "h": (1, 0, lambda: np.array([[R, R], [R, -R]])),
        "s": (1, 0, lambda: np.diag([1, 1j])), "sdg": (1, 0, lambda: np.diag([1, -1j])),
        "t": (1, 0, lambda: np.diag([1, ex(math.pi / 4)])), "tdg": (1, 0, lambda: np.diag([1, ex(-math.pi / 4)])),
        "v": (1, 0, lambda: np.array([[R, -1j * R], [-1j * R, R]])),
        "vdg": (1, 0, lambda: np.array([[R, 1j * R], [1j * R, R]])),
        "sx": (1, 0, lambda: np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2),
        "sxdg": (1, 0, lambda: np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]) / 2),
        "p": (1, 1, lambda a: np.diag([1, ex(a)])),
        "rx": (1, 1, lambda a: math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * X),
        "ry": (1, 1, lambda a: math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * Y),
        "rz": (1, 1, lambda a: np.diag([ex(-a / 2), ex(a / 2)])),
        "u2": (1, 2, lambda a, b: u3(math.pi / 2, a, b)), "u": (1, 3, u3),
        "swap": (2, 0, lambda: perm((0, 1), (2, 1), (1, 1), (3, 1))),
        "iswap": (2, 0, lambda: isw), "iswapdg": (2, 0, lambda: isw.conj().T),
        "dcx": (2, 0, lambda: perm((0, 1), (3, 1), (1, 1), (2, 1))),
        "ecr": (2, 0, lambda: ecr), "peres": (2, 0, lambda: peres), "peresdg": (2, 0, lambda: peres.conj().T),
        "rxx": (2, 1, lambda a: rpp(X, X, a)), "ryy": (2, 1, lambda a: rpp(Y, Y, a)),
        "rzz": (2, 1, lambda a: rpp(Z, Z, a)), "rzx": (2, 1, lambda a: rpp(Z, X, a)),
        "xx_minus_yy": (2, 2, xxm), "xx_plus_yy": (2, 2, xxp),
    }
    NAMES = list(GATES)
    ANG = [0.0, math.pi, -math.pi / 2, 0.3, 1.1, -2.7]

    def params_of(n, v):
        return [ANG[(v + k * (1 + v)) % len(ANG)] if v else ANG[(3 + k) % len(ANG)] for k in range(n)]

    def apply(u, m, targets, ctl, n):
        """u: columns transformed by the controlled matrix m."""
        N = 1 << n
        r = u.copy()
        k = len(targets)
        for b in range(N):
            if any(b >> t & 1 for t in targets):
                continue
            if any((b >> q & 1) != v for q, v in ctl):
                continue
            idx = [b | sum(((j >> (k - 1 - i)) & 1) << targets[i] for i in range(k)) for j in range(1 << k)]
            r[idx] = m @ u[idx]
        return r

    def act(u, op, n):
        if isinstance(op, CO):
            for o in op:
                u = act(u, o, n)
            return u
        nm = op.type_.name
        ctl = [(c.qubit, 1 if c.type_ == ops.Control.Type.Pos else 0) for c in op.controls]
        if nm == "barrier":
            return u
        if nm == "gphase":
            r = u.copy()
            for b in range(1 << n):
                if all((b >> q & 1) == v for q, v in ctl):
                    r[b] *= ex(op.parameter[0])
            return r
        nt, np_, f = GATES[nm]
        m = f(*op.parameter[:np_])
        ts = list(op.targets)
        for g in ([ts] if nt == 2 else [[t] for t in ts]):
            u = apply(u, m, g, ctl, n)
        return u

    def unitary(qc, n, phase=True):
        u = np.eye(1 << n, dtype=complex)
        for op in qc:
            u = act(u, op, n)
        return u * ex(qc.global_phase) if phase else u

    def close(a, b, phase):
        if phase:
            i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
            if abs(a[i]) < 1e-6:
                return False
            a = a * (b[i] / a[i]) / abs(b[i] / a[i])
        return np.allclose(a, b, atol=1e-7)

    def key(op):
        if isinstance(op, CO):
            return ("comp", tuple(key(o) for o in op))
        return (op.type_.name, tuple(op.targets),
                tuple(sorted((c.qubit, c.type_ == ops.Control.Type.Pos) for c in op.controls)), tuple(op.parameter))

    # ------------------------------------------------ sequences
    OPS = [SO(0, OT.x), SO(1, OT.h), SO(ops.Control(0), 1, OT.z), SO(0, OT.rx, [0.25]),
           CO([SO(1, OT.s), SO(0, OT.t)]), SO(1, OT.y), SO([0, 1], OT.swap), SO(0, OT.p, [1.5])]
    KEYS = [key(o) for o in OPS]

    def make(kind, n):
        c = QuantumComputation(2, 2) if kind == "QuantumComputation" else CO()
        for i in range(n):
            c.append(OPS[i])
        return c, KEYS[:n]

    def content(c):
        return [key(o) for o in c]

    def same(c, ref, ctx, k, what):
        got = content(c)
        ctx.state(tuple(got))
        ctx.check(got == ref and len(c) == len(ref), k,
                  lambda: f"{what()}: the sequence is {got} (len {len(c)}), the list {ref}")
        ctx.check([key(c[i]) for i in range(-len(ref), len(ref))] == ref + ref, k,
                  lambda: f"{what()}: elements by index differ from the list {ref}")
        for i in (len(ref), -len(ref) - 1):
            try:
                c[i]
                ctx.check(False, k, lambda i=i: f"{what()}: index {i} of {len(ref)} elements does not raise IndexError")
            except IndexError:
                ctx.check(True, k, "")

    def edit(c, ref, e):
        """Applies e to the container and to the list; returns whether both refused/agreed, text."""
        op = e[0]
        if op == "get":
            return _both(lambda: key(c[e[1]]), lambda: ref[e[1]])
        if op == "gets":
            return _both(lambda: [key(o) for o in c[slice(*e[1])]], lambda: ref[slice(*e[1])])
        if op == "set":
            return _both(lambda: c.__setitem__(e[1], OPS[e[2]]), lambda: ref.__setitem__(e[1], KEYS[e[2]]))
        if op == "sets":
            sl = slice(*e[1])
            if sl.step != 0 and len(ref[sl]) != len(e[2]):
                # a list would change its length: refusing (and not changing anything) is allowed
                try:
                    c[sl] = [OPS[k] for k in e[2]]
                except (RuntimeError, ValueError):
                    return True, ""
                r = _both(lambda: None, lambda: ref.__setitem__(sl, [KEYS[k] for k in e[2]]))
                return r
            return _both(lambda: c.__setitem__(sl, [OPS[k] for k in e[2]]),
                         lambda: ref.__setitem__(sl, [KEYS[k] for k in e[2]]))
        if op == "del":
            return _both(lambda: c.__delitem__(e[1]), lambda: ref.__delitem__(e[1]))
        if op == "dels":
            return _both(lambda: c.__delitem__(slice(*e[1])), lambda: ref.__delitem__(slice(*e[1])))
        if op == "ins":
            return _both(lambda: c.insert(e[1], OPS[e[2]]), lambda: ref.insert(e[1], KEYS[e[2]]))
        if op == "app":
            return _both(lambda: c.append(OPS[e[1]]), lambda: ref.append(KEYS[e[1]]))
        if op == "self":  # append an element of the sequence itself
            return _both(lambda: c.append(c[e[1]]), lambda: ref.append(ref[e[1]]))
        if op == "move":
            return _both(lambda: c.insert(0, c[e[1]]), lambda: ref.insert(0, ref[e[1]]))
        if op == "setself":
            return _both(lambda: c.__setitem__(e[1], c[e[2]]), lambda: ref.__setitem__(e[1], ref[e[2]]))
        if op == "swapself":
            return _both(lambda: c.__setitem__(slice(0, 2), c[1::-1]), lambda: ref.__setitem__(slice(0, 2), ref[1::-1]))
        if op == "clear":
            return _both(c.clear, ref.clear)
        if op == "rev":
            if isinstance(c, CO):
                return True, ""
            return _both(c.reverse, ref.reverse)
        raise AssertionError(e)

    def _both(f, g):
        try:
            want, we = g(), None
        except Exception as x:  # noqa: BLE001
            want, we = None, type(x)
        try:
            got, ge = f(), None
        except Exception as x:  # noqa: BLE001
            got, ge = None, type(x)
        if we is not None or ge is not None:
            ok = ge is not None and we is not None and (we is not IndexError or ge is IndexError)
            return ok, f"raised {ge.__name__ if ge else None}, the list {we.__name__ if we else None}"
        return got == want, f"gave {got}, the list {want}"

    M = 4 if T else 3
    bnd = [None, *range(-M - 2, M + 3)]
    steps = [None, *range(-3, 4)]
    slices = [s for s in itertools.product(bnd, bnd, steps)]
    singles = [(o, i, 5) for o in ("get", "set", "del", "ins") for i in range(-M - 3, M + 4)]
    kinds = ["QuantumComputation", "CompoundOperation"]
    seq = [(k, n) for k in kinds for n in range(M + 1)]

    def f_index(i, ctx):
        k, n = seq[i // len(singles)]
        e = singles[i % len(singles)]
        c, ref = make(k, n)
        ctx.trans(n + 1)
        ok, txt = edit(c, ref, e)
        what = lambda: f"{k} of {n} operations, {e[0]} index {e[1]}"  # noqa: E731
        ctx.sample(what())
        ctx.check(ok, f"{k}:{e[0]}", lambda: f"{what()}: {txt}")
        same(c, ref, ctx, f"{k}:{e[0]}:content", what)

    w.space("index", len(seq) * len(singles),
            f"circuits and compound operations of <= {M} operations, get/set/del/insert at every index of magnitude "
            f"<= {M + 3}", f_index)

    kinds_sl = ["gets", "dels", "sets0", "sets1", "sets-1"]

    def f_slice(i, ctx):
        i, a = divmod(i, len(kinds_sl))
        i, s = divmod(i, len(slices))
        k, n = seq[i]
        s = slices[s]
        c, ref = make(k, n)
        o = kinds_sl[a]
        if o.startswith("sets"):
            m = (len(ref[slice(*s)]) if s[2] != 0 else 1) + int(o[4:])
            if m < 0:
                ctx.skip()
            e = ("sets", s, [(4 + j) % len(OPS) for j in range(m)])
        else:
            e = (o, s)
        ctx.trans(n + 1)
        ok, txt = edit(c, ref, e)
        what = lambda: f"{k} of {n} operations, {e}"  # noqa: E731
        ctx.sample(what())
        sign = "negative step" if (s[2] or 1) < 0 else "positive step"
        kk = f"{k}:{e[0]}:{sign.replace(' ', '-')}"
        ctx.check(ok, kk, lambda: f"{what()}: {txt}")
        same(c, ref, ctx, kk + ":content", what)

    w.space("slice", len(seq) * len(slices) * len(kinds_sl),
            f"circuits and compound operations of <= {M} operations, get/delete/assign (equal, longer and shorter "
            f"values) for every slice with bounds in -{M + 2}..{M + 2} or none and steps -3..3 or none", f_slice)

    EDITS = [("app", 5), ("ins", 0, 6), ("ins", 1, 4), ("ins", -1, 7), ("ins", 9, 5), ("set", -1, 6), ("del", 0),
             ("del", -1), ("dels", (None, None, 2)), ("dels", (None, None, -2)), ("dels", (1, 3, None)),
             ("sets", (None, 2, None), [4, 5]), ("sets", (None, None, -1), [4, 5, 6]), ("gets", (None, None, -1)),
             ("self", 0), ("move", -1), ("setself", 0, 1), ("swapself",), ("clear",), ("rev",)]
    D = 4 if T else 3
    hist = []
    for L in range(1, D + 1):
        hist.append(len(EDITS) ** L)

    def f_hist(i, ctx):
        i, k = divmod(i, 2)
        L = 1
        while i >= hist[L - 1]:
            i -= hist[L - 1]
            L += 1
        es = []
        for _ in range(L):
            i, d = divmod(i, len(EDITS))
            es.append(EDITS[d])
        c, ref = make(kinds[k], 3)
        for j, e in enumerate(es):
            ctx.trans()
            ok, txt = edit(c, ref, e)
            kk = f"{kinds[k]}:history:{e[0]}"
            if not ctx.check(ok, kk, lambda: f"{kinds[k]} of 3 operations after {es[:j + 1]}: {txt}"):
                return
        same(c, ref, ctx, f"{kinds[k]}:history:content", lambda: f"{kinds[k]} of 3 operations, edits {es}")
        ctx.sample(es)

    w.space("history", 2 * sum(hist), f"all sequences of <= {D} out of {len(EDITS)} edits (append, insert, assignment, "
            "deletion, slices, elements of the sequence itself, clear, reverse) on three operations", f_hist)

    # ------------------------------------------------ symbolic arithmetic
    vs = [Variable("a"), Variable("b")]
    vals = [{vs[0]: 0.75, vs[1]: -1.25}, {vs[0]: 2.0, vs[1]: 0.5}]
    leaves = ([("n", x) for x in (0.0, 1.0, -2.0, 0.5, 3.0)] +
              [("t", v, x) for v in (0, 1) for x in (1.0, -0.5, 2.0)] +
              [("e", tuple(t), x) for t in ([], [(0, 1.0)], [(0, 2.0), (1, -1.0)], [(1, 0.5)], [(0, -1.0), (1, 1.0)])
               for x in (0.0, 1.5)])

    def leaf(d):
        if d[0] == "n":
            return d[1], lambda a: d[1]
        if d[0] == "t":
            t = Term(vs[d[1]], d[2])
            return t, lambda a: d[2] * a[vs[d[1]]]
        e = Expression([Term(vs[v], x) for v, x in d[1]], d[2])
        return e, lambda a: d[2] + sum(x * a[vs[v]] for v, x in d[1])

    import operator
    BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
           "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv}
    SH = {"n": "number", "t": "term", "e": "expression"}

    def ev(x, a):
        return x if isinstance(x, float) else x.evaluate(a)

    def rebuild(d):
        return leaf(d)[0]

    def one(x, fx, kx, op, y, fy, ky, ctx, txt):
        """x op y; returns the result or None when Python refuses or it is outside the property."""
        yv = [fy(a) for a in vals]
        if "/" in op and (any(v == 0 for v in yv) or kx == "number" and any(fx(a) == 0 for a in vals)):
            return None
        try:
            r = BIN[op](x, y)
        except TypeError:
            return None
        f = BIN[op.rstrip("=")]
        good = True
        for a in vals:
            want = f(fx(a), fy(a))
            got = ev(r, a)
            good &= ctx.check(abs(got - want) < 1e-9 * (1 + abs(want)), f"symbolic:{kx}{op.rstrip('=')}{ky}",
                      lambda: f"{txt} evaluates to {got} at {({v.name: x for v, x in a.items()})}, Python gives {want}")
        return (r, (lambda a: f(fx(a), fy(a)))) if good else None

    def f_sym(i, ctx):
        i, o = divmod(i, len(BIN))
        i, p = divmod(i, len(leaves))
        d, e = leaves[i], leaves[p]
        op = list(BIN)[o]
        x, fx = leaf(d)
        y, fy = leaf(e)
        if d[0] == e[0] == "n":
            ctx.skip()
        ctx.trans()
        ctx.state((d, op, e))
        ctx.sample(f"{x} {op} {y}")
        sx, sy = str(x), str(y)
        one(x, fx, SH[d[0]], op, y, fy, SH[e[0]], ctx, f"({sx}) {op} ({sy})")
        ctx.check(str(y) == sy, f"symbolic:operand:{op}", lambda: f"({sx}) {op} ({sy}) changed its right operand to {y}")
        for a in vals:
            ctx.check(abs(ev(y, a) - fy(a)) < 1e-12, f"symbolic:evaluate:{SH[e[0]]}", lambda: f"{sy} evaluates wrongly")
        if d[0] == e[0]:
            ctx.check(not (d == e) or (x == y and not x != y and hash(x) == hash(y)), f"symbolic:eq:{SH[d[0]]}",
                      lambda: f"{sx} and {sy}: equality or hash")
            if x == y and d[0] == "t":
                ctx.check(all(abs(fx(a) - fy(a)) < 1e-9 for a in vals), f"symbolic:eq:{SH[d[0]]}",
                          lambda: f"{sx} == {sy} although they evaluate differently")

    w.space("symbolic", len(leaves) ** 2 * len(BIN), f"all pairs of {len(leaves)} numbers, terms and expressions, "
            "+ - * / plain and in place, equality and hash", f_sym)

    small = [("n", 2.0), ("n", -1.0), ("t", 0, 1.0), ("t", 1, -0.5), ("e", ((0, 2.0), (1, -1.0)), 1.5),
             ("e", ((1, 0.5),), 0.0)]
    b4 = ["+", "-", "*", "/"]

    def f_sym3(i, ctx):
        i, z = divmod(i, len(small))
        i, y = divmod(i, len(small))
        i, x = divmod(i, len(small))
        i, o2 = divmod(i, 4)
        i, o1 = divmod(i, 4)
        left = i == 0
        L = [leaf(small[k]) for k in (x, y, z)]
        K = [SH[small[k][0]] for k in (x, y, z)]
        if all(isinstance(q[0], float) for q in L):
            ctx.skip()
        ctx.trans(2)
        if left:
            if K[0] == K[1] == "number":
                ctx.skip()
            r = one(*L[0], K[0], b4[o1], *L[1], K[1], ctx, f"({L[0][0]}) {b4[o1]} ({L[1][0]})")
            if r is None:
                ctx.skip()
            one(*r, "expression", b4[o2], *L[2], K[2], ctx, f"[({L[0][0]}) {b4[o1]} ({L[1][0]})] {b4[o2]} ({L[2][0]})")
        else:
            if K[1] == K[2] == "number":
                ctx.skip()
            r = one(*L[1], K[1], b4[o2], *L[2], K[2], ctx, f"({L[1][0]}) {b4[o2]} ({L[2][0]})")
            if r is None:
                ctx.skip()
            one(*L[0], K[0], b4[o1], *r, "expression", ctx, f"({L[0][0]}) {b4[o1]} [({L[1][0]}) {b4[o2]} ({L[2][0]})]")

    w.space("symbolic3", 2 * 16 * len(small) ** 3, f"both groupings of two operators on {len(small)} numbers, terms and "
            "expressions", f_sym3)

    # ------------------------------------------------ gate methods and OpenQASM round trips
    NQ = 3
    ctlsets = [[]] + [[(q, v)] for q in range(NQ) for v in (1, 0)] + \
              [[(p, a), (q, b)] for p in range(NQ) for q in range(p + 1, NQ) for a in (1, 0) for b in (1, 0)]
    targsets = {1: [[q] for q in range(NQ)], 2: [list(p) for p in itertools.permutations(range(NQ), 2)]}
    gcases = []
    for nm in NAMES:
        nt, npar, _ = GATES[nm]
        for ts in targsets[nt]:
            for cs in ctlsets:
                if any(q in ts for q, _ in cs):
                    continue
                for v in range(3 if npar else 1):
                    gcases.append((nm, ts, cs, v))

    def ctl(q, v):
        return ops.Control(q) if v else ops.Control(q, ops.Control.Type.Neg)

    def refop(nm, ts, cs, v, n=NQ):
        nt, npar, f = GATES[nm]
        return apply(np.eye(1 << n, dtype=complex), f(*params_of(npar, v)), ts, cs, n)

    PREP = [("h", [0], [], 0), ("ry", [1], [], 1), ("u", [2], [], 2), ("x", [1], [(0, 1)], 0)]

    def prep(qc):
        for nm, ts, cs, v in PREP:
            emit(qc, nm, ts, cs, v)

    def emit(qc, nm, ts, cs, v):
        pr = params_of(GATES[nm][1], v)
        if not hasattr(qc, nm):
            qc.append(SO({ctl(*c) for c in cs}, ts, getattr(OT, nm), pr))
            return
        if not cs:
            getattr(qc, nm)(*pr, *ts)
        elif len(cs) == 1:
            getattr(qc, "c" + nm)(*pr, ctl(*cs[0]), *ts)
        else:
            getattr(qc, "mc" + nm)(*pr, {ctl(*c) for c in cs}, *ts)

    def f_meth(i, ctx):
        nm, ts, cs, v = gcases[i]
        pr = params_of(GATES[nm][1], v)
        want = refop(nm, ts, cs, v)
        ctx.trans()
        ctx.state(np.round(want, 6).tobytes())
        what = f"{nm}{pr} on {ts} controlled by {cs}"
        ctx.sample(what)
        cset = {ctl(*c) for c in cs}
        ways = []
        qc = QuantumComputation(NQ)
        emit(qc, nm, ts, cs, v)
        ways.append(("method", qc))
        if len(cs) <= 1 and all(x == 1 for _, x in cs):
            qc = QuantumComputation(NQ)
            if not hasattr(qc, nm):
                emit(qc, nm, ts, cs, v)
            elif cs:
                getattr(qc, "c" + nm)(*pr, cs[0][0], *ts)
            else:
                getattr(qc, nm)(*pr, *ts)
            ways.append(("method with an int control", qc))
        qc = QuantumComputation(NQ)
        if hasattr(qc, nm):
            getattr(qc, "mc" + nm)(*pr, cset, *ts)
        else:
            emit(qc, nm, ts, cs, v)
        ways.append(("mc method", qc))
        qc = QuantumComputation(NQ)
        qc.append(SO(cset, ts, OT[nm] if hasattr(OT, "__getitem__") else getattr(OT, nm), pr))
        ways.append(("StandardOperation", qc))
        for nm2, q in ways:
            got = unitary(q, NQ)
            ctx.check(close(got, want, False), f"gate:{nm2.replace(' ', '-')}:{nm}",
                      lambda: f"{nm2} {what} gives {q[0]!r} with phase {q.global_phase}")
        op = ways[0][1][0]
        ctx.check(op == ways[-1][1][0] and not op != ways[-1][1][0], "operation:eq", lambda: f"{what}: {op!r} differs from {ways[-1][1][0]!r}")
        inv = op.get_inverted()
        ctx.check(close(act(got, inv, NQ), np.eye(8), False), f"operation:get_inverted:{nm}",
                  lambda: f"{what}: inverted is {inv!r}")
        ctx.check(sorted(op.get_used_qubits()) == sorted([*ts, *(q for q, _ in cs)]) and
                  all(op.acts_on(q) == (q in ts or q in [x for x, _ in cs]) for q in range(NQ)), "operation:qubits",
                  lambda: f"{what}: used qubits {op.get_used_qubits()}")

    w.space("gates", len(gcases), f"every gate on all targets and up to two positive or negative controls of {NQ} qubits, "
            "three parameter choices: methods, constructors, clone, inverse", f_meth)

    def f_qasm(i, ctx):
        i, mode = divmod(i, 2)
        nm, ts, cs, v = gcases[i]
        if mode == 1 and nm in ("iswapdg", "peres", "peresdg", "v", "vdg"):
            pass
        qc = QuantumComputation()
        qc.add_qubit_register(2, "a")
        qc.add_qubit_register(1, "b")
        prep(qc)
        emit(qc, nm, ts, cs, v)
        want = unitary(qc, NQ)
        try:
            s = qc.qasm3_str() if mode == 0 else qc.qasm2_str()
        except Exception:  # noqa: BLE001
            ctx.skip()
        ctx.trans()
        ctx.sample(s)
        ways = []
        ways.append(("from_qasm_str", lambda: QuantumComputation.from_qasm_str(s)))
        ways.append(("load", lambda: load(s)))
        if mode == 0 and i % 5 == 0:
            def viafile():
                fn = f"f{w.shard}.qasm"
                qc.qasm3(fn)
                r = QuantumComputation.from_qasm(fn)
                os.unlink(fn)
                return r
            ways.append(("file", viafile))
        for nm2, f in ways:
            back = f()
            ctx.check(close(unitary(back, NQ), want, True), f"qasm{3 - mode}:{nm2}:{nm}",
                      lambda: f"{nm2} changes the action of\n{s}")

    w.space("qasm", 2 * len(gcases), "the same gates after a preparation, written to OpenQASM 3 and 2 text or files and "
            "read with from_qasm_str, from_qasm and load", f_qasm)

    # ------------------------------------------------ decision diagrams
    from mqt.core import dd

    def f_ddc(i, ctx):
        nm, ts, cs, v = gcases[i]
        qc = QuantumComputation(NQ)
        prep(qc)
        emit(qc, nm, ts, cs, v)
        qc.global_phase = 0.25
        want = unitary(qc, NQ)
        what = f"{nm} on {ts} controlled by {cs}, variant {v}"
        ctx.trans(len(qc))
        ctx.sample(what)
        ctx.check(np.allclose(np.array(dd.simulate_statevector(qc), copy=False), want[:, 0], atol=1e-7) or
                  close(np.array(dd.simulate_statevector(qc)), want[:, 0], True), f"dd:simulate:{nm}",
                  lambda: f"simulate_statevector: {what}")
        for rec in (False, True):
            ctx.check(close(np.array(dd.build_unitary(qc, rec)), want, True), f"dd:build_unitary:{nm}",
                      lambda: f"build_unitary(recursive={rec}): {what}")
        p = dd.DDPackage(NQ)
        op = qc[len(qc) - 1]
        g = refop(nm, ts, cs, v)
        for inv in (False, True):
            ctx.check(np.allclose(np.array(p.from_operation(op, inv).get_matrix(NQ)), g.conj().T if inv else g, atol=1e-7),
                      f"dd:from_operation:{nm}", lambda: f"from_operation(invert={inv}): {what}")
        m = np.ascontiguousarray(GATES[nm][2](*params_of(GATES[nm][1], v)), dtype=complex)
        one_ = GATES[nm][0] == 1
        names = ["single_qubit_gate" if one_ else "two_qubit_gate"]
        ways = [getattr(p, "multi_controlled_" + names[0])(m, {ctl(*c) for c in cs}, *ts)]
        if not cs:
            ways.append(getattr(p, names[0])(m, *ts))
        elif len(cs) == 1:
            ways.append(getattr(p, "controlled_" + names[0])(m, ctl(*cs[0]), *ts))
            if cs[0][1]:
                ways.append(getattr(p, "controlled_" + names[0])(m, cs[0][0], *ts))
        elif all(x for _, x in cs):
            ways.append(getattr(p, "multi_controlled_" + names[0])(m, {q for q, _ in cs}, *ts))
        for k, d in enumerate(ways):
            ctx.check(np.allclose(np.array(d.get_matrix(NQ)), g, atol=1e-7), f"dd:{names[0]}", lambda: f"way {k} of {names[0]}: {what}")
        vec = p.computational_basis_state(NQ, [True, False, True])
        r = p.apply_unitary_operation(vec, op)
        ctx.check(np.allclose(np.array(r.get_vector()), g[:, 5], atol=1e-7), f"dd:apply_unitary_operation:{nm}",
                  lambda: f"apply_unitary_operation on |101>: {what}")
        ctx.check(all(abs(r[j] - g[j, 5]) < 1e-7 and abs(r.get_amplitude(NQ, f"{j:03b}"[::-1]) - g[j, 5]) < 1e-7 for j in range(8)),
                  "dd:amplitude", lambda: f"amplitudes of the state after {what} on |101>")

    w.space("dd-gates", len(gcases), "the same gates simulated, turned into unitaries and decision diagrams from Python",
            f_ddc)

    rngv = [np.array(x, complex) for x in (
        [1, 0, 0, 0], [0, 0, 1, 0], [R, 0, 0, R], [0.5, 0.5j, -0.5, 0.5], [0.6, 0, 0.8j, 0], [0.1, 0.7, 0.5, 0.5],
        [0.48, 0.36, 0.64, 0.48])]
    rngm = [np.kron(a, b) for a in (I2, X, np.array([[R, R], [R, -R]]), np.diag([1, 1j]), u3(0.3, 0.4, 0.5))
            for b in (I2, Y, np.array([[R, R], [R, -R]]))] + \
           [perm((0, 1), (3, 1), (1, 1), (2, 1)), isw, ecr, rpp(Z, X, 0.7), np.diag([0.5, 0, 0, 1]).astype(complex),
            np.array([[1, 2, 0, 1j], [2, 0, 3, 0], [0, 3, -1, 0.5], [-1j, 0, 0.5, 2]])]

    def f_ddv(i, ctx):
        i, c = divmod(i, len(rngm))
        i, b = divmod(i, len(rngv))
        u, v, m = rngv[i], rngv[b], rngm[c]
        # the library keeps normalised states
        p = dd.DDPackage(5)
        du, dv, dm = p.from_vector(u), p.from_vector(v), p.from_matrix(m)
        A = lambda d: np.array(d.get_vector())  # noqa: E731
        M_ = lambda d, n=2: np.array(d.get_matrix(n))  # noqa: E731
        ctx.trans(10)
        ctx.state((i, b, c))
        what = f"vectors {u}, {v}, matrix\n{m}"

        def eq(x, y, k):
            ctx.check(np.allclose(x, y, atol=1e-7), f"dd:{k}", lambda: f"{k}: {what}\ngives {x} instead of {y}")

        nu, nv = u / np.linalg.norm(u), v / np.linalg.norm(v)
        eq(A(du), u, "from_vector")
        eq(M_(dm), m, "from_matrix")
        eq([du[j] for j in range(4)], u, "vector-getitem")
        eq([[dm.get_entry(2, r, k) for k in range(4)] for r in range(4)], m, "get_entry")
        eq([[dm.get_entry_by_path(2, "".join(str(2 * (r >> l & 1) + (k >> l & 1)) for l in range(2))) for k in range(4)]
            for r in range(4)], m, "get_entry_by_path")
        eq(A(p.vector_add(du, dv)), u + v, "vector_add")
        eq(A(p.conjugate(du)), u.conj(), "conjugate")
        eq(M_(p.conjugate_transpose(dm)), m.conj().T, "conjugate_transpose")
        eq(A(p.matrix_vector_multiply(dm, dv)), m @ v, "matrix_vector_multiply")
        eq(p.inner_product(du, dv), np.vdot(u, v), "inner_product")
        eq(p.fidelity(du, dv), abs(np.vdot(u, v)) ** 2, "fidelity")
        if np.allclose(m, m.conj().T):
            eq(p.expectation_value(dm, dv), np.vdot(v, m @ v).real, "expectation_value")
        eq(A(p.vector_kronecker(du, dv, 2)), np.kron(u, v), "vector_kronecker")
        m2 = rngm[(c + i + 1) % len(rngm)]
        d2 = p.from_matrix(m2)
        eq(M_(p.matrix_add(dm, d2)), m + m2, "matrix_add")
        eq(M_(p.matrix_multiply(dm, d2)), m @ m2, "matrix_multiply")
        eq(M_(p.matrix_kronecker(dm, d2, 2), 4), np.kron(m, m2), "matrix_kronecker")
        eq(p.trace(dm, 2), np.trace(m) / 4, "trace")
        p.inc_ref_mat(dm)
        p.inc_ref_vec(dv)
        p.garbage_collect(True)
        eq(M_(dm), m, "garbage_collect")
        eq(A(dv), v, "garbage_collect")
        eq(A(p.matrix_vector_multiply(dm, dv)), m @ v, "matrix_vector_multiply")
        p.dec_ref_mat(dm)

    w.space("dd-operations", len(rngv) ** 2 * len(rngm), f"all triples of {len(rngv)} two-qubit vectors twice and "
            f"{len(rngm)} matrices through every operation on decision diagrams", f_ddv)

    BS = ["zero", "one", "plus", "minus", "left", "right"]
    BV = {"zero": [1, 0], "one": [0, 1], "plus": [R, R], "minus": [R, -R], "right": [R, 1j * R], "left": [R, -1j * R]}

    def f_dds(i, ctx):
        n, i = divmod(i, 216)
        n += 1
        st = [i % 6, i // 6 % 6, i // 36]
        if any(st[n:]):
            ctx.skip()
        st = [BS[k] for k in st[:n]]
        p = dd.DDPackage(3)
        want = np.array([1], complex)
        for s in st:
            want = np.kron(np.array(BV[s], complex), want)
        ctx.trans()
        ctx.state(tuple(st))
        d = p.basis_state(n, [getattr(dd.BasisStates, s) for s in st])
        ctx.check(np.allclose(np.array(d.get_vector()), want, atol=1e-7), "dd:basis_state", lambda: f"basis_state({st})")
        if all(s in ("zero", "one") for s in st):
            b = [s == "one" for s in st]
            d = p.computational_basis_state(n, b)
            ctx.check(np.allclose(np.array(d.get_vector()), want, atol=1e-7), "dd:computational_basis_state", lambda: f"{b}")
            txt = "".join("1" if x else "0" for x in reversed(b))
            ctx.check(p.measure_all(d) == txt, "dd:measure_all", lambda: f"measuring |{txt}> gives {p.measure_all(d)}")
            for q in range(n):
                ctx.check(p.measure_collapsing(d, q) == str(int(b[q])), "dd:measure_collapsing", lambda: f"qubit {q} of |{txt}>")
            qc = QuantumComputation(n, n)
            for q in range(n):
                if b[q]:
                    qc.x(q)
            ctx.check(dict(dd.sample(qc, 7, 3)) == {txt: 7}, "dd:sample", lambda: f"sampling |{txt}> gives {dd.sample(qc, 7, 3)}")
            for q in range(n):
                qc.measure(q, n - 1 - q)
            ctx.check(dict(dd.sample(qc, 7, 3)) == {txt[::-1]: 7}, "dd:sample-measured",
                      lambda: f"sampling |{txt}> measured into the reversed bits gives {dd.sample(qc, 7, 3)}")
        z = np.zeros(1 << n, complex)
        z[0] = 1
        ctx.check(np.allclose(np.array(p.zero_state(n).get_vector()), z), "dd:zero_state", lambda: f"{n}")
        g = z.copy()
        g[0] = g[-1] = R
        if n > 1:
            ctx.check(np.allclose(np.array(p.ghz_state(n).get_vector()), g), "dd:ghz_state", lambda: f"{n}")
        ws = np.zeros(1 << n, complex)
        for q in range(n):
            ws[1 << q] = 1 / math.sqrt(n)
        ctx.check(np.allclose(np.array(p.w_state(n).get_vector()), ws), "dd:w_state", lambda: f"{n}")

    w.space("dd-states", 3 * 216, "all product states of basis states on up to three qubits, W and GHZ states, sampling and "
            "measuring computational basis states", f_dds)

    # ------------------------------------------------ Qiskit
    def op_of(circ):
        return Operator(circ).data

    def f_toq(i, ctx):
        nm, ts, cs, v = gcases[i]
        qc = QuantumComputation()
        qc.add_qubit_register(2, "a")
        qc.add_qubit_register(1, "b")
        prep(qc)
        emit(qc, nm, ts, cs, v)
        want = unitary(qc, NQ)
        what = f"{nm} on {ts} controlled by {cs}, variant {v}"
        ctx.trans(len(qc))
        try:
            circ = mqt_to_qiskit(qc)
        except (TypeError, NotImplementedError):
            ctx.skip()
        ctx.check([r.name for r in circ.qregs] == ["a", "b"] and [r.size for r in circ.qregs] == [2, 1], "to-qiskit:regs",
                  lambda: f"{what}: registers {circ.qregs}")
        ctx.check(close(op_of(circ), want, True), f"to-qiskit:{nm}", lambda: f"{what} converted to\n{circ}")
        try:
            back = qiskit_to_mqt(circ)
        except NotImplementedError:
            return
        ctx.check(close(unitary(back, NQ), want, True), f"to-qiskit-and-back:{nm}",
                  lambda: f"{what} through Qiskit gives\n{back}")
        ctx.state(np.round(want, 6).tobytes())
        ctx.sample(what)

    w.space("to-qiskit", len(gcases), "the same circuits converted to Qiskit (conversions that raise are skipped) and back",
            f_toq)

    A3 = ANG[3:6]
    qg = []  # (label, gate constructor)
    for cls, npar in ((library.XGate, 0), (library.YGate, 0), (library.ZGate, 0), (library.HGate, 0), (library.SGate, 0),
                      (library.SdgGate, 0), (library.TGate, 0), (library.TdgGate, 0), (library.SXGate, 0),
                      (library.SXdgGate, 0), (library.IGate, 0), (library.RXGate, 1), (library.RYGate, 1),
                      (library.RZGate, 1), (library.PhaseGate, 1), (library.U1Gate, 1), (library.U2Gate, 2),
                      (library.U3Gate, 3), (library.UGate, 3), (library.RGate, 2), (library.SwapGate, 0),
                      (library.iSwapGate, 0), (library.DCXGate, 0), (library.ECRGate, 0), (library.RXXGate, 1),
                      (library.RYYGate, 1), (library.RZZGate, 1), (library.RZXGate, 1), (library.XXMinusYYGate, 2),
                      (library.XXPlusYYGate, 2)):
        for v in range(2 if npar else 1):
            pr = [ANG[(3 + 2 * v + k) % 6] for k in range(npar)]
            qg.append((f"{cls.__name__}{pr}", lambda cls=cls, pr=pr: cls(*pr)))
            for nc in (1, 2):
                for st in range(1 << nc):
                    qg.append((f"{cls.__name__}{pr}.control({nc}, ctrl_state={st})",
                               lambda cls=cls, pr=pr, nc=nc, st=st: cls(*pr).control(nc, ctrl_state=st)))
            qg.append((f"{cls.__name__}{pr}.inverse()", lambda cls=cls, pr=pr: cls(*pr).inverse()))
    for cls, pr in ((library.CUGate, [0.3, 1.1, -2.7, 0.9]), (library.CU1Gate, [0.3]), (library.CU3Gate, [0.3, 1.1, -2.7]),
                    (library.CCZGate, []), (library.RCCXGate, []), (library.RC3XGate, []), (library.C3XGate, []),
                    (library.C3SXGate, []), (library.C4XGate, []), (library.CSGate, []), (library.CSdgGate, []),
                    (library.CSXGate, []), (library.CPhaseGate, [0.3]), (library.MCPhaseGate, [0.3, 2]),
                    (library.MCPhaseGate, [0.3, 3]), (library.MCXGate, [2]), (library.MCXGate, [3]),
                    (library.MCXGate, [4]), (library.MSGate, [2, 0.4]), (library.GlobalPhaseGate, [0.7]),
                    (library.PermutationGate, [[1, 2, 0]]), (library.QFTGate, [3]), (library.PauliGate, ["XYZ"]),
                    (library.UnitaryGate, [u3(0.3, 0.4, 0.5)]), (library.Diagonal, [[1, 1j, -1, 1]]),
                    (library.PhaseOracleGate if hasattr(library, "PhaseOracleGate") else library.PauliGate, None)):
        if pr is not None:
            qg.append((f"{cls.__name__}{pr if cls is not library.UnitaryGate else ''}", lambda cls=cls, pr=pr: cls(*pr)))
            if cls is library.MCXGate:
                qg.append((f"{cls.__name__}{pr}.open",
                           lambda cls=cls, pr=pr: cls(*pr, ctrl_state=1)))
            if cls is library.CUGate:
                qg.append((f"{cls.__name__}{pr}.control(1)", lambda cls=cls, pr=pr: cls(*pr).control(1, ctrl_state=0)))

    def nested(gate, lvl):
        q = QuantumCircuit(gate.num_qubits, global_phase=0.4, name="inner")
        q.append(gate, list(range(gate.num_qubits)))
        q.h(0)
        g = q.to_gate()
        return nested(g, lvl - 1) if lvl > 1 else g

    orders = [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 1, 4, 5, 3], [1, 3, 5, 0, 2, 4]]

    def f_fromq(i, ctx):
        i, mode = divmod(i, 4)
        i, o = divmod(i, len(orders))
        lab, mk = qg[i]
        try:
            g = mk()
        except Exception:  # noqa: BLE001
            ctx.skip()
        if g.num_qubits == 0 and mode:
            ctx.skip()
        if mode == 1:
            g = nested(g.to_gate() if isinstance(g, QuantumCircuit) else g, 1)
        elif mode == 2:
            g = nested(g.to_gate() if isinstance(g, QuantumCircuit) else g, 2)
        n = max(3, g.num_qubits)
        order = [q for q in orders[o] if q < n]
        a = QuantumRegister(2, "q")
        b = QuantumRegister(n - 2, "r")
        circ = QuantumCircuit(a, b, global_phase=0.6)
        for q in range(n):
            circ.ry(0.3 + q, q)
        circ.cx(0, n - 1)
        try:
            circ.append(g, order[:g.num_qubits])
        except Exception:  # noqa: BLE001
            ctx.skip()
        if mode == 3:
            circ = circ.inverse()
        ctx.trans(len(circ.data))
        try:
            want = op_of(circ)
        except Exception:  # noqa: BLE001
            ctx.skip()
        what = f"{lab} on {order[:g.num_qubits]}" + ["", ", inside a gate", ", inside two gates", ", circuit inverted"][mode]
        try:
            qc = qiskit_to_mqt(circ)
        except NotImplementedError:
            ctx.skip()
        got = unitary(qc, n)
        ctx.state(np.round(want, 6).tobytes())
        ctx.sample(what)
        k = lab.split("[")[0].split(".")[0]
        ctx.check(close(got, want, True), f"from-qiskit:{k}", lambda: f"{what}: action differs\n{circ}\n{qc}")
        if mode == 0:
            ctx.check(abs(ex(qc.global_phase) - ex(circ.global_phase)) < 1e-9, "from-qiskit:global-phase",
                      lambda: f"{what}: global phase {qc.global_phase} instead of {circ.global_phase}")
        ctx.check([(r.name, r.start, r.size) for r in sorted(qc.qregs.values(), key=lambda r: r.start)]
                  == [("q", 0, 2), ("r", 2, n - 2)], "from-qiskit:registers", lambda: f"{what}: {qc.qregs}")
        try:
            back = mqt_to_qiskit(qc)
        except (TypeError, NotImplementedError):
            return
        ctx.check(close(op_of(back), want, True), f"from-qiskit-and-back:{k}", lambda: f"{what}: action differs after the round trip")

    w.space("from-qiskit", len(qg) * len(orders) * 4, f"{len(qg)} Qiskit gates (controlled with every control state, "
            "inverted, library gates) in four qubit orders, plain, nested in definitions with a global phase, and in an "
            "inverted circuit", f_fromq)

    # v-chain and recursive multi-controlled gates with ancillas, through Qiskit's own mode gates
    MCMODES = [(m, k) for m in ("noancilla", "recursion", "v-chain", "v-chain-dirty", "advanced") for k in range(1, 7)]

    def f_mcx(i, ctx):
        m, k = MCMODES[i]
        anc = library.MCXGate.get_num_ancilla_qubits(k, m)
        n = k + 1 + anc
        if n > 10:
            ctx.skip()
        circ = QuantumCircuit(n)
        circ.mcx(list(range(k)), k, list(range(k + 1, n)) if anc else None, mode=m)
        ctx.trans()
        qc = qiskit_to_mqt(circ)
        want = apply(np.eye(1 << n, dtype=complex), X, [k], [(q, 1) for q in range(k)], n)
        got = unitary(qc, n)
        # ancillas start in zero
        cols = [b for b in range(1 << n) if b < (1 << (k + 1))]
        ctx.check(np.allclose(got[:, cols], want[:, cols], atol=1e-7), f"from-qiskit:mcx-{m}",
                  lambda: f"mcx with {k} controls, mode {m}, on {n} qubits becomes\n{qc}")

    w.space("mcx-modes", len(MCMODES), "multi-controlled X of 1..6 controls in every mode", f_mcx)

    # measurements, resets, barriers, registers
    STEPS = [("h", 0), ("x", 1), ("cx", 0, 1), ("m", 0, 0), ("m", 1, 2), ("m", 0, 2), ("r", 0), ("r", 1), ("b",), ("sub", 1, 0),
             ("mm",)]
    LN = 4 if T else 3

    def f_nonu(i, ctx):
        es = []
        for _ in range(LN):
            i, d = divmod(i, len(STEPS) + 1)
            if d < len(STEPS):
                es.append(STEPS[d])
        circ = QuantumCircuit(QuantumRegister(1, "q"), AncillaRegister(1, "anc"), ClassicalRegister(1, "c"),
                              ClassicalRegister(2, "d"))
        want = []
        for e in es:
            if e[0] == "h":
                circ.h(0)
                want.append(("h", (0,)))
            elif e[0] == "x":
                circ.x(1)
                want.append(("x", (1,)))
            elif e[0] == "cx":
                circ.cx(0, 1)
                want.append(("cx", (0, 1)))
            elif e[0] == "m":
                circ.measure(e[1], e[2])
                want.append(("measure", (e[1],), (e[2],)))
            elif e[0] == "r":
                circ.reset(e[1])
                want.append(("reset", (e[1],)))
            elif e[0] == "b":
                circ.barrier()
            elif e[0] == "mm":
                circ.measure([1, 0], [0, 1])
                want += [("measure", (1,), (0,)), ("measure", (0,), (1,))]
            else:
                q = QuantumCircuit(2, 1)
                q.reset(0)
                q.cx(1, 0)
                q.measure(0, 0)
                circ.append(q.to_instruction(), [e[1], e[2]], [1])
                want += [("reset", (e[1],)), ("cx", (e[2], e[1])), ("measure", (e[1],), (1,))]

        def flat_m(seq):
            r = []
            for op in seq:
                if isinstance(op, CO):
                    r += flat_m(op)
                elif op.type_ == OT.measure:
                    r += [("measure", (q,), (c,)) for q, c in zip(op.targets, op.classics)]
                elif op.type_ == OT.reset:
                    r += [("reset", (q,)) for q in op.targets]
                elif op.type_ != OT.barrier:
                    r.append(("c" * len(op.controls) + op.type_.name, (*[c.qubit for c in op.controls], *op.targets)))
            return r

        def flat_q(c, qm=None, cm=None):
            r = []
            qm = qm or {q: k for k, q in enumerate(c.qubits)}
            cm = cm or {q: k for k, q in enumerate(c.clbits)}
            for ins in c.data:
                qs = [qm[q] for q in ins.qubits]
                cb = [cm[q] for q in ins.clbits]
                if ins.name == "barrier":
                    continue
                if ins.name == "measure":
                    r.append(("measure", tuple(qs), tuple(cb)))
                elif ins.name in ("h", "x", "cx", "reset"):
                    r.append((ins.name, tuple(qs)))
                else:
                    d = ins.operation.definition
                    r += flat_q(d, dict(zip(d.qubits, qs)), dict(zip(d.clbits, cb)))
            return r

        ctx.trans(len(es))
        ctx.state(tuple(es))
        ctx.sample(es)
        qc = qiskit_to_mqt(circ)
        ctx.check(flat_m(qc) == want, "from-qiskit:non-unitary", lambda: f"{es}: {flat_m(qc)} instead of {want}")
        ctx.check(qc.num_qubits == 2 and qc.num_ancilla_qubits == 1 and qc.num_classical_bits == 3 and
                  qc.is_circuit_qubit_ancillary(1) and not qc.is_circuit_qubit_ancillary(0), "from-qiskit:bits",
                  lambda: f"{es}: {qc.num_qubits} qubits, {qc.num_ancilla_qubits} ancillas, {qc.num_classical_bits} bits")
        back = mqt_to_qiskit(qc)
        ctx.check(flat_q(back) == want, "to-qiskit:non-unitary", lambda: f"{es}: {flat_q(back)} instead of {want}")
        ctx.check([(r.name, r.size, isinstance(r, AncillaRegister)) for r in back.qregs]
                  == [("q", 1, False), ("anc", 1, True)] and [(r.name, r.size) for r in back.cregs] == [("c", 1), ("d", 2)],
                  "to-qiskit:registers", lambda: f"{es}: {back.qregs} {back.cregs}")
        s = qc.qasm3_str()
        q2 = QuantumComputation.from_qasm_str(s)
        ctx.check(flat_m(q2) == want, "qasm3:non-unitary", lambda: f"{es}: {flat_m(q2)} instead of {want} after\n{s}")

    w.space("non-unitary", (len(STEPS) + 1) ** LN, f"all sequences of <= {LN} gates, measurements, resets, barriers and "
            "instructions with their own bits, through Qiskit and OpenQASM", f_nonu)

    # ------------------------------------------------ symbolic parameters from Qiskit
    pa, pb = Parameter("theta"), Parameter("phi_1")
    CO_ = [0, 1, -1, 2, -0.5, 3, 1e-6, 1e7, 1 / 3, -2.5e-4]
    forms = []
    for c0 in CO_:
        for c1 in CO_:
            for c2 in ([0, 1, -1, -0.5, 1e-6] if not T else CO_):
                forms.append(("linear", c0, c1, c2))
    for c1 in CO_[1:]:
        forms += [("div", c1), ("neg", c1), ("nest", c1), ("sub", c1), ("same", c1)]
    forms += [("product",), ("square",), ("sin",), ("quotient",), ("shifted-product",), ("int", 0), ("int", 2), ("int", -3),
              ("exp",), ("abs",)]

    def build_form(f):
        k = f[0]
        if k == "linear":
            return f[1] * pa + f[2] * pb + f[3], (lambda a, b: f[1] * a + f[2] * b + f[3])
        c = f[1] if len(f) > 1 else 0
        return {
            "div": lambda: (pa / c - pb, lambda a, b: a / c - b),
            "neg": lambda: (-(c * pa - pb), lambda a, b: -(c * a - b)),
            "nest": lambda: (2 * (c * (pa + 1) - pb / 3), lambda a, b: 2 * (c * (a + 1) - b / 3)),
            "sub": lambda: (c - pa, lambda a, b: c - a),
            "same": lambda: (pa + c * pa - pb + 1, lambda a, b: a + c * a - b + 1),
            "product": lambda: (pa * pb, lambda a, b: a * b), "square": lambda: (pa * pa, lambda a, b: a * a),
            "sin": lambda: (pa.sin(), lambda a, b: math.sin(a)),
            "exp": lambda: (pa.exp() + 1, lambda a, b: math.exp(a) + 1),
            "abs": lambda: (abs(pa) + pb, lambda a, b: abs(a) + b),
            "quotient": lambda: (pa / pb, lambda a, b: a / b),
            "shifted-product": lambda: ((pa + 1) * (pb - 2), lambda a, b: (a + 1) * (b - 2)),
            "int": lambda: (c, lambda a, b: c),
        }[k]()

    GS = ["rx", "u", "rxx", "crz"]

    def f_par(i, ctx):
        i, g = divmod(i, len(GS))
        f = forms[i]
        e, fn = build_form(f)
        circ = QuantumCircuit(2)
        if GS[g] == "rx":
            circ.rx(e, 0)
        elif GS[g] == "u":
            circ.u(0.25, e, 2 * e, 1)
        elif GS[g] == "rxx":
            circ.rxx(e, 0, 1)
        else:
            circ.crz(e, 1, 0)
        ctx.trans()
        ctx.state(f)
        what = f"{GS[g]} with parameter {e}"
        ctx.sample(what)
        try:
            qc = qiskit_to_mqt(circ)
        except NotImplementedError:
            ctx.skip()
        except Exception as x:  # noqa: BLE001
            ctx.check(f[0] in ("product", "square", "sin", "exp", "abs", "quotient", "shifted-product"), f"parameter:{f[0]}:refused",
                      lambda: f"{what} is refused: {type(x).__name__} {x}")
            return
        op = qc[0]
        for av, bv in ((0.75, -1.25), (2.0, 0.5)):
            asg = {Variable("theta"): av, Variable("phi_1"): bv}
            if isinstance(op, ops.SymbolicOperation):
                got = [p.evaluate(asg) if isinstance(p, Expression) else p for p in op.get_parameters()]
            else:
                b = circ.assign_parameters({p: {"theta": av, "phi_1": bv}[p.name] for p in circ.parameters})
                ctx.check(close(unitary(qc, 2), op_of(b), True), f"parameter:{f[0]}:constant",
                          lambda: f"{what} at theta={av}, phi_1={bv} becomes\n{qc}")
                continue
            x = fn(av, bv)
            want = {"rx": [x], "u": [0.25, x, 2 * x], "rxx": [x], "crz": [x]}[GS[g]]
            # angles are considered modulo 4 pi
            ok = len(got) == len(want) and all(
                abs(math.remainder(p - q, 4 * math.pi)) < 1e-7 * (1 + abs(q)) for p, q in zip(got, want))
            ctx.check(ok, f"parameter:{f[0]}", lambda: f"{what} at theta={av}, phi_1={bv} becomes {got} instead of {want}")
        if isinstance(op, ops.SymbolicOperation):
            used = {p.name for p in circ.parameters}
            ctx.check({v.name for v in qc.variables} <= used or f[0] not in ("linear",), "parameter:variables",
                      lambda: f"{what}: variables {[v.name for v in qc.variables]} instead of {used}")
            ctx.check(not qc.is_variable_free(), "parameter:variable-free", lambda: f"{what}: claims to be variable-free")
            inst = qc.instantiate({v: {"theta": 0.75, "phi_1": -1.25}[v.name] for v in qc.variables})
            b = circ.assign_parameters({p: {"theta": 0.75, "phi_1": -1.25}[p.name] for p in circ.parameters})
            ctx.check(close(unitary(inst, 2), op_of(b), True), f"parameter:{f[0]}:instantiate",
                      lambda: f"{what}: instantiating differs from binding in Qiskit")

    w.space("parameters", len(forms) * len(GS), "linear combinations of two Qiskit parameters over a coefficient grid "
            "including very small and large numbers, other ways to write them, and non-linear expressions (which may be "
            "refused)", f_par)

    # ------------------------------------------------ layouts
    p3 = list(itertools.permutations(range(3)))

    def f_lay(i, ctx):
        i, b = divmod(i, 6)
        i, a = divmod(i, 6)
        drop = i  # 0: all qubits in the output permutation, 1..3: one virtual qubit is missing (garbage)
        qc = QuantumComputation()
        qc.add_qubit_register(3, "q")
        prep(qc)
        ini = {p: v for p, v in enumerate(p3[a])}
        out = {p: v for p, v in enumerate(p3[b]) if v != drop - 1}
        qc.initial_layout.clear()
        qc.output_permutation.clear()
        for p, v in ini.items():
            qc.initial_layout[p] = v
        for p, v in out.items():
            qc.output_permutation[p] = v
        if drop:
            if drop != 3:
                ctx.skip()  # Qiskit can only leave out the last ones
            qc.set_circuit_qubit_garbage(drop - 1)
        ctx.trans()
        ctx.state((ini, out))
        what = f"initial layout {ini}, output permutation {out}"
        ctx.sample(what)
        if drop:
            try:
                circ = mqt_to_qiskit(qc, set_layout=True)
                qiskit_to_mqt(circ)
            except Exception:  # noqa: BLE001
                ctx.skip()
            return
        circ = mqt_to_qiskit(qc, set_layout=True)
        back = qiskit_to_mqt(circ)
        ctx.check(dict(back.initial_layout.items()) == ini, "layout:initial", lambda: f"{what}: {dict(back.initial_layout.items())}")
        ctx.check(dict(back.output_permutation.items()) == out, "layout:output", lambda: f"{what}: {dict(back.output_permutation.items())}")
        v2p = circ.layout.initial_index_layout()
        ctx.check(all(ini[v2p[v]] == v for v in range(3)), "layout:qiskit-initial", lambda: f"{what}: Qiskit sees {v2p}")
        f2p = circ.layout.final_index_layout()
        ctx.check(all(out[f2p[v]] == v for v in range(3)), "layout:qiskit-final", lambda: f"{what}: Qiskit sees {f2p}")

    w.space("layouts", 4 * 36, "all initial layouts and output permutations of three qubits, to Qiskit and back", f_lay)

    import random as _r
    CIRCS = [[(0, 1)], [(0, 2)], [(1, 2), (0, 2)], [(0, 1), (1, 2), (2, 0)], [(2, 0), (0, 1)], [(1, 0), (0, 2), (2, 1), (1, 0)]]
    CM = [[[0, 1], [1, 0], [1, 2], [2, 1]], [[0, 1], [1, 0], [1, 2], [2, 1], [2, 3], [3, 2]]]
    p4 = list(itertools.permutations(range(4), 3))
    trs = [(c, 0, l) for c in range(len(CIRCS)) for l in p3] + [(c, 1, l) for c in range(len(CIRCS)) for l in p4]

    def f_tr(i, ctx):
        i, meas = divmod(i, 2)
        c, m, lay = trs[i]
        circ = QuantumCircuit(3)
        for q in range(3):
            circ.ry(0.4 + q, q)
        for a, b in CIRCS[c]:
            circ.cx(a, b)
            circ.t(b)
        want3 = op_of(circ)
        if meas:
            circ.measure_all()
        tr = transpile(circ, coupling_map=CM[m], initial_layout=list(lay), routing_method="basic", optimization_level=0,
                       seed_transpiler=1)
        qc = qiskit_to_mqt(tr)
        n = len(tr.qubits)
        ctx.trans(len(qc))
        ini = dict(qc.initial_layout.items())
        out = dict(qc.output_permutation.items())
        what = f"circuit {CIRCS[c]} transpiled with layout {lay} to {n} qubits, initial layout {ini}, output permutation {out}"
        ctx.state((c, m, lay))
        ctx.sample(what)
        ctx.check(all(ini[p] == v for v, p in enumerate(lay)), "transpiled:initial-layout", lambda: what)
        ctx.check(sorted(v for p, v in ini.items()) == list(range(n)), "transpiled:initial-layout", lambda: what)
        ctx.check(qc.num_ancilla_qubits == n - 3 and all(qc.is_circuit_qubit_ancillary(v) == (v >= 3) for v in range(n)),
                  "transpiled:ancillas", lambda: f"{what}: ancillary {qc.ancillary}")
        u = np.eye(1 << n, dtype=complex)
        clb = {}
        for op in qc:
            if isinstance(op, NU):
                for q, cb in zip(op.targets, op.classics):
                    clb[cb] = q
                continue
            u = act(u, op, n)
        # physical input for virtual state v (ancillas zero) and the physical place of every output
        v2in = {v: p for p, v in ini.items()}
        if meas:
            place = {cb: q for cb, q in clb.items()}
            ctx.check(all(out.get(q) == cb for cb, q in clb.items()), "transpiled:measured-output", lambda: f"{what}, measured {clb}")
        place = {v: p for p, v in out.items()}
        ctx.check(all(v in place for v in range(3)), "transpiled:output-permutation", lambda: what)
        res = np.zeros((8, 8), complex)
        for s in range(8):
            pin = sum((s >> v & 1) << v2in[v] for v in range(3))
            col = u[:, pin]
            for b in range(1 << n):
                if abs(col[b]) < 1e-12:
                    continue
                o = sum((b >> place[v] & 1) << v for v in range(3))
                res[o, s] += col[b]
        ctx.check(close(res, want3, True), "transpiled:action", lambda: f"{what}: the action differs\n{tr}")

    w.space("transpiled", 2 * len(trs), f"{len(CIRCS)} circuits transpiled to lines of three and four qubits with every "
            "initial layout, with and without measurements", f_tr)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        mcpy.worker_main(define)
    args = [a for a in sys.argv[1:] if a != "quick"]
    out = build()
    if args == ["build"]:
        sys.exit(0)
    env = dict(os.environ)
    env["PYTHONPATH"] = out
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "RAYON_NUM_THREADS"):
        env[v] = "1"
    env["QISKIT_PARALLEL"] = "FALSE"
    sys.exit(mcpy.drive("P27", os.path.abspath(__file__), f"{VENV}/bin/python", env, [
        "The extension modules are compiled from /repo's current sources with g++ -O1 and used by the Python 3.12 and "
        "Qiskit 2.0 of /opt/vp/venv.",
        "Qiskit's Operator is the reference for Qiskit circuits, a numpy model of the documented gates for MQT circuits.",
        "Conversions may refuse (raise) what they do not support; a slice assignment of a different length may be refused.",
        "Actions through text and through Qiskit are compared up to a global phase.",
    ], args))
