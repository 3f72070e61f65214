"""Exhaustive enumeration of cases against Python code: worker processes with
crash and hang attribution, violations with replay files, measured evidence."""
import hashlib
import json
import mmap
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

NW = 8
MAXSP = 60
FIELDS = 6  # cases, skipped, trans, checks, us, unused


class Skip(Exception):
    pass


class Ctx:
    def __init__(self, w, space, idx):
        self.w, self.space, self.idx = w, space, idx

    def state(self, x):
        self.w.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.w.cnt[2] += n

    def skip(self):
        raise Skip

    def sample(self, s):
        if self.w.shard == 0 and self.w.nsample < 3:
            self.w.nsample += 1
            self.w.emit({"sample": f"{self.space}: {s}"})

    def check(self, ok, key, msg):
        self.w.cnt[3] += 1
        if not ok:
            self.w.emit({"space": self.space, "idx": self.idx, "key": key,
                         "msg": msg() if callable(msg) else msg})
        return ok


class Worker:
    def __init__(self, path, shard, thorough, only, start, deadline):
        self.path, self.shard, self.thorough = path, shard, thorough
        self.only, self.start, self.deadline = only, start, deadline
        self.out = open(f"{path}/out{shard}", "a")
        self.states = set()
        self.nsample = 0
        with open(f"{path}/shm{shard}", "r+b") as f:
            self.mm = mmap.mmap(f.fileno(), 0)
        self.no = -1

    def emit(self, d):
        self.out.write(json.dumps(d) + "\n")
        self.out.flush()

    def space(self, name, size, bounds, fn, timeout=30):
        self.no += 1
        if self.only and self.only[0] not in name:
            return
        if self.shard == 0 and self.start[0] <= self.no:
            self.emit({"def": name, "no": self.no, "size": size, "bounds": bounds})
        if self.start[0] > self.no:
            return
        first = self.start[1] if self.start[0] == self.no else self.shard
        step = NW
        if self.only and len(self.only) > 1:
            if self.only[0] != name:
                return
            first, step, size = self.only[1], 1, self.only[1] + 1
        self.nsample = 0
        off = 16 + self.no * FIELDS * 8
        self.cnt = list(struct.unpack_from(f"{FIELDS}q", self.mm, off))
        base = self.cnt[4]
        t0 = time.monotonic()
        for i in range(first, size, step):
            if time.time() > self.deadline:
                break
            struct.pack_into("2q", self.mm, 0, self.no, i)
            signal.setitimer(signal.ITIMER_PROF, timeout)
            c = Ctx(self, name, i)
            try:
                fn(i, c)
                self.cnt[0] += 1
            except Skip:
                self.cnt[0] += 1
                self.cnt[1] += 1
            except Exception as e:  # noqa: BLE001
                self.cnt[0] += 1
                tb = traceback.format_exc()
                c.check(False, f"exception:{name}:{type(e).__name__}", tb[-1500:])
            self.cnt[4] = base + int((time.monotonic() - t0) * 1e6)
            struct.pack_into(f"{FIELDS}q", self.mm, off, *self.cnt)
        signal.setitimer(signal.ITIMER_PROF, 0)

    def done(self):
        with open(f"{self.path}/states{self.shard}", "ab") as f:
            for s in self.states:
                f.write(s)
        struct.pack_into("2q", self.mm, 0, -1, -1)
        self.out.close()


def worker_main(define):
    """Entry point of a worker process: argv = path shard thorough only no idx."""
    path, shard, thorough, only, no, idx, deadline = sys.argv[2:9]
    only = json.loads(only)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    w = Worker(path, int(shard), thorough == "1", only, (int(no), int(idx)), float(deadline))
    define(w)
    w.done()
    sys.stdout.flush()
    os._exit(0)


def drive(pid, script, python, env, assumptions, args):
    root = os.environ.get("VERIF_ROOT", "/verif")
    thorough = False
    only = None
    replay = False
    a = list(args)
    while a:
        x = a.pop(0)
        if x == "thorough":
            thorough = True
        elif x == "--space":
            only = [a.pop(0)]
        elif x == "--case":
            only, replay = [a.pop(0), int(a.pop(0))], True
        elif x == "--replay":
            txt = open(a.pop(0)).read()
            only = [re.search(r"^space=(.*)$", txt, re.M)[1], int(re.search(r"^idx=(\d+)$", txt, re.M)[1])]
            thorough = "\ntier=thorough\n" in txt
            replay = True
    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", 660 if thorough else 300))
    deadline = t0 + budget
    with tempfile.TemporaryDirectory(prefix=f"mc_{pid}_") as path:
        n = 1 if replay else NW
        for k in range(n):
            with open(f"{path}/shm{k}", "wb") as f:
                f.write(b"\0" * (16 + MAXSP * FIELDS * 8))

        def launch(k, no, idx):
            return subprocess.Popen(
                [python, script, "--worker", path, str(k), "1" if thorough else "0",
                 json.dumps(only), str(no), str(idx), str(deadline)],
                env=env, cwd=path, stdout=subprocess.DEVNULL, stderr=open(f"{path}/err{k}", "w"))

        procs = {k: launch(k, 0, k) for k in range(n)}
        crashes = []
        internal = []
        ncrash = 0
        while procs:
            time.sleep(0.02)
            for k, p in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline + 120:
                        p.kill()
                        p.wait()
                        internal.append(f"worker {k} stuck")
                        del procs[k]
                    continue
                del procs[k]
                with open(f"{path}/shm{k}", "rb") as f:
                    b = f.read(16)
                no, idx = struct.unpack("2q", b)
                if rc == 0:
                    continue
                if rc > 0:
                    internal.append(f"worker {k} exit {rc}: " + open(f"{path}/err{k}").read()[-1500:])
                    continue
                ncrash += 1
                kind = "hang" if -rc == signal.SIGPROF else f"crash:{signal.Signals(-rc).name}"
                crashes.append((no, idx, kind))
                if ncrash < 200 and not replay:
                    procs[k] = launch(k, no, idx + NW)
        defs, viols, samples = {}, [], []
        for k in range(n):
            if not os.path.exists(f"{path}/out{k}"):
                continue
            for line in open(f"{path}/out{k}"):
                d = json.loads(line)
                if "def" in d:
                    defs[d["no"]] = d
                elif "sample" in d:
                    samples.append(d["sample"])
                else:
                    viols.append(d)
        for no, idx, kind in crashes:
            nm = defs.get(no, {"def": "?"})["def"]
            viols.append({"space": nm, "idx": idx, "key": f"{kind.split(':')[0]}:{nm}", "msg": kind})
        states = set()
        tot = {}
        for k in range(n):
            if os.path.exists(f"{path}/states{k}"):
                b = open(f"{path}/states{k}", "rb").read()
                states.update(b[i:i + 8] for i in range(0, len(b), 8))
            with open(f"{path}/shm{k}", "rb") as f:
                b = f.read()
            for no in defs:
                c = struct.unpack_from(f"{FIELDS}q", b, 16 + no * FIELDS * 8)
                o = tot.setdefault(no, [0] * FIELDS)
                for i in range(4):
                    o[i] += c[i]
                o[4] = max(o[4], c[4])
    if replay:
        for v in viols:
            print(v["key"], v["msg"])
        for e in internal:
            print("INTERNAL:", e, file=sys.stderr)
        print("replay:", "VIOLATED" if viols else "no violation")
        return 1 if viols else 3 if internal else 0
    known = set()
    try:
        for line in open(f"{root}/known_findings.txt"):
            m = re.match(rf"known: property={pid} key=(\S+)", line)
            if m:
                known.add(m[1])
    except OSError:
        pass
    rd = f"{root}/replays/{pid}"
    os.makedirs(rd, exist_ok=True)
    by = {}
    for v in viols:
        by.setdefault(v["key"], []).append(v)
    nv = nk = 0
    for key in sorted(by):
        vs = by[key]
        b = min(vs, key=lambda v: v["idx"])
        one = " ".join(b["msg"].split())
        if key in known:
            nk += 1
            print(f"KNOWN-FINDING: property={pid} {key} {one[:600]}")
            continue
        nv += 1
        if nv > 25:
            continue
        fn = f"{rd}/{re.sub(r'[^A-Za-z0-9_-]', '_', key)[:80]}.replay"
        with open(fn, "w") as f:
            f.write(f"property={pid}\nspace={b['space']}\nidx={b['idx']}\n"
                    f"tier={'thorough' if thorough else 'quick'}\nkey={key}\noccurrences={len(vs)}\n"
                    f"# re-run: python3 {root}/tools/check.py {pid} --replay {fn}\n{b['msg']}\n")
        print(f"VIOLATION property={pid} replay={fn}")
        print(f"  key={key} space={b['space']} idx={b['idx']} (x{len(vs)}): {one[:1500]}")
    sp = []
    for no in sorted(defs):
        d, t = defs[no], tot[no]
        sp.append({"name": d["def"], "bounds": d["bounds"], "size": d["size"], "executed": t[0],
                   "skipped": t[1], "complete": t[0] >= d["size"], "wall_s": round(t[4] / 1e6, 3)})
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": sum(t[2] for t in tot.values()),
            "traces_validated_against_impl": sum(s["executed"] for s in sp),
            "comparisons_with_reference": sum(t[3] for t in tot.values()),
            "cases_outside_the_property": sum(t[1] for t in tot.values()),
            "exhaustive": all(s["complete"] for s in sp),
            "rule": "every index of every space below is executed on the code built from /repo and compared with the "
                    "reference model; states are distinct reference-model states (hash-counted), transitions are "
                    "operations applied",
            "spaces": sp, "samples": samples,
        },
        "assumptions": assumptions, "violations": nv, "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(f"{root}/evidence", exist_ok=True)
    if not only:
        with open(f"{root}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for e in internal:
        print("INTERNAL:", e, file=sys.stderr)
    if nv:
        return 1
    if internal or not sp or sum(s["executed"] for s in sp) == 0:
        return 3
    if not all(s["complete"] for s in sp) :
        print("note: not every space was completed within the time budget")
    print(f"OK property={pid} cases={sum(s['executed'] for s in sp)} distinct_states={len(states)} known={nk}")
    return 0
