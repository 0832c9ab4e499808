#!/usr/bin/python3
"""Decide one property: build the encoding from /repo's working tree, discharge its jobs with the
symbolic executor, replay what the solver found, write the evidence file.

usage: run.py PROPERTY [quick|thorough]      exit 0 held, 1 violated, 2 no answer
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
STUBS = ["symex_stub_fmt_mark", "symex_stub_fmt_int", "symex_stub_from_utf8"]
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

T0 = time.time()
# share of the required jobs that may stay undecided
MAX_OPEN = 0.1


class NoAnswer(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME="/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(kw)
    return e


def start(cmd, cwd, **kw):
    return subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def finish(p, what):
    out = p.communicate()[0].decode(errors="replace")
    if p.returncode != 0:
        print(out[-6000:], file=sys.stderr)
        raise NoAnswer(f"{what} failed")
    return out


def renew(target, dirs, crates):
    """Cargo trusts time stamps; rebuild whenever the contents of the sources changed."""
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(os.path.join(r, f).encode())
                    h.update(open(os.path.join(r, f), "rb").read())
    stamp = f"{target}/stamp"
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    for prof in os.listdir(target) if os.path.isdir(target) else ():
        fp = f"{target}/{prof}/.fingerprint"
        for x in os.listdir(fp) if os.path.isdir(fp) else ():
            if x.rsplit("-", 1)[0] in crates:
                shutil.rmtree(f"{fp}/{x}")
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def build_native(release=False):
    cmd = ["cargo", "build", "--offline", "--features", "native", "--bin", "replay", "--target-dir", f"{BUILD}/native"]
    return start(cmd + (["--release"] if release else []), HARNESS)


def build_module(names, profile, work):
    """One LLVM module of the harness, gvas and everything below it."""
    bin_ = f"/root/.rustup/toolchains/{TOOLCHAIN}/lib/rustlib/x86_64-unknown-linux-gnu/bin"
    deps = f"{BUILD}/sym/{profile}/deps"
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith("lto.after-restriction.bc"):
                os.remove(f"{deps}/{f}")
    os.utime(f"{HARNESS}/src/lib.rs")
    finish(
        start(
            ["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--profile", profile, "--target-dir", f"{BUILD}/sym"],
            HARNESS,
            RUSTFLAGS="-C save-temps -C link-args=-Wl,--unresolved-symbols=ignore-all",
        ),
        "compilation of /repo with the harness",
    )
    bc = [f for f in os.listdir(deps) if f.endswith("lto.after-restriction.bc")]
    if len(bc) != 1:
        raise NoAnswer(f"expected one module, found {len(bc)}")
    log("compiled")
    api = ",".join(names + STUBS)
    a, a2, m = f"{work}/a.ll", f"{work}/a2.ll", f"{work}/{profile}.ll"
    finish(start([f"{bin_}/opt", "-passes=internalize,globaldce", f"-internalize-public-api-list={api}", f"{deps}/{bc[0]}", "-S", "-o", a], work), "opt")
    finish(start([f"{BUILD}/symex/release/symex", "prep", a, a2, f"{work}/dropped.txt"], work), "prep")
    finish(start([f"{bin_}/opt", "-passes=default<O1>", "-vectorize-slp=false", "-vectorize-loops=false", a2, "-S", "-o", m], work), "opt")
    for f in (a, a2):
        os.remove(f)
    for f in os.listdir(deps):
        if f.endswith(".bc") or f.endswith(".o"):
            os.remove(f"{deps}/{f}")
    log("module ready,", os.path.getsize(m) >> 20, "MB")
    return m


def replay_one(job, v, release):
    exe = f"{BUILD}/native/{'release' if release else 'debug'}/replay"
    line = f"{job.harness} {job.param} {v['model']}\n"
    try:
        p = subprocess.run([exe], input=line.encode(), capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within 120 s"
    if p.returncode == 77:
        return True, "allocates more than 64 MiB"
    if p.returncode != 0:
        return True, f"process ended with {p.returncode}: {p.stderr.decode(errors='replace').strip()[-300:]}"
    r = json.loads(p.stdout)
    if r["assume_failed"]:
        return False, "the model does not satisfy the assumptions natively"
    if r["panic"] is not None:
        return True, "panic: " + r["panic"]
    if r["failed"]:
        return True, "failed: " + "; ".join(dict.fromkeys(r["failed"]))
    return False, "holds natively"


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.spec = J.PROPS[prop]
        self.jobs = J.jobs(prop, tier)
        self.work = f"{BUILD}/work-{prop}"
        self.known = self.load_known()
        self.seen_known = {}
        self.violation = None
        self.not_reproduced = []
        self.native_rel = False
        self.budget = 800 if tier == "quick" else 3 * 3600

    def load_known(self):
        out = []
        for l in open(f"{VERIF}/KNOWN_FINDINGS.txt"):
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d["property"] == self.prop:
                    out.append(d)
        return out

    def is_known(self, job, v):
        for k in self.known:
            if k["harness"] == job.harness and k["param"] == job.param and k["kind"] == v["kind"] and k["label"] == v["label"]:
                self.seen_known[k["what"]] = True
                return True
        return False

    def judge(self, job, v):
        """A violation found by the solver: confirm it on the real code."""
        if self.is_known(job, v):
            return False
        ok, how = replay_one(job, v, False)
        build = "dev"
        if not ok:
            if not self.native_rel:
                finish(build_native(True), "release build of the replay")
                self.native_rel = True
            ok, how = replay_one(job, v, True)
            build = "release"
        if not ok:
            self.not_reproduced.append(f"{job} {v['kind']} {v['label']}: {how}")
            return False
        d = f"{BUILD}/replays"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.prop}-{job.harness}-{job.param}.sh"
        with open(path, "w") as f:
            f.write(
                f"#!/bin/bash\n# {self.prop}: {v['kind']}: {v['label']}\n# natively: {how}\n"
                + "".join(f"#   at {s}\n" for s in v["stack"][:12])
                + f"cd {HARNESS} && RUSTUP_TOOLCHAIN={TOOLCHAIN} cargo build -q --offline --features native --bin replay --target-dir {BUILD}/native {'--release' if build == 'release' else ''} &&\n"
                + f"echo '{job.harness} {job.param} {v['model']}' | {BUILD}/native/{'release' if build == 'release' else 'debug'}/replay\n"
            )
        os.chmod(path, 0o755)
        self.violation = dict(job=str(job), kind=v["kind"], label=v["label"], native=how, build=build, path=path, stack=v["stack"][:6])
        return True

    def run_jobs(self, module, todo, solver_ms, outdir, dump=None):
        """Run jobs, judging violations as they appear. Returns the results by index."""
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        inp = "".join(f"{j.harness} {j.param} {j.secs} {j.depth} {self.spec.get('witnesses', 1)}\n" for j in todo)
        procs = max(2, min(16, os.cpu_count() or 8))
        cmd = [f"{BUILD}/symex/release/symex", "run", module, str(procs), str(solver_ms), outdir]
        if dump:
            os.makedirs(dump, exist_ok=True)
            cmd += ["200", dump]
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stderr=open(f"{outdir}/log", "w"), start_new_session=True)
        p.stdin.write(inp.encode())
        p.stdin.close()
        seen = {}

        def poll():
            for f in os.listdir(outdir):
                if not f.endswith(".v"):
                    continue
                with open(f"{outdir}/{f}") as h:
                    h.seek(seen.get(f, 0))
                    while True:
                        at = h.tell()
                        l = h.readline()
                        if not l.endswith("\n"):
                            break
                        seen[f] = at + len(l.encode())
                        if self.judge(todo[int(f.split(".")[0])], json.loads(l)):
                            return True
            return False

        try:
            while p.poll() is None:
                if poll():
                    break
                if time.time() - T0 > self.budget:
                    log("time budget used up")
                    break
                time.sleep(0.1)
            else:
                poll()
        finally:
            if p.poll() is None:
                os.killpg(p.pid, 9)
                p.wait()
        res = []
        for i in range(len(todo)):
            try:
                res.append(json.load(open(f"{outdir}/{i}.json")))
            except (OSError, ValueError):
                res.append(None)
        return res

    def witnesses(self, results):
        """Paths that hold, replayed natively: the observed values must be the predicted ones."""
        lines, want = [], []
        for j, r in results:
            if r["violations"]:
                continue
            for w in r["witnesses"]:
                lines.append(f"{j.harness} {j.param} {w['model']}")
                want.append((j, w))
        p = subprocess.run([f"{BUILD}/native/debug/replay"], input=("\n".join(lines) + "\n").encode(), capture_output=True)
        got = p.stdout.decode().splitlines()
        good = 0
        bad = []
        for (j, w), g in zip(want, got):
            g = json.loads(g)
            if g["assume_failed"] or g["panic"] is not None or g["failed"] or g["ret"] != w["ret"] or g["obs"] != w["obs"]:
                # the real code breaks an assertion on a path the executor took to hold
                for kind, label in [("check", x) for x in g["failed"][:1]] + ([("panic", g["panic"])] if g["panic"] is not None else []):
                    if not g["assume_failed"] and not self.violation and self.spec.get("id") != "SELF":
                        self.judge(j, dict(kind=kind, label=label, model=w["model"], stack=[]))
                bad.append(f"{j}: predicted ret={w['ret']} obs={w['obs'][:8]}, native {json.dumps(g)[:300]} model={w['model'][:200]}")
            else:
                good += 1
        if len(got) < len(want):
            j, w = want[len(got)]
            if not self.violation and self.spec.get("id") != "SELF":
                self.judge(j, dict(kind="abort", label="the process ends", model=w["model"], stack=[]))
            bad.append(f"replay ended with {p.returncode} at {lines[len(got)][:200]}")
        return good, bad, want

    def cross_check(self, dump):
        """A sample of the queries, decided again by a second solver."""
        import concurrent.futures as cf
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(dump) for f in fs if f.endswith(".smt2"))
        step = max(1, len(files) // 400)
        files = files[::step]

        def one(f):
            want = "unsat" if ".unsat." in f else "sat"
            try:
                o = subprocess.run(["cvc5", "--tlimit=20000", f], capture_output=True, timeout=40).stdout.decode().strip()
            except subprocess.TimeoutExpired:
                o = "timeout"
            return f, want, o

        agree = unknown = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for f, want, o in ex.map(one, files):
                if o in ("sat", "unsat"):
                    if o != want:
                        raise NoAnswer(f"solvers disagree on {f}: {want} / {o}")
                    agree += 1
                else:
                    unknown += 1
        return dict(second_solver="cvc5", agree=agree, undecided_by_second=unknown)

    def main(self):
        os.makedirs(self.work, exist_ok=True)
        names = sorted({j.harness for j in self.jobs})
        log(self.prop, self.tier, len(self.jobs), "jobs,", ", ".join(names))
        renew(f"{BUILD}/symex", [f"{VERIF}/symex"], ("symex",))
        for t in ("native", "sym"):
            renew(f"{BUILD}/{t}", ["/repo", HARNESS], ("gvas", "harness"))
        sx = start(["cargo", "build", "--release", "--offline", "--target-dir", f"{BUILD}/symex"], f"{VERIF}/symex")
        finish(sx, "build of the executor")
        nat = build_native()
        module = build_module(names, "sym", self.work)
        finish(nat, "native build of the harness")
        log("native replay ready")
        todo = sorted(self.jobs, key=lambda j: -j.cost)
        dump = f"{self.work}/dump" if self.tier == "thorough" else None
        if dump:
            shutil.rmtree(dump, ignore_errors=True)
        res = self.run_jobs(module, todo, self.spec.get("solver_ms", 20000), f"{self.work}/out", dump)
        log("jobs done")
        if not self.violation:
            # a second chance, with more time, for required jobs without an answer
            again = [i for i, (j, r) in enumerate(zip(todo, res)) if j.core and (r is None or "error" in r or r["inconclusive"])]
            if again and time.time() - T0 < self.budget * 0.6:
                log("again:", len(again))
                import copy
                js = []
                for i in again:
                    j = copy.copy(todo[i])
                    j.secs *= 4
                    js.append(j)
                for i, r in zip(again, self.run_jobs(module, js, 120000, f"{self.work}/out2")):
                    if r is not None:
                        res[i] = r
        if not self.violation and self.tier == "thorough":
            self.release_module(names, todo)
        done = [(j, r) for j, r in zip(todo, res) if r is not None and "error" not in r]
        cross = None
        problems, open_jobs = [], []
        good, bad, want = 0, [], []
        if not self.violation:
            open_jobs += [f"not reproduced: {x}" for x in self.not_reproduced]
            for j, r in zip(todo, res):
                if not j.core:
                    continue
                if r is None:
                    open_jobs.append(f"{j}: no result")
                elif "error" in r:
                    open_jobs.append(f"{j}: {r['error']}")
                elif r["inconclusive"]:
                    open_jobs.append(f"{j}: {r['inconclusive']}")
            # a few undecided jobs are reported as not explored, more than that is no answer
            if len(open_jobs) > MAX_OPEN * sum(j.core for j in todo):
                problems += open_jobs
            reach = {}
            for j, r in done:
                reach.setdefault(j.harness, set()).update(r["reach"])
            for h in names:
                for l in J.NEED.get(h, ("end",)):
                    if l not in reach.get(h, ()):
                        problems.append(f"{h}: '{l}' is never reached (vacuous)")
            good, bad, want = self.witnesses(done)
            problems += [f"translation check: {b}" for b in bad[:5]]
            log("witnesses", good, "agree,", len(bad), "disagree")
            if dump:
                cross = self.cross_check(dump)
                log("cross check", cross)
        self.evidence(names, todo, res, done, good, want, cross, list(dict.fromkeys(problems + open_jobs)))
        shutil.rmtree(f"{self.work}/dump", ignore_errors=True)
        for w in self.seen_known:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        if self.violation:
            v = self.violation
            print(f"{v['kind']}: {v['label']} ({v['job']}), natively ({v['build']}): {v['native']}")
            print(f"VIOLATION property={self.prop} replay={v['path']}")
            return 1
        if problems:
            for x in problems[:40]:
                print("no answer:", x, file=sys.stderr)
            return 2
        for x in open_jobs[:40]:
            print("not explored:", x)
        if open_jobs:
            print(f"{self.prop}: holds on everything explored, {len(open_jobs)} of {len(todo)} jobs undecided")
            return 0
        print(f"{self.prop}: holds on all {len(done)} jobs")
        return 0

    def release_module(self, names, todo):
        """The same jobs without overflow checks and debug assertions."""
        m = build_module(names, "symrel", self.work)
        sel = [j for j in todo if j.core and j.cost < 20]
        r = self.run_jobs(m, sel, self.spec.get("solver_ms", 20000), f"{self.work}/outrel")
        self.rel = dict(jobs=len(sel), complete=sum(1 for x in r if x and "error" not in x and not x["inconclusive"]))
        log("release module", self.rel)

    def evidence(self, names, todo, res, done, good, want, cross, problems):
        s = lambda k: sum(r[k] for _, r in done)  # noqa: E731
        q = lambda k: sum(r["solver"][k] for _, r in done)  # noqa: E731
        complete = [(j, r) for j, r in done if not r["inconclusive"]]
        fns = sorted({f for _, r in done for f in r["functions"]})
        own = [f for f in fns if "gvas::" in f]
        labels = {}
        stubs = {}
        reach = {}
        outc = {}
        for _, r in done:
            for d, k in ((labels, "labels"), (stubs, "stubs"), (reach, "reach"), (outc, "outcomes")):
                for a, b in r[k].items():
                    d[a] = d.get(a, 0) + b
        per = {}
        for j, r in done:
            d = per.setdefault(j.harness, dict(jobs=0, paths=0, complete=0, max_symbolic_bytes=0))
            d["jobs"] += 1
            d["paths"] += r["paths"]
            d["complete"] += not r["inconclusive"]
            d["max_symbolic_bytes"] = max(d["max_symbolic_bytes"], r["max_vars"])
        cov = dict(
            states=s("paths"),
            transitions=s("insts"),
            traces_validated_against_impl=good,
            samples=[dict(harness=j.harness, param=j.param, input=w["model"][:400], returned=w["ret"]) for j, w in want[:: max(1, len(want) // 5)][:5]],
            meaning="states: symbolic paths explored to their end; transitions: IR instructions executed on them; "
            "traces: models of completed paths replayed against the native build with equal observations",
            jobs=len(todo),
            jobs_complete=len(complete),
            required_jobs=sum(j.core for j in todo),
            optional_jobs_incomplete=[str(j) for j, r in zip(todo, res) if not j.core and (r is None or "error" in r or r["inconclusive"])][:40],
            per_harness=per,
            bounds=self.spec["bounds"],
            outside=self.spec["outside"],
            assertions_evaluated=s("checks"),
            assertions_decided_by_solver=s("checks_by_solver"),
            assertion_labels=labels,
            reached=reach,
            path_ends=outc,
            solver=dict(name="z3 " + (done[0][1]["solver"]["version"] if done else "?"), queries=q("queries"), sat=q("sat"), unsat=q("unsat"), unknown=q("unknown"), time_s=round(q("time_s"), 2)),
            functions_encoded_total=len(fns),
            functions_encoded_gvas=own,
            modelled_functions=stubs,
        )
        if cross:
            cov["cross_check"] = cross
        if getattr(self, "rel", None):
            cov["without_overflow_checks"] = self.rel
        if self.violation:
            cov["violation"] = self.violation
        if problems:
            cov["problems"] = problems[:40]
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="model_checking",
            coverage=cov,
            assumptions=J.ASSUME + self.spec.get("assume", []),
            wall_s=round(time.time() - T0, 1),
            violations=1 if self.violation else 0,
        )
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(Check(prop, tier).main())
    except NoAnswer as e:
        print("no answer:", e, file=sys.stderr)
        sys.exit(2)
