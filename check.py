#!/usr/bin/env python3
"""Build and run the check of one property: check.py C01 [--tier quick|thorough] [--replay FILE] [--keep]

Everything is built from /repo's current working tree. Exit 0: held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken."""
import argparse, json, os, re, shutil, signal, subprocess, sys, time, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZPP_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "gen"))
sys.dont_write_bytecode = True
import plans  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=c++20", "-w", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + HERE + "/src", "-I" + HERE + "/props"]
ENV = dict(os.environ, ASAN_OPTIONS="alloc_dealloc_mismatch=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:"
           "handle_abort=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=3",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99", LC_ALL="C")


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, **kw):
    """Run in its own process group; on timeout end the group."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, env=ENV, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, o, e, True


class BuildBroken(Exception):
    def __init__(self, what, command, stderr):
        super().__init__(what)
        self.what, self.command, self.stderr = what, command, stderr


class Inconclusive(Exception):
    pass


class Builder:
    def __init__(self, prop, tier, deadline, keep_dir=None):
        self.prop, self.tier, self.deadline = prop, tier, deadline
        self.dir = keep_dir or os.path.join(HERE, "build", f"{prop}-{tier}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.compiled = 0
        self.failed = None

    def left(self):
        return max(1, self.deadline - time.time())

    def compile(self, job):
        """job: (cxx, flags, source, object)"""
        if self.failed:
            return
        cxx, flags, src, obj = job
        cmd = [cxx, *BASE, *flags, "-c", src, "-o", obj]
        err = ""
        for attempt in range(3):
            rc, o, err, late = run(cmd, timeout=self.left())
            if rc == 0:
                self.compiled += 1
                return
            if late:
                raise Inconclusive("out of time while compiling " + os.path.basename(src))
            if re.search(r"^\S+:\d+:\d+: (fatal )?error:", err, re.M) and not re.search("out of memory|frontend command failed|internal compiler error|PLEASE submit", err):
                break
            time.sleep(2)
        if not re.search(r"^\S+:\d+:\d+: (fatal )?error:", err, re.M):
            raise Inconclusive(f"compiler did not finish on {os.path.basename(src)} ({rc}): {err[-300:]}")
        self.failed = True
        raise BuildBroken(src, " ".join(cmd), err)

    def build(self, binary):
        """binary: plans.Binary -> path"""
        objs, jobs = [], []
        bdir = os.path.join(self.dir, binary.name)
        os.makedirs(bdir, exist_ok=True)
        for i, (name, text) in enumerate(binary.generated):
            p = os.path.join(bdir, name)
            with open(p, "w") as f:
                f.write(text)
            obj = p + ".o"
            jobs.append((len(text) + 100000, (binary.cxx, binary.flags, p, obj)))
            objs.append(obj)
        for s in binary.sources:
            src = os.path.join(HERE, s)
            obj = os.path.join(bdir, os.path.basename(s) + ".o")
            own = ["-fexceptions"] if s == "src/engine.cpp" else []
            jobs.append((50000, (binary.cxx, [*binary.flags, *own], src, obj)))
            objs.append(obj)
        return bdir, objs, [j for _, j in sorted(jobs, key=lambda x: -x[0])]

    def build_all(self, binaries):
        plan = [(b, *self.build(b)) for b in binaries]
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.compile, j) for _, _, _, js in plan for j in js]
            err = None
            for f in futs:
                try:
                    f.result()
                except Exception as e:  # noqa
                    err = err or e
            if err:
                raise err

            def link(x):
                b, bdir, objs, _ = x
                exe = os.path.join(bdir, "run")
                cmd = [b.cxx, *b.flags, *objs, "-o", exe, *b.libs]
                for attempt in range(3):
                    rc, o, e, late = run(cmd, timeout=self.left())
                    if rc == 0:
                        return exe
                    time.sleep(1)
                if "undefined reference" in e or "multiple definition" in e:
                    raise BuildBroken("link of " + b.name, " ".join(cmd), e)
                raise Inconclusive("link failed: " + e[-400:])
            return list(ex.map(link, plan))


def trivial_compiles(b):
    src = os.path.join(b.dir, "trivial.cpp")
    with open(src, "w") as f:
        f.write('#include "zpp_bits.h"\nint main() { auto [data, in, out] = zpp::bits::data_in_out(); (void)out(1); int i; (void)in(i); }\n')
    rc, _, e, _ = run([CLANG, *BASE, "-stdlib=libc++", "-fsyntax-only", src], timeout=120)
    return rc == 0


def save_replay(prop, tier, seed, round_no, binary, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((binary + text).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{h}.replay")
    with open(p, "w") as f:
        f.write(text.rstrip("\n") + f"\n#! {json.dumps(dict(property=prop, tier=tier, seed=seed, round=round_no, binary=binary))}\n")
    return p


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def violation(prop, path, why):
    log(f"{prop}: {why[:1500]}")
    log(f"VIOLATION property={prop} replay={path}")


def run_shards(exe, binary, plan_seed, cases, b, tag):
    outs = []

    def shard(i):
        st = os.path.join(b.dir, f"{binary.name}-{tag}-{i}.json")
        rp = os.path.join(b.dir, f"{binary.name}-{tag}-{i}.replay")
        el = os.path.join(b.dir, f"{binary.name}-{tag}-{i}.err")
        cmd = [exe, "--run", "--cases", str(cases), "--seed", str(plan_seed), "--shard", f"{i}/{binary.shards}",
               "--out", st, "--replay-out", rp, "--errlog", el, "--shrink", "20"]
        if binary.max_s:
            cmd += ["--max-s", str(min(binary.max_s, max(5, b.left() - 60)))]
        rc, o, e, late = run(cmd, timeout=b.left())
        s = None
        if os.path.exists(st):
            try:
                s = json.load(open(st))
            except ValueError:
                s = None
        return dict(rc=rc, out=o, err=e, late=late, stats=s, replay=rp if os.path.exists(rp) else None)
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(shard, range(binary.shards)))
    return outs


def replay_fails(exe, path, times, deadline):
    n = 0
    msg = ""
    for _ in range(times):
        rc, o, e, late = run([exe, "--replay", path], timeout=max(5, min(120, deadline - time.time())))
        if rc in (3, 4):
            return 0, "unusable replay"
        if rc != 0 and not late:
            n += 1
            msg = (o + e).strip()[:1500]
    return n, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 3000)
    rounds_wanted = None
    want_binary = None
    if a.replay:
        m = re.findall(r"^#! (.*)$", open(a.replay).read(), re.M)
        if m:
            j = json.loads(m[-1])
            tier, seed, rounds_wanted, want_binary = j["tier"], j["seed"], j["round"], j["binary"]
    plan = plans.plan(prop, tier, seed)
    b = Builder(prop, tier, deadline)
    agg = dict(evaluations=0, nontrivial=0, distinct=0, labels={}, targets={}, samples=[])
    extra_cov = {}
    violations = []
    known_seen = []
    notes = []
    known = known_findings(prop)
    compiled = 0
    broken = False
    try:
        rounds = plan.rounds if rounds_wanted is None else [rounds_wanted]
        if isinstance(rounds, int):
            rounds = range(rounds)
        for rnd in rounds:
            if rnd and rounds_wanted is None and time.time() - t0 > plan.budget_s:
                notes.append(f"time budget of {plan.budget_s} s reached before round {rnd}")
                break
            binaries = plan.binaries(rnd)
            if want_binary:
                binaries = [x for x in binaries if x.name == want_binary or not x.cases] or binaries
            try:
                exes = b.build_all(binaries)
            except BuildBroken as e:
                if not trivial_compiles(b):
                    log("zpp_bits.h itself does not compile")
                text = f"# {e.command}\n" + "\n".join("# " + l for l in e.stderr.splitlines() if "error:" in l or "undefined" in l or "multiple" in l)[:6000]
                try:
                    text += "\n" + open(e.what).read()
                except OSError:
                    pass
                p = save_replay(prop, tier, seed, rnd, "compile", text)
                first = next((l for l in e.stderr.splitlines() if "error:" in l or "undefined" in l), "")
                violations.append((p, f"code using documented interfaces does not build: {first[:600]}"))
                break
            if a.replay:
                n, msg = replay_fails(exes[0], a.replay, 1, deadline)
                log(msg or "pass")
                if n:
                    log(f"VIOLATION property={prop} replay={a.replay}")
                return 1 if n else 0
            compiled = b.compiled
            for exe, bi in zip(exes, binaries):
                if not bi.cases:
                    continue  # another build that the first one compares with
                res = run_shards(exe, bi, seed * 1000003 + rnd, bi.cases, b, str(rnd))
                for i, r in enumerate(res):
                    s = r["stats"]
                    if s:
                        for k in ("evaluations", "nontrivial", "distinct"):
                            agg[k] += s[k]
                        for k in ("labels", "targets"):
                            for x, c in s[k].items():
                                agg[k][x] = agg[k].get(x, 0) + c
                        if len(agg["samples"]) < 12 * (rnd + 1):
                            agg["samples"] += s["samples"][:2]
                    if r["late"]:
                        notes.append(f"{bi.name} shard {i} stopped at the time limit")
                        continue
                    if s and not s["failed"]:
                        continue
                    if not s:
                        notes.append(f"{bi.name} shard {i} gave no result (exit {r['rc']}): {r['err'][-200:]}")
                        continue
                    if not r["replay"]:
                        notes.append(f"{bi.name} shard {i} failed without a replay: {s['message'][:200]}")
                        continue
                    n, msg = replay_fails(exe, r["replay"], 3, deadline)
                    if msg == "unusable replay" and s["reproduced"]:
                        n = 3
                    why = f"{s['target']}: {s['message']}"
                    hit = [d for rx, d in known if rx.search(why)]
                    if hit:
                        known_seen.append(hit[0])
                        continue
                    if n >= 2:
                        p = save_replay(prop, tier, seed, rnd, bi.name, open(r["replay"]).read())
                        violations.append((p, why))
                    else:
                        notes.append(f"failure not reproduced ({n} of 3): {why[:300]}")
                if violations:
                    break
            if violations:
                break
            if plan.extra:
                # further machinery of the plan (e.g. cross build comparison, fuzzing)
                for v in plan.extra(plan, b, exes, binaries, rnd, agg, extra_cov, notes):
                    text, why, bn = v
                    p = save_replay(prop, tier, seed, rnd, bn, text)
                    violations.append((p, why))
                if violations:
                    break
    except Inconclusive as e:
        notes.append("inconclusive: " + str(e))
    except Exception:
        broken = True
        notes.append("error of the check: " + traceback.format_exc()[-1500:])
    finally:
        if not a.keep:
            shutil.rmtree(b.dir, ignore_errors=True)
    for k in sorted(set(d for _, d in known)):
        log(f"KNOWN-FINDING: property={prop} {k}")
    top = sorted(agg["labels"].items(), key=lambda x: -x[1])
    cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=plan.rule,
               samples=agg["samples"][:24], nontrivial=agg["nontrivial"], labels=dict(top[:80]),
               targets=dict(sorted(agg["targets"].items(), key=lambda x: -x[1])[:80]), translation_units=b.compiled)
    cov.update(plan.coverage or {})
    cov.update(extra_cov)
    if notes:
        cov["notes"] = notes[:20]
    ev = dict(property=prop, tier="thorough" if tier == "thorough" else "quick", seed=seed, level="exploration", coverage=cov,
              assumptions=plan.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed {seed}: {agg['evaluations']} cases, {agg['distinct']} distinct non-trivial, {b.compiled} units, {time.time() - t0:.1f} s")
    for n in notes:
        log("note:", n[:1500])
    for p, why in violations[:3]:
        violation(prop, p, why)
    if violations:
        return 1
    return 2 if broken or not agg["evaluations"] else 0


if __name__ == "__main__":
    sys.exit(main())
