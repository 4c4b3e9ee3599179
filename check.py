#!/usr/bin/env python3-vt
"""check.py <property id> -- decides one property on /repo's current source (see DESIGN.md).

1. compiles /repo (through harness/, which only instantiates its generic API) to LLVM IR, and builds runner/
   against it twice: with overflow checks (debug) and without (release);
2. discharges the property's obligations (contracts on the real functions) on that IR;
3. looks for a failing input on the real builds with the differential suite (the replay of a failed
   obligation, and a guard against a gap in the proof side).
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check could not run.
"""
import glob
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
T0 = time.time()
BUDGET = 780


def log(*a):
    print(*a, flush=True)


def build(work):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)

    def cargo(crate, target, args, flags=None):
        e = dict(env, CARGO_TARGET_DIR=os.path.join(work, target))
        if flags:
            e["RUSTFLAGS"] = flags
        return subprocess.Popen(["cargo", "build", "--offline", "-q"] + args, cwd=os.path.join(work, "src", crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for c in ("harness", "runner"):
        shutil.copytree(os.path.join(HERE, c), os.path.join(work, "src", c), ignore=shutil.ignore_patterns("target"))
    ps = [cargo("harness", "ir", [], "--emit=llvm-ir"), cargo("runner", "run", []), cargo("runner", "runr", ["--release"])]
    for p in ps:
        out, _ = p.communicate()
        if p.returncode:
            log(out[-4000:])
            log("BUILD FAILED")
            sys.exit(2)
    return (glob.glob(os.path.join(work, "ir/debug/deps/*.ll")), os.path.join(work, "run/debug/runner"), os.path.join(work, "runr/release/runner"))


def run_obligations(module, obs, workers, deadline):
    """Each obligation in its own process; returns the list of result dicts, in order."""
    import prove
    todo = sorted(range(len(obs)), key=lambda i: -obs[i].cost)
    live, res = {}, [None] * len(obs)
    limit = 150  # seconds for one obligation (the slowest takes 20 on the unchanged tree); less when several hit it
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
                    d = prove.discharge(module, obs[i])
                except BaseException as e:
                    d = {"name": obs[i].name, "status": "undecided", "detail": "worker: " + repr(e)[:300], "bounded": obs[i].bounded, "backend": obs[i].backend, "checks": 0, "overflow_obligations": 0, "contracts_used": [], "seconds": 0}
                os.write(w, json.dumps(d).encode()[:60000])
                os._exit(0)
            os.close(w)
            live[pid] = (i, r, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid in live:
            i, r, t = live.pop(pid)
            try:
                res[i] = json.loads(os.read(r, 1 << 20))
            except ValueError:
                res[i] = None
            os.close(r)
            if res[i] is None:
                res[i] = {"name": obs[i].name, "status": "undecided", "detail": "worker ended without an answer", "bounded": obs[i].bounded, "backend": obs[i].backend, "checks": 0, "overflow_obligations": 0, "contracts_used": [], "seconds": round(time.time() - t, 1)}
            continue
        for p, (i, _, t) in live.items():
            if time.time() - t > limit:
                os.kill(p, signal.SIGKILL)
                limit = max(40, limit * 3 // 4)
                break
        if time.time() > deadline:
            for p in live:
                os.kill(p, signal.SIGKILL)
            for i in todo:
                res[i] = {"name": obs[i].name, "status": "undecided", "detail": "time limit", "bounded": obs[i].bounded, "backend": obs[i].backend, "checks": 0, "overflow_obligations": 0, "contracts_used": [], "seconds": 0}
            todo = []
        time.sleep(0.01)
    return res


class Differ:
    def __init__(self, exes):
        self.exes, self.n, self.distinct, self.fail, self.samples = exes, 0, set(), [], []

    def run(self, cases, known, limit=600):
        cases = list(cases)
        text = "\n".join(c for c, _ in cases) + "\n"
        ps = [(b, subprocess.Popen([e], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for b, e in self.exes]
        import threading
        outs = {}

        def feed(b, p):
            try:
                outs[b] = p.communicate(text, timeout=limit)[0].split("\n")
            except subprocess.TimeoutExpired:
                p.kill()
                outs[b] = (p.communicate()[0] or "").split("\n")
                outs[b + "!"] = True
        ths = [threading.Thread(target=feed, args=x) for x in ps]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for b, p in ps:
            o = outs[b]
            for k, (c, e) in enumerate(cases):
                got = o[k].strip() if k < len(o) else "NO ANSWER"
                self.n += 1
                self.distinct.add(hash(c))
                if got != e:
                    if got == "NO ANSWER":
                        if p.returncode == 0 or k != len([x for x in o if x]):
                            continue
                        got = f"NO ANSWER (exit {p.returncode})"
                    self.fail.append((b, c, e, got))
        for c, e in cases[:: max(1, len(cases) // 3)][:3]:
            self.samples.append({"command": c[:300], "expected": e[:200]})


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    import difftest
    import ir
    import registry
    known = [l.split("input=", 1)[1].strip() for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) if l.startswith("known: property=" + pid + " ")]
    work = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        lls, dbg, rel = build(work)
        log(f"[{pid}] built in {time.time() - T0:.1f} s")
        module = ir.Module(lls)
        obs = registry.build()[pid]
        if tier == "thorough" and hasattr(registry, "thorough"):
            obs = obs + registry.thorough().get(pid, [])
        res = run_obligations(module, obs, os.cpu_count() or 4, T0 + BUDGET * (0.6 if tier == "quick" else 4))
        for r in res:
            log(f"[{pid}] {r['status']:9} {r['name']}" + (" [bounded]" if r["bounded"] else "") + f"  ({r['checks']} checks, {r['seconds']} s)" + (f"\n    {r['detail'][:500]}" if r["status"] != "proved" else ""))
        failed = [r for r in res if r["status"] == "failed"]
        und = [r for r in res if r["status"] == "undecided"]
        df = Differ([("overflow-checked build", dbg), ("release build", rel)])
        df.run(difftest.SUITES[pid](random.Random(seed), tier == "thorough"), known)
        if (failed or und) and not df.fail and tier == "quick":
            # a failed or undecided obligation: look harder for a failing input
            log(f"[{pid}] searching for a failing input")
            df.run(difftest.SUITES[pid](random.Random(seed + 7919), True), known, max(30, BUDGET - (time.time() - T0)))
        for b, c, e, g in [f for f in df.fail if f[1] in known][:20]:
            log(f"KNOWN-FINDING: property={pid} {c[:200]}")
        fails = [f for f in df.fail if f[1] not in known]
        log(f"[{pid}] differential: {df.n} executions, {len(fails)} differ")
        verdict = 0
        if failed or fails:
            verdict = 1
            rp = os.path.join(HERE, "evidence", f"replay-{pid}.txt")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                for r in failed:
                    f.write(f"FAILED OBLIGATION: {r['name']}\n  back end {r['backend']}: {r['detail']}\n")
                if fails:
                    f.write("\nFAILING INPUTS (feed the command line to /verif/runner built against /repo):\n")
                    for b, c, e, g in fails[:10]:
                        f.write(f"  build:    {b}\n  command:  {c}\n  expected: {e}\n  got:      {g}\n\n")
                else:
                    f.write(f"\nNo failing input found in {df.n} executions.\n")
            log(open(rp).read()[:3000])
        proofs = [r for r in res if not r["bounded"]]
        bnd = [r for r in res if r["bounded"]]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": registry.LEVEL.get(pid, "proof"),
            "coverage": {
                "obligations": len(proofs), "discharged": sum(r["status"] == "proved" for r in proofs),
                "checker_cmd": f"python3-vt /verif/check.py {pid}",
                "trusted_base": registry.TRUSTED,
                "explanation": registry.NOTE.get(pid, registry.NOTE["*"]),
                "verification_conditions": sum(r["checks"] for r in res),
                "overflow_conditions": sum(r["overflow_obligations"] for r in res),
                "obligation_list": [{k: r[k] for k in ("name", "status", "backend", "checks", "seconds")} for r in proofs],
                "bounded_stand_ins": [{k: r[k] for k in ("name", "status", "bounded", "backend", "checks", "seconds")} for r in bnd],
                "undecided": [{"name": r["name"], "why": r["detail"][:300]} for r in und],
                "functions_under_contract_or_executed": sorted({c for r in res for c in r["contracts_used"] if "crypto_pure" in c}),
                "solver_seconds": round(sum(r["seconds"] for r in res), 2),
                "evaluations": df.n, "distinct_nontrivial": len(df.distinct),
                "rule": "differential runs of the public API on both builds against independent reference implementations; distinct command lines",
                "samples": df.samples,
            },
            "assumptions": registry.TRUSTED, "wall_s": round(time.time() - T0, 2), "violations": len(fails) + len(failed),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if verdict:
            log(f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found"))
        elif und:
            log(f"[{pid}] held on everything explored; {len(und)} obligation(s) undecided on this tree, covered only by the differential runs")
        else:
            log(f"[{pid}] held: {len(proofs)} obligations discharged, {len(bnd)} bounded stand-ins passed")
        return verdict
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
