#!/usr/bin/env python3
"""check.py <ID> [--thorough]: decide one property by monitored executions.

Exit 0: held on everything executed. Exit 1: prints
"VIOLATION property=<id> replay=<path>". Exit 2: no answer (build failure ...).
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Builds the harness against /repo's working tree in a scratch directory that is
removed at the end.
"""
import sys
sys.dont_write_bytecode = True
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from checks import CHECKS, LEVEL  # noqa: E402

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME=e.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*",
             GOMODCACHE="/root/go/pkg/mod", GOPATH="/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("TRC_ASSETS_DIR", None)
    for k in list(e):
        if k.startswith("TRC_"):
            del e[k]
    e.update(kw)
    return e

class BuildError(Exception):
    pass

def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGQUIT)
        try:
            out, _ = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
        return "timeout", out.decode("utf8", "replace")

def prepare(scratch):
    """Module files and overlay outside /verif and /repo."""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), os.path.join(scratch, f))
    # /repo may require more than the harness knew about
    sums = open(os.path.join(scratch, "go.sum")).read()
    try:
        extra = open(os.path.join(REPO, "go.sum")).read()
        lines = dict.fromkeys(sums.splitlines() + extra.splitlines())
        open(os.path.join(scratch, "go.sum"), "w").write("\n".join(l for l in lines if l) + "\n")
    except OSError:
        pass

def overlay(scratch):
    out = os.path.join(scratch, "overlay")
    exe = os.path.join(scratch, "perturb")
    h = os.path.join(HERE, "harness")
    rc, o = run(["go", "build", "-modfile", os.path.join(scratch, "go.mod"), "-o", exe, "./cmd/perturb"], h, goenv(), 300)
    if rc != 0:
        raise BuildError("perturb tool: " + o)
    rc, o = run([exe, REPO, out], h, goenv(), 60)
    if rc != 0:
        raise BuildError("perturb: " + o)
    return os.path.join(out, "overlay.json"), o.strip()

def build(scratch, pkg, mode):
    h = os.path.join(HERE, "harness")
    exe = os.path.join(scratch, f"{pkg}-{mode}.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(scratch, "go.mod"), "-o", exe]
    note = ""
    if mode == "race":
        ov, note = overlay(scratch) if not os.path.exists(os.path.join(scratch, "overlay", "overlay.json")) else (os.path.join(scratch, "overlay", "overlay.json"), "")
        rc, o = run(cmd + ["-race", "-overlay", ov, "./" + pkg], h, goenv(), 600)
        if rc == 0:
            return exe, note
        log("perturbed build failed, building without perturbation:", o[:2000])
        note = "unperturbed (rewritten files did not build)"
        cmd += ["-race"]
    rc, o = run(cmd + ["./" + pkg], h, goenv(), 600)
    if rc != 0:
        raise BuildError(o)
    return exe, note

def load_known():
    try:
        return json.load(open(os.path.join(HERE, "known-findings.json")))
    except OSError:
        return {"findings": []}

def split_races(text):
    return [b for b in re.split(r"={18}\n", text) if "WARNING: DATA RACE" in b]

def race_is_known(block, known, pid):
    for k in known.get("findings", []):
        if k.get("status") == "known" and k.get("kind") == "race" and all(re.search(x, block) for x in k["match"]):
            return k
    return None

def setup():
    """Builds everything once, to fill the build cache."""
    scratch = tempfile.mkdtemp(prefix="trcmon-setup-")
    try:
        prepare(scratch)
        overlay(scratch)
        for pkg in sorted({p for c in CHECKS.values() for p in c["run"]}):
            for mode in ("plain", "race"):
                build(scratch, pkg, mode)
        for flag in ([], ["-race"]):
            run(["go", "build", "-mod=readonly", *flag, "-o", os.path.join(scratch, "trc"), "./cmd/trc"], REPO, goenv(), 600)
        return 0
    except BuildError as e:
        log("setup: build failed (checks will say so again):", str(e)[-2000:])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay_sel = None
    for a in sys.argv[2:]:
        if a.startswith("--case="):
            replay_sel = a[len("--case="):]
    only_mode = [a[7:] for a in sys.argv[2:] if a.startswith("--mode=")]
    spec = CHECKS[pid]
    begin = time.time()
    scratch = tempfile.mkdtemp(prefix=f"trcmon-{pid}-")
    ev = os.path.join(HERE, "evidence")
    rdir = os.path.join(ev, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(ev, exist_ok=True)
    try:
        return decide(pid, tier, seed, spec, scratch, rdir, ev, begin, replay_sel, only_mode)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, spec, scratch, rdir, ev, begin, replay_sel, only_mode):
    prepare(scratch)
    jobs = [(p, m) for p, modes in spec["run"].items() for m in modes if not only_mode or m in only_mode]
    built, notes = {}, []
    # the race jobs share the overlay: make it first
    try:
        if any(m == "race" for _, m in jobs):
            _, note = overlay(scratch)
            notes.append(note)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            futs = {ex.submit(build, scratch, p, m): (p, m) for p, m in jobs}
            extra = []
            if spec.get("cli"):
                extra = [ex.submit(run, ["go", "build", "-mod=readonly", *(["-race"] if m == "race" else []), "-o", os.path.join(scratch, "trc-" + m), "./cmd/trc"], REPO, goenv(), 600)
                         for m in sorted({m for _, m in jobs})]
            for f in concurrent.futures.as_completed(futs):
                built[futs[f]] = f.result()[0]
                if f.result()[1]:
                    notes.append(f.result()[1])
            for f in extra:
                rc, o = f.result()
                if rc != 0:
                    raise BuildError(o)
    except BuildError as e:
        log("BUILD FAILED (no answer):", str(e)[-4000:])
        return 2
    build_s = time.time() - begin

    known = load_known()
    violations, reports, races_seen, known_seen = [], [], 0, {}
    inconclusive = []

    def one(job):
        pkg, mode = job
        work = tempfile.mkdtemp(prefix=f"w-{pkg}-{mode}-", dir=scratch)
        rep = os.path.join(work, "report.json")
        env = goenv(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_MODE=mode, VERIF_REPORT=rep, VERIF_CLI=os.path.join(scratch, "trc-" + mode), VERIF_WORK=work)
        if replay_sel:
            env["VERIF_REPLAY"] = replay_sel
        if mode == "race":
            env["GORACE"] = f"halt_on_error=0 exitcode=0 log_path={work}/race atexit_sleep_ms=50"
        to = 780 if tier == "quick" else 6 * 3600
        rc, out = run([built[job], "-test.run", f"^Test{pid}$", "-test.timeout", "0", "-test.v=false"], work, env, to)
        r = {}
        try:
            r = json.load(open(rep))
        except (OSError, ValueError):
            pass
        races = []
        for f in sorted(glob.glob(work + "/race.*")):
            races += split_races(open(f, errors="replace").read())
        case = ""
        try:
            case = open(rep + ".case").read().strip()
        except OSError:
            pass
        return job, rc, out, r, races, case

    with concurrent.futures.ThreadPoolExecutor(spec.get("parallel", 2)) as ex:
        results = list(ex.map(one, jobs))

    for (pkg, mode), rc, out, r, races, case in results:
        reports.append((pkg, mode, r))
        for v in r.get("violations") or []:
            violations.append(dict(v, pkg=pkg))
        if r.get("hang"):
            violations.append(dict(family=case, index=-1, seed=seed, mode=mode, pkg=pkg, message="HANG: " + r["hang"][:20000]))
        elif not r.get("done"):
            tail = out[-12000:]
            if rc in (-9, 137):
                inconclusive.append(f"{pkg}/{mode}: killed")
            elif rc == "timeout":
                inconclusive.append(f"{pkg}/{mode}: run did not end in time, last case {case}\n{tail[-3000:]}")
            else:
                i = max(out.find("panic:"), 0) if "panic:" in out else max(out.find("fatal error:"), 0)
                violations.append(dict(family=case, index=-1, seed=seed, mode=mode, pkg=pkg, message="CRASH (exit %s) in case %s:\n%s" % (rc, case, out[i:i + 12000])))
        for k in r.get("known") or []:
            known_seen[k] = True
        for b in races:
            races_seen += 1
            k = race_is_known(b, known, pid)
            if k:
                known_seen[k["what"]] = True
            else:
                violations.append(dict(family="race", index=-1, seed=seed, mode=mode, pkg=pkg, message="DATA RACE\n" + b[:8000]))

    ev_n = sum(r.get("evaluations", 0) for _, _, r in reports)
    hashes = set()
    for _, _, r in reports:
        hashes.update(r.get("hashes") or [])
    counters, fam, samples, rules = {}, {}, [], []
    for pkg, mode, r in reports:
        for k, v in (r.get("counters") or {}).items():
            k = f"{k}_{mode}" if k.startswith("ms_") else k
            counters[k] = counters.get(k, 0) + v
        for k, v in (r.get("families") or {}).items():
            fam[f"{k}/{mode}"] = fam.get(f"{k}/{mode}", 0) + v
        for s in r.get("samples") or []:
            if len(samples) < 12:
                samples.append(f"[{mode}] {s}")
        for s in r.get("rules") or []:
            if s not in rules:
                rules.append(s)
    timing = {k: v for k, v in counters.items() if k.startswith("ms_")}
    counters = {k: v for k, v in counters.items() if not k.startswith("ms_")}
    uniq, seen = [], set()
    for v in violations:
        key = re.sub(r"0x[0-9a-f]+|\d+", "#", v["message"])[:300]
        if key not in seen:
            seen.add(key)
            uniq.append(v)
    if not replay_sel:
        evidence = dict(
            property=pid, tier=tier, seed=seed, level=LEVEL,
            coverage=dict(evaluations=ev_n, distinct_nontrivial=len(hashes), rule=" | ".join(rules), samples=samples,
                          observed=counters, cases_by_family=fam, race_reports=races_seen,
                          perturbation=notes[:1], family_ms=timing, build_s=round(build_s, 1)),
            assumptions=spec.get("assumptions", []),
            wall_s=round(time.time() - begin, 2), violations=len(uniq))
        json.dump(evidence, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k in sorted(known_seen):
        print(f"KNOWN-FINDING: property={pid} {k}")
    for what in inconclusive:
        log("INCONCLUSIVE:", what)
    if uniq:
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(uniq[:20]):
            path = os.path.join(rdir, f"{i:02d}.json")
            sel = v["family"] if v["index"] < 0 else f'{v["family"]}:{v["index"]}'
            v = dict(v, property=pid, tier=tier, rerun=f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid} --mode={v['mode']} --case={sel}")
            json.dump(v, open(path, "w"), indent=1)
            if i < 5:
                log(f"--- {pid} [{v['pkg']}/{v['mode']}] {sel}: {v['message'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if inconclusive:
        return 2
    if ev_n == 0:
        log("nothing was executed")
        return 2
    print(f"OK property={pid} tier={tier} evaluations={ev_n} distinct={len(hashes)} wall={time.time()-begin:.1f}s build={build_s:.1f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
