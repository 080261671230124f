#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, runs its generated
cases on the configured process layouts, confirms every failure by three replays in fresh processes,
and writes evidence/<ID>.json.   run.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N]"""
import sys, os, json, time, shutil, signal, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import vb
from specs import SPECS

ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMP_WAIT_POLICY="passive",
           OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_orte_tmpdir_base="/tmp", HDF5_USE_FILE_LOCKING="FALSE", JAX_REPO_DIR=vb.REPO)

def known_findings():
    """known_findings.txt: 'finding: property=<id> law=<law> sig=<sig> <what fails>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) law=(\S+) sig=(\S+) (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def launch(binary, np, threads, args, timeout):
    """-> (status, report, state, log, scratch); status ok|crash|hang"""
    d = tempfile.mkdtemp(prefix="jaxv-", dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(d + "/out/m"); os.makedirs(d + "/out/dens")
    rep, st = d + "/report.json", d + "/state"
    cmd = [binary, "--np", str(np), "--out", rep, "--state", st] + args
    if np > 1: cmd = ["mpirun", "-np", str(np)] + cmd
    env = dict(ENV, OMP_NUM_THREADS=str(threads), TMPDIR=d)
    with open(d + "/log", "w") as lf:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout); status = "ok"
        except subprocess.TimeoutExpired:
            status, rc = "hang", -1
        # whatever happened, leave no process of this run behind
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        if status == "hang": p.wait()
    report = None
    try:
        report = json.load(open(rep))
        if not report.get("done"): report = None
    except (OSError, ValueError):
        pass
    state = ""
    try: state = open(st, errors="replace").readline().strip()
    except OSError: pass
    if status == "ok" and (rc != 0 or report is None): status = "crash"
    log = ""
    try: log = open(d + "/log", errors="replace").read()[-3000:]
    except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    return status, report, state, log, rc

def write_replay(pid, k, np, threads, tier, law, sig, msg, desc, body):
    os.makedirs(V + "/evidence", exist_ok=True)
    p = "%s/evidence/replay-%s-%d.txt" % (V, pid, k)
    with open(p, "w") as f:
        f.write("property %s\nlaw %s\nnp %d\nthreads %d\ntier %s\nsig %s\n%s\ncase %s\nmessage %s\n" % (pid, law, np, threads, tier, sig, body, desc.replace("\n", " "), msg.replace("\n", " ")))
    return p

def replay_once(binary, path, timeout=90):
    kv = dict(l.rstrip("\n").split(" ", 1) for l in open(path) if " " in l)
    st, rep, state, log, rc = launch(binary, int(kv.get("np", 1)), int(kv.get("threads", 2)), ["--replay", path], timeout)
    if st != "ok": return [{"sig": "crash", "msg": "%s rc=%s %s" % (st, rc, log[-800:])}]
    return rep["fails"]

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); rfile = None; law = None; scale = 1.0
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]
        elif a[i] == "--seed": seed = int(a[i + 1])
        elif a[i] == "--replay": rfile = os.path.abspath(a[i + 1])
        elif a[i] == "--law": law = a[i + 1]
        elif a[i] == "--scale": scale = float(a[i + 1])
        i += 2
    spec = SPECS[pid]; t0 = time.time(); thorough = tier == "thorough"
    try:
        H = V + "/harness/"
        binary = vb.build(pid.lower(), [H + "main.cpp", H + "jax.cpp"] + [H + s for s in spec["src"]], slow0=spec.get("slow0", True), programs=spec.get("programs", ()))
    except vb.BuildError as e:
        print("BUILD-ERROR", e); return 2
    tb = time.time() - t0
    if rfile:
        f = replay_once(binary, rfile)
        for x in f: print("FAIL %s: %s" % (x["sig"], x["msg"]))
        print("replay: %s" % ("fails" if f else "holds")); return 1 if f else 0
    known = [k for k in known_findings() if k[0] == pid]
    kf = tempfile.NamedTemporaryFile("w", suffix=".known", delete=False)
    kf.write("".join("%s %s\n" % (k[1], k[2]) for k in known)); kf.close()
    cap = spec.get("time", 120) if not thorough else spec.get("ttime", 1500)
    jobs = []
    for np, shards, th in spec["runs"]:
        for sh in range(shards): jobs.append((np, th, sh, shards))
    # cases of one rank count are split over all its shards, whatever their thread count
    tot = {}; 
    for j in jobs: tot[j[0]] = tot.get(j[0], 0) + 1
    cnt = {}; J = []
    for np, th, _, _ in jobs:
        k = cnt.get(np, 0); cnt[np] = k + 1; J.append((np, th, k, tot[np]))
    def args(np, sh, shards):
        x = ["--prop", pid, "--seed", str(seed), "--time", str(cap), "--known", kf.name, "--shard", "%d/%d" % (sh, shards), "--scale", str(scale)]
        if thorough: x.append("--thorough")
        if law: x += ["--law", law]
        return x
    def work(j):
        np, th, sh, shards = j
        return j, launch(binary, np, th, args(np, sh, shards), cap + 120)
    with ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(work, J))
    laws = {}; viol = []; notes = []; khits = {}; errors = []; nrep = 0
    def confirm(path, sig, timeout=90, times=3):
        """fresh replays must all show the failure"""
        for _ in range(times):
            f = replay_once(binary, path, timeout)
            if not any(x["sig"] == sig for x in f): return False
        return True
    def settled(law, sig):
        """this failure is confirmed already, or some failure is and the time for an answer runs out"""
        return any(v[0] == law and v[1] == sig for v in viol) or (viol and not thorough and time.time() - t0 > 450)
    # the shards that ended normally come first: what they report is quicker to confirm than a hang
    results.sort(key=lambda r: r[1][0] != "ok")
    for (np, th, sh, shards), (st, rep, state, log, rc) in results:
        tries = 0; states = [state]; hung = st == "hang"
        while st != "ok":
            if viol and (hung or settled("", "")): notes.append("np=%d shard=%d ended with %s (state %r, rc %s)" % (np, sh, st, state, rc)); break
            m = re.match(r"I (\S+) (\d+)", state); ms = re.match(r"S (\S+) ([\d ]*)", state); cl = None
            if m: cl, body = m.group(1), "seed %d\nindex %s" % (seed, m.group(2))
            elif ms: cl, body = ms.group(1), "choices " + ms.group(2).strip()
            if cl:
                nrep += 1
                p = write_replay(pid, nrep, np, th, tier, cl, "crash", "%s (exit status %s) %s" % (st, rc, log[-500:]), state, body)
                if confirm(p, "crash", 60, 2) if st == "hang" else confirm(p, "crash"):
                    kk = [k for k in known if k[1] == cl and k[2] == "crash"]
                    if kk: khits[(cl, "crash")] = khits.get((cl, "crash"), 0) + 1
                    else: viol.append((cl, "crash", "%s in case %s (exit status %s): %s" % (st, state, rc, log[-300:].replace("\n", " | ")), p))
                    break
            tries += 1
            if tries >= 3 or (tries == 2 and not thorough and time.time() - t0 > 600):
                # no single case reproduces it, but the same run ends abnormally every time
                if cl: viol.append((cl, "crash-run", "every run of this shard ended abnormally (%s): %s" % ("; ".join(states), log[-300:].replace("\n", " | ")), p))
                else: errors.append("np=%d shard=%d: %s rc=%s state=%r %s" % (np, sh, st, rc, state, log[-500:]))
                break
            notes.append("np=%d shard=%d ended with %s (state %r, rc %s), not reproduced by its last case; run again" % (np, sh, st, state, rc))
            st, rep, state, log, rc = launch(binary, np, th, args(np, sh, shards), cap + 120); states.append(state)
        if rep is None: continue
        for L in rep["laws"]:
            d = laws.setdefault(L["law"], dict(evaluations=0, distinct_nontrivial=0, discarded=0, labels={}, samples=[], np={}, cut=False))
            d["evaluations"] += L["evaluations"]; d["distinct_nontrivial"] += L["distinct_nontrivial"]; d["discarded"] += L["discarded"]; d["cut"] |= L["cut"]
            d["np"][str(np)] = d["np"].get(str(np), 0) + L["evaluations"]
            for k, v in L["labels"].items(): d["labels"][k] = d["labels"].get(k, 0) + v
            d["samples"] += ["np=%d %s" % (np, s) for s in L["samples"][:2]]
            for k, v in L["known"].items(): khits[(L["law"], k)] = khits.get((L["law"], k), 0) + v
            for F in L["failures"]:
                if settled(L["law"], F["sig"]): notes.append("also %s/%s: %s" % (L["law"], F["sig"], F["msg"][:200])); continue
                nrep += 1; ok = False
                for ch in (F["choices"], F["orig"]):
                    p = write_replay(pid, nrep, np, th, tier, L["law"], F["sig"], F["msg"], F["desc"], "choices " + ch)
                    if confirm(p, F["sig"]): ok = True; break
                if not ok:
                    p = write_replay(pid, nrep, np, th, tier, L["law"], F["sig"], F["msg"], F["desc"], "seed %d\nindex %d" % (seed, F["index"]))
                    ok = confirm(p, F["sig"])
                if not ok:
                    # does it come back when the whole shard is run again?
                    again = 0
                    for _ in range(2):
                        if not thorough and time.time() - t0 > 600: break
                        s2, r2, _, _, _ = launch(binary, np, th, args(np, sh, shards), cap + 120)
                        if s2 == "ok" and any(f2["sig"] == F["sig"] for l2 in r2["laws"] if l2["law"] == L["law"] for f2 in l2["failures"]): again += 1
                    ok = again == 2
                if ok: viol.append((L["law"], F["sig"], F["msg"] + " | " + F["desc"], p))
                else: notes.append("unconfirmed failure of %s/%s (not reproduced): %s | %s" % (L["law"], F["sig"], F["msg"], F["desc"]))
    os.unlink(kf.name)
    ev = sum(d["evaluations"] for d in laws.values()); nt = sum(d["distinct_nontrivial"] for d in laws.values())
    samples = [s for n, d in sorted(laws.items()) for s in ["%s: %s" % (n, x) for x in d["samples"][:2]]][:20]
    evid = dict(property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=spec.get("rule", "the case satisfies the law's own non-triviality condition"), samples=samples, laws={k: {x: y for x, y in d.items() if x != "samples"} for k, d in laws.items()}),
        assumptions=spec.get("assumptions", ["fields are built on the CPU path with AVX2 kernels, FFTW plans in estimate mode, and a logger without background thread"]),
        wall_s=round(time.time() - t0, 1), build_s=round(tb, 1), violations=[dict(law=v[0], sig=v[1], message=v[2], replay=v[3]) for v in viol], notes=notes + errors)
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f: json.dump(evid, f, indent=1)
    for k in known: print("KNOWN-FINDING: property=%s law=%s sig=%s %s (seen %d times in this run)" % (pid, k[1], k[2], k[3], khits.get((k[1], k[2]), 0)))
    for n in notes: print("NOTE", n[:600])
    for n, d in sorted(laws.items()): print("%-28s %6d cases %6d nontrivial %s" % (n, d["evaluations"], d["distinct_nontrivial"], "(time cap reached)" if d["cut"] else ""))
    print("build %.1fs total %.1fs" % (tb, time.time() - t0))
    if viol:
        for v in viol:
            print("  %s/%s: %s" % (v[0], v[1], v[2][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][3])); return 1
    if errors or ev == 0:
        print("ERROR", "; ".join(errors) or "no case was evaluated"); return 3
    return 0

if __name__ == "__main__":
    sys.exit(main())
