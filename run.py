#!/usr/bin/env python3
"""Check one property:  run.py PROP [--tier quick|thorough] [--seed N]
   replay a report:     run.py --replay FILE

 1. extract/ copies the functions under contract out of /repo's current source
    into one Verus file per unit (contracts/UNIT.v); Verus discharges every
    obligation of every function, for all inputs.
 2. a probe run adds `assert(false)` at the entry of every contracted function:
    every probe has to fail, otherwise a precondition is contradictory.
 3. harness/ runs the real crates on boundary-directed inputs against
    independent oracles: it supplies the failing input for a failed obligation,
    replays it, and is the bounded stand-in for functions outside Verus' reach.
"""
import json, os, re, subprocess, sys, time, shutil, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(V, ".cache"))
sys.path.insert(0, os.path.join(V, "tools"))
from proptable import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0",
           LANG="C.UTF-8")
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout, cwd=None, env=None, out=None):
    """Run in its own process group; returns (rc, stdout, stderr); rc None = timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo_build(src, target, timeout, features=()):
    """Build a crate of /verif from a scratch copy so nothing is written in git-tracked places."""
    d = os.path.join(CACHE, "src-" + os.path.basename(target))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
    t = open(os.path.join(d, "Cargo.toml")).read().replace('"../../repo/', '"%s/' % REPO)
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    cmd = ["cargo", "build", "--offline", "--target-dir", target]
    if features:
        cmd += ["--features", ",".join(features)]
    return sh(cmd, timeout, cwd=d)


# --------------------------------------------------------------------- Verus
def extract(exe, unit, out, skip, probes):
    cmd = [exe, REPO, os.path.join(V, "contracts"), out]
    if probes:
        cmd.append("--probes")
    for s in sorted(skip):
        cmd += ["--skip", s]
    rc, o, e = sh(cmd + [unit], 120)
    if rc != 0:
        return None, e[-2000:]
    return json.load(open(out + ".map.json")), ""


def verus(path, unit, timeout, rlimit, extra=()):
    cmd = ["verus", os.path.basename(path), "--triggers-mode", "silent", "--verify-only-module", unit,
           "--output-json", "--time-expanded", "--multiple-errors", "6", "--num-threads", "3"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--", "--error-format=json"]
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    try:
        js = json.loads(o)
    except ValueError:
        js = {}
    return rc, js, diags, " ".join(cmd), e


PROOF_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
              "possible bit shift underflow/overflow", "loop invariant", "not satisfied", "could not prove",
              "recommendation not met", "assertion not", "assert_by", "possible")


def is_proof_failure(d):
    m = d["message"]
    return any(x in m for x in PROOF_FAIL) and "Resource limit" not in m and "rlimit" not in m


def fn_at(mp, d, path):
    for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
        if os.path.basename(s["file_name"]) != os.path.basename(path):
            continue
        for f in mp["fns"]:
            if f.get("l0") and f["l0"] <= s["line_start"] <= f["l1"]:
                return f
    # a failed precondition of a callee: look at all spans
    return None


def unit_of_line(path, d):
    """Name of the spec/proof fn of the prelude that holds the error."""
    try:
        src = open(path).read().splitlines()
    except OSError:
        return "?"
    for s in d["spans"]:
        if os.path.basename(s["file_name"]) == os.path.basename(path):
            for i in range(s["line_start"] - 1, -1, -1):
                m = re.search(r"\bfn\s+(\w+)", src[i])
                if m:
                    return m.group(1)
    return "?"


def run_unit(exe, unit, work, tier, rlimit):
    """Verify one unit. Functions that cannot be processed are taken out (lost) and the rest re-run."""
    res = {"unit": unit, "lost": [], "failed": [], "verified": 0, "ms": 0, "fns": [], "cmd": "", "errors": 0, "rules": []}
    skip = set()
    path = os.path.join(work, unit + ".rs")
    for attempt in range(7):
        mp, err = extract(exe, unit, path, skip, False)
        if mp is None:
            res["lost"].append({"fn": unit + "::*", "why": "extraction failed: " + err})
            return res
        rc, js, diags, cmd, raw = verus(path, unit, 420 if tier == "quick" else 1500, rlimit)
        res["cmd"] = cmd
        for f in mp["fns"]:
            if f["status"] == "lost" and f["unit"] == unit and not any(x["fn"] == f["fn"] for x in res["lost"]):
                res["lost"].append({"fn": f["fn"], "why": "; ".join(f.get("errs", []))})
        if rc is None:
            res["lost"].append({"fn": unit + "::*", "why": "verus did not finish in time"})
            return res
        vr = js.get("verification-results") or {}
        hard = [d for d in diags if not is_proof_failure(d)]
        done = "verified" in vr and not vr.get("encountered-vir-error") and not (hard and vr.get("verified", 0) == 0 and not vr.get("errors"))
        bad = set()
        for d in hard:
            f = fn_at(mp, d, path)
            if f is not None and f["unit"] == unit:
                k = f["fn"]
                if k not in skip:
                    bad.add(k)
                    res["lost"].append({"fn": k, "why": "verus: " + d["message"][:300]})
        if bad:
            skip |= bad
            continue
        if not done:
            why = "; ".join(d["message"][:200] for d in diags[:3]) or raw[-400:]
            res["lost"].append({"fn": unit + "::*", "why": "verus cannot process the unit: " + why})
            return res
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["ms"] = (js.get("times-ms") or {}).get("smt", {}).get("smt-run", 0) if isinstance((js.get("times-ms") or {}).get("smt"), dict) else 0
        res["total_ms"] = (js.get("times-ms") or {}).get("total", 0)
        res["fns"] = [f for f in mp["fns"] if f["unit"] == unit and f["status"] == "verify"]
        res["imports"] = sorted({f["fn"] for f in mp["fns"] if f["unit"] != unit and f["status"] == "imported"})
        res["rules"] = mp.get("rules", [])
        for d in diags:
            if not is_proof_failure(d):
                continue
            f = fn_at(mp, d, path)
            res["failed"].append({
                "fn": f["fn"] if f else unit + "::" + unit_of_line(path, d),
                "source": "%s %s" % (f["file"], f["src"]) if f else "contracts/%s.v" % unit,
                "obligation": d["message"], "output": d.get("rendered", "")[:3000]})
        if res["errors"] and not res["failed"]:
            res["lost"].append({"fn": unit + "::*", "why": "verus errors without diagnostics"})
        res["text"] = trusted(path, mp)
        res["skip"] = skip
        return res
    res["lost"].append({"fn": unit + "::*", "why": "too many unprocessable functions"})
    return res


def run_probes(exe, unit, work, skip):
    path = os.path.join(work, "probe", unit + ".rs")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    mp, err = extract(exe, unit, path, skip, True)
    if mp is None:
        return 0, []
    want = {f["probe"]: f for f in mp["fns"] if f.get("probe")}
    if not want:
        return 0, []
    rc, js, diags, cmd, raw = verus(path, unit, 420, None)
    if rc is None or "verified" not in (js.get("verification-results") or {}):
        return 0, []
    hit = set()
    src = open(path).read().splitlines()
    for d in diags:
        for s in d["spans"]:
            for i in range(s["line_start"] - 1, max(-1, s["line_start"] - 400), -1):
                m = re.search(r"\bfn\s+(probe__\w+)", src[i])
                if m:
                    hit.add(m.group(1))
                    break
                if re.search(r"\bfn\s+\w+", src[i]):
                    break
    # names are unique per impl only; compare as sets of names
    vac = sorted({want[n]["fn"] for n in want if n not in hit})
    return len([n for n in want if n in hit]), vac


def trusted(path, mp):
    """Every assumption in the verified file: external bodies, assumed std contracts, axioms
    (contracts of /repo functions proved in another unit are listed per unit instead)."""
    out = []
    lines = open(path).read().splitlines()
    for f in mp["fns"]:
        if f.get("l0") and f["status"] == "imported":
            for i in range(f["l0"] - 1, f["l1"]):
                lines[i] = ""
    for i, l in enumerate(lines):
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", l)
        if m:
            out.append("std contract: " + m.group(1))
        m = re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.append("axiom: " + m.group(1))
        if "external_body" in l or "uninterp" in l:
            for j in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(fn|struct)\s+(\w+)", lines[j])
                if m:
                    out.append(("uninterpreted: " if "uninterp" in l else "external: ") + m.group(2))
                    break
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.append("assume: line %d" % (i + 1))
    return sorted(set(out))


# ------------------------------------------------------------------- harness
def run_harness(exe, prop, tier, seed, budget, work, tag):
    out = os.path.join(work, "h-%s.json" % tag)
    cur = os.path.join(work, "cur-%s" % tag)
    for f in os.listdir(work):
        if f.startswith("cur-%s." % tag):
            os.remove(os.path.join(work, f))
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "run", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out, "--cur", cur]
    rc, o, e = sh(cmd, budget + 200, cwd=work)
    if os.path.exists(out):
        return json.load(open(out))
    # the process died (abort, stack overflow, out of memory): find the case that was running
    fails = []
    for f in sorted(os.listdir(work)):
        if f.startswith("cur-%s." % tag):
            w = open(os.path.join(work, f)).read().split()
            if len(w) == 2 and w[0] != "-":
                r2, o2, e2 = sh([exe, "replay", w[0], w[1], "--tier", tier, "--seed", str(seed)], 120, cwd=work)
                if r2 != 0:
                    fails.append({"kind": w[0], "idx": int(w[1]), "case": o2[-600:], "msg": "process died (%s): %s" % (r2, (e2 or o2)[-300:])})
    return {"kinds": [], "fails": fails, "wall_s": 0, "died": "rc=%s %s" % (rc, e[-500:])}


def load_known(prop):
    """known_findings.txt: `finding: property=ID kind=KIND match=REGEX :: what fails`."""
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    work = os.path.join(CACHE, "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    builds = P.get("builds", [()])
    notes = []
    pool = ThreadPoolExecutor(16)
    fx = pool.submit(cargo_build, os.path.join(V, "extract"), os.path.join(CACHE, "extract"), 400)

    def hb(features):
        tgt = os.path.join(CACHE, "harness" + "".join("-" + f for f in features))
        rc, o, e = cargo_build(os.path.join(V, "harness"), tgt, 600, features)
        exe = os.path.join(tgt, "debug", "harness")
        return (exe if rc == 0 and os.path.exists(exe) else None), e
    fh = [pool.submit(hb, b) for b in builds]
    rc, o, e = fx.result()
    xexe = os.path.join(CACHE, "extract", "debug", "extract")
    units = P["units"]
    ures, probes_ok, vacuous = [], 0, []
    if rc != 0 or not os.path.exists(xexe):
        log("extractor does not build:", e[-800:])
        notes.append("extractor did not build")
        ures = [{"unit": u, "lost": [{"fn": u + "::*", "why": "extractor did not build"}], "failed": [], "verified": 0, "ms": 0, "fns": [], "cmd": "", "errors": 0} for u in units]
    else:
        log("extractor built")
        def one(u):
            r = run_unit(xexe, u, work, tier, P.get("rlimit"))
            log("unit %s: %d obligations discharged, %d failed, %d functions under contract, %d out of reach" %
                (u, r["verified"], len(r["failed"]), len(r["fns"]), len(r["lost"])))
            return r
        fu = [pool.submit(one, u) for u in units]
        fp = None
        ures = [f.result() for f in fu]
        clean = [r for r in ures if r["fns"] and not r["failed"]]
        fp = [pool.submit(run_probes, xexe, r["unit"], work, r.get("skip", set())) for r in clean] if not P.get("noprobe") else []
    hres = []
    for f, b in zip(fh, builds):
        exe, e = f.result()
        if exe is None:
            log("harness does not build:", e[-1500:])
            notes.append("harness%s does not build against the current tree: %s" % ("/" + ",".join(b) if b else "", e[-300:]))
            continue
        budget = P.get("budget", 25) if tier == "quick" else P.get("tbudget", 420) / len(builds)
        r = run_harness(exe, prop, tier, seed, budget, work, "-".join(b) or "default")
        r["build"] = list(b)
        r["exe"] = exe
        hres.append(r)
        log("harness%s: %d cases, %d fail" % (list(b) or "", sum(k["ran"] for k in r["kinds"]), len(r["fails"])))
    if rc == 0:
        for f in fp:
            n, vac = f.result()
            probes_ok += n
            vacuous += vac
        if vacuous:
            log("VACUOUS contracts:", vacuous)

    known = load_known(prop)
    kf, viol = [], []
    for r in hres:
        for f in r["fails"]:
            hit = [k for k in known if k[0] == f["kind"] and k[1].search(f["msg"] + " " + f.get("case", ""))]
            if hit:
                kf.append(hit[0][2])
            else:
                viol.append((r, f))
        if r.get("died") and not r["fails"]:
            notes.append("harness run ended abnormally: " + r["died"])
    failed = [dict(f, unit=r["unit"]) for r in ures for f in r["failed"]]
    lost = [x for r in ures for x in r["lost"]]
    rep = os.path.join(V, "evidence", prop + ".replay.json")
    if os.path.exists(rep):
        os.remove(rep)
    code = 0
    for k in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        r, f = viol[0]
        json.dump({"property": prop, "kind": f["kind"], "idx": f["idx"], "seed": seed, "tier": tier, "build": r["build"],
                   "case": f.get("case"), "message": f["msg"], "failed_obligations": failed,
                   "more": [{"kind": g["kind"], "idx": g["idx"], "message": g["msg"][:300]} for _, g in viol[1:20]],
                   "replay_cmd": "python3 /verif/run.py --replay " + rep}, open(rep, "w"), indent=1)
        log("failing input: %s case %d: %s\n    %s" % (f["kind"], f["idx"], f.get("case"), f["msg"]))
        for x in failed[:6]:
            log("failed obligation: %s (%s): %s" % (x["fn"], x["source"], x["obligation"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        code = 1
    elif failed:
        json.dump({"property": prop, "failed_obligations": failed, "message": "no failing input found"}, open(rep, "w"), indent=1)
        for x in failed[:6]:
            log("failed obligation: %s (%s): %s\n%s" % (x["fn"], x["source"], x["obligation"], x["output"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep))
        code = 1
    for x in lost:
        log("out of the verifier's reach on this tree (bounded stand-in only): %s: %s" % (x["fn"], x["why"][:300]))

    tb = sorted({t for r in ures for t in r.get("text", [])})
    ok = sum(r["verified"] for r in ures)
    ob = ok + sum(r["errors"] for r in ures)
    fns = sorted({f["file"] + " " + f["src"] + (" [%s]" % f["fn"].split("__")[-1] if "__" in f["fn"] else "") for r in ures for f in r["fns"]})
    ran = sum(k["ran"] for r in hres for k in r["kinds"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": ob, "discharged": ok,
            "checker_cmd": "; ".join(sorted({r["cmd"] for r in ures if r["cmd"]})) or "verus",
            "trusted_base": ["Verus 0.2026.09.13 and its Z3", "rustc", "the extractor /verif/extract (rewrite rules applied: %s)" % ", ".join(sorted({str(x) for r in ures for x in r.get("rules", [])}))] + tb,
            "back_end": "Verus -> Z3",
            "obligation_unit": "one Verus verification item: all conditions of one function or lemma",
            "functions_under_contract": fns,
            "solver_ms": sum(r["ms"] or 0 for r in ures),
            "units": [{"unit": r["unit"], "discharged": r["verified"], "errors": r["errors"], "total_ms": r.get("total_ms"), "functions": len(r["fns"]),
                       "contracts_assumed_here_proved_elsewhere": r.get("imports", [])} for r in ures],
            "vacuity_probes_failed_as_required": probes_ok, "vacuous": vacuous,
            "failed_obligations": failed,
            "bounded_stand_ins": P.get("bounded", []) + [dict(x, why=x["why"][:300]) for x in lost],
            "evaluations": ran,
            "distinct_nontrivial": sum(k["distinct"] for r in hres for k in r["kinds"]),
            "rule": "harness cases: inputs drawn from a seeded stream biased to boundary values; distinct = different described inputs, trivial (empty) ones not counted. They search for a failing input and stand in, bounded, for what is not proved; they are not counted as proof.",
            "harness": [{"build": r["build"], "kinds": [{k: v for k, v in x.items() if k != "samples"} for x in r["kinds"]], "wall_s": r["wall_s"]} for r in hres],
            "samples": [s for r in hres for k in r["kinds"] for s in k["samples"][:1]][:12],
            "explanation": P.get("explanation", ""),
        },
        "assumptions": P.get("assumptions", []) + notes,
        "wall_s": round(time.time() - T0, 1),
        "violations": (len(viol) or len(failed)),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    log("%s: exit %d" % (prop, code))
    return code


def replay(path):
    d = json.load(open(path))
    for x in d.get("failed_obligations", []):
        print("failed obligation: %s (%s): %s\n%s" % (x["fn"], x["source"], x["obligation"], x["output"]))
    if "kind" not in d:
        return 1
    b = d.get("build", [])
    tgt = os.path.join(CACHE, "harness" + "".join("-" + f for f in b))
    rc, o, e = cargo_build(os.path.join(V, "harness"), tgt, 600, b)
    if rc != 0:
        print(e[-2000:])
        return 1
    rc, o, e = sh([os.path.join(tgt, "debug", "harness"), "replay", d["kind"], str(d["idx"]), "--seed", str(d["seed"]), "--tier", d["tier"]], 300)
    print(o, e)
    return 0 if rc == 0 else 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code if code in (0, 1) else 1)
