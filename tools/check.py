#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE

Decides one property on /repo's current tree:
 1. vx extracts the functions under contract from /repo and splices the contracts in (units/*.vt);
 2. Verus discharges every obligation, function by function (Kani where a unit says so);
 3. a vacuity probe (an assertion that must fail at every function entry and loop head) is run;
 4. the executable form of the contract is run against the real crate: it replays a failed
    obligation on the code, and it is the labelled bounded stand-in for what is not under contract.
"""
import json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
STABLE = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


T0 = time.time()
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


def left(reserve=0):
    """seconds left for this run, keeping `reserve` for what comes after"""
    return max(5, T0 + DEADLINE.get(os.environ.get("VERIF_TIER", "quick"), 780) - reserve - time.time())


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, env=None, cwd=None, timeout=None):
    try:
        p = subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def build_vx():
    rc, o, e = run(["cargo", "build", "--offline", "--locked", "--target-dir", BUILD + "/vx"], env=STABLE, cwd=VERIF + "/tools/vx")
    if rc:
        raise SystemExit("cannot build vx: " + e[-2000:])
    return BUILD + "/vx/debug/vx"


def build_harness(which=None):
    """-> (path, with_hooks) ; falls back to the public API if the hooks no longer compile."""
    last = ""
    if which == "avian":
        rc, o, e = run(["cargo", "build", "--offline", "--target-dir", BUILD + "/harness_avian"], env=STABLE, cwd=VERIF + "/harness_avian")
        if rc == 0:
            return BUILD + "/harness_avian/debug/exec_avian", True
        log("harness does not build:", e[-3000:])
        return None, False
    for hooks in (True, False):
        env = dict(STABLE)
        env["RUSTFLAGS"] = "--cfg rerecast_verif" if hooks else ""
        td = BUILD + ("/harness" if hooks else "/harness_nohooks")
        rc, o, e = run(["cargo", "build", "--offline", "--target-dir", td], env=env, cwd=VERIF + "/harness")
        if rc == 0:
            return td + "/debug/exec", hooks
        last = e
    log("harness does not build:", last[-3000:])
    return None, False


# ---------------------------------------------------------------- verus
SMT_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift", "decreases not satisfied",
            "assertion failure", "loop invariant", "unable to prove", "index", "recommendation not met", "could not", "cannot prove", "might",
            "failed this postcondition", "could not prove termination", "ensures", "requires", "Call to non-static function fails")
BUDGET_FAIL = ("Resource limit (rlimit) exceeded", "rlimit", "timed out", "solver")


def fn_at(lines, ln):
    name = None
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r"// VXFN-BEGIN (.*)", lines[i])
        if m:
            return m.group(1).strip(), True
        if lines[i].startswith("// VXFN-END"):
            break
        m = re.search(r"\bproof fn (\w+)|\bfn (\w+)", lines[i])
        if m and name is None:
            name = m.group(1) or m.group(2)
            if not lines[i].startswith((" ", "\t")):
                break
    return name or "?", False


def verus(path, extra=(), timeout=600):
    cmd = ["verus", "--edition", "2024", "--output-json", "--time-expanded", "--no-auto-recommends-check", "--triggers-mode", "silent", "--error-format=json", *extra, path]
    t0 = time.time()
    rc, out, err = run(cmd, timeout=min(timeout, left(200)), cwd=os.path.dirname(path))
    res = {"cmd": " ".join(cmd), "wall": time.time() - t0, "verified": 0, "errors": 0, "fails": [], "hard": [], "smt_ms": 0, "funcs": []}
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        j = {}
    vr = j.get("verification-results") or {}
    res["verified"] = vr.get("verified", 0)
    res["errors"] = vr.get("errors", 0)
    tm = j.get("times-ms") or {}
    try:
        res["smt_ms"] = tm["smt"]["total"]
        for m in tm["smt"].get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                res["funcs"].append({"function": f.get("function"), "ms": round(f.get("time-micros", 0) / 1000, 1), "ok": f.get("success")})
    except Exception:
        pass
    text = open(path).read().split("\n")
    ran = "verified" in vr
    smt = ran and vr.get("errors", 0) > 0 and not vr.get("encountered-vir-error")  # the solver refuted or left something open
    for l in err.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        sp = [s for s in d["spans"] if s["file_name"].endswith(os.path.basename(path))]
        prim = [s for s in sp if s["is_primary"]] or sp
        ln = prim[0]["line_start"] if prim else 0
        fn, isrepo = fn_at(text, ln)
        clause = "; ".join(" ".join(t["text"].strip() for t in s["text"][:3]) for s in sp)[:400]
        item = {"function": fn, "extracted": isrepo, "message": d["message"], "line": ln, "clause": clause}
        low = d["message"]
        if smt and ("rlimit" in low or "solver" in low.lower()):
            item["budget"] = True
            res["fails"].append(item)
        elif smt:
            res["fails"].append(item)
        else:
            res["hard"].append(item)
    if not ran and not res["hard"]:
        res["hard"].append({"function": "?", "message": "verus gave no result", "clause": (err[-400:] or out[-400:])})
    res["ok"] = ran and rc == 0 and not res["fails"] and not res["hard"] and res["errors"] == 0 and res["verified"] > 0
    return res


TRUST = re.compile(r"external_body|assume_specification|\badmit\s*\(|\bassume\s*\(|uninterp spec fn|#\[verifier::external|broadcast axiom|\baxiom fn")


def scan_trust(path):
    out = []
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        if l.strip().startswith("//") and "TRUSTED:" not in l:
            continue
        if "TRUSTED:" in l:
            out.append(l.split("TRUSTED:", 1)[1].strip())
        elif TRUST.search(l):
            t = l.strip()
            if "external_body" in t and i + 1 < len(lines):
                t = t + " " + lines[i + 1].strip()
            out.append(re.sub(r"\s+", " ", t)[:160])
    return out


def do_unit(vx, unit, work, tier):
    src, j = f"{work}/{unit}.rs", f"{work}/{unit}.json"
    rc, o, e = run([vx, f"{VERIF}/units/{unit}.vt", REPO, src, j], timeout=60)
    try:
        meta = json.load(open(j))
    except Exception:
        meta = {"functions": [], "lost": ["vx failed: " + e[-500:]]}
    r = {"unit": unit, "functions": meta["functions"], "lost": meta["lost"], "status": "proved", "attempts": []}
    if rc != 0 or meta["lost"]:
        r["status"] = "lost"
        if not meta["lost"]:
            r["lost"] = ["vx: " + e[-500:]]
        return r
    v = verus(src, ["--smt-option", "timeout=60000"])
    r["attempts"].append(v)
    if v["hard"]:
        r["status"] = "unsupported"
        r["lost"] = [f'{h["function"]}: {h["message"]}: {h["clause"]}' for h in v["hard"]][:5]
        return r
    if not v["ok"]:
        for seed in (7, 23):
            if left(300) < 60:
                break
            v2 = verus(src, ["--rlimit", "40", "--smt-option", "timeout=100000", "--smt-option", f"smt.random_seed={seed}"])
            r["attempts"].append(v2)
            if v2["ok"]:
                v = v2
                break
            if v2["fails"] and len(v2["fails"]) < len(v["fails"]):
                v = v2
        if not v["ok"]:
            # an obligation refuted or left open by a finished query, as against a query that ran out of budget
            real = [f for f in v["fails"] if not f.get("budget")]
            r["status"] = "failed" if real else "budget"
            r["fails"] = real or v["fails"]
            r["result"] = v
            return r
    r["result"] = v
    r["trusted"] = scan_trust(src)
    # vacuity probe
    psrc, pj = f"{work}/{unit}_probe.rs", f"{work}/{unit}_probe.json"
    rc, o, e = run([vx, f"{VERIF}/units/{unit}.vt", REPO, psrc, pj], env=dict(ENV, VX_PROBE="1"), timeout=60)
    probes = json.load(open(pj))["probes"]
    if left(300) < 60:
        r["probes"], r["vacuous"] = 0, ["probe not run: out of time"]
        return r
    pv = verus(psrc, ["--multiple-errors", "40", "--smt-option", "timeout=8000"])
    hit = set()
    ptext = open(psrc).read().split("\n")
    for f in pv["fails"]:
        m = re.search(r"vx_probe\((\d+)\)", ptext[f["line"] - 1] if f["line"] else "")
        if m:
            hit.add(int(m.group(1)))
        elif f.get("budget") and f["line"]:
            # the query with the probe in it ended without a proof: the probe was not shown
            for k in range(f["line"], len(ptext)):
                m = re.search(r"vx_probe\((\d+)\)", ptext[k])
                if m:
                    hit.add(int(m.group(1)))
                if ptext[k].startswith("// VXFN-END"):
                    break
    r["probes"] = len(probes)
    r["vacuous"] = [p["at"] for p in probes if p["probe"] not in hit]
    return r


# ---------------------------------------------------------------- kani
def do_kani(names, work):
    """Loop-free (or operand-width bounded, unwinding assertions on) harnesses over full-domain inputs."""
    d = VERIF + "/kani"
    env = dict(ENV)
    env["RUSTFLAGS"] = "--cfg rerecast_verif"
    cmd = ["cargo", "kani", "--target-dir", BUILD + "/kani", "--output-format", "terse", "-j", "8"]
    for n in names:
        cmd += ["--harness", n, "--exact"]
    t0 = time.time()
    rc, out, err = run(cmd, env=env, cwd=d, timeout=700)
    txt = out + "\n" + err
    r = {"unit": "kani", "cmd": " ".join(cmd), "wall": time.time() - t0, "harnesses": {}, "status": "proved", "fails": [], "lost": []}
    cur = {}
    for l in txt.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[m.group(1)] = m.group(2)
            continue
        m = re.match(r"(?:Thread (\d+):\s*)?(.*)", l)
        th, body = m.group(1), m.group(2)
        if "** " in body and "failed" in body and th in cur:
            mm = re.search(r"\*\* (\d+) of (\d+) failed", body)
            if mm:
                r["harnesses"].setdefault(cur[th], {})["checks"] = int(mm.group(2))
                r["harnesses"][cur[th]]["failed"] = int(mm.group(1))
    for n in names:
        h = r["harnesses"].get(n)
    return r, txt


def main():
    if sys.argv[1] == "--replay":
        f = sys.argv[2]
        rep = json.load(open(f))
        h, hooks = build_harness(PROPS[rep["property"]].get("harness"))
        out = BUILD + "/replay_out.json"
        rc, o, e = run([h, rep["property"], "1", "60000", out, f], timeout=120)
        print(open(out).read())
        raise SystemExit(rc)
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = f"{BUILD}/work_{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    vx = build_vx()
    units = [do_unit(vx, u, work, tier) for u in cfg.get("units", [])]
    for u in units:
        log(f'{u["unit"]}: {u["status"]}', u.get("result", {}).get("verified"), u.get("lost"), [f'{f["function"]}: {f["message"]}' for f in u.get("fails", [])][:5], "vacuous:", u.get("vacuous"))
    failed = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] in ("lost", "unsupported", "budget")]
    # executable contract on the real code
    ms = cfg.get("exec_ms", 15000)
    if tier == "thorough":
        ms *= 8
    if failed or undecided:
        ms = max(ms * 4, 60000)
    ms = int(min(ms, (left(60)) * 1000))
    ex = {"ran": False}
    if cfg.get("exec", True):
        h, hooks = build_harness(cfg.get("harness"))
        if h:
            out = f"{work}/exec.json"
            rc, o, e = run([h, prop, str(seed), str(ms), out], timeout=ms / 1000 + 60)
            try:
                ex = json.load(open(out))
                ex["ran"] = True
                ex["hooks"] = hooks
            except Exception:
                ex = {"ran": False, "error": f"exit {rc}: {e[-800:]}"}
                log("exec:", ex["error"])
                if rc not in (0, 1) and rc != -9:
                    # the process died (stack overflow, abort): that is a failing run of the real code
                    ex = {"ran": True, "hooks": hooks, "groups": {}, "failure": {"group": "process", "case": None, "message": f"process died: exit {rc}: {e[-400:]}"}}
    failure = ex.get("failure")
    known = ex.get("known", [])
    viol = None
    oblig = [{"unit": u["unit"], "function": f["function"], "obligation": f["message"], "clause": f["clause"]} for u in failed for f in u["fails"]]
    if failure:
        viol = {"property": prop, "failed_obligations": oblig, "failure": failure, "how": f"python3 tools/check.py --replay <this file>"}
    elif failed:
        viol = {"property": prop, "failed_obligations": oblig, "failure": None, "verifier_output": [u["attempts"][-1]["fails"] for u in failed],
                "note": "no failing input found by the executable contract"}
    # evidence
    ver = [u for u in units if "result" in u]
    obligations = sum(u["result"]["verified"] + u["result"]["errors"] for u in ver) + sum(len(u["functions"]) or 1 for u in undecided if "result" not in u)
    discharged = sum(u["result"]["verified"] for u in ver)
    trusted = sorted({t for u in units for t in u.get("trusted", [])})
    assumptions = list(cfg.get("assumptions", []))
    for u in undecided:
        assumptions.append(f'UNDECIDED unit {u["unit"]} ({u["status"]}): {u.get("lost") or [f["function"] for f in u.get("fails", [])]}; only the bounded executable contract was checked for it')
    for u in units:
        for v in u.get("vacuous") or []:
            assumptions.append(f'vacuity probe did not fail at {v} (unit {u["unit"]})')
    funcs = [f'{f["function"]} ({f["file"]}:{f["line"]})' for u in units for f in u["functions"]]
    groups = ex.get("groups") or {}
    ev = sum(g["evaluations"] for g in groups.values())
    nt = sum(g["nontrivial"] for g in groups.values())
    samples = [{"group": n, "case": c} for n, g in groups.items() for c in g["samples"][:1]][:4]
    level = cfg["level"]
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": (ver[0]["result"]["cmd"] if ver else "none"),
        "trusted_base": trusted + list(cfg.get("trusted", [])),
        "functions_under_contract": funcs,
        "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": sum(u["result"]["smt_ms"] for u in ver),
        "per_function": [f for u in ver for f in u["result"]["funcs"] if f["ms"] >= 50],
        "rewrites": sorted({f'{f["function"]}: {r}' for u in units for f in u["functions"] for r in f["rewrites"]}),
        "vacuity_probes": sum(u.get("probes", 0) for u in units),
        "vacuity_probes_not_failing": [v for u in units for v in (u.get("vacuous") or [])],
        "units": {u["unit"]: u["status"] for u in units},
        "bounded_stand_in": {"label": "bounded: executable contract on generated inputs, never counted as proved", "scope": cfg.get("bounded", "replay of the contract above"),
                             "seed": seed, "budget_ms": ms, "hooks": ex.get("hooks"), "ran": ex.get("ran", False)},
        "evaluations": ev,
        "distinct_nontrivial": nt,
        "rule": cfg.get("rule", "generated inputs; non-trivial when the operation under contract has an effect"),
        "samples": samples or [{"functions": funcs[:3]}],
        "explanation": cfg.get("explanation", ""),
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    json.dump(evidence, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = f"{VERIF}/replays/{prop}.json"
        json.dump(viol, open(path, "w"), indent=1)
        for f in oblig[:8]:
            log("FAILED OBLIGATION", f["function"], f["obligation"], f["clause"])
        if failure:
            log("FAILING INPUT", failure["message"])
        print(f"VIOLATION property={prop} replay={path}" + ("" if failure else " no-failing-input-found"))
        sys.exit(1)
    if not ver and not ex.get("ran"):
        log("nothing could be decided")
        sys.exit(2)
    print(f"OK property={prop} obligations={obligations} discharged={discharged} bounded_cases={ev}")
    sys.exit(0)


main()
