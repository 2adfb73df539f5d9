#!/usr/bin/env python3
"""Decide one property: run_check.py <id>

1. extract the functions of the property from /repo's working tree, splice in the
   contracts (tools/extract), verify every obligation with Verus;
2. vacuity guard: with assert(false) at the start of every verified function each
   of them must fail;
3. compare the compiled code of /repo with an independent executable reading of the
   property (oracle*) - validates extraction and assumed contracts, produces the
   failing input when an obligation fails, and stands in (labelled bounded) where
   the extraction or the verifier gives no answer.

exit 0 held, 1 violation, 2 the check itself failed.
"""
import json, os, re, subprocess, sys, time

BASE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(BASE, ".build")
T0 = time.time()
BUDGET = 860.0


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, timeout, cwd=BASE, env=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=max(1.0, timeout), text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(x.stdout), d(x.stderr)


def fail(msg):
    print("ERROR " + msg)
    sys.exit(2)


def cargo(name, timeout):
    return run(["cargo", "build", "--release", "--offline", "--quiet"], timeout,
               cwd=os.path.join(BASE, "tools/extract" if name == "extract" else name),
               env={"CARGO_TARGET_DIR": os.path.join(BUILD, name)})


# ------------------------------------------------------------------ extraction

def extract(pid, plan, smoke):
    sfx = "_smoke" if smoke else ""
    tag = f"{pid}_{plan}".replace("@", "_of_")
    # P15@P15: the obligations of another property, which discharge contracts assumed here
    plan, _, other = plan.partition("@")
    pid = other or pid
    out = os.path.join(BUILD, "gen", f"{tag}{sfx}.rs")
    mp = os.path.join(BUILD, "gen", f"{tag}{sfx}.json")
    for f in (out, mp):
        if os.path.exists(f):
            os.remove(f)
    x = os.path.join(BUILD, "extract", "release", "extract")
    rc, so, se = run([x, "--repo", REPO, "--base", BASE, "--plan", os.path.join(BASE, "plans", plan + ".plan"),
                      "--property", pid, "--smoke", "1" if smoke else "0", "--out", out, "--map", mp], 120)
    if rc != 0:
        return None, None, se.strip() or f"extractor exit {rc}"
    return out, json.load(open(mp)), ""


def options(plan, opts):
    """Verus options of the property whose obligations these are"""
    other = plan.partition("@")[2]
    return json.load(open(os.path.join(BASE, "checks.json")))[other].get("verus", []) if other else opts


def owner(m, line):
    best = None
    for f in m["functions"]:
        a, b = f["gen"]
        if a <= line <= b and f["mode"] in ("verify", "helper"):
            best = f
    return best


class Verus:
    """outcome of one Verus run: kind = proved | failed | inconclusive"""

    def __init__(self, out, m, opts, timeout, smoke=False):
        cmd = ["verus", os.path.basename(out), "--crate-type", "lib", "--output-json", "--time-expanded",
               "--error-format=json", "--num-threads", "6", "--triggers-mode", "silent"] + opts
        self.cmd = " ".join(cmd)
        t = time.time()
        rc, so, se = run(cmd, timeout, cwd=os.path.dirname(out))
        self.secs = time.time() - t
        self.verified = self.errors = 0
        self.failed = []
        self.reason = ""
        self.fns = []
        self.solver_ms = 0
        self.version = ""
        if rc == 124:
            self.kind, self.reason = "inconclusive", "verifier timeout"
            return
        try:
            j = json.loads(so[so.index("{"):])
        except Exception:
            self.kind, self.reason = "inconclusive", "verifier crashed: " + se[-400:]
            return
        r = j.get("verification-results", {})
        self.verified, self.errors = r.get("verified", 0), r.get("errors", 0)
        self.version = j.get("verus", {}).get("version", "")
        try:
            for md in j["times-ms"]["smt"]["smt-run-module-times"]:
                for f in md.get("function-breakdown", []):
                    self.fns.append({"function": f["function"], "ms": f.get("time-micros", 0) / 1000.0,
                                     "rlimit": f.get("rlimit", 0), "ok": f.get("success", None)})
            self.solver_ms = j["times-ms"]["smt"].get("smt-run", 0)
        except Exception:
            pass
        diags = []
        for l in se.splitlines():
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
        rl = False
        for d in diags:
            msg = d["message"]
            sp = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
            f = None
            for s in sorted(d["spans"], key=lambda s: not s.get("is_primary")):
                f = owner(m, s["line_start"])
                if f:
                    break
            txt = "; ".join(x["text"].strip() for s in d["spans"] for x in s.get("text", [])[:2])
            if "rlimit" in msg.lower() or "resource limit" in msg.lower():
                rl = True
            self.failed.append({"obligation": msg, "function": f["key"] if f else "(lemma or specification)",
                                "source": f"{f['file']}:{f['line']}" if f else "", "text": txt[:600],
                                "rendered": d.get("rendered", "")[:1500], "mode": f["mode"] if f else ""})
        if r.get("encountered-vir-error") or (rc != 0 and self.errors == 0):
            self.kind = "inconclusive"
            self.reason = "verifier does not accept the text: " + "; ".join(x["obligation"] for x in self.failed[:3])
        elif rc == 0 and r.get("success") and self.errors == 0 and self.verified > 0:
            self.kind = "proved"
        elif rl:
            self.kind, self.reason = "inconclusive", "resource limit"
        elif self.errors > 0:
            self.kind = "failed"
        else:
            self.kind, self.reason = "inconclusive", "no obligations"


# ------------------------------------------------------------------ search

def search(pid, binary, seed, secs):
    exe = os.path.join(BUILD, binary, "release", binary)
    rc, so, se = run([exe, "search", pid, str(seed), str(secs)], min(left(), secs * 6 + 120))
    d = {"evaluations": 0, "distinct": 0, "rule": "", "samples": [], "fail": None}
    inp = reason = None
    for l in so.splitlines():
        k, _, v = l.partition(" ")
        if k == "EVALUATIONS":
            d["evaluations"] = int(v)
        elif k == "DISTINCT":
            d["distinct"] = int(v)
        elif k == "RULE":
            d["rule"] = v
        elif k == "SAMPLE":
            d["samples"].append(v)
        elif k == "INPUT":
            inp = v
        elif k == "REASON":
            reason = v
    if rc == 1 and inp is not None:
        d["fail"] = {"input": inp, "reason": reason, "cmd": f"{exe} replay {pid} {inp}"}
    elif rc in (-4, -6, -11):
        # a crash that is no panic (stack overflow, abort): once more, leaving a trace of the last case
        t = os.path.join(BUILD, "replay", f"{pid}.trace")
        rc, so, se = run([exe, "search", pid, str(seed), str(secs * 3)], min(left(), secs * 18 + 120), env={"ORACLE_TRACE": t})
        if rc in (-4, -6, -11) and os.path.exists(t):
            inp = open(t).read()
            d["fail"] = {"input": inp, "reason": f"the process dies: {se[-200:]}", "cmd": f"{exe} replay {pid} {inp}"}
        else:
            d["error"] = f"oracle exit {rc}: {se[-400:]}"
    elif rc != 0:
        d["error"] = f"oracle exit {rc}: {se[-400:]}"
    return d


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = json.load(open(os.path.join(BASE, "checks.json")))[pid]
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    os.makedirs(os.path.join(BASE, "evidence"), exist_ok=True)

    rc, so, se = cargo("extract", 600)
    if rc != 0:
        fail("extractor does not build: " + se[-800:])
    oracle = conf.get("oracle", "oracle")
    rc, so, se = cargo(oracle, 700)
    if rc != 0:
        fail("the tree does not build with the oracle: " + se[-1500:])

    plans = conf.get("plans", [])
    opts = conf.get("verus", [])
    runs = []
    for pl in plans:
        out, m, err = extract(pid, pl, False)
        if out is None:
            runs.append((pl, None, None, err))
            continue
        v = Verus(out, m, options(pl, opts), left() - 90)
        runs.append((pl, m, v, ""))

    shapes = json.load(open(os.path.join(BASE, "baseline.json")))
    lost, failed, inconcl, reshaped = [], [], [], []
    for pl, m, v, err in runs:
        if v is None:
            inconcl.append(f"{pl}: {err}")
            continue
        lost += m["lost"]
        reshaped += [f"{f['key']}: loop headers differ from those its invariants were written for"
                     for f in m["functions"] if f["mode"] == "verify" and f["loops"] != shapes.get(f["key"], [])]
        if v.kind == "failed" and "@" in pl:
            # says that something this property relies on changed, not that the property fails
            inconcl += [f"{pl}: {x['function']}: {x['obligation']}" for x in v.failed]
        elif v.kind == "failed":
            failed += v.failed
        elif v.kind == "inconclusive":
            inconcl.append(f"{pl}: {v.reason}")
    # an invariant that no longer fits a rewritten loop says nothing about the property
    if failed and reshaped:
        inconcl += reshaped
    proved = bool(runs) and not lost and not failed and not inconcl

    # vacuity guard, only meaningful when everything was accepted
    smoke_total = smoke_bad = 0
    if proved:
        for pl, m, v, err in runs:
            if "@" in pl:
                continue  # guarded by the check of that property
            out, sm, err = extract(pid, pl, True)
            sv = Verus(out, sm, options(pl, opts), left() - 60, smoke=True)
            want = {f["key"] for f in sm["functions"] if f["mode"] == "verify" and f["contract"]}
            got = {x["function"] for x in sv.failed}
            smoke_total += len(want)
            miss = want - got
            if sv.kind != "failed" or miss:
                smoke_bad += len(miss)
                inconcl.append(f"vacuity guard: assert(false) not refuted in {sorted(miss)} ({sv.kind} {sv.reason})")
                proved = False

    secs = conf.get("secs", {}).get(tier, 10 if tier == "quick" else 120)
    if not proved:
        secs = max(secs, conf.get("secs", {}).get("standin", 45))
    secs = min(secs, max(5.0, (left() - 60) / 6))
    s = search(pid, oracle, seed, secs)

    verified = sum(v.verified for _, _, v, _ in runs if v)
    errors = sum(v.errors for _, _, v, _ in runs if v)
    fns = [f for _, m, v, _ in runs if m for f in m["functions"]]
    slow = sorted((f for _, _, v, _ in runs if v for f in v.fns), key=lambda f: -f["ms"])
    trusted = ["Verus and its solver Z3", "tools/extract (rewrites listed in DESIGN.md)", "rustc"]
    trusted += conf.get("trusted", [])
    # a function assumed in one plan and verified against the same contract in another is not an assumption
    done = {(f["key"], f["spec"]) for f in fns if f["mode"] == "verify"}
    taken = {f["key"]: f["spec"] for f in fns if f["mode"] == "assume" and (f["key"], f["spec"]) not in done}
    # without a postcondition nothing is assumed but that the call returns
    returns = sorted(k for k, c in taken.items() if c in ("", "ensures true,"))
    assumed = sorted(set(taken) - set(returns))
    specs = assumption_scan(pid, plans)
    cov = {
        "obligations": verified + errors,
        "discharged": verified,
        "checker_cmd": "; ".join(v.cmd for _, _, v, _ in runs if v) or "none",
        "trusted_base": trusted,
        "back_end": "Verus " + ", ".join(sorted({v.version for _, _, v, _ in runs if v})) + " / Z3",
        "solver_ms": sum(v.solver_ms for _, _, v, _ in runs if v),
        "verifier_s": round(sum(v.secs for _, _, v, _ in runs if v), 2),
        "functions_under_contract": sorted({f["key"] for f in fns if f["mode"] == "verify"}),
        "assumed_functions": assumed,
        "assumed_to_return": returns,
        "slowest": slow[:5],
        "vacuity_guard": {"functions": smoke_total, "not_failing": smoke_bad},
        "evaluations": s["evaluations"],
        "distinct_nontrivial": s["distinct"],
        "rule": s["rule"],
        "samples": s["samples"],
    }
    level = conf.get("level", "proof")
    if not proved or not plans:
        level = "exploration"
        cov["bounded"] = True
        cov["why_not_proved"] = (lost + inconcl + [f"failed: {f['function']}: {f['obligation']}" for f in failed])[:20]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": conf.get("assumptions", []) + specs + [f"assumed contract: {a}" for a in assumed]
          + [f"assumed to return without panic, result unconstrained: {a}" for a in returns],
          "wall_s": 0.0, "violations": 0}

    replay = os.path.join(BUILD, "replay", f"{pid}.json")
    verdict = 0
    line = ""
    if s["fail"]:
        verdict = 1
        line = f"VIOLATION property={pid} replay={replay}"
        json.dump({"property": pid, "failing_input": s["fail"]["input"], "reason": s["fail"]["reason"],
                   "replay_cmd": s["fail"]["cmd"], "failed_obligations": failed, "lost_anchors": lost,
                   "inconclusive": inconcl}, open(replay, "w"), indent=1)
        print(f"failing input: {s['fail']['input'][:400]}\nreason: {(s['fail']['reason'] or '')[:800]}")
    elif failed and not lost and not inconcl:
        verdict = 1
        line = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
        json.dump({"property": pid, "failing_input": None, "failed_obligations": failed,
                   "note": "the obligation passed on the unchanged tree and is no longer accepted; "
                           f"{s['evaluations']} inputs tried without finding a failing one"}, open(replay, "w"), indent=1)
    for f in failed[:6]:
        print(f"failed obligation: {f['function']} ({f['source']}): {f['obligation']}: {f['text'][:200]}")
    for x in lost[:6] + inconcl[:6]:
        print(f"no proof: {x}")
    if s.get("error") and verdict == 0:
        print("ERROR " + s["error"])
        verdict = 2
    ev["violations"] = 1 if verdict == 1 else 0
    ev["wall_s"] = round(time.time() - T0, 2)
    with open(os.path.join(BASE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in open(os.path.join(BASE, "known-findings.txt")):
        if k.startswith(f"known: property={pid} "):
            print("KNOWN-FINDING: " + k[len("known: "):].strip())
    if verdict == 0:
        how = f"proved, {verified} obligations" if proved else "BOUNDED stand-in, not proved"
        print(f"OK property={pid} ({how}; {s['evaluations']} inputs compared; {ev['wall_s']} s)")
    if line:
        print(line)
    sys.exit(verdict)


def assumption_scan(pid, plans):
    """every assume/admit/external_body/assume_specification in the generated text"""
    found = {}
    for pl in plans:
        p = os.path.join(BUILD, "gen", f"{pid}_{pl}.rs".replace("@", "_of_"))
        if not os.path.exists(p):
            continue
        lines = open(p).read().splitlines()
        for n, l in enumerate(lines):
            t = l.strip()
            if t.startswith("//"):
                continue
            if re.search(r"\bassume_specification\b", t):
                found["assumed library specification: " + re.sub(r".*\[\s*(.*?)\s*\].*", r"\1", t)[:160]] = 1
            elif re.search(r"\b(assume|admit)\s*\(", t):
                found["assume: " + t[:160]] = 1
            elif "external_body" in t or "axiom fn" in t:
                nx = t if "axiom fn" in t else next((x.strip() for x in lines[n + 1:n + 6] if "fn " in x or "struct " in x), "")
                found["trusted: " + nx[:160]] = 1
    return sorted(found)


if __name__ == "__main__":
    main()
