#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's current source.

 1. `vx` extracts the functions named in the property's units from /repo/src and merges them with their contracts.
 2. Verus (or Kani, for the loop-free arithmetic of P02) discharges every obligation.
 3. A bounded exploration of the compiled crate runs beside it; it supplies failing inputs for failed obligations and
    covers (bounded, never counted as proved) what the contracts trust.

Exit 0: the property holds on everything explored. Exit 1: `VIOLATION property=ID replay=PATH`.
"""
import fcntl, json, os, re, subprocess, sys, threading, time, glob, shutil
from units import UNITS, NATIVE_SECONDS, TRUSTED

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
WORK = os.path.join(HERE, "evidence", "work")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
VX = os.path.join(HERE, "vx/target/debug/vx")
NATIVE = os.path.join(HERE, "native/target/debug/native")


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode("utf8", "replace") if isinstance(b, bytes) else (b or "")
        return 124, d(e.stdout), d(e.stderr)


def build():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(HERE, "vx"))
        if rc != 0:
            print("vx does not build:", err[-2000:], file=sys.stderr)
            sys.exit(2)
        rc, _, err = sh(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(HERE, "native"))
        return rc == 0, err[-3000:]


class Unit:
    """Result of one Verus file."""
    def __init__(self, name):
        self.name = name
        self.functions, self.lemmas, self.failed, self.undecided = [], [], [], []
        self.obligations = self.discharged = 0
        self.smt_ms = 0
        self.trusted = []
        self.wall = 0.0


def diagnostics(err):
    out = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                out.append(d)
    return out


FAIL = re.compile(r"(not satisfied|assertion failed|might not|possible|invariant not|unable to prove|decreases|precondition|postcondition|might fail|overflow|underflow|divi|out of bounds|not be covered|could not prove)", re.I)


def scan_trust(text):
    """Everything the verified file assumes."""
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "external_fn_specification" in s or "assume_specification" in s:
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(fn|struct)\s+(\w+)|assume_specification.*\[(.*)\]", lines[k])
                if m:
                    out.append("external_body %s" % (m.group(2) or m.group(3)))
                    break
        if re.search(r"\b(assume|admit)\s*\(", s):
            out.append("assume: " + s[:120])
        if s.startswith("axiom fn") or s.startswith("pub axiom fn") or "broadcast axiom" in s:
            out.append("axiom: " + s[:120])
    return sorted(set(out))


def enclosing(text_lines, line):
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof|spec|open spec|closed spec|exec)?\s*fn\s+(\w+)", text_lines[i])
        if m:
            return m.group(1)
    return "?"


def verus_unit(name, opts, limit):
    u = Unit(name)
    t0 = time.time()
    rs, js = os.path.join(WORK, name + ".rs"), os.path.join(WORK, name + ".json")
    rc, _, err = sh([VX, os.path.join(HERE, "verus", name + ".vx"), os.path.join(REPO, "src"), rs, js], 120)
    if rc != 0:
        if rc != 3:
            print("vx:", err, file=sys.stderr)
        u.undecided.append("extraction: " + err.strip()[-500:])
        u.wall = time.time() - t0
        return u
    info = json.load(open(js))
    text = open(rs).read()
    lines = text.splitlines()
    u.trusted = scan_trust(text)
    args = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent", "--multiple-errors", "5", "--num-threads", "8"] + opts
    rc, out, err = sh(args, limit)
    if any("rlimit" in d["message"] for d in diagnostics(err)):
        rc, out, err = sh([a for i, a in enumerate(args) if "--rlimit" not in args[max(0, i - 1):i + 1]] + ["--rlimit", "200"], limit)
    u.cmd = " ".join(args)
    u.wall = time.time() - t0
    try:
        j = json.loads(out)
        vr = j["verification-results"]
    except (ValueError, KeyError):
        j, vr = None, {}
    diags = diagnostics(err)
    if not j or vr.get("encountered-vir-error") or "verified" not in vr or (not vr.get("success") and vr.get("errors", 0) == 0):
        msg = "; ".join(d["message"] + (" (line %s)" % d["spans"][0]["line_start"] if d["spans"] else "") for d in diags[:3]) or ("timeout" if rc == 124 else err[-300:])
        u.undecided.append("verifier cannot read the extracted code: " + msg)
        return u
    for m in j["times-ms"]["smt"].get("smt-run-module-times", []):
        u.smt_ms += m["time-micros"] / 1000.0
        for f in m.get("function-breakdown", []):
            if f["function"].endswith("::clone"):
                continue
            u.obligations += 1
            u.discharged += bool(f["success"])
            u.lemmas.append({"name": f["function"], "mode": f.get("mode:"), "ms": f["time-micros"] / 1000.0, "ok": f["success"]})
    u.assumed = ["contract of %s (src/%s), discharged in another unit" % (f["path"], f["file"]) for f in info["functions"] if f.get("assumed")]
    u.trusted = [t for t in u.trusted if t.split()[-1] not in {f["name"].split("::")[-1] for f in info["functions"] if f.get("assumed")}] + u.assumed
    u.functions = [{"function": f["path"], "file": "src/" + f["file"], "as": f["name"], "rewrites": f["rules"], "inlined_helpers": f["inlined"], "hash": f["hash"]} for f in info["functions"] if not f.get("assumed")]
    lost = info["lost"]
    for d in diags:
        if d["message"].startswith("aborting due"):
            continue
        prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        line = prim[0]["line_start"] if prim else 0
        lines_all = [s["line_start"] for s in d["spans"]] or [0]
        fn = None
        for f in info["functions"]:
            if any(f["start"] <= l <= f["end"] for l in lines_all):
                fn = f
        src = prim[0]["text"][0]["text"].strip() if prim and prim[0].get("text") else ""
        label = "; ".join(s["text"][0]["text"].strip() for s in d["spans"] if s.get("text"))[:300]
        what = "%s: %s [%s]" % (fn["path"] if fn else enclosing(lines, line), d["message"], label or src)
        if "rlimit" in d["message"] or "Resource limit" in d["message"]:
            u.undecided.append("resource limit: " + what)
        elif fn is None:
            u.undecided.append("lemma of the machinery: " + what)
        elif any(l.startswith(fn["path"] + ":") for l in lost) or any(l.startswith(fn["path"] + ":") for l in fn["lost"]):
            u.undecided.append("proof hints lost: " + what)
        elif FAIL.search(d["message"]):
            u.failed.append({"obligation": what, "function": fn["path"], "file": "src/" + fn["file"], "output": d.get("rendered", "")[:4000]})
        else:
            u.undecided.append(what)
    if not diags and u.obligations == 0:
        u.undecided.append("no obligations were generated")
    return u


def kani_unit(name, opts, limit):
    import kaniunit
    u = Unit(name)
    t0 = time.time()
    kaniunit.run(u, name, opts, limit, HERE, REPO, WORK, sh, ENV)
    u.wall = time.time() - t0
    return u


def native(pid, tier, seed, seconds, tag):
    out = os.path.join(WORK, "%s-%s.json" % (pid, tag))
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([NATIVE, "run", pid, "--tier", tier, "--seed", str(seed), "--seconds", str(seconds), "--shards", "8", "--out", out], seconds * 3 + 120)
    try:
        return rc, json.load(open(out))
    except (OSError, ValueError):
        return rc, {"error": (o + e)[-1000:], "violation": None, "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "tags": {}}


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k["property"] == pid and k["status"] == "known":
                out.append(k)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    have_native, builderr = build()
    known = known_findings(pid)
    res = {}

    def deductive():
        units = []
        for kind, name, opts in UNITS[pid]:
            units.append((verus_unit if kind == "verus" else kani_unit)(name, opts, 420))
        res["units"] = units

    th = threading.Thread(target=deductive)
    th.start()
    ns = NATIVE_SECONDS.get(pid, {}).get(tier, 40 if tier == "quick" else 400)
    if have_native:
        rc, nat = native(pid, tier, seed, ns, tier)
    else:
        rc, nat = 2, {"error": "does not build: " + builderr, "violation": None, "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "tags": {}}
    th.join()
    units = res.get("units")
    if units is None:
        print("the deductive part crashed", file=sys.stderr)
        sys.exit(2)
    failed = [dict(f, unit=u.name) for u in units for f in u.failed]
    undecided = [u.name + ": " + x for u in units for x in u.undecided]
    # an obligation failed and no input is known yet: search longer
    if failed and not nat["violation"] and have_native:
        rc, more = native(pid, "thorough", seed + 1000, 150, "witness")
        if more["violation"]:
            nat["violation"] = more["violation"]
        nat["witness_search_evaluations"] = more["evaluations"]
    replay = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
    violation = None
    if nat["violation"]:
        violation = ""
    elif failed:
        violation = " no-failing-input-found"
    if violation is not None:
        r = {"property": pid, "failed_obligations": failed, "undecided": undecided}
        if nat["violation"]:
            r.update(nat["violation"])
            r["replay_cmd"] = "native/target/debug/native replay %s %s" % (pid, replay)
        json.dump(r, open(replay, "w"), indent=1)

    obligations = sum(u.obligations for u in units)
    discharged = sum(u.discharged for u in units)
    trusted = sorted({t for u in units for t in u.trusted})
    bounded = {
        "label": "bounded exploration of the compiled crate, not counted as proved",
        "seconds": ns,
        "evaluations": nat["evaluations"],
        "distinct_nontrivial": nat["distinct_nontrivial"],
        "rule": nat["rule"],
        "samples": nat["samples"][:5],
        "classes": nat.get("tags", {}),
    }
    if nat.get("error"):
        bounded["error"] = nat["error"]
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(getattr(u, "cmd", u.name) for u in units),
        "trusted_base": trusted + TRUSTED.get(pid, []),
        "functions_under_contract": [dict(f, unit=u.name) for u in units for f in u.functions],
        "verifier_queries": [dict(l, unit=u.name) for u in units for l in u.lemmas],
        "solver_ms": round(sum(u.smt_ms for u in units), 1),
        "back_ends": sorted({"Kani 0.68 / CBMC" if k == "kani" else "Verus 0.2026.09.13 / Z3" for k, _, _ in UNITS[pid]}),
        "units": [{"unit": u.name, "wall_s": round(u.wall, 1), "obligations": u.obligations, "discharged": u.discharged} for u in units],
        "failed": [f["obligation"] for f in failed],
        "undecided": undecided,
        "bounded_stand_in": bounded,
    }
    degraded = bool(undecided) and not failed
    if degraded:
        cov["explanation"] = "DEGRADED: the verifier did not decide every obligation on this source; only the bounded exploration speaks for those."
    cov["evaluations"] = nat["evaluations"]
    cov["distinct_nontrivial"] = nat["distinct_nontrivial"]
    cov["rule"] = nat["rule"]
    cov["samples"] = nat["samples"][:5]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration" if degraded else "proof",
        "coverage": cov,
        "assumptions": trusted + TRUSTED.get(pid, []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d/%d obligations discharged by %s (%d functions of /repo under contract), %d inputs explored, %.0f s" % (
        pid, discharged, obligations, " + ".join(cov["back_ends"]), len(cov["functions_under_contract"]), nat["evaluations"], ev["wall_s"]))
    for x in undecided:
        print("UNDECIDED", x)
    for f in failed:
        print("FAILED OBLIGATION", f["obligation"])
    if nat["violation"]:
        print("failing input:", json.dumps(nat["violation"])[:1500])
    if violation is not None:
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, violation))
        sys.exit(1)
    if not have_native or (nat.get("error") and degraded):
        print("the bounded exploration did not run:", nat.get("error", "")[-500:])
        if degraded:
            sys.exit(2)
    sys.exit(0)


main()
