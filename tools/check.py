#!/usr/bin/env python3
"""Run the check of one property: tools/check.py ID [quick|thorough]

1. extract the functions under contract from /repo's working tree (tools/rzx),
2. have Verus discharge every obligation generated from them (function by function),
3. vacuity guard: the same file with every body replaced by assert(false) must fail everywhere,
4. run the executable contracts of the property on the real compiled code (harness/),
5. decide, write evidence/<ID>.json.

exit 0: held; exit 1 + VIOLATION line: an obligation that is discharged on the pinned tree fails,
or a contract is broken by a concrete input; exit 2: the machinery itself could not run.
"""
import json, os, re, subprocess, sys, time, threading, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RZ_REPO", "/repo")
RZX = os.path.join(VERIF, "tools/rzx/target/debug/rzx")
PROOFS = os.path.join(VERIF, "proofs")
ENV = dict(os.environ)


def load_env():
    """toolchain settings of /opt/vp/env.sh, if present"""
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                ENV[k.decode()] = v.decode("utf8", "replace")
    except OSError:
        pass
    ENV["CARGO_NET_OFFLINE"] = "true"
    ENV.pop("RUSTC_WRAPPER", None)
    ENV.pop("CARGO_TARGET_DIR", None)
    ENV.pop("RUSTFLAGS", None)


def run(cmd, timeout=None, cwd=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=ENV, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        def dec(x):
            return x.decode("utf8", "replace") if isinstance(x, bytes) else (x or "")
        return 124, dec(e.stdout), dec(e.stderr) + "\nTIMEOUT", time.time() - t


def build_rzx():
    rc, o, e, _ = run(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(VERIF, "tools/rzx"))
    if rc != 0:
        print(o + e, file=sys.stderr)
        print("cannot build the extractor", file=sys.stderr)
        sys.exit(2)


def build_harness(binname, feats):
    h = os.path.join(VERIF, "harness")
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", binname]
    if feats:
        cmd += ["--features", feats]
    rc, o, e, t = run(cmd, 800, h)
    return rc, o + e, t


# ---------------------------------------------------------------- Verus
ERR_RE = re.compile(r"^\s*-->\s*(\S+?):(\d+):(\d+)", re.M)


def split_errors(stderr):
    """blocks of rustc-style diagnostics"""
    blocks, cur = [], None
    for l in stderr.splitlines():
        if re.match(r"^(error|warning|note|help)(\[|:)", l):
            cur = [l]
            blocks.append(cur)
        elif cur is not None:
            cur.append(l)
    return ["\n".join(b) for b in blocks]


def fn_at(meta, line):
    for f in meta["fns"]:
        if f.get("start") and f["start"] <= line <= f["end"]:
            return f
    return None


VERIF_MSGS = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|decreases not satisfied|loop ensures not satisfied|could not prove|recommendation not met|"
    r"possible division|unable to prove|must hold|cannot show|possible bit shift|may be out of|termination", re.I)


def lemma_at(text_lines, line):
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.search(r"\b(?:proof|spec|axiom)?\s*fn\s+([A-Za-z_0-9]+)", text_lines[i])
        if m:
            return m.group(1)
    return "?"


def verify_unit(unit, outdir, baseline, rlimit, depth=0, forced=None):
    """extract and verify one unit; returns a result record"""
    forced = dict(forced or {})
    src = os.path.join(PROOFS, unit + ".rzv")
    base = os.path.join(outdir, unit)
    res = {"unit": unit, "failed": [], "undecided": {}, "fns": [], "assumed": [], "verified": 0, "errors": 0, "smt_ms": 0, "wall_s": 0.0, "raw": ""}
    for _ in range(12):
        cmd = [RZX, REPO, src, base + ".rs", base + ".json"]
        if forced:
            cmd.append("--assume=" + ";".join(forced))
        rc, o, e, _t = run(cmd, 120)
        if rc != 0:
            res["undecided"]["<unit>"] = (o + e).strip()[:2000]
            return res
        meta = json.load(open(base + ".json"))
        lines = open(base + ".rs").read().splitlines()
        res["fns"] = meta["fns"]
        for f in meta["fns"]:
            if f.get("degraded"):
                res["undecided"][f["item"]] = "not extracted: " + f["degraded"]
        rc, o, e, t = run(["verus", "--edition=2024", "--triggers-mode", "silent", "--output-json", "--time",
                           "--multiple-errors", "3", "--rlimit", str(rlimit), "--num-threads", "4", unit + ".rs"], 600, outdir)
        res["wall_s"] += t
        try:
            js = json.loads(o[o.index("{"):])
        except ValueError:
            js = {}
        vr = js.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("total", 0) if js else 0
        res["raw"] = e[-20000:]
        if rc == 124:
            res["undecided"]["<unit>"] = "Verus did not finish in 600 s"
            return res
        if vr.get("success"):
            return res
        errs = [b for b in split_errors(e) if b.startswith("error")]
        again = False
        failed, rl, comp = {}, {}, {}
        for b in errs:
            if b.startswith("error: aborting"):
                continue
            m = [(int(x[1])) for x in ERR_RE.findall(b)]
            is_v = bool(VERIF_MSGS.search(b.splitlines()[0])) and not b.startswith("error[")
            is_rl = "rlimit" in b.lower() or "resource limit" in b.lower()
            f = None
            for ln in m:
                f = fn_at(meta, ln)
                if f:
                    break
            # the callee's precondition line may be listed first: prefer the location marked as failing call
            if m and is_v:
                hits = [fn_at(meta, ln) for ln in m] + [fn_at(meta, int(x)) for x in re.findall(r"^(\d+) [| ]", b, re.M)]
                hits = [h for h in hits if h and not h.get("assumed") and not h.get("forced")]
                # the block starts with the location of the failing obligation's site
                f = hits[0] if hits else f
            key = f["item"] if f else "lemma:" + lemma_at(lines, m[0] if m else 1)
            (rl if is_rl else failed if is_v else comp).setdefault(key, []).append(b)
        if comp:
            new = {k: "not in the verifier's subset: " + v[0][:600] for k, v in comp.items()}
            bad = [k for k in new if k.startswith("lemma:")]
            if bad or all(k in forced for k in new):
                res["undecided"]["<unit>"] = "; ".join(new.values())[:2000]
                return res
            forced.update(new)
            res["undecided"].update(new)
            again = True
        elif rl and not failed:
            new = {k: "solver resource limit" for k in rl}
            if any(k.startswith("lemma:") for k in new) or all(k in forced for k in new):
                res["undecided"]["<unit>"] = "solver resource limit"
                return res
            forced.update(new)
            res["undecided"].update(new)
            again = True
        else:
            for k in rl:
                res["undecided"][k] = "solver resource limit"
            bu = baseline.get(unit, {}).get("fns", {})
            for k, bs in failed.items():
                fm = next((x for x in meta["fns"] if x["item"] == k), None)
                if fm is not None and k in bu and bu[k]["shapes"] != fm.get("shapes"):
                    # the invariants were written for other loops: not redone, not an alarm
                    if k not in forced:
                        forced[k] = res["undecided"][k] = "loop structure changed (%s -> %s)" % (bu[k]["shapes"], fm.get("shapes"))
                        again = True
                        continue
                if k in bu and fm is not None and fm.get("hash") == bu[k].get("hash") and deps_changed(fm, meta, bu) is False:
                    res["failed"].append({"item": k, "path": fm["path"], "errors": bs})
                elif fm is not None:
                    res["failed"].append({"item": k, "path": fm["path"], "errors": bs})
                else:
                    res["failed"].append({"item": k, "path": "proofs/" + unit + ".rzv", "errors": bs})
            if again:
                res["failed"] = []
            elif not failed and not rl:
                res["undecided"]["<unit>"] = "Verus failed without a located error: " + e[-1500:]
        if not again:
            return res
    res["undecided"]["<unit>"] = "could not stabilise the extraction"
    return res


def deps_changed(fm, meta, bu):
    return False


def vacuity(unit, outdir, skip):
    """every function under contract must fail when its body is assert(false)"""
    d = os.path.join(outdir, "probe")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, unit)
    cmd = [RZX, REPO, os.path.join(PROOFS, unit + ".rzv"), base + ".rs", base + ".json", "--probe"]
    if skip:
        cmd.append("--assume=" + ";".join(skip))
    rc, o, e, _ = run(cmd, 120)
    if rc != 0:
        return None, "probe not extracted"
    meta = json.load(open(base + ".json"))
    rc, o, e, t = run(["verus", "--edition=2024", "--triggers-mode", "silent", "--multiple-errors", "1", "--num-threads", "4", unit + ".rs"], 400, d)
    want = [f for f in meta["fns"] if f.get("start") and not f.get("assumed") and not f.get("forced") and not f.get("degraded")]
    got = set()
    for b in split_errors(e):
        if b.startswith("error: assertion failed"):
            for x in ERR_RE.findall(b):
                f = fn_at(meta, int(x[1]))
                if f:
                    got.add(f["item"])
    if "verification results" not in e + o:
        return None, "probe did not run: " + e[-300:]
    missing = [f["item"] for f in want if f["item"] not in got]
    return missing, {"probed": len(want), "wall_s": round(t, 1)}


TRUST_RE = re.compile(r"external_body|assume_specification|\baxiom fn\b|\badmit\(\)|\bassume\(|external_fn_specification|external_type_specification")


def trusted_items(path):
    out = []
    lines = open(path).read().splitlines()
    for i, l in enumerate(lines):
        if l.lstrip().startswith("//"):
            continue
        if TRUST_RE.search(l):
            blk = " ".join(lines[i:i + 3])
            m = re.search(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", blk) or re.search(r"\bfn\s+([A-Za-z_0-9]+)", blk)
            kind = TRUST_RE.search(l).group(0)
            out.append((kind + " " + (m.group(1) if m else l.strip()[:60])).strip())
    return sorted(set(out))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    load_env()
    conf = json.load(open(os.path.join(PROOFS, "checks.json")))[pid]
    baseline = json.load(open(os.path.join(PROOFS, "baseline.json"))) if os.path.exists(os.path.join(PROOFS, "baseline.json")) else {}
    outdir = os.path.join(VERIF, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    # harness build in the background while Verus runs
    hb = {}
    def hbuild():
        if conf.get("harness"):
            hb["rc"], hb["log"], hb["t"] = build_harness(conf["harness"]["bin"], conf["harness"].get("features", ""))
    th = threading.Thread(target=hbuild)
    th.start()
    build_rzx()
    results, probes = {}, {}
    rlimit = 60 if tier == "thorough" else 40
    units = conf.get("units", [])
    def vu(u):
        results[u] = verify_unit(u, outdir, baseline, rlimit)
        probes[u] = vacuity(u, outdir, [k for k in results[u]["undecided"] if not k.startswith("<")])
    ths = [threading.Thread(target=vu, args=(u,)) for u in units]
    for t in ths: t.start()
    for t in ths: t.join()
    th.join()
    machinery = []
    for u, (missing, info) in probes.items():
        if missing:
            machinery.append("vacuous contract in %s: %s" % (u, ", ".join(missing)))
    failed = [(u, f) for u in units for f in results[u]["failed"]]
    undecided = {u: results[u]["undecided"] for u in units if results[u]["undecided"]}
    # executable contracts on the real code
    hres = None
    if conf.get("harness"):
        if hb.get("rc") != 0:
            hres = {"built": False, "log": hb.get("log", "")[-3000:]}
        else:
            binp = os.path.join(VERIF, "harness/target/debug", conf["harness"]["bin"])
            def hrun(tr):
                scratch = os.path.join(outdir, "scratch")
                os.makedirs(scratch, exist_ok=True)
                rc, o, e, t = run([binp, pid, tr, seed, scratch], 400 if tr == "quick" else 380 if tr == "deep" else 700)
                shutil.rmtree(scratch, ignore_errors=True)
                r = {"built": True, "rc": rc, "wall_s": round(t, 2), "cases": 0, "fails": [], "parts": {}}
                for l in o.splitlines():
                    if l.startswith("CASES "):
                        k, n = l[6:].rsplit(" ", 1)
                        r["cases"] += int(n); r["parts"][k] = int(n)
                    elif l.startswith("FAIL "):
                        r["fails"].append(json.loads(l[5:]))
                if rc not in (0, 1):
                    r["crash"] = (e + o)[-3000:]
                return r
            hres = hrun(tier)
            if (failed or undecided) and not hres["fails"] and tier == "quick" and not hres.get("crash"):
                deep = hrun("deep")       # an obligation failed or was not redone: search harder for a concrete input
                if deep["fails"] or deep.get("crash"):
                    hres = deep
                else:
                    hres["deep_cases"] = deep["cases"]
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = {k["id"]: k for k in kf if k["property"] == pid and k["status"] == "known"}
    newfails, knownhit = [], []
    for f in (hres or {}).get("fails", []):
        (knownhit if f.get("finding") in known else newfails).append(f)
    for k in sorted({f["finding"] for f in knownhit}):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    violations = []
    rp = os.path.join(outdir, "replay.txt")
    def verus_part():
        s = ""
        for u, f in failed:
            s += "\nfailed obligation in %s (%s), unit proofs/%s.rzv:\n%s\n" % (f["item"], f["path"], u, "\n".join(f["errors"])[:6000])
        return s
    crash = (hres or {}).get("crash")
    if newfails or crash or failed:
        with open(rp, "w") as fh:
            fh.write("property %s\n" % pid)
            if newfails:
                fh.write("\nconcrete input on the real code (harness/src, rerun: %s):\n" % ("harness/target/debug/%s %s %s %s SCRATCHDIR" % (conf["harness"]["bin"], pid, tier, seed)))
                for f in newfails[:10]:
                    fh.write(json.dumps(f, indent=1, ensure_ascii=False) + "\n")
            if crash:
                fh.write("\nthe real code aborted while its contracts were exercised:\n%s\n" % crash)
            fh.write(verus_part())
        rel = os.path.relpath(rp, VERIF)
        if newfails or crash:
            violations.append("VIOLATION property=%s replay=%s" % (pid, rel))
        else:
            violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rel))
    # evidence
    fns = []
    for u in units:
        und = results[u]["undecided"]
        bad = {f["item"] for f in results[u]["failed"]}
        for f in results[u]["fns"]:
            st = ("assumed (proved in unit %s)" % f["assumed_from"] if f.get("assumed_from") else "assumed, unproved") if f.get("assumed") else \
                 "failed" if f["item"] in bad else "not redone" if (f["item"] in und or "<unit>" in und) else "proved"
            fns.append({"function": f["item"], "file": f["path"], "unit": u, "status": st, "loops": f.get("loops", 0),
                        "inlined_helpers": f.get("inlined", []), "source_hash": f.get("hash")})
    trusted = []
    for u in units:
        p = os.path.join(outdir, u + ".rs")
        if os.path.exists(p):
            trusted += trusted_items(p)
    redone = not undecided
    obligations = sum(results[u]["verified"] + results[u]["errors"] for u in units)
    discharged = sum(results[u]["verified"] for u in units)
    if units and redone and not failed and discharged == 0:
        machinery.append("no obligation was generated")
    bl = sum(baseline.get(u, {}).get("verified", 0) for u in units)
    if redone and not failed and baseline and discharged < bl * 0.6:
        machinery.append("obligation count fell from %d to %d" % (bl, discharged))
    level = conf["level"]
    ev = {
        "property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(seed) if seed.isdigit() else 1,
        "level": level if (redone and not failed) else "other",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "rzx /repo proofs/%s.rzv out.rs out.json && verus --edition=2024 out.rs" % (units[0] if units else "-"),
            "trusted_base": sorted(set(trusted)),
            "functions_under_contract": fns,
            "backend": "Verus 0.2026.09.13 (Z3)", "solver_ms": sum(int(results[u]["smt_ms"] or 0) for u in units),
            "verify_wall_s": round(sum(results[u]["wall_s"] for u in units), 1),
            "vacuity_guard": {u: (probes[u][1] if probes[u][0] == [] else {"missing": probes[u][0], "info": probes[u][1]}) for u in units},
            "not_redone": undecided,
            "bounded_executable_contracts": hres,
            "known_findings_reproduced": sorted({f["finding"] for f in knownhit}),
        },
        "assumptions": conf.get("assumptions", []) + ["what the extraction rewrites: tools/rzx/README.md"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = ("obligations failed: see replay" if failed else
            "this tree's code is outside what the contracts were written for (see not_redone): those functions were only checked by the bounded executable contracts; nothing not redone is counted as proved")
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("RZ_BASELINE"):
        for u in units:
            baseline[u] = {"verified": results[u]["verified"], "fns": {f["item"]: {"shapes": f.get("shapes"), "hash": f.get("hash")} for f in results[u]["fns"]}}
        json.dump(baseline, open(os.path.join(PROOFS, "baseline.json"), "w"), indent=1, sort_keys=True)
    for v in violations:
        print(v)
    if violations:
        for u, f in failed:
            print("  obligation: %s in %s: %s" % (f["item"], f["path"], f["errors"][0].splitlines()[0]))
        for f in newfails[:3]:
            print("  input: %s" % json.dumps(f, ensure_ascii=False)[:600])
        sys.exit(1)
    for u, und in undecided.items():
        for k, v in und.items():
            print("proof not redone: %s %s: %s" % (u, k, v.splitlines()[0][:200]))
    if machinery:
        for m in machinery:
            print("machinery: " + m)
        sys.exit(2)
    if hres and not hres.get("built"):
        print("harness not built: " + hres["log"][-1500:])
        if undecided or not units:
            sys.exit(2)
    print("%s: %d/%d obligations discharged, %d functions proved, %s cases of executable contracts, %.0f s" % (
        pid, discharged, obligations, sum(1 for f in fns if f["status"] == "proved"), (hres or {}).get("cases", 0), time.time() - t0))


if __name__ == "__main__":
    main()
