#!/usr/bin/env python3
"""Decide one property: prove its contracts over /repo's current source, then
run the executable contracts (bounded) that supply concrete failing inputs.

usage: check.py PROPERTY [--repo DIR]
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MEMORY = 12 << 30
MODULE = "github.com/NVIDIA/vdisc"


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def build_govc():
    env = goenv()
    env["GOFLAGS"] = "-mod=mod"
    os.makedirs(os.path.join(VERIF, ".bin"), exist_ok=True)
    out = os.path.join(VERIF, ".bin", "govc")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "govc"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("error: building the condition generator failed\n" + r.stdout)
        sys.exit(2)
    return out


def prove(prop, scratch):
    """Generate and discharge every obligation of the property's contracts."""
    govc = build_govc()
    out = os.path.join(scratch, "govc.json")
    cmd = [govc, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", out, "-limit", "450"]
    r = subprocess.run(cmd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print("error: the condition generator failed\n" + r.stdout[-4000:])
        sys.exit(2)
    d = json.load(open(out))
    d["log"] = r.stdout
    d["cmd"] = "govc -repo /repo -specs /verif/contracts -prop " + prop
    d["path"] = out
    return d


def harness_packages(prop):
    """relative package dir -> harness files for this property"""
    root = os.path.join(VERIF, "harness")
    res = {}
    for d, _, fs in os.walk(root):
        own = sorted(f for f in fs if f.lower().startswith(prop.lower() + "_") and f.endswith("_verif_test.go"))
        if own:
            com = sorted(f for f in fs if f.startswith("h_") and f.endswith("_verif_test.go"))
            res[os.path.relpath(d, root)] = (own, com)
    return res


def compile_harness(rel, own, com, scratch):
    """Compile the package's tests with the harness files overlaid.

    A harness file that names something the tree no longer has is left out
    (and reported), so that a renamed internal does not silence the rest."""
    src = os.path.join(VERIF, "harness", rel)
    files = list(own)
    dropped = []
    while files:
        rep = {os.path.join(REPO, rel, f): os.path.join(src, f) for f in files + com}
        ov = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(scratch, "bin", rel.replace("/", "_") + ".test")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "./" + rel],
                           cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out, files, dropped
        bad = sorted({f for f in files if f in r.stdout})
        if not bad:
            return None, [], dropped + [(f, r.stdout[-1500:]) for f in files]
        for f in bad:
            files.remove(f)
            dropped.append((f, r.stdout[-1500:]))
    return None, [], dropped


def run_harness(prop, scratch, proof, tier, seed, t0):
    res = {"packages": [], "fails": [], "cases": {}, "dropped": [], "log": ""}
    for rel, (own, com) in sorted(harness_packages(prop).items()):
        if not os.path.isdir(os.path.join(REPO, rel)):
            res["dropped"] += [(rel + "/" + f, "package directory is gone") for f in own]
            continue
        binp, used, dropped = compile_harness(rel, own, com, scratch)
        res["dropped"] += [(rel + "/" + f, m) for f, m in dropped]
        if not binp:
            continue
        work = os.path.join(scratch, "work", rel.replace("/", "_"))
        os.makedirs(work)
        env = goenv()
        env.update(HOME=work, TMPDIR=work, VERIF_SEED=str(seed), VERIF_TIER=tier,
                   VERIF_MODEL=os.path.join(scratch, "govc.json"))
        limit = 400 if tier == "quick" else 700
        limit = max(40, min(limit, int(840 - (time.time() - t0))))
        kw = {}
        if os.getuid() == 0:
            # the code under test runs without privileges, with only scratch files of its own
            for d, ds, fs in os.walk(work):
                os.chown(d, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        cmd = [binp, "-test.run", "^TestVerif_%s_" % prop, "-test.v", "-test.timeout", "%ds" % (limit - 20)]
        try:
            try:
                p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True, **kw)
            except PermissionError:
                p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                try:
                    # a broken tree must not take the whole machine's memory
                    resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
                except OSError:
                    pass
                o, _ = p.communicate(timeout=limit)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                o, _ = p.communicate()
                rc = -9
        except OSError as e:
            print("error: cannot run harness:", e)
            sys.exit(2)
        text = o.decode("utf-8", "replace")
        fails = []
        last_try = ""
        for line in text.splitlines():
            line = line.strip()
            m = re.search(r"VERIF-FAIL (.*)", line)
            if m:
                fails.append(m.group(1))
            m = re.search(r"VERIF-TRY (.*)", line)
            if m:
                last_try = m.group(1)
            m = re.search(r"VERIF-CASES (\S+)=(\d+)", line)
            if m:
                res["cases"][m.group(1)] = res["cases"].get(m.group(1), 0) + int(m.group(2))
        if rc != 0 and not fails:
            tail = [l for l in text.splitlines() if not l.startswith("=== ")]
            why = "panic or unexpected failure"
            if rc == -9 or "test timed out" in text:
                why = "does not finish"
            head = next((l for l in tail if l.startswith("panic:") or "--- FAIL" in l or l.startswith("fatal error")), "")
            fails.append("key=crash:%s %s %s; last input: %s" % (rel, why, head, last_try))
        if rc != 0:
            res["log"] += "== %s (exit %s)\n%s\n" % (rel, rc, text[-60000:])
        if rc == 0 and not re.search(r"^--- PASS: TestVerif_%s_" % prop, text, re.M):
            print("error: harness ran no test in", rel)
            sys.exit(2)
        res["packages"].append({"package": rel, "files": used, "tests": sorted(set(re.findall(r"^--- \w+: (TestVerif_\S+)", text, re.M)))})
        res["fails"] += fails
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        return decide(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, t0):
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {"level": "proof"})
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == prop and not k.get("fixed")]

    proof = prove(prop, scratch)
    har = run_harness(prop, scratch, proof, tier, seed, t0)

    units = proof["units"] or []
    failed, outside = [], []
    obligations = discharged = named = named_ok = 0
    backends, trusted, inlined, relied = {}, set(), set(), set()
    for u in units:
        if u["Status"] in ("unsupported", "missing"):
            outside.append("%s: %s" % (u["Name"], u["Reason"]))
            continue
        if any(o["name"].endswith("/frame:everything") and (o.get("failed") or o.get("Failed")) for o in u["Obls"] or []):
            # An edit may bring in a library function the contracts do not describe.
            outside.append("%s: calls a function without a contract, which may change anything" % u["Name"])
            continue
        obligations += u["VCs"]
        discharged += u["Proved"]
        for b, n in (u["Backends"] or {}).items():
            backends[b] = backends.get(b, 0) + n
        for t in u["Trusted"] or []:
            (relied if "checked separately" in t else trusted).add(t)
        inlined |= set(u["Inlined"] or [])
        for o in u["Obls"] or []:
            named += 1
            if o.get("failed") or o.get("Failed"):
                failed.append((u, o))
            else:
                named_ok += 1
        if u["Status"] == "failed" and u.get("Reason"):
            failed.append((u, {"name": u["Name"] + "/vacuity", "Detail": u["Reason"], "failed": "vacuous"}))

    def is_known(text):
        return next((k for k in known if k["match"] and re.search(k["match"], text)), None)

    seen_known = []
    bad_obl = []
    for u, o in failed:
        k = is_known("obligation " + o["name"])
        if k:
            seen_known.append(k)
        else:
            bad_obl.append((u, o))
    bad_inp = []
    for f in har["fails"]:
        k = is_known("input " + f)
        if k:
            seen_known.append(k)
        else:
            bad_inp.append(f)
    for k in known:
        if k in seen_known or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    violation = bool(bad_obl or bad_inp)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    own = {u["Name"] for u in units}
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": proof["cmd"],
        "trusted_base": sorted(trusted) + [
            "govc (/verif/govc): translation of go/ssa to verification conditions",
            "golang.org/x/tools/go/ssa and go/types v0.52.0",
            "z3 4.8.12, z3-new, cvc5 1.1.2 (an unsat answer of any one is accepted)",
        ],
        "functions_under_contract": len(units),
        "functions_proved": sum(u["Status"] == "proved" for u in units),
        "functions": [{"name": u["Name"], "status": u["Status"], "obligations": u["VCs"], "discharged": u["Proved"],
                       "paths": u["Paths"], "loops": u["Loops"], "loop_invariants": u["Invs"], "seconds": round(u["Seconds"], 2)} for u in units],
        "unreached_statements": ["%s: %s" % (u["Name"], d) for u in units for d in u.get("Dead") or []],
        "named_obligations": named,
        "named_obligations_discharged": named_ok,
        "backends": backends,
        "solver_queries": proof["queries"],
        "solver_seconds": round(proof["solver_s"], 2),
        "contracts_relied_on_checked_elsewhere": sorted(re.sub(r"^contract of | \(checked separately\)$", "", t) for t in relied if re.sub(r"^contract of | \(checked separately\)$", "", t) not in own),
        "inlined_bodies": sorted(inlined),
        "outside_verified_subset": outside,
        "bounded": {
            "label": "bounded executable contracts; not counted as proved",
            "cases": har["cases"],
            "packages": har["packages"],
            "not_compiled": [f for f, _ in har["dropped"]],
        },
    }
    if entry.get("level") == "exploration":
        n = sum(har["cases"].values())
        cov.update(evaluations=n, distinct_nontrivial=n, rule="see the harness tests named in bounded.packages", samples=[str(p) for p in har["packages"]][:3])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": entry.get("level", "proof"),
        "coverage": cov,
        "assumptions": ASSUMPTIONS + (["bounded stand-ins cover what is listed under coverage.bounded"] if har["cases"] else []),
        "wall_s": round(time.time() - t0, 2),
        "violations": int(violation),
    }
    if not units and not har["packages"]:
        print("error: nothing was checked")
        sys.exit(2)
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)

    print("%s: %d functions under contract, %d/%d obligations discharged (%s), %d bounded cases, %.1fs" % (
        prop, len(units), discharged, obligations, ", ".join("%s %d" % kv for kv in sorted(backends.items())), sum(har["cases"].values()), time.time() - t0))
    for o in outside:
        print("outside the verified subset (bounded check stands in):", o)
    for f, m in har["dropped"]:
        print("harness file left out, it no longer compiles against the tree:", f)
    if not violation:
        return 0
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".txt")
    with open(rp, "w") as f:
        f.write("property %s\n\n" % prop)
        for u, o in bad_obl:
            f.write("failed obligation %s (%s)\n" % (o["name"], o.get("failed") or o.get("Failed")))
            f.write("  clause: %s\n" % (o.get("Detail") or ""))
            if o.get("Model"):
                f.write("  counterexample values: %s\n" % json.dumps(o["Model"]))
        for x in bad_inp:
            f.write("failing input: %s\n" % x)
        f.write("\nto replay: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n" % (seed, tier, prop))
        f.write("\nverifier output:\n" + proof["log"] + "\n")
        if har["log"]:
            f.write("\nharness output:\n" + har["log"])
    for u, o in bad_obl[:20]:
        print("failed obligation:", o["name"], "-", o.get("Detail") or "")
    for x in bad_inp[:20]:
        print("failing input:", x)
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if bad_inp else " no-failing-input-found"))
    return 1


ASSUMPTIONS = [
    "fixed-width integers are exact (wrap-around modelled); specification arithmetic is mathematical",
    "slice and string lengths are at most 2^47, modelled streams at most 2^60 bytes",
    "sequential execution: no other goroutine writes the memory a function under contract reads while it runs",
    "partial correctness: termination of loops is not proved (bounded checks run under a time limit)",
    "no memory exhaustion and no stack overflow",
    "io.Writer and io.Reader arguments obey the documented contracts of those interfaces and do not alias the verified structures",
]

if __name__ == "__main__":
    sys.exit(main())
