#!/usr/bin/env python3
"""Decides one property: runs the contract verifier on /repo's working tree and,
for every obligation it does not discharge, looks for a failing input of the real code."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
SPECDIRS = {"egts": "libs/egts", "storage": "cli/receiver/storage", "server": "cli/receiver/server",
            "config": "cli/receiver/config", "gen": "cli/packet-gen", "receiver": "cli/receiver",
            "mysql": "cli/receiver/storage/store/mysql", "postgresql": "cli/receiver/storage/store/postgresql",
            "nats": "cli/receiver/storage/store/nats", "rabbitmq": "cli/receiver/storage/store/rabbitmq",
            "redis": "cli/receiver/storage/store/redis", "tarantool": "cli/receiver/storage/store/tarantool_queue"}
T0 = time.time()


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="-mod=readonly")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    if "HOME" not in e:
        e["HOME"] = "/root"
    e.update(kw)
    return e


def build_engine():
    src = sorted(glob.glob(os.path.join(VERIF, "engine", "*.go"))) + [os.path.join(VERIF, "engine", "go.mod")]
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    out = os.path.join(WORK, "bin", "egtsverif-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "engine"),
                           env=goenv(GOFLAGS="-mod=vendor"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            sys.exit(3)
        os.rename(tmp, out)
    return out


def spec_dir_of(pkgdir):
    rel = os.path.relpath(pkgdir, REPO)
    for k, v in SPECDIRS.items():
        if v == rel:
            return k, v
    return None, rel


NATIVE = '''package %(pkg)s

import (
	"encoding/json"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

func TestVerifNative(t *testing.T) {
	hs := map[string]func(){
%(map)s	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_NSEED"), 10, 64)
	one := os.Getenv("VERIF_NONE") == "1"
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_NSECS"), 64)
	prop := os.Getenv("VERIF_NPROP")
	names := strings.Split(os.Getenv("VERIF_NHARNESS"), ",")
	type rec struct {
		Harness, Property, Obligation, Detail string
		Seed                                 int64
		Inputs                               []string
	}
	counts := map[string]int64{}
	defer func() {
		b, _ := json.Marshal(counts)
		os.WriteFile(os.Getenv("VERIF_NOUT")+".counts", b, 0644)
	}()
	for _, n := range names {
		h := hs[n]
		if h == nil {
			continue
		}
		end := time.Now().Add(time.Duration(secs / float64(len(names)) * float64(time.Second)))
		for i := int64(0); ; i++ {
			props, name, detail, inputs, failed := vNative(h, seed+i, 10*time.Second)
			counts[n]++
			if failed && (prop == "" || props == "" || strings.Contains(","+props+",", ","+prop+",")) {
				if len(detail) > 3000 {
					detail = detail[:3000]
				}
				b, _ := json.MarshalIndent(rec{n, props, name, detail, seed + i, inputs}, "", " ")
				os.WriteFile(os.Getenv("VERIF_NOUT"), b, 0644)
				t.Fatalf("%%s", b)
			}
			if one || time.Now().After(end) {
				break
			}
		}
	}
}
'''


def native(pkgdir, harnesses, prop, seed, secs, one=False):
    """Runs harnesses against the real code with random inputs; returns (failure or None, counts, output)."""
    sub, rel = spec_dir_of(pkgdir)
    if sub is None:
        return None, {}, "no native run"
    d = os.path.join(WORK, "native-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        rep, pkg, decl = {}, None, []
        for f in sorted(glob.glob(os.path.join(VERIF, "specs", sub, "*.go"))):
            txt = open(f).read()
            pkg = pkg or re.search(r"^package (\w+)", txt, re.M).group(1)
            rep[os.path.join(REPO, rel, "zz_verif_" + os.path.basename(f))] = f
        extra = os.path.join(WORK, "bound")
        rt = open(os.path.join(VERIF, "specs", "rt.go.txt")).read().replace("package PKG", "package " + pkg, 1)
        open(os.path.join(d, "rt.go"), "w").write(rt)
        rep[os.path.join(REPO, rel, "zz_verif_rt.go")] = os.path.join(d, "rt.go")
        m = "".join('\t\t"%s": %s,\n' % (h, h) for h in harnesses)
        open(os.path.join(d, "n_test.go"), "w").write(NATIVE % {"pkg": pkg, "map": m})
        for t in glob.glob(os.path.join(REPO, rel, "*_test.go")):
            rep[t] = ""
        rep[os.path.join(REPO, rel, "zz_verif_native_test.go")] = os.path.join(d, "n_test.go")
        # specifications of the packages this one imports
        for k in ("egts", "storage"):
            if k != sub and os.path.isdir(os.path.join(VERIF, "specs", k)):
                p2 = None
                for f in sorted(glob.glob(os.path.join(VERIF, "specs", k, "*.go"))):
                    txt = open(f).read()
                    p2 = p2 or re.search(r"^package (\w+)", txt, re.M).group(1)
                    rep[os.path.join(REPO, SPECDIRS[k], "zz_verif_" + os.path.basename(f))] = f
                imp = "github.com/kuznetsovin/egts-protocol/" + SPECDIRS[k]
                if p2 and any(imp in open(f).read() for f in glob.glob(os.path.join(VERIF, "specs", sub, "*.go"))):
                    hf = os.path.join(d, "hook_%s.go" % k)
                    open(hf, "w").write('package %s\n\nimport dep "%s"\n\nfunc init() { vHooks = append(vHooks, dep.VNatSeed) }\n' % (pkg, imp))
                    rep[os.path.join(REPO, rel, "zz_verif_hook_%s.go" % k)] = hf
                if p2:
                    rf = os.path.join(d, "rt_%s.go" % k)
                    open(rf, "w").write(open(os.path.join(VERIF, "specs", "rt.go.txt")).read().replace("package PKG", "package " + p2, 1))
                    rep[os.path.join(REPO, SPECDIRS[k], "zz_verif_rt.go")] = rf
        bd = os.path.join(d, "bind")
        subprocess.run([build_engine(), "-list", "-bind", bd, "-repo", REPO, "-specs", os.path.join(VERIF, "specs")],
                       env=goenv(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        for r in SPECDIRS.values():
            f = os.path.join(bd, r, "zz_verif_bind.go")
            if os.path.exists(f) and (r == rel or os.path.join(REPO, r, "zz_verif_rt.go") in rep):
                rep[os.path.join(REPO, r, "zz_verif_bind.go")] = f
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(d, "out.json")
        env = goenv(VERIF_NSEED=str(seed), VERIF_NSECS=str(secs), VERIF_NPROP=prop, VERIF_NONE="1" if one else "0",
                    VERIF_NHARNESS=",".join(harnesses), VERIF_NOUT=out)
        try:
            r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-overlay", ov, "-run", "TestVerifNative", "-timeout", "%ds" % (secs + 60), "./" + rel],
                               cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 150)
            log = r.stdout
        except subprocess.TimeoutExpired as e:
            log = "timeout " + str(e.stdout)[-2000:]
        counts = {}
        try:
            counts = json.load(open(out + ".counts"))
        except Exception:
            pass
        if os.path.exists(out):
            return json.load(open(out)), counts, log
        return None, counts, log
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=\"([^\"]*)\" (.*)", l)
            if m:
                res.append(m.groups())
    return res


def main():
    if sys.argv[1:] == ["--setup"]:
        print(build_engine())
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        n = rec.get("native")
        if not n:
            print("no failing input was found; the failed obligations are:")
            for f in rec["failed_obligations"]:
                print(" ", f["harness"], f["kind"], f["name"], f["pos"], f["status"])
            return 1
        f, _, log = native(rec["pkgdir"], [n["Harness"]], "", n["Seed"], 30, one=True)
        print(json.dumps(f, indent=1) if f else log)
        return 1 if f else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    eng = build_engine()
    limit = 800 if tier == "quick" else 6000
    per = 40 if tier == "quick" else 240
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(WORK, "report-%s-%d.json" % (prop, os.getpid()))
    cmd = [eng, "-prop", prop, "-out", rep, "-repo", REPO, "-specs", os.path.join(VERIF, "specs"),
           "-timeout", str(per), "-budget", str(limit - 350 if tier == "quick" else limit - 900)]
    if tier == "thorough":
        cmd.append("-all")
    hard = limit - 230 - (time.time() - T0) if tier == "quick" else limit - 400
    try:
        r = subprocess.run(cmd, cwd=VERIF, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=hard)
        log = r.stdout
        sys.stdout.write(log)
    except subprocess.TimeoutExpired as e:
        log = "the verifier did not finish in %d s" % hard
        subprocess.run(["pkill", "-f", rep])
        print(log)
    data = None
    if os.path.exists(rep):
        data = json.load(open(rep))
        os.remove(rep)
    failed, hs = [], []
    if data is None:
        failed.append(dict(harness="", kind="time", name="the verifier finishes", pos="", status="unknown", function="", detail=log[-3000:]))
    else:
        hs = data["harnesses"] or []
        if data.get("load_error"):
            failed.append(dict(harness="", kind="load", name="the code loads with its contracts", pos="", status="failed", function="", detail=data["load_error"]))
        elif not hs:
            failed.append(dict(harness="", kind="vacuity", name="the property has harnesses", pos="", status="failed", function="", detail=""))
        for h in hs:
            for f in h.get("failed") or []:
                f["primary"] = h["primary"]
                f["pkgdir"] = h["pkgdir"]
                f["nonative"] = h.get("nonative", False)
                failed.append(f)
    # known findings
    known, rest = [], []
    for f in failed:
        k = [x for x in load_known() if x[0] == prop and x[1] == f["harness"] and x[2] == f["name"]]
        if k:
            known.append(k[0])
        else:
            rest.append(f)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    nat, nlog, natcounts, natdir = None, "", {}, ""
    allh = {}
    for h in hs:
        if not h.get("nonative"):
            allh.setdefault(h["pkgdir"], []).append((h["name"].split(".", 1)[1], h["primary"]))
    if rest:
        groups = {}
        for f in rest:
            if f.get("pkgdir") and not f.get("nonative"):
                g = groups.setdefault((f["pkgdir"], f["primary"]), [])
                n = f["harness"].split(".", 1)[1]
                if n not in g:
                    g.append(n)
        if not groups and data is None:
            groups = all_native(prop)
        left = max(40, 830 - (time.time() - T0)) if tier == "quick" else 900
        secs = min(60 if tier == "quick" else 400, left / max(1, len(groups)) - 30)
        for (pd, prim), names in groups.items():
            nat, c, nlog = native(pd, names, prop if prim else "", seed * 1000003, secs)
            for k, v in c.items():
                natcounts[k] = natcounts.get(k, 0) + v
            natdir = pd
            if nat:
                break
    elif tier == "thorough":
        for pd, l in allh.items():
            names = [n for n, p in l if p]
            if not names:
                continue
            nat, c, nlog = native(pd, names, prop, seed * 1000003, 20 * len(names))
            for k, v in c.items():
                natcounts[k] = natcounts.get(k, 0) + v
            natdir = pd
            if nat:
                rest.append(dict(harness=nat["Harness"], kind="native", name=nat["Obligation"], pos="", status="failed", function="", detail=nat["Detail"]))
                break
    obls = sum(h["obligations"] for h in hs)
    done = sum(h["discharged"] for h in hs)
    write_evidence(prop, tier, seed, data, hs, obls, done, cmd, natcounts, rest, known)
    if rest:
        path = os.path.join(WORK, "replay", "%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": rest, "native": nat, "pkgdir": natdir, "native_runs": natcounts,
                   "native_log": nlog[-6000:], "verifier_output": log[-20000:],
                   "how": "/verif/check --replay " + path}, open(path, "w"), indent=1)
        for f in rest[:20]:
            print("not discharged: %s %s %s at %s: %s %s" % (f["harness"], f["kind"], f["name"], f["pos"], f["status"], (f.get("detail") or "")[:300]))
        if nat:
            print("failing input: harness %s, obligation %s, seed %d, inputs %s: %s" % (nat["Harness"], nat["Obligation"], nat["Seed"], "; ".join(nat["Inputs"] or [])[:1500], nat["Detail"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if nat else " no-failing-input-found"))
        return 1
    print("property %s: %d obligations, all discharged (%d harnesses, %.0f s)" % (prop, obls, len(hs), time.time() - T0))
    return 0


def all_native(prop):
    """Native harnesses of a property read from the specification files."""
    groups = {}
    for sub, rel in SPECDIRS.items():
        for f in glob.glob(os.path.join(VERIF, "specs", sub, "*.go")):
            txt = open(f).read()
            for m in re.finditer(r"^//@ harness ([^\n]*)\n(?://[^\n]*\n)*func (\w+)", txt, re.M):
                if prop in m.group(1) and "nonative" not in m.group(1):
                    groups.setdefault((os.path.join(REPO, rel), True), []).append(m.group(2))
    return groups


def write_evidence(prop, tier, seed, data, hs, obls, done, cmd, natcounts, rest, known):
    by, fns, trusted, contracts, notes, prim = {}, set(), set(), set(), set(), []
    for h in hs:
        for k, v in (h["by_solver"] or {}).items():
            by[k] = by.get(k, 0) + v
        fns.update(h["functions"] or [])
        trusted.update(h["trusted"] or [])
        contracts.update(h["contracts_used"] or [])
        notes.update(h["notes"] or [])
        if h["primary"]:
            prim.append(h["name"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": obls, "discharged": done,
                       "checker_cmd": " ".join(cmd),
                       "trusted_base": sorted(trusted) + sorted(BASE),
                       "by_back_end": by, "harnesses": prim,
                       "harnesses_of_used_contracts": [h["name"] for h in hs if not h["primary"]],
                       "functions_under_contract": sorted(fns), "callee_contracts_used": sorted(contracts),
                       "reachability_checks": sum(h["covers"] for h in hs),
                       "solver_seconds": round(data["solver_seconds"], 2) if data else 0,
                       "solver_queries": data["solver_queries"] if data else 0,
                       "per_harness": [{"name": h["name"], "obligations": h["obligations"], "discharged": h["discharged"], "seconds": round(h["seconds"], 2)} for h in hs],
                       "native_conformance_runs": natcounts,
                       "known_findings": sorted(set(k[3] for k in known)),
                       "warnings": (data or {}).get("warnings") or []},
          "assumptions": ASSUME + sorted(notes),
          "wall_s": round(time.time() - T0, 2), "violations": len(rest)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


BASE = ["egtsverif (symbolic executor and obligation generator in /verif/engine)", "golang.org/x/tools/go/ssa 0.x (translation of the source into SSA)",
        "z3, cvc5 (an unsat answer of one of them discharges an obligation; thorough asks cvc5 as well)", "go compiler and runtime"]
ASSUME = ["byte strings are shorter than 2^40 bytes; memory allocation succeeds",
          "float64 arithmetic is treated as real arithmetic with exact conversions; comparisons of results allow the stated tolerance",
          "library functions not verified here behave as their models in /verif/engine/models.go (listed in trusted_base)"]

if __name__ == "__main__":
    sys.exit(main())
