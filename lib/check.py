#!/usr/bin/env python3-vt
"""check PROPERTY: decide one property on /repo's current working tree."""
import json, os, re, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, BUILD

REPLAY = os.path.join(VERIF, "replay")
NPROC = 8


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def write_replay(prop, harness, what, tokens, extra=""):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s-%s.txt" % (prop, harness))
    with open(p, "w") as f:
        f.write("# property %s, contract %s\n# obligation: %s\n" % (prop, harness, what))
        if tokens is not None:
            f.write("# failing input: `sed '/^#/d' THIS > TOKENS; .build/native/release/native replay %s TOKENS`\n" % harness)
        for l in extra.split("\n") if extra else []:
            f.write("# " + l + "\n")
        if tokens is not None:
            f.write("\n".join(tokens) + "\n")
    return p


def native_search(binary, prop, ms, seed, violations):
    """Run the contracts of a property natively on generated inputs. Returns statistics."""
    stats = {"checks": 0, "harnesses": {}, "crashed": []}
    procs = []
    tmp = tempfile.mkdtemp(dir=BUILD)
    for part in range(NPROC):
        st = os.path.join(tmp, "state%d" % part)
        out = os.path.join(tmp, "out%d" % part)
        procs.append((st, out, subprocess.Popen([binary, "run", prop, "--seed", str(seed), "--time", str(ms), "--part", str(part), "--parts", str(NPROC), "--state", st], stdout=open(out, "w"), stderr=subprocess.DEVNULL)))
    seen = set()
    for st, out, p in procs:
        try:
            rc = p.wait(timeout=ms / 1000 + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 3
        if rc in (0, 1):
            d = json.load(open(out))
            stats["checks"] += d["checks"]
            for h in d["harnesses"]:
                e = stats["harnesses"].setdefault(h["harness"], [0, 0])
                e[0] += h["iterations"]
                e[1] += h["assumed_away"]
            for f in d["failures"]:
                if f["harness"] not in seen:
                    seen.add(f["harness"])
                    violations.append((f["harness"], f["what"], f["tokens"]))
        else:
            # aborted or stuck: the input is identified by harness and seed
            s = open(st).read().split() if os.path.exists(st) else []
            if len(s) >= 2 and s[0] not in seen:
                try:
                    r = subprocess.run([binary, "seed", s[0], s[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
                    rc2, txt = r.returncode, r.stdout.decode(errors="replace")[-300:]
                except subprocess.TimeoutExpired:
                    rc2, txt = 3, "no progress"
                if rc2 not in (0, 1):
                    seen.add(s[0])
                    violations.append((s[0], "the process is aborted or makes no progress (seed %s): %s" % (s[1], txt.strip()), ["seed:" + s[1]]))
                else:
                    stats["crashed"].append(s[0])
    subprocess.run(["rm", "-rf", tmp])
    return stats


def samples(binary, prop, seed):
    try:
        r = subprocess.run([binary, "sample", prop, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        return json.loads(r.stdout)
    except Exception:
        return []


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    violations, cov, assumptions = [], {}, []
    import prove
    engine = os.environ.get("VERIF_NO_ENGINE") is None
    prep = prove.prepare_async() if engine else None
    binary, gone, log = build.build_native()
    if prep is not None and binary is not None:
        prep.wait()
        dump = prove.dump_async()
    if binary is None:
        print("the contracts could not be built against this tree: nothing was decided")
        print(log[-3000:])
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing built", "samples": [], "explanation": "anchor lost: the crate or the contracts do not compile"}
        write_evidence(prop, tier, seed, cov, ["nothing was checked on this tree"], t0, 0)
        return 0
    # known findings: demonstrated again on every run
    for name, what in known_findings(prop):
        try:
            r = subprocess.run([binary, "finding", name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            shown = r.returncode != 0
        except subprocess.TimeoutExpired:
            shown = True
        if shown:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ms = 25000 if tier == "quick" else 240000
    st = native_search(binary, prop, ms, seed, violations)
    cov["evaluations"] = sum(a for a, b in st["harnesses"].values())
    cov["distinct_nontrivial"] = sum(a - b for a, b in st["harnesses"].values())
    cov["rule"] = "native executions of the contracts on generated inputs (distinct seeds); non-trivial: the preconditions held"
    cov["native_obligations_checked"] = st["checks"]
    cov["samples"] = samples(binary, prop, seed)
    cov["contracts"] = sorted(st["harnesses"])
    if gone:
        cov["anchors_lost"] = gone
        print("anchor lost, not decided: " + ", ".join(gone))
    if not violations and engine:
        prove.decide(prop, tier, seed, binary, gone, dump, cov, assumptions, violations)
    elif engine:
        if dump[0] is not None:
            dump[0].kill()
        cov.update(obligations=1, discharged=0, checker_cmd="", trusted_base=["the violation was found by native execution of the contract, before any proof"])
    for h, what, tokens in violations:
        extra = ""
        if tokens is None:
            p = write_replay(prop, h, what, None, cov.get("verifier_output", {}).get(h, ""))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        else:
            p = write_replay(prop, h, what, tokens)
            print("%s: %s" % (h, what))
            print("VIOLATION property=%s replay=%s" % (prop, p))
    write_evidence(prop, tier, seed, cov, assumptions, t0, len(violations))
    return 1 if violations else 0


def level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "exploration"


def write_evidence(prop, tier, seed, cov, assumptions, t0, n):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": level(prop), "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": n}
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
