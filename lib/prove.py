"""Deductive verification of the contracts of one property: exports the MIR of the contracts and of
everything they reach, generates the obligations and discharges them."""
import json, os, re, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENGINE = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, ENGINE)
import build
import hashlib

BASELINE = os.path.join(ENGINE, "proved.json")


def setup():
    subprocess.run(["python3-vt", os.path.join(ENGINE, "dump.py"), "--prepare"])


def prepare_async():
    os.makedirs(BUILD, exist_ok=True)
    return subprocess.Popen(["python3-vt", os.path.join(ENGINE, "dump.py"), "--prepare"], stdout=subprocess.DEVNULL, stderr=open(os.path.join(BUILD, "prepare.log"), "w"))


def dump_tag():
    h = hashlib.sha256(build.tree_hash().encode())
    for f in ("models.py", "strs.py", "dump.py", "natives.py", "textm.py", "pieces.py", "loops.py"):
        p = os.path.join(ENGINE, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def dump_async():
    """Starts the export; returns (process or None, path)"""
    out = os.path.join(BUILD, "mir.json")
    tag = out + ".tag"
    h = dump_tag()
    if os.path.exists(out) and os.path.exists(tag) and open(tag).read() == h:
        return None, out, h
    if os.path.exists(tag):
        os.unlink(tag)
    p = subprocess.Popen(["nice", "-n", "-5", "python3-vt", os.path.join(ENGINE, "dump.py"), out, os.path.join(BUILD, "contracts")], stdout=subprocess.DEVNULL, stderr=open(os.path.join(BUILD, "dump.log"), "w"))
    return p, out, h


def harnesses(prop):
    """Names of the contracts of the property, for which obligations are generated"""
    out = []
    src = os.path.join(VERIF, "contracts", "src")
    for f in sorted(os.listdir(src)):
        t = open(os.path.join(src, f)).read()
        for m in re.finditer(r'"(C\d\d)"\s*:\s*([^;]*);', t):
            if m.group(1) == prop:
                out += [x.strip() for x in m.group(2).split(",") if x.strip()]
    return out


def replay(binary, harness, tokens, tries=400):
    """Execute the counterexample natively; its opaque sub-trees are filled in at random"""
    with tempfile.NamedTemporaryFile("w", suffix=".tok", delete=False, dir=BUILD) as f:
        f.write("\n".join(["mode:engine"] + tokens) + "\n")
    try:
        r = subprocess.run([binary, "replay", harness, f.name, "--tries", str(tries), "--step", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
        d = json.loads(r.stdout)
        if d.get("result") == "failed":
            return d
    except Exception:
        pass
    finally:
        os.unlink(f.name)
    return None


def decide(prop, tier, seed, binary, gone, dump, cov, assumptions, violations):
    p, out, h = dump
    if p is not None:
        try:
            rc = p.wait(timeout=500)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = 1
        if rc == 0 and os.path.exists(out):
            open(out + ".tag", "w").write(h)
        else:
            log = os.path.join(BUILD, "dump.log")
            cov["engine"] = "no obligations generated: " + (open(log).read()[-1500:] if os.path.exists(log) else "")
            print("no obligations could be generated from this tree; only the bounded stand-in was run")
            cov.update(obligations=0, discharged=0, checker_cmd="", trusted_base=[])
            return
    t0 = time.time()
    names = [n for n in harnesses(prop) if n not in gone]
    vcs = [n for n in names if n.startswith("vc_")]
    nts = [n for n in names if not n.startswith("vc_")]
    budget, total = (420, 480) if tier == "quick" else (1800, 6600)
    res_path = out + ".%s.%d.res" % (prop, os.getpid())
    env = dict(os.environ, VC_BUDGET=str(budget), VC_TOTAL=str(total), VC_TIER=tier)
    results = {}
    if vcs:
        try:
            subprocess.run(["python3-vt", os.path.join(ENGINE, "run.py"), out, "--json", res_path, "--names"] + vcs, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(BUILD, "engine.log"), "w"), timeout=600 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(res_path):
            results = json.load(open(res_path))
            os.unlink(res_path)
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    obligations = discharged = 0
    proved, undecided, failed, fns, con, mod, bnd, uni = [], {}, {}, set(), set(), set(), set(), set()
    solver = 0.0
    per = {}
    for n in vcs:
        r = results.get(n)
        if r is None:
            undecided[n] = "no result"
            obligations += 1
            continue
        obligations += r["obl"] + (1 if r["undec"] and not r["obl"] else 0)
        solver += r["t"]
        fns |= set(r["fns"])
        con |= set(r["con"])
        mod |= set(r["mod"])
        uni |= set(r.get("uni", ()))
        for b in r["bnd"]:
            bnd.add("%s: %s" % (n, b))
        bad = len(r["fails"]) + len(r["undec"])
        discharged += max(0, r["obl"] - bad)
        per[n] = {"paths": r["paths"], "obligations": r["obl"], "labels": r["labels"], "result": "proved" if r["proved"] else ("failed" if r["fails"] else "undecided"), "solver_s": round(r["t"], 2), "bounded": r["bnd"]}
        if r["proved"]:
            proved.append(n)
            continue
        if not r["fails"]:
            undecided[n] = "; ".join(sorted({u.get("why", "?") for u in r["undec"]}))[:400] or "no feasible path reaches the end"
            continue
        failed[n] = r["fails"]
    cov["verifier_output"] = {}
    for n, fs in failed.items():
        done = False
        for f in fs[:6]:
            if f.get("tokens") is None:
                continue
            d = replay(binary, n, f["tokens"])
            if d is not None:
                violations.append((n, d["what"], d["tokens"]))
                done = True
                break
        if done:
            continue
        f = fs[0]
        txt = "obligation: %s\ntokens of the counterexample (opaque sub-trees: leaf:N): %s\nmodel: %s\nwithin: %s" % (f.get("what"), f.get("tokens"), f.get("model"), " <- ".join(f.get("stack") or []))
        if base.get(n) == "proved":
            cov["verifier_output"][n] = txt
            violations.append((n, "obligation fails: %s" % f.get("what"), None))
        else:
            undecided[n] = "an obligation fails, not reproduced: " + str(f.get("what"))
    lost = [n for n in vcs if base.get(n) == "proved" and n in undecided]
    for n in lost:
        print("undecided (its obligations are discharged on the unchanged tree): %s: %s" % (n, undecided[n]))
    cov.update(
        obligations=obligations, discharged=discharged,
        checker_cmd="python3-vt engine/run.py .build/mir.json --names " + " ".join(vcs),
        trusted_base=trusted(mod),
        back_end="z3 %s (incremental, one solver per path)" % z3_version(),
        solver_s=round(solver, 2), prove_s=round(time.time() - t0, 1),
        contracts_proved=proved, contracts_undecided=undecided,
        bounded_stand_in=[n for n in nts] + sorted(undecided),
        functions_executed_under_contract=sorted(fns),
        contracts_used_at_call_sites=sorted(con),
        bounds=sorted(bnd), loops_over_lists_found_uniform=sorted(uni), per_contract=per)
    assumptions.append("terminating executions only: termination of the engine's paths is bounded by its time budget, recursion of the code is cut by the induction hypothesis on opaque sub-trees")
    assumptions.append("lists are drawn with 0, 1 and 2 arbitrary elements; loops over them are found uniform (the state at the head, up to what is collected and not read, is the same before and after an iteration for an arbitrary element), from which the result for longer lists is concluded by an argument outside of the verifier (DESIGN.md, section 2)")
    for c in sorted(con):
        assumptions.append("contract used at call sites: " + c)
    for b in sorted({x.split(": ", 1)[1] for x in bnd}):
        assumptions.append("bounded: " + b)


def z3_version():
    try:
        return subprocess.run(["python3-vt", "-c", "import z3; print(z3.get_version_string())"], stdout=subprocess.PIPE).stdout.decode().strip()
    except Exception:
        return "?"


def trusted(mod):
    return ["rustc nightly (MIR construction)", "driver/driver.rs (MIR export)", "engine/{codegen,rt,core,leaf,strs,models}.py (semantics of MIR, strings)", "z3"] + ["model: " + m for m in sorted(mod) if "firrtl_ast" not in m and not m.startswith("contracts::")]
