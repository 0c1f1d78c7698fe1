import concurrent.futures, fcntl, json, os, sys, time
from common import *
import kani
import properties


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    result = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                words = line.split(None, 3)
                result.append((words[2].split("=", 1)[1], words[3]))
    return result


def setup():
    os.makedirs(BUILD, exist_ok=True)

    def one(pid):
        layer = kani.Layer(properties.PROPERTIES[pid]["kani"], "quick", 1, time.time() + 900)
        error = layer.build()
        if not layer.build_native() and not error:
            error = "the native build failed"
        return pid, error
    failures = 0
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for pid, error in pool.map(one, sorted(p for p in properties.PROPERTIES if properties.PROPERTIES[p].get("kani"))):
            if error:
                print("setup: %s: %s" % (pid, error))
                failures += 1
    print("setup finished after %.0f s, %d failures" % (elapsed(), failures))
    return 0


def main(args):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    global_start = time.time()
    if args[0] == "--setup":
        return setup()
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = properties.PROPERTIES[pid]
    deadline = global_start + (780 if tier == "quick" else 6 * 3600)
    violation = None
    units = []
    notes = []
    commands = []
    trusted = list(properties.TRUSTED) + list(p.get("trusted", []))
    coverage = {}
    broken = False

    if p.get("verus"):
        import verus
        layer = verus.Layer(p["verus"], tier, seed, deadline)
        verus_results, verus_violation = layer.run()
        notes += layer.notes
        commands += layer.commands
        trusted += layer.trusted
        units += verus_results
        coverage["verus"] = layer.summary
        violation = verus_violation
    if p.get("kani") and (violation is None or violation.get("replay_search")):
        layer = kani.Layer(p["kani"], tier, seed, deadline)
        results, kani_violation = layer.run(p.get("timeout", 120) if tier == "quick" else 1800)
        notes += layer.notes
        commands += layer.commands
        for r in results:
            r.setdefault("backend", "kani 0.68 / cbmc 6.11")
        units += results
        violation = kani_violation or violation
        broken = layer.broken
        for name, what in known_findings(pid):
            path = os.path.join(ROOT, "known", name.replace("::", "."))
            if layer.replay("speedy_verif::" + name, path):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
                coverage.setdefault("known_findings", []).append(what)

    proved = [u for u in units if u["status"] == "discharged" and not u["bounded"]]
    bounded = [u for u in units if u["status"] == "discharged" and u["bounded"]]
    undecided = [u for u in units if u["status"] == "undecided"]
    bad = [u for u in units if u["status"] in ("failed", "violated")]
    stubs = sorted(set(s for u in units for s in u.get("stubs", [])))
    if "utf8" in stubs:
        trusted.append("core::str::from_utf8 is replaced in some harnesses by a plain implementation of its documentation (kani/src/stubs.rs); the standard library's own is trusted to agree")
    if "io" in stubs:
        trusted.append("std::io::Error::kind is replaced in some harnesses by the kind which the harness put into the error (kani/src/stubs.rs)")
    coverage.update({
        "obligations": len([u for u in units if not u["bounded"]]),
        "discharged": len(proved),
        "checker_cmd": " ; ".join(commands),
        "trusted_base": trusted,
        "functions_under_contract": sorted(set(f for x in coverage.get("verus", []) for f in x["functions"])) + p.get("functions", []),
        "bounded_standins": {
            "meaning": "obligations over a stated bounded part of the domain (container lengths of at most the harness's shapes, or the named cases); never counted as discharged",
            "count": len(bounded),
            "units": [u["name"] for u in bounded],
        },
        "undecided": [{"unit": u["name"], "reason": u.get("reason", "")} for u in undecided],
        "units": [u["name"] for u in proved][:400],
        "verifier_checks_inside_units": sum(u.get("checks", 0) for u in units),
        "solver_seconds": round(sum(u.get("solver", 0) or 0 for u in units), 1),
        "verifier_seconds": round(sum(u.get("seconds", 0) for u in units), 1),
        "notes": notes,
    })
    if p.get("explanation"):
        coverage["explanation"] = p["explanation"]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": p["level"], "coverage": coverage,
        "assumptions": trusted, "wall_s": round(time.time() - global_start, 1), "violations": 1 if violation else 0,
    }
    if violation:
        coverage["violation"] = {k: str(v)[:2000] for k, v in violation.items()}
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

    print("%s: %d obligations discharged of %d, %d bounded, %d undecided, %d failed; %.0f s" % (pid, len(proved), coverage["obligations"], len(bounded), len(undecided), len(bad), time.time() - global_start))
    for u in undecided:
        print("UNDECIDED %s: %s" % (u["name"], u.get("reason", "")))
    for n in notes:
        print("NOTE %s" % n)
    if violation:
        print("failed obligation: %s: %s" % (violation["harness"], violation["message"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, violation["replay"], " no-failing-input-found" if violation.get("no_input") else ""))
        return 1
    if broken:
        print("NO ANSWER: the harnesses could not be verified")
        return 2
    return 0
