"""The Kani layer: proof harnesses over the real crate, compiled from /repo on every run."""
import json, os, re, shutil, threading, time
from common import *

CRATE = os.path.join(ROOT, "kani")
TARGET = os.path.join(CRATE, "target")
HOOKS = "--cfg speedy_verification"
# The features whose harnesses use the hooks.
HOOKED = ("c07", "c08")
FLAGS = ["--no-assertion-reach-checks", "-Z", "unstable-options", "-Z", "stubbing"]


class Layer:
    def __init__(self, feature, tier, seed, deadline):
        self.feature, self.tier, self.seed, self.deadline = feature, tier, seed, deadline
        self.features = feature + (",thorough" if tier == "thorough" else "")
        # One folder for each set of features: what setup builds for one property is still there for its check.
        self.target = os.path.join(TARGET, self.features.replace(",", "-"))
        self.log = os.path.join(BUILD, "logs", feature)
        self.native = None
        self.rustflags = HOOKS if feature in HOOKED else ""
        self.notes = []
        self.commands = []
        # Set when there is no answer at all.
        self.broken = False

    def left(self):
        return self.deadline - time.time()

    def environment(self):
        # An empty variable is not the same as none: Kani passes it on as an empty argument.
        return {"RUSTFLAGS": self.rustflags} if self.rustflags else {}

    def kani(self, extra, timeout, log):
        cmd = ["cargo", "kani", "--lib", "--features", self.features, "--target-dir", os.path.join(self.target, "kani")] + FLAGS + extra
        if not self.commands:
            self.commands.append("RUSTFLAGS='%s' %s" % (self.rustflags, " ".join(cmd)))
        return run(cmd, timeout, cwd=CRATE, extra_env=self.environment(), log=os.path.join(self.log, log))

    def build_native(self):
        """The harnesses as ordinary functions, for replaying and searching."""
        if self.native is None:
            target = os.path.join(self.target, "native")
            status, out = run(["cargo", "build", "--offline", "--features", self.features, "--target-dir", target], max(60, self.left()), cwd=CRATE,
                              extra_env=self.environment(), log=os.path.join(self.log, "native-build.log"))
            self.native = os.path.join(target, "debug", "replay") if status == 0 else False
            if not self.native:
                self.notes.append("the native build failed")
        return self.native

    def replay(self, harness, path):
        """Returns the message with which the harness fails on the real code, or None."""
        if not self.build_native():
            return None
        status, out = run([self.native, "run", harness, path], 60)
        if status == 101 or (status is not None and status < 0):
            m = re.search(r"REPLAY failed: (.*)", out)
            return m.group(1) if m else "the process died with status %s" % status
        if status is None:
            return "does not terminate"
        return None

    def miri(self, harness, path):
        """Replays under Miri; returns the undefined behaviour which it reports, or None."""
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--features", self.features, "--target-dir", os.path.join(self.target, "miri"), "--", "run", harness, path]
        status, out = run(cmd, max(60, min(240, self.left())), cwd=CRATE, extra_env=dict(self.environment(), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"),
                          log=os.path.join(self.log, "miri.log"))
        m = re.search(r"error: (Undefined Behavior: .*)", out or "")
        return m.group(1) if m else None

    def search(self, harness, count, timeout):
        """Tries seeded inputs on the real code; returns (message, path) for a failing one."""
        if not self.build_native():
            return None
        path = os.path.join(REPLAYS, "%s-%s.search" % (self.feature, harness.replace("::", ".")))
        os.makedirs(REPLAYS, exist_ok=True)
        if os.path.exists(path):
            os.unlink(path)
        status, out = run([self.native, "search", harness, str(self.seed), str(count), path], timeout)
        if status == 101 and os.path.exists(path):
            message = self.replay(harness, path)
            if message:
                return message, path
        return None

    def counterexamples(self, harness, extra):
        """Asks Kani for concrete values which fail the harness; writes one replay file per failing check."""
        status, out = self.kani(["--harness", harness, "--exact", "--output-format", "regular", "-Z", "concrete-playback", "--concrete-playback=print"] + extra,
                                min(300, max(30, self.left())), "playback.log")
        paths = []
        os.makedirs(REPLAYS, exist_ok=True)
        for nth, block in enumerate(re.split(r"Concrete playback unit test for", out or "")[1:]):
            block = block.split("concrete_playback_run", 1)[0]
            if re.search(r"Check for `?cover", block) or "harness end reachable" in block:
                continue
            m = re.search(r"vec!\[(.*)\];", block, re.S)
            if not m:
                continue
            values = re.findall(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M)
            what = re.search(r"/// (Check .*)", block)
            path = os.path.join(REPLAYS, "%s-%s-%d" % (self.feature, harness.replace("::", "."), nth))
            with open(path, "w") as f:
                f.write("harness speedy_verif::%s\n%s\n" % (harness, what.group(1) if what else ""))
                for v in values:
                    f.write("any %s\n" % v.replace(",", " "))
            paths.append(path)
        return paths

    def build(self):
        """Compiles the harnesses; returns an error message or None."""
        h = source_hash() + self.features
        stamp = os.path.join(self.target, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is None or old != h:
            if os.path.isdir(self.target):
                forget_builds(self.target)
            os.makedirs(self.target, exist_ok=True)
            with open(stamp, "w") as f:
                f.write(h)
        # Both compilers at once.
        native = threading.Thread(target=self.build_native)
        native.start()
        status, out = self.kani(["--only-codegen"], min(400, self.left()), "build.log")
        native.join()
        if status != 0 and self.rustflags:
            # The hooks may have lost what they refer to; not all harnesses need them.
            self.rustflags = ""
            self.native = None
            status, out = self.kani(["--only-codegen"], min(400, self.left()), "build.log")
            if status == 0:
                self.notes.append("the harnesses which use the hooks do not compile against this tree")
        if status != 0:
            errors = re.findall(r"^error.*", out or "", re.M)
            return "the harnesses do not compile against this tree: " + "; ".join(errors[:3])
        return None

    def run(self, timeout, jobs=8):
        """Returns (results, violation); every result is a dictionary with the harness and its status."""
        error = self.build()
        if error:
            self.notes.append(error)
            self.broken = True
            return [], None
        build_s = elapsed()
        attributes = self.attributes()
        path = os.path.join(self.log, "results.json")
        if os.path.exists(path):
            os.unlink(path)
        started = time.time()
        status, out = self.kani(["-j", str(jobs), "--output-format", "terse", "--export-json", path, "--harness-timeout", "%ds" % timeout], max(30, self.left() - 60), "kani.log")
        self.wall = time.time() - started
        if not os.path.exists(path):
            self.notes.append("Kani did not finish (exit status %s)" % status)
            self.broken = True
            # Whatever it reported before it was stopped.
            return self.undecided_search([dict(name=h, status="undecided", reason="not finished", seconds=0.0, checks=0, bounded=True) for h in self.names])
        data = json.load(open(path))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]}
        results = []
        for r in data["verification_results"]["results"]:
            name = r["harness_id"]
            checks = r["checks"]
            bad = [c for c in checks if c["status"] == "Failure"]
            covers = [c for c in checks if c["description"] == "harness end reachable"]
            entry = dict(name=name, seconds=r["duration_ms"] / 1000.0, checks=len(checks), solver=stats.get(name, {}).get("runtime_solver_s") or 0.0,
                         bounded="bounded" in attributes.get(name, ["bounded"]), stubs=[a for a in attributes.get(name, []) if a != "bounded"])
            if r["status"] == "Success":
                if covers and all(c["status"] == "Satisfied" for c in covers):
                    entry["status"] = "discharged"
                else:
                    entry["status"], entry["reason"] = "undecided", "the end of the harness is unreachable"
            elif not bad:
                entry["status"], entry["reason"] = "undecided", "no answer within %d s" % timeout
            else:
                entry["status"] = "failed"
                entry["failures"] = sorted(set((c["description"], c["category"], "%s:%s" % (c["location"].get("file", "?"), c["location"].get("line", "?"))) for c in bad))
            results.append(entry)
        seen = set(r["name"] for r in results)
        if attributes:
            self.notes += ["%s is not in the list of harnesses" % name for name in sorted(seen - set(attributes))]
        for name in self.names:
            if "native" in attributes.get(name, []):
                results.append(self.execute(name))
            elif name not in seen:
                results.append(dict(name=name, status="undecided", reason="no result", seconds=0.0, checks=0, solver=0.0, bounded=True, stubs=[]))
        return self.investigate(results)

    def execute(self, name):
        """Runs a harness which the verifier cannot follow; this never counts as proved."""
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-native" % (self.feature, name.replace("::", ".")))
        with open(path, "w") as f:
            f.write("harness speedy_verif::%s\n" % name)
        started = time.time()
        message = self.replay("speedy_verif::" + name, path)
        entry = dict(name=name, status="discharged", seconds=time.time() - started, checks=0, solver=0.0, bounded=True, stubs=[], backend="executed natively")
        if message:
            entry.update(status="failed", message=message, path=path, failures=[(message, "execution", name)])
        return entry

    def attributes(self):
        """The harnesses and their attributes, as compiled."""
        result = {}
        if self.build_native():
            status, out = run([self.native, "list"], 60)
            for line in (out or "").split("\n"):
                words = line.split()
                if words and words[0].startswith("speedy_verif::"):
                    result[words[0][len("speedy_verif::"):]] = words[1:]
        self.names = sorted(n for n in result if "known" not in result[n])
        return result

    def investigate(self, results):
        """Confirms failures against the real code."""
        failed = sorted((r for r in results if r["status"] == "failed"), key=lambda r: r["seconds"])
        violation = None
        for r in failed:
            if self.left() < 40:
                break
            violation = self.confirm(r)
            if violation:
                break
        if violation is None:
            return self.undecided_search(results)
        return results, violation

    def confirm(self, r):
        name = r["name"]
        if r.get("path"):
            return self.violation(r, r["message"], r["path"])
        native = "speedy_verif::" + name
        unwinding = [f for f in r["failures"] if f[1] == "unwind" or f[0].startswith("unwinding assertion")]
        extra = []
        if unwinding:
            extra = ["--unwind", "48"]
        for path in self.counterexamples(name, extra):
            message = self.replay(native, path)
            if message is None and not all(f[1] == "assertion" for f in r["failures"]) and self.left() > 60:
                message = self.miri(native, path)
            if message:
                return self.violation(r, message, path)
        found = self.search(native, 300000, 20)
        if found:
            return self.violation(r, *found)
        r["status"], r["reason"] = "undecided", "the verifier's counterexample does not reproduce on the real code"
        return None

    def violation(self, r, message, path):
        r["status"] = "violated"
        with open(path, "a") as f:
            f.write("\n# %s\n" % message.replace("\n", " "))
            for failure in r.get("failures", []):
                f.write("# failed obligation: %s (%s) at %s\n" % failure)
            f.write("# replay: cd %s && RUSTFLAGS='%s' cargo run --offline --features %s -- run speedy_verif::%s %s\n" % (CRATE, self.rustflags, self.features, r["name"], path))
        return dict(harness=r["name"], message=message, replay=path, obligation=[f[0] for f in r.get("failures", [])][:5])

    def undecided_search(self, results):
        """Where the verifier gives no answer, at least try inputs on the real code; this never counts as proved."""
        for r in results:
            if r["status"] == "undecided" and self.left() > 30:
                found = self.search("speedy_verif::" + r["name"], 100000, 10)
                if found:
                    return results, self.violation(r, *found)
        return results, None
