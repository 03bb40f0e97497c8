#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of properties.jsonl against /repo's current working tree:
builds the real program natively, explores bounded models of the TLA+
specification (spec/MC_*.tla) with TLC, takes every edge of them with the real
program, records random runs of it, and judges every step taken with the
specification.  See DESIGN.md."""
import json, os, re, subprocess, sys, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(HERE, "spec")
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan

def java_cp():
    d = "/opt/veriftools/tla"
    extra = [os.path.join(d, f) for f in sorted(os.listdir(d)) if "ommunity" in f and f.endswith(".jar")]
    return ":".join([JAR] + extra)
CP = java_cp()
QUICK = "thorough" not in sys.argv

class NoAnswer(Exception):
    pass

def die(msg):
    raise NoAnswer(msg)

def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.91.0", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(HERE, ".build"),
               RUSTC_WRAPPER=os.path.join(HERE, "harness", "rustc-wrapper.sh"))
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("harness build failed")
    # the library as its clients compile it: without the on-chain cfg
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.91.0", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(HERE, ".build", "client"))
    env.pop("RUSTC_WRAPPER", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "harness", "client"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("client build failed")
    return os.path.join(HERE, ".build", "release", "swigh")

def tlc(module, cfg, meta, env=None, workers=1, heap="3g", extra=(), timeout=None):
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap,
           # short runs: compiling further costs more than it saves
           *(["-XX:TieredStopAtLevel=1"] if QUICK else []),
           "-XX:-UsePerfData", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout

def read(trace):
    with open(trace) as f:
        return [json.loads(l) for l in f if l.strip()]

def judge(trace, work):
    """-> (lines judged, [{k, op, what, props, st}])"""
    out = tlc("Trace.tla", "Trace.cfg", os.path.join(work, "m_" + os.path.basename(trace)), {"TRACE": trace})
    with open(trace + ".out", "w") as f:
        f.write(out)
    div = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"DIVERGE '):
            div.append(json.loads(json.loads(l).split(" ", 1)[1]))
    m = re.search(r'"JUDGED", (\d+)', out)
    if m:
        return int(m.group(1)), div
    # the specification cannot interpret a recorded step: find which one
    ks = [int(x) for x in re.findall(r"^/?\\?\s*k = (\d+)", out, re.M)]
    k = (max(ks) if ks else 0) + 1
    T = read(trace)
    if not 1 <= k <= len(T) or "Error" not in out:
        die("TLC gave no answer on %s:\n%s" % (trace, out[-3000:]))
    op = T[k - 1]["op"]
    msg = re.search(r"Error: (.*?)(?:The behavior|Error: The behavior|$)", out, re.S)
    div.append({"k": k, "op": op.get("i"), "what": "unintelligible", "st": (msg.group(1)[:300] if msg else ""),
                "props": plan.by_op(op)})
    return k, div

def history(T, k):
    """the run up to line k (1-based): its init line and every operation since"""
    c = T[k - 1]["c"]
    return [T[j - 1]["op"] for j in range(c, k + 1) if T[j - 1]["c"] == c or j == c]

def path_to(T, k, kids=None):
    t = T[k - 1]
    node = T[t["c"] - 1]
    if "node" not in node:
        return history(T, k)
    ops, path = [node["op"]], []
    for j in node["node"]:
        ops.append(kids[(tuple(path), j)])
        path.append(j)
    return ops + [t["op"]]

def edges(f):
    d = {}
    for l in open(f):
        path, k, op, _ = json.loads(l)
        d[(tuple(path), k)] = op
    return d

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(HERE, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viol, self.known, self.notes, self.samples = [], [], [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.findings = plan.known_findings()
        self.lock = threading.RLock()
        self.failed = None

    def violation(self, what, ops, where):
        rp = os.path.join(HERE, "replays")
        os.makedirs(rp, exist_ok=True)
        n = len(self.viol)
        path = os.path.join(rp, "%s-%d.nd" % (self.prop, n))
        with open(path, "w") as f:
            for o in ops:
                f.write(json.dumps({"op": o}) + "\n")
        self.viol.append(path)
        if n < 8:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what)
            print("  seen in %s; last operation: %s" % (where, json.dumps(ops[-1])[:600]), flush=True)

    def model(self, exe, model, shard, depth):
        """explores one bounded model -> (name, campaign arguments) that take its every edge"""
        name = "model-%s-%d" % (model, shard)
        base = os.path.join(self.work, name)
        init = os.path.join(SPEC, "models", model + ".json")
        with open(base + ".i", "w") as f:
            f.write(json.dumps({"op": json.load(open(init))}) + "\n")
        p = subprocess.run([exe, "replay", base + ".i", "--out", base + ".o"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            die("swigh cannot set up model %s: %s" % (model, p.stdout[-500:]))
        with open(base + ".start", "w") as f:
            json.dump({"st": read(base + ".o")[0]["st"], "depth": depth, "shard": shard}, f)
        out = tlc("MC_%s.tla" % model, "MC_%s.cfg" % model, base + ".m", {"START": base + ".start"})
        n = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if "No error has been found" not in out or not n:
            die("the specification fails its own model %s, shard %d:\n%s" % (model, shard, out[-3000:]))
        with open(base + ".e", "w") as f:
            for l in out.splitlines():
                if l.startswith('"E '):
                    f.write(json.loads(l)[2:] + "\n")
        with self.lock:
            self.cov["states"] += int(n.group(2))
            self.cov["transitions"] += int(n.group(1))
            self.cov.setdefault("models", []).append({"model": model, "shard": shard, "depth": depth,
                                                      "states": int(n.group(2)), "transitions": int(n.group(1))})
        return name, ["tree", init, base + ".e"]

    def unit(self, exe, u):
        """one campaign or model: run it, judge it"""
        name, args = self.model(exe, *u) if isinstance(u[1], int) else u
        out = os.path.join(self.work, name + ".nd")
        p = subprocess.run([exe, *args, "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.ended(name, out, p.returncode, p.stdout, args)
        if not os.path.getsize(out):
            return
        n, div = judge(out, self.work)
        T = read(out)
        kids = edges(args[2]) if args[0] == "tree" else None
        with self.lock:
            if kids is None:
                self.cov["traces_validated_against_impl"] += sum(1 for t in T if t["op"].get("i") == "init")
            else:
                self.cov["traces_validated_against_impl"] += len(kids)
                self.cov["model_edges_taken"] = self.cov.get("model_edges_taken", 0) + len(kids)
            self.cov["steps_validated"] = self.cov.get("steps_validated", 0) + n
            self.cov["steps_accepted"] = self.cov.get("steps_accepted", 0) + sum(1 for t in T if t["ok"] and t["op"]["i"] != "init")
            if len(self.samples) < 3 and len(T) > 12:
                self.samples.append({"trace": name, "line": 12, "op": T[11]["op"], "accepted": T[11]["ok"]})
            for d in div:
                self.divergence(T, d, name, kids)
        for f in os.listdir(self.work):
            if f.startswith(name + "."):
                os.unlink(os.path.join(self.work, f))

    def ended(self, name, out, rc, log, args):
        if rc == 0:
            return
        try:
            c = json.loads(open(out + ".cur").read())
        except Exception:
            die("swigh %s ended with %s: %s" % (name, rc, log[-500:]))
        if rc == 3:
            die("swigh %s panicked: %s" % (name, log[-500:]))
        # the program hung or crashed the process on this operation
        T = []
        for l in open(out).read().splitlines():
            try:
                T.append(json.loads(l))
            except Exception:
                break
        what = "hung for 60 s" if rc == 77 else "crashed (signal %s)" % -rc
        with open(out, "w") as f:
            for t in T:
                f.write(json.dumps(t) + "\n")
        with self.lock:
            if self.prop in plan.by_op(c["op"]):
                ops = [t["op"] for t in T if t["c"] == c["c"]] + [c["op"]]
                if args[0] == "tree" and c["c"] <= len(T):
                    ops = path_to(T + [{"c": c["c"], "op": c["op"]}], len(T) + 1, edges(args[2]))
                self.violation("the program %s" % what, ops, name)
            else:
                self.notes.append("%s: program %s on %s" % (name, what, c["op"].get("i")))

    def run(self, exe, units):
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(self.unit, exe, u) for u in units]
            try:
                for f in fs:
                    f.result()
            except NoAnswer as e:
                ex.shutdown(cancel_futures=True)
                self.failed = str(e)

    def divergence(self, T, d, name, kids):
        t = T[d["k"] - 1]
        tag = "%s: step %d %s is %s" % (name, d["k"], d["op"], {
            "refused": "refused by the program (%s) but must be accepted" % t["w"],
            "accepted": "accepted by the program but must be refused",
            "state": "accepted with another result than specified",
            "broken": "accepted in breach of the property",
            "leftover": "refused but left changes behind",
            "unintelligible": "leads to a state that is no wallet state"}.get(d["what"], d["what"]))
        kf = plan.match_finding(self.findings, self.prop, t, d)
        if kf:
            if kf["property"] == self.prop:
                self.known.append(kf["text"])
        elif self.prop in d["props"]:
            more = ""
            if d["what"] == "state":
                more = " (" + "; ".join(plan.diff(d["st"], t.get("st") or T[t["p"] - 1]["st"])[:4]) + ")"
            self.violation(tag + more, path_to(T, d["k"], kids), name)
        else:
            self.notes.append("%s %s -> %s" % (d["op"], d["what"], ",".join(sorted(d["props"]))))

    def finish(self):
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for n in sorted(set(self.notes))[:40]:
            print("note (not this property): %d x %s" % (self.notes.count(n), n))
        if self.viol and len(self.viol) > 8:
            print("... and %d more" % (len(self.viol) - 8))
        self.cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1),
              "assumptions": plan.ASSUMPTIONS, "violations": len(self.viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d traces, %d steps judged, %d model states, %.0f s, %d violations" % (
            self.prop, self.tier, self.cov["traces_validated_against_impl"], self.cov.get("steps_validated", 0),
            self.cov["states"], time.time() - self.t0, len(self.viol)))
        if self.failed:
            print("ERROR " + self.failed)
        sys.exit(1 if self.viol else 2 if self.failed else 0)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        exe = build()
    except NoAnswer as e:
        print("ERROR %s" % e)
        sys.exit(2)
    c.run(exe, plan.models(prop, tier) + plan.jobs(prop, tier, c.seed))
    c.finish()

if __name__ == "__main__":
    main()
