#!/usr/bin/env python3
"""Decides one property: explores the specification with TLC, replays the behaviours into nom-sparql, compares.

usage: check.py ID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --replay FILE re-runs the failing cases of a violation
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery itself failed.
"""
import json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
BIN = os.path.join(HARNESS, "target", "release", "conformance")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FINDINGS = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, HERE)
import plan  # noqa: E402


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- harness
def build():
    env = dict(os.environ, RUSTFLAGS="--cfg nom_sparql_verif -Awarnings", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + p.stderr[-4000:])


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")


def line_of(c):
    return "\t".join((c["e"], c["k"], esc(c["x"]), esc(c.get("r", "")), esc("\x1f".join(c.get("a", ()))))) + "\n"


LIMIT = ["20"]


def harness_once(cases, extra=()):
    """Runs the harness on cases; returns (failures [(case, why, got)], number judged, number accepted)."""
    data = "".join(map(line_of, cases)).encode("utf-8", "surrogatepass")
    p = subprocess.run([BIN, "--limit", LIMIT[0], *extra], input=data, capture_output=True)
    fails, done, acc, hang = [], None, 0, None
    for l in p.stdout.decode("utf-8", "replace").splitlines():
        try:
            o = json.loads(l)
        except ValueError:
            continue
        if "done" in o:
            done, acc = o["done"], o["accepted"]
        elif "hang" in o:
            hang = o["hang"]
        elif "other" in o:  # two results that compare wrongly
            a, b = cases[o["line"] - 1], cases[o["other"] - 1]
            same = "same" if o["same"] else "other"
            fails.append(({"e": "E" if a["e"] == "X" else "V", "k": "ok", "p": a["p"], "x": a["x"], "r": b["x"], "a": [same]}, "the results should compare as " + same, o["got"]))
        elif "line" in o:
            fails.append((cases[o["line"] - 1], o["why"], o["got"]))
    if done is not None and p.returncode == 0:
        if done != len(cases):
            raise ToolError("the harness judged %s of %s cases" % (done, len(cases)))
        return fails, done, acc
    if hang:
        HANGS[0] += 1
        fails.append((cases[hang - 1], "does not return within %s s" % LIMIT[0], {"kind": "hang"}))
        f, d, a = harness_once(cases[hang:]) if HANGS[0] < MAX_HANGS and hang < len(cases) else ([], 0, 0)
        return fails + f, hang + d, a
    if p.returncode >= 0 and p.returncode != 134:
        raise ToolError("harness ended with %s: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1000:]))
    # the process died (stack overflow, abort): find the case
    if len(cases) == 1:
        return [(cases[0], "the process dies (signal %s)" % -p.returncode, {"kind": "crash"})], 1, 0
    h = len(cases) // 2
    f1, d1, a1 = harness_once(cases[:h])
    if len([1 for f in f1 if f[2].get("kind") in ("crash", "hang")]) >= 3:
        return f1, d1, a1
    f2, d2, a2 = harness_once(cases[h:])
    return f1 + f2, d1 + d2, a1 + a2


REPEAT = 66000  # elements of the huge lists
CROSS = 12000    # results compared with one another
SESSION = 16
ROUNDS = 60
HANGS = [0]     # calls that did not return, over the whole check
MAX_HANGS = 3


def record_once(cases, rounds=None):
    """Histories of calls, SESSION texts each; a history that breaks off gets a last event saying so."""
    if HANGS[0] >= MAX_HANGS or not cases:
        return []
    data = "".join(map(line_of, cases)).encode("utf-8", "surrogatepass")
    p = subprocess.run([BIN, "--sessions", str(SESSION), "--limit", LIMIT[0], "--rounds", str(ROUNDS if rounds is None else rounds)], input=data, capture_output=True)
    out, done, hang = [], False, None
    for l in p.stdout.split(b"\n"):
        if l.startswith(b'{"texts"'):
            out.append(l.decode("utf-8"))
        elif l.startswith(b'{"hang"'):
            hang = json.loads(l)["hang"]
        done = done or l.startswith(b'{"done"')
    if done and p.returncode == 0:
        return out

    def broken(c, kind):
        e = {"op": "parse", "e": c["e"], "id": 1, "kind": kind, "rest": "", "at": 0, "tree": ""}
        return json.dumps({"texts": [c["x"]], "events": [e]})

    if hang:
        HANGS[0] += 1
        out.append(broken(cases[hang - 1], "no return within %s s" % LIMIT[0]))
        left = cases[(hang - 1) // SESSION * SESSION:]
        left = [c for c in left if c is not cases[hang - 1]] if len(out) <= (len(cases) + SESSION - 1) // SESSION else []
        return out + record_once(left, 0)
    if p.returncode >= 0 and p.returncode != 134:
        raise ToolError("harness ended with %s: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1000:]))
    if len(cases) == 1:
        HANGS[0] += 1
        return [broken(cases[0], "the process dies")]
    h = (len(cases) // 2 + SESSION - 1) // SESSION * SESSION if len(cases) > SESSION else len(cases) // 2
    a = record_once(cases[:h], 0)
    return a + record_once(cases[h:], 0)


# ---------------------------------------------------------------- TLC
class Tlc:
    """One TLC run; yields the JSON records it prints."""

    def __init__(self, name, scratch, module, consts, invariants, workers, heap, spec="Spec", extra_files=(), timeout=3000):
        self.name = name
        d = os.path.join(scratch, name)
        os.makedirs(d)
        defs, cfg = [], []
        for k, v in consts.items():
            defs.append("MC_%s == TLCEval(%s)" % (k, v))
            cfg.append("CONSTANT %s <- MC_%s" % (k, k))
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s, TLC\n%s\n====\n" % (module, "\n".join(defs)))
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("SPECIFICATION %s\n%s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (spec, "\n".join(cfg), " ".join(invariants)))
        for n, t in extra_files:
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        self.d, self.text = d, []
        self.states = self.transitions = 0
        self.proc = subprocess.Popen(
            ["timeout", "-k", "5", str(timeout), "java", "-Xss512m", "-Xmx%s" % heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
             "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", "MC.cfg", "MC.tla"],
            cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def records(self):
        for raw in self.proc.stdout:
            l = raw.decode("utf-8", "replace").rstrip("\n")
            if l.startswith('"{') and l.endswith('}"'):
                yield json.loads(json.loads(l))
            else:
                self.text.append(l)
                if len(self.text) > 400:
                    del self.text[100:300]
        rc = self.proc.wait()
        out = "\n".join(self.text)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not m or "Model checking completed. No error" not in out:
            raise ToolError("TLC run %s ended with %s:\n%s" % (self.name, rc, out[-3000:]))
        self.transitions = int(m[-1][0].replace(",", ""))
        self.states = int(m[-1][1].replace(",", ""))


# ---------------------------------------------------------------- rendering
def plain(s):
    """`H` stands for code point H."""
    return CODE.sub(lambda m: m.group(0) if 0xd800 <= int(m.group(1), 16) < 0xe000 else chr(int(m.group(1), 16)), s) if "`" in s else s


CODE = re.compile("`((?:10|[1-9A-F])?[0-9A-F]{4}|[0-9A-F]{2,3})`")


def pieces(x):
    return plain("".join(chr(p) if isinstance(p, int) else p for p in x))


def leaf(a):
    return plain(a) if isinstance(a, str) else pieces(a)


def cases_of(r):
    """The concrete requests of one record of the specification."""
    if "rep" in r:  # a list, one period of it
        n = REPEAT // 7 + 1
        (a, u, b), (x, y, m, v, z) = ([[plain(w[1:]) for w in q] for q in r["rep"]], [[plain(w) for w in q] for q in r["reptree"]])
        yield {"e": r["e"], "k": "ok", "p": r["p"], "x": " ".join(a + u * n + b), "r": "", "a": x + y * n + m + v * n + z}
        return
    if "t" in r:  # tokens, with the glue bits: written with spaces, and as tight as allowed
        t = [plain(w[1:]) for w in r["t"]]
        k = r.get("k", "ok")
        n = r.get("n", len(t))
        base = {"e": r["e"], "k": k, "p": r["p"]}
        if k == "ok":
            base["a"] = [plain(a) for a in r["a"]]
        spaced = " ".join(t)
        rest = " ".join(t[n:]) if 0 <= n < len(t) else ""
        yield dict(base, x=spaced, r=rest)
        if k == "ok" and n == len(t) and 1 in r.get("g", ()):
            tight = "".join(w + ("" if g else " ") for w, g in zip(t, r["g"] + [1]))
            yield dict(base, x=tight, r="")
    else:  # verbatim pieces
        c = {"e": r["e"], "k": r["k"], "p": r["p"], "x": pieces(r["x"]), "r": pieces(r.get("r", []))}
        if r["k"] == "ok":
            c["a"] = [leaf(a) for a in r["a"]]
        yield c


# ---------------------------------------------------------------- findings
def known(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) entry=(\S) input=(\".*?[^\\]\"|\"\") -- (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.replayed = self.accepted = 0
        self.fails, self.samples, self.runs = [], [], []
        self.lock = threading.Lock()
        self.q = queue.Queue(maxsize=64)
        self.errors = []
        self.built = threading.Event()
        self.stop = False
        self.seen = set()

    def feeder(self):
        self.built.wait()
        while True:
            batch = self.q.get()
            if batch is None:
                return
            if self.errors or self.stop:
                continue
            try:
                f, n, acc = harness_once(batch)
            except Exception as e:  # noqa
                with self.lock:
                    self.errors.append(e)
                continue
            with self.lock:
                self.fails += f
                self.replayed += n
                self.accepted += acc
                if len(self.fails) >= 2000 or HANGS[0] >= MAX_HANGS:
                    self.stop = True

    def produce(self, t, render, keep, cross=False):
        batch, cnt, size = [], 0, 0
        groups = {}
        try:
            for r in t.records():
                if self.stop or self.errors:
                    t.proc.send_signal(signal.SIGTERM)
                    break
                for c in render(r):
                    key = hash((c["e"], c["k"], c["x"], c["r"] if c["e"] in "EV" else ""))
                    if key in self.seen:
                        continue
                    self.seen.add(key)
                    cnt += 1
                    if cross:  # to be compared with the others of its profile
                        if c["k"] == "ok" and c["e"] in "QU" and not c["r"] and not any(a == "D-0" or a.startswith("D-0e") for a in c["a"]):
                            g = groups.setdefault((c["p"], c["e"]), [])
                            g.append(dict(c, e="X" if c["e"] == "Q" else "Y"))
                            if len(g) >= CROSS:
                                self.q.put(groups.pop((c["p"], c["e"])))
                    elif keep is not None:
                        keep.append(c)
                    else:
                        batch.append(c)
                        size += len(c["x"])
                    if cnt in (1, 7, 60, 500, 4000) or (cnt % 100003 == 0 and len(self.samples) < 60):
                        s = {"run": t.name, "entry": c["e"], "expect": c["k"], "text": c["x"][:300]}
                        if c["k"] == "ok":
                            s["tree"] = " ".join(c["a"])[:400]
                        self.samples.append(s)
                if len(batch) >= 1500 or size > 3000000:
                    self.q.put(batch)
                    batch, size = [], 0
            for b in [batch] + list(groups.values()):
                if b:
                    self.q.put(b)
        except Exception as e:  # noqa
            if not (self.stop or self.errors):
                self.errors.append(e)
        finally:
            if self.stop or self.errors:
                try:
                    t.proc.kill()
                except OSError:
                    pass
            with self.lock:
                self.states += t.states
                self.transitions += t.transitions
                self.runs.append({"run": t.name, "states": t.states, "transitions": t.transitions, "requests": cnt})

    def run(self):
        t0 = time.time()
        scratch = tempfile.mkdtemp(prefix="nsv-")
        try:
            self.body(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return self.report(t0)

    def body(self, scratch):
        runs = plan.runs(self.prop, self.tier, self.seed)
        feeders = [threading.Thread(target=self.feeder) for _ in range(8)]
        for f in feeders:
            f.start()
        err = []

        def do_build():
            try:
                build()
            except Exception as e:  # noqa
                err.append(e)
                self.errors.append(e)
            self.built.set()

        b = threading.Thread(target=do_build)
        b.start()
        par = plan.PARALLEL[self.tier]
        recorded = []
        pending = list(runs)
        live = []
        idx = 0
        w = max(1, 8 // max(1, min(par, len(pending))))
        while (pending or live) and not self.errors:
            while pending and len(live) < par:
                r = pending.pop(0)
                idx += 1
                t = Tlc("%02d-%s" % (idx, r["name"]), scratch, r["module"], r["consts"], r["inv"], w, r.get("heap", "3g"), r.get("spec", "Spec"))
                keep = recorded if r.get("record") else None
                th = threading.Thread(target=self.produce, args=(t, cases_of, keep, r.get("cross", False)))
                th.start()
                live.append((th, t))
            live[0][0].join(0.2)
            live = [(th, t) for th, t in live if th.is_alive()]
        for th, t in live:
            t.proc.kill()
            th.join()
        b.join()
        for _ in feeders:
            self.q.put(None)
        for f in feeders:
            f.join()
        if self.errors:
            raise self.errors[0]
        if recorded:
            self.validate(scratch, recorded)

    # histories recorded from the real parser, checked against the specification by TLC
    def validate(self, scratch, cases):
        from concurrent.futures import ThreadPoolExecutor
        step = SESSION * 24
        cases = [c for i in range(7) for c in cases[i::7]]   # mixes the runs, so that a history holds unlike texts
        with ThreadPoolExecutor(8) as ex:
            logs = [o for c in ex.map(record_once, [cases[i:i + step] for i in range(0, len(cases), step)]) for o in c]
        part = 1500
        for k in range(0, len(logs), part):
            log = logs[k:k + part]
            t = Tlc("session%d" % k, scratch, "Session", {"File": '"log.json"'}, ["Whole"], 8, "8g", extra_files=[("log.json", "\n".join(log) + "\n")])
            full, bad, sessions = 0, [], [json.loads(x) for x in log]
            for r in t.records():
                if "full" in r:
                    full += 1
                else:
                    bad.append(r)
            if full + len(bad) != len(log):
                raise ToolError("TLC judged %d of %d histories" % (full + len(bad), len(log)))
            for r in bad:
                e, i, why, pos = r["bad"]
                s = sessions[r["ses"] - 1]
                self.fails.append(({"p": "history", "e": e, "k": "any", "x": s["texts"][i - 1]}, why, {"kind": s["events"][pos - 1]["kind"], "history": s["texts"]}))
            self.states += t.states
            self.transitions += t.transitions
            self.replayed += sum(len(s["texts"]) for s in sessions)
            self.accepted += sum(1 for s in sessions for e in s["events"] if e["op"] == "prefix")
            self.events = getattr(self, "events", 0) + sum(len(s["events"]) for s in sessions)
            self.runs.append({"run": t.name, "states": t.states, "transitions": t.transitions, "histories": len(log), "events": sum(len(s["events"]) for s in sessions)})

    def report(self, t0):
        listed = known(self.prop)
        fresh, hit = [], set()
        for c, why, got in self.fails:
            k = next((i for i, f in enumerate(listed) if f[0] == c["e"] and f[1] == c["x"]), None)
            if k is None:
                fresh.append((c, why, got))
            else:
                hit.add(k)
        for i in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[i][2]))
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.replayed,
            "accepted_by_impl": self.accepted, "runs": self.runs[:60],
            "samples": self.samples[:40],
            "explanation": "states/transitions: TLC's distinct states and generated states over all runs of the specification; "
                           "traces_validated_against_impl: distinct requests rendered from those behaviours, parsed by the real code and compared "
                           "(outcome, tree, remainder, second call, consumed part alone).",
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
        while len(json.dumps(ev)) > 60000 and cov["samples"]:
            cov["samples"].pop()
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d transitions, %d requests replayed (%d accepted), %d failures, %.1f s" % (
            self.prop, self.tier, self.states, self.transitions, self.replayed, self.accepted, len(fresh), time.time() - t0))
        if not fresh and (not self.states or not self.replayed):
            raise ToolError("nothing was explored")
        if fresh:
            fresh.sort(key=lambda f: len(f[0]["x"]))
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            path = os.path.join(HERE, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"case": c, "why": w, "got": g} for c, w, g in fresh[:200]], f, indent=1)
            for c, w, g in fresh[:5]:
                print("  %s %s %r: %s" % (c["p"], c["e"], c["x"][:200], w))
                if "a" in c:
                    print("     expected  %s" % " ".join(c["a"])[:600])
                print("     got       %s" % str(g.get("tree", g.get("kind")))[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0


def replay(path):
    build()
    bad = 0
    for f in json.load(open(path)):
        fails, _, _ = harness_once([f["case"]])
        for c, w, g in fails:
            bad += 1
            print("%r: %s\n   expected %s\n   got      %s" % (c["x"], w, " ".join(c.get("a", [c["k"]])), g.get("tree", g)))
    print("%d still failing" % bad)
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Check(sys.argv[1], tier, seed).run()


if __name__ == "__main__":
    sys.setrecursionlimit(10000)
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
