#!/usr/bin/env python3
"""check.py <PROPERTY> | check.py --replay FILE | check.py --list

Decides one property of properties.jsonl for the tree in /repo:

 1. TLC explores spec/Gen.tla (the specification with its design invariants)
    and prints every call history of the property's profiles;
 2. the harness (harness/, built against /repo's working tree) makes these
    calls, and random ones, on the real library and records what every object
    shows;
 3. TLC checks the recorded traces against the specification (spec/Trace.tla).

Only step 3 decides: exit 1 with a VIOLATION line when TLC finds a recorded
call the specification does not allow and spec/Properties.tla says that the
difference concerns the property; exit 0 when every recorded step was
consumed and none concerns it; exit 2 when anything did not work.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, MODELS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))
SHARDS = 9
BATCH = 60000          # events judged at a time, over all shards
H = 1000000            # history numbers of a source start at a multiple of this


class Broken(Exception):
    pass


def note(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        raise Broken("timeout: " + " ".join(cmd[:6]))


def tlc(spec, cfg, module, workers, mem, env, timeout, out, stack="16m"):
    """Runs TLC; returns (exit code, path of its output)."""
    md = out + ".md"
    cmd = ["java", "-Xss" + stack, "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + os.path.dirname(out), "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", md, "-config", cfg, module]
    with open(out, "w") as f:
        p = run(cmd, timeout, env, spec, f)
    with open(out + ".err", "w") as f:
        f.write(p.stderr or "")
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode


def tail(path, n=12):
    try:
        with open(path) as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def states_of(text):
    m = STATES.search(text)
    if not m:
        return None
    return int(m.group(2)), int(m.group(1))


# ---------------------------------------------------------------- harness

def build(tmp, race=False):
    src = os.path.join(tmp, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        if REPO != "/repo":
            gm = os.path.join(src, "go.mod")
            t = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(t)
    out = os.path.join(tmp, "h-race" if race else "h")
    env = {"GOFLAGS": "-mod=mod", "GOWORK": "off", "GOTOOLCHAIN": "local"}
    if race:
        env["CGO_ENABLED"] = "1"
    p = run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], 600, env, src)
    if p.returncode != 0:
        raise Broken("the harness does not build against %s:\n%s" % (REPO, p.stderr[-3000:]))
    return out


def library_died(p, outdir, name):
    """The process ended inside the library, or a call of it does not return."""
    if p.returncode == 4 and os.path.exists(os.path.join(outdir, name + ".hang")):
        return "hang"
    if "fatal error: stack overflow" in p.stderr or "goroutine stack exceeds" in p.stderr:
        if "amarin/query" in p.stderr:
            return "stack overflow"
    if re.search(r"fatal error: (concurrent map|all goroutines)", p.stderr) and "amarin/query" in p.stderr:
        return "fatal error"
    return ""


class Traces:
    """One shard file per trace, possibly from several sources one after the other."""

    def __init__(self, tmp):
        self.tmp, self.k, self.runs = tmp, 0, 0

    def fresh(self):
        self.k += 1
        d = os.path.join(self.tmp, "b%d" % self.k)
        os.makedirs(d)
        return d


def harness(binary, args, outdir, name, env=None, timeout=800):
    """Runs the harness; returns (stats, died)."""
    cmd = [binary, "-out", outdir, "-name", name] + [str(a) for a in args]
    p = run(cmd, timeout, env)
    if p.returncode == 0:
        return json.loads(p.stdout), ""
    died = library_died(p, outdir, name)
    if not died:
        raise Broken("harness ended with %d:\n%s" % (p.returncode, p.stderr[:3000]))
    note("the library died (%s); once more, writing every step at once" % died)
    p = run(cmd + ["-flush"], timeout, env)
    again = library_died(p, outdir, name) if p.returncode != 0 else ""
    if not again:
        raise Broken("harness died once, not again:\n%s" % p.stderr[:3000])
    with open(os.path.join(outdir, name + ".died"), "w") as f:
        f.write(p.stderr[:20000])
    # keep complete lines only
    for f in sorted(os.listdir(outdir)):
        if f.startswith(name + "-") and f.endswith(".ndjson"):
            path = os.path.join(outdir, f)
            data = open(path, "rb").read()
            data = data[:data.rfind(b"\n") + 1]
            open(path, "wb").write(data)
    with open(os.path.join(outdir, name + "-00.ndjson"), "a") as f:
        f.write(json.dumps({"t": "monitor", "what": "crash", "n": 1, "h": 0, "i": 0}) + "\n")
    n = sum(1 for f in os.listdir(outdir) if f.startswith(name + "-") for _ in open(os.path.join(outdir, f)))
    return {"events": n, "histories": 0, "ops": {}, "distinct": 0, "samples": []}, again


# ---------------------------------------------------------------- judging

REL = re.compile(r'<<\s*"(RELEVANT|OTHER)",\s*(-?\d+),\s*(-?\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>')


def judge(spec, prop, trace, out):
    """TLC checks one trace.  Returns a dict."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return {"relevant": [], "other": [], "states": 0, "generated": 0, "lines": 0}
    rc = tlc(spec, "Trace.cfg", "Trace.tla", 1, "3g", {"TRACE": trace, "PROPERTY": prop}, 800, out)
    text = open(out).read()
    st = states_of(text)
    if rc != 0 or st is None or "No error has been found" not in text:
        raise Broken("TLC could not judge %s (exit %d):\n%s" % (trace, rc, tail(out, 40)))
    if st[0] != n + 1:
        raise Broken("trace %s: %d of %d lines consumed" % (trace, st[0] - 1, n))
    rel, oth = [], []
    for m in REL.finditer(text):
        t = (int(m.group(2)), int(m.group(3)), m.group(4), m.group(5))
        (rel if m.group(1) == "RELEVANT" else oth).append(t)
    return {"relevant": rel, "other": oth, "states": st[0], "generated": st[1], "lines": n}


# ---------------------------------------------------------------- sources

def generate(tmp, spec, profile, depth, workers, timeout):
    out = os.path.join(tmp, "gen-%s-%s" % (profile, depth))
    rc = tlc(spec, "Gen.cfg", "Gen.tla", workers, "8g", {"PROFILE": profile, "DEPTH": str(depth)}, timeout, out, "64m")
    pre, hist, rest = None, [], []
    with open(out) as f:
        for ln in f:
            if ln.startswith('"{'):
                s = json.loads(ln)
                if s.startswith('{"pre"'):
                    pre = s
                else:
                    hist.append(s)
            else:
                rest.append(ln)
    os.remove(out)
    text = "".join(rest)
    if rc != 0 or "No error has been found" not in text:
        raise Broken("the specification does not satisfy its own properties (profile %s):\n%s" % (profile, text[-4000:]))
    hist = sorted(set(hist))
    st = states_of(text)
    return {"profile": profile, "depth": depth, "pre": pre, "hist": hist, "states": st[0], "transitions": st[1]}


def model(tmp, spec, name):
    """Checks a design model; variants that must fail have to fail."""
    m = MODELS[name]
    res = []
    for label, subst, expect in m["variants"][TIER]:
        cfg = open(os.path.join(spec, m["cfg"])).read()
        for a, b in subst:
            if a not in cfg:
                raise Broken("model %s: no %r" % (name, a))
            cfg = cfg.replace(a, b)
        c = "%s-%s.cfg" % (name, label)
        open(os.path.join(spec, c), "w").write(cfg)
        out = os.path.join(tmp, c + ".out")
        env = dict(m.get("env", {}))
        rc = tlc(spec, c, m["module"], 4, "6g", env, 800, out, m.get("stack", "16m"))
        text = open(out).read()
        st = states_of(text)
        broken = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|property (\w+) (?:is|was) violated", text)
        if expect == "holds":
            if rc != 0 or "No error has been found" not in text:
                raise Broken("design model %s/%s does not hold:\n%s" % (name, label, text[-3000:]))
        elif not broken:
            raise Broken("design model %s/%s should be violated but TLC says:\n%s" % (name, label, text[-2000:]))
        res.append({"model": name, "variant": label, "expected": expect, "states": st[0] if st else 0,
                    "transitions": st[1] if st else 0})
    return res


def main(prop):
    t0 = time.time()
    plan = PLAN[prop][TIER] if TIER in PLAN[prop] else PLAN[prop]["quick"]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        code = check(prop, plan, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def clear_replays(prop):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(d, f))
    return d


def check(prop, plan, tmp, t0):
    spec = os.path.join(tmp, "spec")
    shutil.copytree(os.path.join(HERE, "spec"), spec)
    replays = clear_replays(prop)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    rnd = random.Random(SEED * 7919 + int(prop[1:]))
    cover = {"design": [], "conformance": [], "models": []}

    gens = [s for s in plan if s["kind"] in ("gen", "fork")]
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build, tmp)
        workers = 8 if len(gens) < 2 else 4
        lim = cf.ThreadPoolExecutor(2)
        fg = {}
        for s in gens:
            key = (s["profile"], s["depth"])
            if key not in fg:
                fg[key] = lim.submit(generate, tmp, spec, s["profile"], s["depth"], workers, 850 if TIER == "quick" else 3000)
        fm = [ex.submit(model, tmp, spec, s["model"]) for s in plan if s["kind"] == "model"]
        binary = fb.result()
        racy = build(tmp, True) if any(s["kind"] in ("fork", "conc") for s in plan) else None
        gen = {k: f.result() for k, f in fg.items()}
        for f in fm:
            cover["models"] += f.result()
        lim.shutdown()
    for k, g in gen.items():
        cover["design"].append({"profile": k[0], "depth": k[1], "states": g["states"], "transitions": g["transitions"],
                                "histories": len(g["hist"])})
    note("generated: " + ", ".join("%s/%s: %d histories, %d states" % (k[0], k[1], len(g["hist"]), g["states"])
                                   for k, g in gen.items()) + " (%.0f s)" % (time.time() - t0))

    traces = Traces(tmp)
    found, others = [], {}
    total = {"events": 0, "histories": 0, "states": 0, "generated": 0, "ops": {}, "distinct": 0, "samples": [], "races": 0}
    pool = cf.ThreadPoolExecutor(CORES)
    pending = []      # (dir, name, header, events)

    def flush():
        """Judges what has been recorded so far, sources merged per shard."""
        nonlocal pending
        if not pending:
            return
        d = traces.fresh()
        jobs = []
        shards = sorted({f.rsplit("-", 1)[1] for (pd, name, _, _) in pending for f in os.listdir(pd)
                         if f.startswith(name + "-") and f.endswith(".ndjson")})
        for sh in shards:
            path = os.path.join(d, sh)
            with open(path, "w") as out:
                for (pd, name, _, _) in pending:
                    part = os.path.join(pd, name + "-" + sh)
                    if os.path.exists(part) and os.path.getsize(part):
                        out.write('{"t":"reset","n":0}\n')
                        with open(part) as f:
                            shutil.copyfileobj(f, out)
            jobs.append((path, pool.submit(judge, spec, prop, path, path + ".out")))
        heads = [h for (_, _, h, _) in pending]
        for path, j in jobs:
            r = j.result()
            total["states"] += r["states"]
            total["generated"] += r["generated"]
            for o in r["other"]:
                others[o[2]] = others.get(o[2], 0) + 1
            for x in r["relevant"]:
                found.append((x, path, heads))
        for (pd, _, _, _) in pending:
            shutil.rmtree(pd, ignore_errors=True)
        if not found:
            shutil.rmtree(d, ignore_errors=True)
        pending = []

    def record(src, args, binary, env=None, after=None):
        """One run of the harness, with history numbers of its own."""
        traces.runs += 1
        name, h0 = "s%d" % traces.runs, traces.runs * H
        args = args + ["-h0", h0, "-seed", SEED * 1000 + traces.runs]
        d = traces.fresh()
        st, died = harness(binary, args, d, name, env)
        for k in ("events", "histories"):
            total[k] += st[k]
        total["distinct"] += st["distinct"]
        total["samples"] += st["samples"][:2]
        for k, v in st["ops"].items():
            total["ops"][k] = total["ops"].get(k, 0) + v
        hdr = dict(src)
        hdr["args"] = [str(a) for a in args]
        if died:
            hdr["died"] = died
        if after:
            after(d, name)
        pending.append((d, name, hdr, st["events"]))
        if sum(p[3] for p in pending) > BATCH * 0.8:
            flush()
        return st, d

    for k, s in enumerate(plan):
        if found:
            break
        if s["kind"] in ("gen", "fork"):
            g = gen[(s["profile"], s["depth"])]
            hist = g["hist"]
            n = s.get("n") or len(hist)
            pick = hist if n >= len(hist) else sorted(rnd.sample(range(len(hist)), n))
            chosen = pick if n >= len(hist) else [hist[i] for i in pick]
            done = {"source": "generated", "profile": s["profile"], "depth": s["depth"], "tight": bool(s.get("tight")), "of": len(hist), "histories": len(chosen), "every": bool(s.get("every")),
                    "exhaustive": n >= len(hist), "events": 0}
            step = s.get("chunk", 6000)
            for c in range(0, len(chosen), step):
                if found:
                    break
                script = os.path.join(tmp, "script-%d-%d" % (k, c))
                with open(script, "w") as f:
                    f.write(g["pre"] + "\n")
                    f.write("\n".join(chosen[c:c + step]) + "\n")
                if s["kind"] == "gen":
                    st, _ = record({"source": "gen", "profile": s["profile"], "script": script},
                                   ["-mode", "script", "-in", script, "-shards", SHARDS, "-rd", s.get("rd", "end")] + [f for f in ("tight", "every") if s.get(f) for f in ["-" + f]], binary)
                else:
                    st = concurrent({"source": "fork", "profile": s["profile"], "script": script},
                                    ["-in", script, "-shards", 4], racy, record, traces, total)
                done["events"] += st["events"]
                done["distinct_sql"] = done.get("distinct_sql", 0) + st["distinct"]
            cover["conformance"].append(done)
        elif s["kind"] == "rnd":
            st, _ = record({"source": "random", "profile": s["profile"]},
                           ["-mode", "random", "-profile", s["profile"], "-shards", SHARDS, "-n", s["n"],
                            "-len", s["len"], "-rd", s.get("rd", "end")] + (["-wide"] if s.get("wide") else []) + (["-tight"] if s.get("tight") else []), binary)
            cover["conformance"].append({"source": "random", "profile": s["profile"], "wide": bool(s.get("wide")), "tight": bool(s.get("tight")), "histories": st["histories"],
                                         "events": st["events"], "distinct_sql": st["distinct"]})
        elif s["kind"] == "conc":
            evs = 0
            for rep in range(s.get("reps", 1)):
                st = concurrent({"source": "goroutines", "profile": s["profile"]},
                                ["-profile", s["profile"], "-shards", 7, "-n", s["n"], "-len", s["len"]], racy, record, traces, total)
                evs += st["events"]
            cover["conformance"].append({"source": "goroutines", "profile": s["profile"], "events": evs})
    flush()
    pool.shutdown()

    wall = time.time() - t0
    cover_states = sum(d["states"] for d in cover["design"]) + sum(m["states"] for m in cover["models"])
    cover_trans = sum(d["transitions"] for d in cover["design"]) + sum(m["transitions"] for m in cover["models"])
    missing = [op for op in PLAN[prop].get("must", []) if not total["ops"].get(op)]
    if missing and not found:
        raise Broken("calls never made: %s" % missing)
    evidence = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": cover_states + total["states"],
            "transitions": cover_trans + total["generated"],
            "design_states": cover_states,
            "trace_states": total["states"],
            "traces_validated_against_impl": total["histories"],
            "calls_validated_against_impl": total["events"],
            "distinct_sql_shapes": total["distinct"],
            "calls_by_operation": dict(sorted(total["ops"].items())),
            "data_races_seen": total["races"],
            "design": cover["design"], "models": cover["models"], "conformance": cover["conformance"],
            "differences_not_concerning_this_property": others,
            "samples": total["samples"][:8] or ["(none)"],
            "exhaustive": False,
        },
        "assumptions": [
            "conformance is checked on the recorded calls: the generated histories (complete up to the stated depth, "
            "sampled where 'exhaustive' is false) and the random ones",
            "SQL text is read by the harness with the grammar in harness/sqlparse.go",
        ],
        "wall_s": round(wall, 1),
        "violations": len(found),
    }
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    with open(ev, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    note("%s %s seed %d: %d histories, %d calls validated by TLC (%d trace states), %d design states; %.0f s"
         % (prop, TIER, SEED, total["histories"], total["events"], total["states"], cover_states, wall))
    if others:
        note("differences that concern other properties: %s" % others)
    if not found:
        return 0
    first = {}
    for (x, path, heads) in found:
        key = x[2]
        if key not in first or x[0] < first[key][0][0]:
            first[key] = (x, path, heads)
    out = None
    for m, (x, path, heads) in sorted(first.items(), key=lambda kv: kv[1][0][0])[:5]:
        rp = write_replay(replays, prop, x, path, heads, tmp)
        out = out or rp
        note("difference %s at call %d (%s) of history %d: %s" % (m, x[1], x[3], x[0], rp))
    note("VIOLATION property=%s replay=%s" % (prop, out))
    return 1


def concurrent(src, args, racy, record, traces, total):
    log = os.path.join(traces.tmp, "race-log-%d" % traces.runs)
    env = {"GORACE": "log_path=%s halt_on_error=0 exitcode=0" % log}

    def after(d, name):
        races, text = 0, ""
        for f in sorted(os.listdir(traces.tmp)):
            if f.startswith(os.path.basename(log) + "."):
                text += open(os.path.join(traces.tmp, f)).read()
        for rep in text.split("=================="):
            if "WARNING: DATA RACE" not in rep:
                continue
            if REPO + "/" not in rep and "amarin/query." not in rep:
                raise Broken("a data race in the harness itself:\n" + rep[:3000])
            races += 1
        total["races"] += races
        if races:
            note("the race detector reported %d data races, the first one:\n%s" % (races, text[:1500]))
        with open(os.path.join(d, name + "-00.ndjson"), "a") as f:
            f.write(json.dumps({"t": "monitor", "what": "race", "n": races, "h": 0, "i": 0}) + "\n")

    return record(src, ["-mode", "conc"] + args, racy, env, after)[0]


# ---------------------------------------------------------------- replays

def base_of(head):
    return int(head["args"][head["args"].index("-h0") + 1])


def write_replay(d, prop, x, path, heads, tmp):
    """The prelude and the history of the difference, as recorded, with what is needed to make the same calls again."""
    h, i, m, op = x
    lines, cur, pre = [], [], None
    for ln in open(path):
        v = json.loads(ln)
        if v["t"] == "reset" and v["n"] == 0:
            cur, pre = [ln], None
        elif v["t"] == "reset":
            pre = pre or cur
            cur = pre + [ln]
        else:
            cur.append(ln)
            if (v["t"] == "ev" and (v["h"], v["i"]) == (h, i)) or (v["t"] == "monitor" and op == "monitor" and v["what"] == m and v["n"]):
                lines = cur
                break
    if op == "monitor":
        mine = [x for x in heads if x.get("died")] if m == "crash" else [x for x in heads if "conc" in x["args"]]
        head = dict((mine or heads)[-1])
    else:
        head = dict([x for x in heads if base_of(x) == (h + 1) // H * H][0])
    if "script" in head:
        with open(head.pop("script")) as f:
            rows = f.read().split("\n")
        head["script_pre"] = rows[0]
        if h >= base_of(head):
            head["script_history"] = rows[1 + h - base_of(head)]
    shard = os.path.basename(path).split(".")[0]
    head.update({"property": prop, "difference": m, "history": h, "call": i, "op": op, "shard": shard, "seed": SEED})
    name = os.path.join(d, "%s-%s-%d.ndjson" % (prop, re.sub(r"[^\w.]", "_", m), h))
    with open(name, "w") as f:
        f.write(json.dumps({"t": "header", **head}) + "\n")
        f.writelines(lines)
    return name


def replay(path):
    """Makes the calls of a replay file again on the current tree and lets TLC judge both recordings."""
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        spec = os.path.join(tmp, "spec")
        shutil.copytree(os.path.join(HERE, "spec"), spec)
        with open(path) as f:
            head = json.loads(f.readline())
            body = f.read()
        prop, h = head["property"], head["history"]
        old = os.path.join(tmp, "old.ndjson")
        open(old, "w").write(body)
        r = judge(spec, prop, old, old + ".out")
        note("as recorded: %s" % (r["relevant"] or "no difference"))
        conc = "-mode" in head["args"] and head["args"][head["args"].index("-mode") + 1] == "conc"
        if conc or head.get("died"):
            note("recorded with goroutines or a crash: run the check itself again")
            return 1 if r["relevant"] else 0
        binary = build(tmp)
        args = list(head["args"])
        if "script_pre" in head:
            script = os.path.join(tmp, "script")
            base = base_of(head)
            with open(script, "w") as f:
                f.write(head["script_pre"] + "\n")
                for _ in range(max(0, h - base)):
                    f.write('{"ev":[]}\n')
                f.write(head.get("script_history", '{"ev":[]}') + "\n")
            args[args.index("-in") + 1] = script
        d = os.path.join(tmp, "again")
        os.makedirs(d)
        harness(binary, args + ["-shard", int(head["shard"]), "-only", max(h, 0)], d, "a")
        t = os.path.join(d, "a-%s.ndjson" % head["shard"])
        r = judge(spec, prop, t, t + ".out")
        for x in r["relevant"]:
            note("now: difference %s at call %d (%s) of history %d" % (x[2], x[1], x[3], x[0]))
        if r["relevant"]:
            note("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        note("now: no difference")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if len(sys.argv) == 2 and sys.argv[1] == "--list":
            print("\n".join(sorted(k for k in PLAN)))
            sys.exit(0)
        if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
            print(__doc__)
            sys.exit(2)
        sys.exit(main(sys.argv[1]))
    except Broken as e:
        print("ERROR:", e, flush=True)
        sys.exit(2)
