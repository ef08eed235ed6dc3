#!/usr/bin/env python3
"""Development tool: mutation campaign.

mutate.py tests          which of the mutants in /tmp/mu/m survive the tests of /repo
mutate.py traces [ids]   compare the traces of survivors with those of the clean tree,
                         judge the different ones with TLC (PROPERTY=ALL)
Results: /tmp/mu/tests.json, /tmp/mu/traces.json
"""
import concurrent.futures as cf
import hashlib, json, os, queue, re, shutil, subprocess, sys

MU = "/tmp/mu"
ENV = dict(os.environ, GOCACHE=MU + "/gocache", GOFLAGS="-mod=mod", GOWORK="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
W = int(os.environ.get("WORKERS", "8"))
RND = [("all", 12, 25, False), ("stmt", 12, 25, False), ("cond", 12, 25, False), ("values", 10, 20, False), ("idents", 30, 25, False),
       ("joins", 12, 25, False), ("paging", 12, 25, False), ("rebind", 10, 25, False), ("convert", 12, 25, False), ("write", 12, 25, False),
       ("select", 12, 25, False), ("all", 4, 25, True), ("stmt", 6, 25, True), ("write", 6, 20, True), ("select", 6, 20, True)]


def workdir(k):
    d = "%s/w%d" % (MU, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.copytree("/verif/harness", d + "/h")
    gm = d + "/h/go.mod"
    t = open(gm).read().replace("=> /repo", "=> %s/repo" % d)
    open(gm, "w").write(t)
    return d


def mutant(i):
    d = "%s/m/%s" % (MU, i)
    f = [x for x in os.listdir(d) if x.endswith(".go")][0]
    return d + "/" + f, f, open(d + "/what").read().strip()


def apply(w, i):
    src, f, _ = mutant(i)
    shutil.copy(src, "%s/repo/%s" % (w, f))
    return f


def undo(w, f):
    shutil.copy("/repo/" + f, "%s/repo/%s" % (w, f))


def stage_tests(w, i):
    f = apply(w, i)
    try:
        p = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=w + "/repo", env=ENV, capture_output=True, text=True, timeout=120)
        if p.returncode == 0:
            return "survives"
        return "compile" if "[build failed]" in p.stdout + p.stderr or "[setup failed]" in p.stdout + p.stderr else "killed"
    except subprocess.TimeoutExpired:
        return "killed"
    finally:
        undo(w, f)


def jobs():
    """cheap ones first"""
    for k, (p, n, ln, wide) in enumerate(RND):
        yield "r%d%s" % (k, p), ["-mode", "random", "-profile", p, "-shards", "1", "-n", str(n), "-len", str(ln), "-rd", "each" if k % 2 else "end",
                                 "-h0", "2000000", "-seed", str(100 + k)] + (["-wide"] if wide else [])
    for s in ("names", "use", "idents", "write", "values", "selmore", "rebindx", "convert", "rebind", "paging", "leaf", "cond", "grow", "joins", "custom"):
        rd = "each" if s in ("immut", "grow", "joins") else "end"
        yield s, ["-mode", "script", "-in", "%s/scripts/%s" % (MU, s), "-shards", "1", "-rd", rd, "-h0", "1000000", "-seed", "77"]


def build(w):
    p = subprocess.run(["go", "build", "-o", w + "/hbin", "."], cwd=w + "/h", env=ENV, capture_output=True, text=True)
    return "harness does not build: " + p.stderr[-500:] if p.returncode else ""


def one_job(w, out, name, args):
    """(digest of the traces, error)"""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        p = subprocess.run([w + "/hbin", "-out", out, "-name", name] + args, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None, "harness timeout in " + name
    if p.returncode:
        return None, "harness %s ends with %d: %s" % (name, p.returncode, p.stderr[:600])
    h = hashlib.sha1()
    for f in sorted(os.listdir(out)):
        h.update(open(out + "/" + f, "rb").read())
    return h.hexdigest(), ""


def record(w, out):
    err = build(w)
    if err:
        sys.exit(err)
    sums = {}
    for name, args in jobs():
        sums[name], err = one_job(w, out, name, args)
        if err:
            sys.exit(err)
    return sums


REL = re.compile(r'<<\s*"(RELEVANT|OTHER)",\s*(-?\d+),\s*(-?\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>')


def tlc(w, trace, prop="ALL"):
    env = dict(os.environ, TRACE=trace, PROPERTY=prop)
    p = subprocess.run(["java", "-Xss16m", "-Xmx3g", "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", w + "/md",
                        "-config", "Trace.cfg", "Trace.tla"], cwd=w + "/spec", env=env, capture_output=True, text=True, timeout=600)
    if "No error has been found" not in p.stdout:
        return "error " + p.stdout[-1500:], []
    return "", sorted({(m.group(4), m.group(5)) for m in REL.finditer(p.stdout)})


def stage_traces(w, i, base):
    f = apply(w, i)
    out = w + "/out"
    try:
        err = build(w)
        if err:
            return {"r": "harness", "why": err}
        if not os.path.isdir(w + "/spec"):
            shutil.copytree("/verif/spec", w + "/spec")
        diff = []
        for name, args in jobs():
            got, err = one_job(w, out, name, args)
            if err:
                return {"r": "harness", "why": err}
            if got == base[name]:
                continue
            diff.append(name)
            for t in sorted(os.listdir(out)):
                try:
                    e, seen = tlc(w, out + "/" + t)
                except subprocess.TimeoutExpired:
                    return {"r": "tlc-timeout", "in": t}
                if e:
                    return {"r": "tlc-error", "why": e, "in": t}
                if seen:
                    return {"r": "judged", "in": name, "what": seen[:6]}
            if len(diff) == 6:
                break
        return {"r": "quiet", "diff": diff} if diff else {"r": "same"}
    finally:
        undo(w, f)


def campaign(ids, fn, path, *more):
    done = json.load(open(path)) if os.path.exists(path) else {}
    todo = [i for i in ids if i not in done]
    ws = queue.Queue()
    for k in range(W):
        ws.put(workdir(k))

    def one(i):
        w = ws.get()
        try:
            return i, fn(w, i, *more)
        finally:
            ws.put(w)
    with cf.ThreadPoolExecutor(W) as ex:
        for n, (i, r) in enumerate(ex.map(one, todo)):
            done[i] = r
            if n % 50 == 49:
                json.dump(done, open(path, "w"))
                print(n + 1, "of", len(todo), flush=True)
                if shutil.disk_usage("/").free < 40 << 30:
                    subprocess.run(["go", "clean", "-cache"], env=ENV)
    json.dump(done, open(path, "w"))
    return done


def main():
    what = sys.argv[1]
    if what == "tests":
        r = campaign(sorted(os.listdir(MU + "/m")), stage_tests, MU + "/tests.json")
    else:
        t = json.load(open(MU + "/tests.json"))
        ids = sys.argv[2:] or [i for i in sorted(t) if t[i] == "survives"]
        w = workdir(99)
        b1 = record(w, w + "/out")
        b2 = record(w, w + "/out")
        if b1 != b2:
            sys.exit("base traces differ between runs: %s" % [k for k in b1 if b1[k] != b2[k]])
        if sys.argv[2:] and os.path.exists(MU + "/traces.json"):
            d = json.load(open(MU + "/traces.json"))
            for i in ids:
                d.pop(i, None)
            json.dump(d, open(MU + "/traces.json", "w"))
        r = campaign(ids, stage_traces, MU + "/traces.json", b1)
    n = {}
    for v in r.values():
        k = v if isinstance(v, str) else v["r"]
        n[k] = n.get(k, 0) + 1
    print(n)


main()
