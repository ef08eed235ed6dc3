#!/usr/bin/env python3
"""Binding self-test: is every recorded field bound to the specification?

Records random histories of the unchanged library, changes one field of the
observation in many lines (a number by one, a text by a character, a list by its
last element, a truth value), and lets TLC judge the result.  Prints the fields
whose change no line of the specification noticed.  Development tool.
"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
PER = 4


def paths(v, p=()):
    yield p, v
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, e in enumerate(v):
            yield from paths(e, p + (i,))


LISTS = {"ph", "ph7", "prm", "j", "ord", "fd", "fl", "sets", "v", "l", "m", "on", "sv", "vals"}


def change(p, v):
    if p and p[-1] == "k":
        return {"and": "or", "or": "and"}.get(v)
    if isinstance(v, list) and not (p and (p[-1] in LISTS or (p[-1] == "f" and v and isinstance(v[0], list)))):
        return None
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1
    if isinstance(v, str):
        return v + "~"
    if isinstance(v, list) and v:
        return v[:-1]
    return None


def put(o, p, v):
    for k in p[:-1]:
        o = o[k]
    o[p[-1]] = v


def main():
    tmp = tempfile.mkdtemp(prefix="selftest-")
    rnd = random.Random(SEED)
    try:
        h = check.build(tmp)
        spec = os.path.join(tmp, "spec")
        shutil.copytree(os.path.join(HERE, "spec"), spec)
        t = open(spec + "/Trace.tla").read()
        open(spec + "/Trace.tla", "w").write(t.replace("MaxReports == 40", "MaxReports == 1000000"))
        lines = []
        for k, prof in enumerate(["all", "stmt", "cond", "joins", "paging", "idents", "write", "convert"]):
            st, died = check.harness(h, ["-mode", "random", "-profile", prof, "-shards", 1, "-n", 60, "-len", 25, "-rd", "end", "-h0", (k + 1) * check.H,
                                         "-seed", SEED * 50 + k], tmp, "s%d" % k)
            lines.append('{"t":"reset","n":0}')
            lines += open("%s/s%d-00.ndjson" % (tmp, k)).read().splitlines()
        open(tmp + "/clean", "w").write("\n".join(lines) + "\n")
        base = check.judge(spec, "ALL", tmp + "/clean", tmp + "/o1")
        assert not base["relevant"], base["relevant"][:5]
        # several traces, so that every field of an operation gets its turn
        count, missed, hit = {}, {}, {}
        order = list(range(len(lines)))
        for rounds in range(12):
            rnd.shuffle(order)
            out, key = list(lines), {}
            for n in order:
                d = json.loads(lines[n])
                if d["t"] != "ev" or d["o"].get("st") != "ok":
                    continue
                cand = []
                for p, v in paths(d["o"]):
                    w = change(p, v)
                    if p and w is not None:
                        cand.append(((d["e"]["op"],) + tuple("*" if isinstance(x, int) else x for x in p) + (type(v).__name__,), p, w))
                for f in ("d", "repeat", "x", "tw", "al"):
                    cand.append((("line", f), ("", f), d[f] + "~"))
                cand = [c for c in cand if count.get(c[0], 0) < PER]
                if not cand:
                    continue
                k, p, w = rnd.choice(cand)
                d2 = copy.deepcopy(d)
                if p[0] == "":
                    d2[p[1]] = w
                else:
                    put(d2["o"], p, w)
                count[k] = count.get(k, 0) + 1
                out[n] = json.dumps(d2)
                key[(d["h"], d["i"])] = (k, n)
            if not key:
                break
            path = "%s/r%d" % (tmp, rounds)
            open(path, "w").write("\n".join(out) + "\n")
            r = check.judge(spec, "ALL", path, path + ".o")
            got = {(a, b) for a, b, _, _ in r["relevant"]}
            for at, (k, n) in key.items():
                (hit if at in got else missed).setdefault(k, []).append(at)
            print("round", rounds, "changed", len(key), "noticed", len(got & set(key)), flush=True)
        never = sorted(k for k in missed if k not in hit)
        some = sorted(k for k in missed if k in hit)
        print("fields:", len(count), "always noticed:", len([k for k in hit if k not in missed]), "sometimes:", len(some), "never:", len(never))
        for k in never:
            print("NEVER", k)
        for k in some:
            print("SOMETIMES", k, len(hit[k]), "of", len(hit[k]) + len(missed[k]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
