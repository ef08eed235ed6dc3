"""What every check explores.  gen: histories generated by TLC from spec/Gen.tla
(profile, depth; n: how many of them are replayed, all when absent); rnd: random
histories of the harness (n per shard, len calls each); fork: generated histories
whose branches run in parallel; conc: random histories in parallel; model: a
design model checked by TLC on its own.  rd: whether everything obtained earlier
is looked at again after every call or at the end of a history."""


def gen(profile, depth, n=None, rd="end", **k):
    return dict(kind="gen", profile=profile, depth=depth, n=n, rd=rd, **k)


def rnd(profile, n, length, rd="end"):
    return dict(kind="rnd", profile=profile, n=n, len=length, rd=rd)


def wide(profile, n, length, rd="end"):
    """Statements of up to 60 comparisons, lists of up to 300 values, calls with many arguments."""
    return dict(kind="rnd", profile=profile, n=n, len=length, rd=rd, wide=True)


def tight(profile, n, length, rd="end"):
    """Few names, tables, values and kinds of comparison, so that equal ones meet."""
    return dict(kind="rnd", profile=profile, n=n, len=length, rd=rd, tight=True)


def fork(profile, depth, n=None, **k):
    return dict(kind="fork", profile=profile, depth=depth, n=n, **k)


def conc(profile, n, length, reps=1):
    return dict(kind="conc", profile=profile, n=n, len=length, reps=reps)


def model(name):
    return dict(kind="model", model=name)


PLAN = {
    "C01": dict(quick=[tight("all", 20, 25, "each"), gen("chain", 14, 100, "each"), gen("immut", 4, 3500, "each"), gen("grow", 6, None, "each"), rnd("all", 30, 25, "each"), wide("all", 6, 25, "each"), model("heap")],
                thorough=[tight("all", 300, 40, "each"), gen("chain", 24, None, "each"), gen("immut", 4, 40000, "each"), gen("grow", 8, None, "each"), rnd("all", 400, 40, "each"),
                          rnd("stmt", 200, 40, "each"), rnd("joins", 100, 30, "each"), wide("all", 120, 40, "each"), model("heap")]),
    "C02": dict(quick=[fork("grow", 6, 500), conc("all", 8, 40), conc("stmt", 5, 30), model("heap")],
                thorough=[fork("grow", 8, 6000, chunk=1000), conc("all", 20, 60, 6), conc("stmt", 20, 60, 4), conc("rebind", 20, 60, 2),
                          conc("joins", 20, 60, 2), model("heap")]),
    "C03": dict(quick=[gen("pair", 3), gen("write", 2, tight=True, every=True), gen("cond", 1, tight=True, every=True), tight("stmt", 20, 25), gen("chain", 14, 120), gen("long", 2), gen("flat", 2, 1000), gen("cond", 2, 3500), gen("write", 4, 1500), gen("paging", 3, 1500), rnd("stmt", 40, 20),
               wide("stmt", 12, 20), wide("write", 8, 20)],
                thorough=[gen("pair", 3), gen("write", 2, tight=True, every=True), gen("cond", 1, tight=True, every=True), tight("stmt", 300, 40), gen("chain", 24), gen("long", 2), gen("cond", 2), gen("write", 4), gen("paging", 3), gen("convert", 3), gen("custom", 2),
                          rnd("stmt", 800, 30), rnd("cond", 400, 30),
                          wide("stmt", 240, 40), wide("write", 160, 40)]),
    "C04": dict(quick=[gen("sel", 2, tight=True, every=True), gen("cond", 1, tight=True, every=True), tight("select", 20, 25), gen("chain", 14, 120), gen("long", 2), gen("cond", 1), gen("flat", 2, 1000), gen("cond", 2, 3500), gen("sel", 3, 2000), gen("paging", 3, 1000), rnd("select", 30, 20),
                       rnd("cond", 20, 20),
               wide("select", 8, 20), wide("cond", 8, 20)],
                thorough=[gen("sel", 2, tight=True, every=True), gen("cond", 1, tight=True, every=True), tight("select", 300, 40), gen("chain", 24), gen("long", 2), gen("cond", 2, 60000), gen("custom", 2), gen("selmore", 3), gen("paging", 3), rnd("select", 400, 30), rnd("cond", 400, 30),
                          wide("select", 160, 40), wide("cond", 160, 40)]),
    "C05": dict(quick=[gen("cond", 1, tight=True, every=True), tight("cond", 20, 25), gen("chain", 14, 250), gen("flat", 2), gen("cond", 2, 5500), rnd("cond", 50, 25),
               wide("cond", 12, 25)],
                thorough=[gen("cond", 1, tight=True, every=True), tight("cond", 300, 40), gen("chain", 24), gen("flat", 2), gen("flat", 3, 20000), gen("cond", 2), gen("cond3", 3, 100000), rnd("cond", 1500, 40), rnd("stmt", 300, 40),
                          wide("cond", 240, 40)]),
    "C06": dict(quick=[gen("pair", 3), gen("cond", 1, tight=True, every=True), tight("values", 20, 25), gen("long", 2), gen("leaf", 2), rnd("values", 40, 20), rnd("cond", 25, 20),
               wide("values", 8, 20)],
                thorough=[gen("pair", 3), gen("cond", 1, tight=True, every=True), tight("values", 300, 40), gen("long", 2), gen("leaf", 2), gen("leaf", 3), gen("custom", 2, 10000), rnd("values", 500, 30), rnd("cond", 500, 30),
                          wide("values", 160, 40)]),
    "C07": dict(quick=[gen("pair", 3), gen("long", 2), gen("convert", 2, tight=True, every=True), gen("write", 2, tight=True, every=True), tight("write", 20, 25), gen("write", 4, 6000), gen("convert", 3, 1500), rnd("write", 50, 25),
               wide("write", 8, 25)],
                thorough=[gen("pair", 3), gen("long", 2), gen("convert", 2, tight=True, every=True), gen("write", 2, tight=True, every=True), tight("write", 300, 40), gen("write", 4), gen("write", 5, 100000), gen("convert", 3), rnd("write", 1000, 40), rnd("convert", 400, 30),
                          wide("write", 160, 40)]),
    "C08": dict(quick=[gen("sel", 2, tight=True, every=True), tight("select", 20, 25), gen("chain", 14, 250), gen("long", 2), gen("sel", 3), gen("selmore", 3, 3500), rnd("select", 40, 25),
               wide("select", 12, 25)],
                thorough=[gen("sel", 2, tight=True, every=True), tight("select", 300, 40), gen("chain", 24), gen("long", 2), gen("sel", 4, 60000), gen("selmore", 3), rnd("select", 1000, 40), rnd("stmt", 300, 40),
                          wide("select", 240, 40)]),
    "C09": dict(quick=[gen("pair", 3), tight("convert", 20, 25), gen("convert", 3, 4000), gen("convert", 2, tight=True, every=True), gen("sel", 3, 2500), rnd("convert", 40, 25),
               wide("convert", 10, 25)],
                thorough=[gen("pair", 3), gen("convert", 2, tight=True, every=True), tight("convert", 300, 40), gen("convert", 3), gen("selmore", 3), gen("joins", 4, 10000), rnd("convert", 1000, 40), rnd("select", 300, 40),
                          wide("convert", 200, 40)]),
    "C10": dict(quick=[gen("write", 2, tight=True, every=True), tight("write", 20, 25), gen("chain", 14, 60), gen("long", 2), gen("write", 4, 5000), gen("values", 2), gen("rebindx", 2), rnd("write", 40, 25), rnd("values", 20, 20),
               wide("write", 12, 25)],
                thorough=[gen("write", 2, tight=True, every=True), tight("write", 300, 40), gen("chain", 24), gen("long", 2), gen("write", 4), gen("values", 3), gen("rebindx", 3), rnd("write", 1000, 40), rnd("values", 500, 30),
                          wide("write", 240, 40)]),
    "C11": dict(quick=[gen("pair", 3), gen("write", 2, tight=True, every=True), gen("convert", 2, tight=True, every=True), tight("write", 20, 25), gen("chain", 14, 100), gen("long", 2), gen("write", 4, 5000), gen("values", 2), gen("rebindx", 2), gen("flat", 2, 1000), gen("convert", 3, 1500), rnd("write", 50, 25),
               wide("write", 12, 25)],
                thorough=[gen("pair", 3), gen("write", 2, tight=True, every=True), gen("convert", 2, tight=True, every=True), tight("write", 300, 40), gen("chain", 24), gen("long", 2), gen("write", 4), gen("write", 5, 80000), gen("values", 3), gen("rebindx", 3), gen("flat", 2), gen("convert", 3), rnd("write", 1000, 40),
                          wide("write", 240, 40)]),
    "C12": dict(quick=[gen("pair", 3), gen("convert", 2, tight=True, every=True), tight("convert", 20, 25), gen("convert", 3), gen("flat", 2, 1000), rnd("convert", 50, 25),
               wide("convert", 15, 25)],
                thorough=[gen("pair", 3), gen("convert", 2, tight=True, every=True), tight("convert", 300, 40), gen("convert", 3), gen("convert", 4, 60000), rnd("convert", 1500, 40), rnd("stmt", 300, 40),
                          wide("convert", 300, 40)]),
    "C13": dict(quick=[gen("use", 2, tight=True, every=True), tight("idents", 20, 25), gen("idents", 5), gen("use", 2), gen("joins", 4, 800), rnd("idents", 50, 25), rnd("select", 20, 20),
               wide("select", 8, 25)],
                thorough=[gen("use", 2, tight=True, every=True), tight("idents", 300, 40), gen("idents", 6), gen("use", 2), gen("use", 3), gen("joins", 4, 10000), rnd("idents", 1000, 30), rnd("select", 400, 30),
                          wide("select", 160, 40)]),
    "C14": dict(quick=[gen("rebind", 1, tight=True, every=True), tight("rebind", 20, 25), gen("rebind", 2), gen("rebindx", 3), rnd("rebind", 50, 25),
               wide("rebind", 12, 25)],
                thorough=[gen("rebind", 1, tight=True, every=True), tight("rebind", 300, 40), gen("rebind", 2), gen("rebind", 3, 80000), gen("rebindx", 4), rnd("rebind", 1500, 40),
                          wide("rebind", 240, 40)]),
    "C15": dict(quick=[gen("pair", 3), tight("values", 20, 25), gen("long", 2), gen("values", 2), gen("leaf", 2), rnd("values", 60, 20),
               wide("values", 12, 25)],
                thorough=[gen("pair", 3), tight("values", 300, 40), gen("long", 2), gen("values", 3), gen("leaf", 2), rnd("values", 2000, 30), rnd("write", 300, 30),
                          wide("values", 240, 40)]),
    "C16": dict(quick=[gen("pair", 3), gen("write", 2, tight=True, every=True), tight("stmt", 20, 25), gen("values", 2), gen("leaf", 2), gen("write", 4, 1500), rnd("values", 40, 20), rnd("stmt", 25, 20),
                       gen("paging", 3, 1000), rnd("paging", 25, 20),
               wide("values", 8, 25)],
                thorough=[gen("pair", 3), gen("write", 2, tight=True, every=True), tight("stmt", 300, 40), gen("values", 3), gen("leaf", 2), gen("write", 4), rnd("values", 1000, 30), rnd("stmt", 800, 30),
                          gen("paging", 3), rnd("paging", 400, 30),
                          wide("values", 160, 40)]),
    "C17": dict(quick=[gen("names", 3), gen("names", 5, 9000), rnd("idents", 60, 25),
               wide("idents", 6, 25)],
                thorough=[gen("names", 6), rnd("idents", 2000, 30),
                          wide("idents", 120, 40)]),
    "C18": dict(quick=[gen("joins", 3, tight=True), tight("joins", 20, 25, "each"), gen("joins", 4, 6000), rnd("joins", 50, 25, "each"),
               wide("joins", 10, 25)],
                thorough=[gen("joins", 3, tight=True), tight("joins", 300, 40, "each"), gen("joins", 4), rnd("joins", 1500, 40, "each"),
                          wide("joins", 200, 40)]),
    "C19": dict(quick=[gen("sel", 2, tight=True, every=True), tight("all", 20, 25), rnd("all", 60, 25), rnd("stmt", 30, 25), gen("use", 2), gen("leaf", 2, 800), gen("selmore", 3, 2000), gen("joins", 4, 1500),
               wide("all", 12, 25)],
                thorough=[gen("sel", 2, tight=True, every=True), tight("all", 300, 40), rnd("all", 1500, 40), rnd("stmt", 800, 40), rnd("joins", 300, 30), rnd("paging", 300, 30), rnd("values", 300, 30),
                          gen("use", 2), gen("leaf", 2), gen("selmore", 3), gen("joins", 4, 10000), gen("write", 4),
                          wide("all", 240, 40)]),
    "C20": dict(quick=[gen("paging", 2, tight=True), tight("paging", 20, 25), gen("chain", 14, 150), gen("paging", 3, 6000), gen("selmore", 3, 1500), rnd("paging", 50, 25),
               wide("paging", 12, 25)],
                thorough=[gen("paging", 2, tight=True), tight("paging", 300, 40), gen("chain", 24), gen("paging", 3), gen("selmore", 3), rnd("paging", 1500, 40), rnd("select", 300, 40),
                          wide("paging", 240, 40)]),
    "C21": dict(quick=[gen("custom", 1, tight=True, every=True), tight("cond", 20, 25), gen("long", 2), gen("custom", 2, 5000), gen("leaf", 2, 600), rnd("cond", 40, 25), rnd("stmt", 25, 25),
               wide("stmt", 10, 25), wide("cond", 6, 25)],
                thorough=[gen("custom", 1, tight=True, every=True), tight("cond", 300, 40), gen("long", 2), gen("custom", 2), rnd("cond", 1000, 40), rnd("stmt", 600, 40),
                          wide("stmt", 200, 40), wide("cond", 120, 40)]),
}

_HEAP = [("disciplined", [], "holds"),
         ("no-clip", [("Clip = TRUE", "Clip = FALSE")], "violated"),
         ("no-copy-in", [("CopyIn = TRUE", "CopyIn = FALSE")], "violated"),
         ("no-copy-out", [("CopyOut = TRUE", "CopyOut = FALSE")], "violated")]
_SMALL = [("MaxObjs = 5", "MaxObjs = 4"), ("MaxArrays = 7", "MaxArrays = 6")]
MODELS = {
    "heap": dict(cfg="SliceHeap.cfg", module="SliceHeap.tla",
                 variants=dict(quick=[(a, b + _SMALL, c) for a, b, c in _HEAP], thorough=_HEAP)),
}
