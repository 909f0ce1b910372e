"""The checks: which models are explored, which behaviours are executed on the
library, and which trace specification decides."""
import json
import vlib
from vlib import generate, CheckError

CHECKS, ASSUME, FLAVOUR, NOTE, NOT_APPLICABLE = {}, {}, {}, {}, {}
DRIVERS = ["phrase"]


def check(prop, *assume):
    def deco(f):
        CHECKS[prop] = f
        ASSUME[prop] = ["TLC, the TLA+ specifications in spec/ and the drivers' projection of the public API are trusted",
                        "the library is compiled with address and undefined-behaviour sanitizers; a crash is an event no specification accepts"] + list(assume)
        return f
    return deco


def S(xs): return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs) + "}"


# ------------------------------------------------------------------- phrases
def phrase_cfg(fam, depth=0, hist=True, slots=(1, 2, 3), vals=(1, 2, 7), maxdim=4, maxlen=600, buflen=12, extra="INVARIANT Emit\n", labels=("", "a", "b"), pokes=(1, 2, 12)):
    return ("SPECIFICATION Spec\nCONSTANTS Slots = %s\n BufLen = %d\n Vals = %s\n MaxDim = %d\n MaxLen = %d\n KeepHist = %s\n Depth = %d\n Families = %s\n Labels = %s\n Pokes = %s\n%s"
            % (S(slots), buflen, S(vals), maxdim, maxlen, "TRUE" if hist else "FALSE", depth, S(fam), S(labels), S(pokes), extra))


PH_MC = "INVARIANT Inv\nPROPERTY Independent\nPROPERTY BufferSafe\nCONSTRAINT Bound\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"
PH_T = "CONSTANTS Slots = {1, 2, 3}\n BufLen = 12\n"


def phrases(ctx, fams, num, depth, base=0, env=None):
    for k, fam in enumerate(fams):
        ctx.conform("phrase", "PhraseTrace",
                    generate("PhraseMC", phrase_cfg(fam, depth), num, depth, ctx.seed * 10 + base + k, procs=2), PH_T, env=env)


@check("C02", "frames are small integers, so that recorded and read values can be compared exactly")
def c02(ctx):
    ctx.model("PhraseMC", phrase_cfg(["read"], hist=False, slots=(1,), vals=(1, 2), maxdim=ctx.pick(3, 4), maxlen=ctx.pick(2, 3), extra=PH_MC),
              must_take=["Rec", "RecIn", "RecOut", "Clr", "Dim", "Din"])
    phrases(ctx, [["read", "cols"], ["read", "fill"], ["fill", "read", "multi", "json"]], ctx.pick(300, 4000), ctx.pick(40, 60))


@check("C03")
def c03(ctx):
    ctx.model("PhraseMC", phrase_cfg(["multi", "shared"], hist=False, slots=(1, 2), vals=(1,), maxdim=2, maxlen=1, buflen=2, extra=PH_MC, labels=("",), pokes=(1,)),
              must_take=["Copy", "Assign", "Del", "Con", "Con2", "Con1", "Discon", "Poke"])
    phrases(ctx, [["multi", "shared"], ["multi", "shared", "json", "read", "cols"], ["multi", "fill", "shared"]], ctx.pick(300, 4000), ctx.pick(40, 60))


# -------------------------------------------------------------- training sets
def set_cfg(fam, depth=0, hist=True, idx=(-1, 2, 5), labels=("", "a", "b"), vals=(1, 2, 5), maxdim=4, maxlen=4, tslots=(1, 2),
            hslots=(1, 2), cells=12, extra="INVARIANT Emit\n", small=False):
    return ("SPECIFICATION Spec\nCONSTANTS Slots = %s\n BufLen = 1\n TSlots = %s\n HSlots = %s\n IdxOrder <- IdxO\n LabelOrder <- LabO\n"
            " Vals = %s\n MaxDim = %d\n MaxLen = %d\n KeepHist = %s\n Depth = %d\n Families = %s\n SmallIdx = %s\n%s"
            % (S(range(1, cells + 1)), S(tslots), S(hslots), S(vals), maxdim, maxlen, "TRUE" if hist else "FALSE", depth, S(fam), "TRUE" if small else "FALSE", extra))


TS_MC = "INVARIANT Inv\nCONSTRAINT Bound\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"
TS_T = ("CONSTANTS Slots = {1,2,3,4,5,6,7,8,9,10,11,12}\n BufLen = 1\n TSlots = {1, 2}\n HSlots = {1, 2}\n IdxOrder <- IdxO\n LabelOrder <- LabO\n")
DRIVERS.append("trainingset")


def sets(ctx, fams, num, depth, base=0, env=None):
    for k, fam in enumerate(fams):
        ctx.conform("trainingset", "TrainingSetTrace",
                    generate("TrainingSetMC", set_cfg(fam, depth), num, depth, ctx.seed * 10 + base + k, procs=2), TS_T, env=env)


@check("C04", "phrases shared by two training sets have the shape of both")
def c04(ctx):
    ctx.model("TrainingSetMC", set_cfg(["multi", "handles"], hist=False, tslots=(1,), hslots=(1,), cells=6, extra=TS_MC, small=True),
              must_take=["Add", "AddCopy", "AddPtr", "Rm", "RmClass", "HLabel", "PLabel", "HGet"])
    sets(ctx, [["handles"], ["multi", "handles", "bi", "rec"], ["multi", "handles", "json", "rec"]], ctx.pick(300, 4000), ctx.pick(40, 60))


@check("C05", "phrases handed to a set by the caller have the shape of the set")
def c05(ctx):
    ctx.model("TrainingSetMC", set_cfg(["shape", "bi"], hist=False, tslots=(1,), hslots=(), cells=4, maxdim=3, extra=TS_MC, small=True),
              must_take=["TDim", "TDin", "TCols", "Add"])
    sets(ctx, [["shape", "bi", "rec"], ["shape", "bi", "multi", "handles"], ["shape", "bi", "multi", "json", "rec"]], ctx.pick(300, 4000), ctx.pick(40, 60))


@check("C06", "statistics are compared to 4 digits; scaling uses integer offsets and gains so that frames are compared exactly")
def c06(ctx):
    sets(ctx, [["stats", "rec"], ["stats", "rec", "bi"], ["stats", "rec", "bi", "shape"]], ctx.pick(300, 4000), ctx.pick(40, 60))
    phrases(ctx, [["stats"], ["stats", "multi"]], ctx.pick(200, 2000), 40)


# ------------------------------------------------------------------- settings
DRIVERS.append("attribute")
ATTR = "CONSTANTS Slots = {1, 2, 3}\n Observers = {1, 2}\n"
TYPES = ["uint", "int", "long", "uchar", "char", "float", "double", "bool", "string", "vfloat", "vint", "vstr"]


def attributes(ctx, num, depth):
    for k, ty in enumerate([TYPES[:7], TYPES[5:9], TYPES[9:]]):
        ctx.conform("attribute", "AttributeTrace", generate(
            "AttributeMC", "SPECIFICATION Spec\n" + ATTR + " Types = %s\n KeepHist = TRUE\n Depth = %d\nINVARIANT Emit\n" % (S(ty), depth), num, depth, ctx.seed * 10 + k, procs=2), ATTR)


DRIVERS.append("config")
CONF_T = "CONSTANTS SSlots = {1, 2}\n CSlots = {1, 2}\n LabelOrder <- LabO\n"


def conf_cfg(fam, depth=0, hist=True, sslots=(1, 2), cslots=(1, 2), maxdim=4, kinds=("gmm", "hmm", "kmeans"), maxf=8, extra="INVARIANT Emit\n"):
    return ("SPECIFICATION Spec\nCONSTANTS SSlots = %s\n CSlots = %s\n LabelOrder <- LabO\n KindsUsed = %s\n MaxF = %d\n Families = %s\n MaxDim = %d\n KeepHist = %s\n Depth = %d\n%s"
            % (S(sslots), S(cslots), S(kinds), maxf, S(fam), maxdim, "TRUE" if hist else "FALSE", depth, extra))


CONF_MC = "INVARIANT Inv\nPROPERTY Isolated\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"


def configs(ctx, fams, num, depth, base=0, env=None):
    for k, fam in enumerate(fams):
        ctx.conform("config", "ConfigTrace", generate("ConfigMC", conf_cfg(fam, depth), num, depth, ctx.seed * 10 + base + k, procs=2), CONF_T, env=env)


@check("C01")
def c01(ctx):
    for ty in (["int"], ["double"], ["vint"]):
        ctx.model("AttributeMC", "SPECIFICATION Spec\nCONSTANTS Slots = %s\n Observers = {1}\n Types = %s\n KeepHist = FALSE\n Depth = 0\nINVARIANT Inv\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"
                  % ("{1}" if ty == ["vint"] else "{1}", S(ty)), must_take=["Set", "SetLo", "SetLims"])
    attributes(ctx, ctx.pick(200, 3000), ctx.pick(40, 60))
    configs(ctx, [["shared", "cols", "num"], ["config", "num"], ["shared", "config", "num", "json", "cols"]], ctx.pick(200, 3000), ctx.pick(40, 60))
    gaussians(ctx, [["shape"]], ctx.pick(100, 1000), 30, base=5)
    phrases(ctx, [["cols", "multi"]], ctx.pick(100, 1000), 30)
    sets(ctx, [["shape", "bi"]], ctx.pick(100, 1000), 30)


@check("C17", "training data are a dozen small sets of noisy gestures")
def c17(ctx):
    ctx.model("ConfigMC", conf_cfg(["config"], hist=False, sslots=(), cslots=(1, 2), kinds=("kmeans",), maxf=1, extra=CONF_MC), must_take=["DSet", "CSet", "CGet", "CPut", "Reset", "Reset1"])
    configs(ctx, [["config"], ["config", "num"], ["config", "json", "num"]], ctx.pick(300, 4000), ctx.pick(40, 60))
    explore(ctx, ["train1", "class", "config", "cov"], G, must_take=["Train1", "CSet", "DSet", "CReset"])
    models(ctx, [(["class", "config", "train1", "copy"], GH, ctx.pick(120, 1500), 25), (["class", "config", "json", "filter"], GH, ctx.pick(100, 1500), 25)])


# --------------------------------------------------------------------- events
DRIVERS.append("events")
EV_T = "CONSTANTS Gens = {1, 2}\n Subs = {1, 2, 3}\n"


@check("C23")
def c23(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Gens = %s\n Subs = {1, 2, 3}\n Order <- OrderO\n KeepHist = %s\n Depth = %d\n%s"
    ctx.model("EventsMC", cfg % ("{1}", "FALSE", 0, "INVARIANT Inv\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"), must_take=["Add", "Rm", "Notify", "Todo"])
    ctx.conform("events", "EventsTrace", generate("EventsMC", cfg % ("{1, 2}", "TRUE", 40, "INVARIANT Emit\n"), ctx.pick(400, 4000), 40, ctx.seed * 10, procs=2), EV_T, bind=False)
    attributes(ctx, ctx.pick(100, 1000), 40)
    sets(ctx, [["multi", "handles"], ["handles", "rec"]], ctx.pick(200, 3000), ctx.pick(40, 60))


# -------------------------------------------------------------- distributions
DRIVERS.append("gaussian")


def gauss_cfg(fam, depth=0, hist=True, slots=(1, 2, 3), maxdim=4, extra="INVARIANT Emit\n"):
    return ("SPECIFICATION Spec\nCONSTANTS Slots = %s\n Families = %s\n MaxDim = %d\n KeepHist = %s\n Depth = %d\n%s"
            % (S(slots), S(fam), maxdim, "TRUE" if hist else "FALSE", depth, extra))


GA_T = "CONSTANTS Slots = {1, 2, 3}\n"
GA_MC = "INVARIANT Inv\nPROPERTY KeepsVariances\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"


def gaussians(ctx, fams, num, depth, base=0, env=None):
    for k, fam in enumerate(fams):
        ctx.conform("gaussian", "GaussianTrace", generate("GaussianMC", gauss_cfg(fam, depth), num, depth, ctx.seed * 10 + base + k, procs=2), GA_T, env=env)


@check("C20", "densities are compared to 6 digits and conditional means (computed in single precision) to 4; covariances are either singular by a zero row or well conditioned")
def c20(ctx):
    ctx.model("GaussianMC", gauss_cfg(["shape", "ellipse"], hist=False, slots=(1,), maxdim=2, extra=GA_MC.replace("VIEW", "CONSTRAINT Small\nVIEW")), must_take=["Make", "Dim", "Din", "Mode", "SetP", "Upd", "FromE"])
    gaussians(ctx, [["eval"], ["eval", "shape"], ["eval", "ellipse"], ["shape", "json", "ellipse", "eval"]], ctx.pick(300, 4000), ctx.pick(40, 60))


# --------------------------------------------------------------------- models
DRIVERS.append("model")


def library(seed):
    """training sets for models: gestures with a shape per class, quantised irregularly, and variants of the same data"""
    import random, math
    rng = random.Random(seed * 7919 + 17)

    def fr(v): return "%.17g" % (round(v * 64) / 64)

    def gesture(dim, n, ph, amp=2.0):
        return [[fr(amp * math.sin(ph + 0.9 * d + 3.1 * t / max(n, 1) * (1 + 0.3 * d)) + 0.8 * d - ph + rng.uniform(-0.35, 0.35)) for d in range(dim)] for t in range(n)]

    def phr(items): return [dict(i=i, l=l, f=f) for i, l, f in sorted(items)]

    def tset(dim, items, bi=False, din=0, cols=None):
        return dict(bi=bi, dim=dim, din=din, cols=cols or [""] * dim, phr=phr(items))
    a1, a2, b1, e1, c1 = gesture(2, 9, 0), gesture(2, 12, 0.2), gesture(2, 10, 2), gesture(2, 8, 4), gesture(2, 11, 1, 3)
    L = [tset(2, [(0, "a", a1), (1, "a", a2), (2, "b", b1), (3, "", e1)], cols=["x", "y"]),
         tset(2, [(-3, "c d", c1), (4, "a", a1), (9, "a", a2)]),
         tset(2, [(1, "a", gesture(2, 10, 3)), (2, "b", gesture(2, 7, 1)), (7, "b", gesture(2, 13, 1.1))]),
         tset(1, [(0, "a", gesture(1, 9, 0)), (1, "b", gesture(1, 14, 2))]),
         tset(3, [(0, "", gesture(3, 15, 1)), (1, "b", gesture(3, 10, 2)), (2, "b", gesture(3, 11, 2.1))])]
    g1, g2 = gesture(3, 10, 0), gesture(3, 12, 2)
    L += [tset(3, [(0, "a", g1), (1, "b", g2)], True, 1, ["in", "o", "p"]),
          tset(3, [(5, "c d", gesture(3, 9, 1)), (6, "a", g1)], True, 1),
          tset(3, [(0, "a", gesture(3, 11, 1)), (1, "a", gesture(3, 8, 1.2)), (2, "b", gesture(3, 12, 3))], True, 2),
          tset(2, [(0, "a", gesture(2, 10, 0)), (1, "", gesture(2, 12, 3))], True, 1),
          tset(4, [(0, "a", gesture(4, 16, 0)), (1, "b", gesture(4, 14, 2))], True, 2),
          # nothing to learn from: no frames, one or two frames, no phrases
          tset(2, [(0, "a", []), (1, "b", b1), (2, "c d", gesture(2, 2, 1)), (3, "a", [])]),
          tset(2, []),
          tset(3, [(0, "a", []), (1, "b", gesture(3, 3, 1)), (2, "", g1)], True, 1),
          # an empty and a short phrase beside a good one
          tset(2, [(0, "a", a1), (1, "a", []), (2, "a", gesture(2, 2, 0.1)), (3, "b", c1)])]
    return "".join(json.dumps(x) + "\n" for x in L)


def model_cfg(fam, depth=0, hist=True, slots=(1, 2), kinds=("gmm", "hmm"), extra="INVARIANT Emit\n"):
    return ("SPECIFICATION Spec\nCONSTANTS MSlots = %s\n LabelOrder <- LabO\n Key <- Key0\n Families = %s\n KindsUsed = %s\n KeepHist = %s\n Depth = %d\n%s"
            % (S(slots), S(fam), S(kinds), "TRUE" if hist else "FALSE", depth, extra))


MODEL_T = "CONSTANTS MSlots = {1, 2}\n LabelOrder <- LabO\n Key <- Key0\n"


def tiny():
    """a library for exhaustive exploration: one-frame gestures, sets that differ in labels, data, size and modality"""
    def st(bi, dim, cols, *phr): return dict(bi=bi, dim=dim, din=1 if bi else 0, cols=cols, phr=[dict(i=i, l=l, f=f) for i, l, f in phr])
    return "".join(json.dumps(x) + "\n" for x in [
        st(False, 1, ["x"], (0, "a", [["1"], ["2"]]), (1, "b", [["3"]])), st(False, 1, [""], (0, "b", [["5"], ["6"]])),
        st(False, 2, ["", ""], (0, "a", [["1", "2"], ["2", "4"]]), (2, "b", [])), st(True, 2, ["", ""], (0, "b", [["1", "2"], ["2", "4"]]))])


MO_MC = "INVARIANT Inv\nPROPERTIES Isolated Steady Faithful\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"


def explore(ctx, fam, kinds=("gmm", "hmm"), slots=(1,), must_take=()):
    from framework import data_env
    ctx.model("ModelMC", model_cfg(fam, 0, False, slots, kinds, MO_MC), env=data_env(tiny()), must_take=["New", "Train"] + list(must_take))


def models(ctx, runs, base=0, timeout=None, env=None):
    """runs: (families, kinds, number, depth)"""
    from framework import data_env
    for k, (fam, kinds, num, depth) in enumerate(runs):
        data = library(ctx.seed * 10 + base + k)
        ctx.conform("model", "ModelTrace", generate("ModelMC", model_cfg(fam, depth, kinds=kinds), num, depth, ctx.seed * 10 + base + k, procs=4, env=data_env(data)), MODEL_T, data=data, env=env,
                    timeout=timeout or ctx.pick(600, 3000))


G, H, GH = ["gmm"], ["hmm"], ["gmm", "hmm"]
NUMERIC = "numbers are recomputed in double precision from recorded ones and compared with tolerances (1e-6 for likelihoods, 1e-4 for single-precision regressions); computations on nearly singular covariances are not compared"
DATA = "training data are a dozen small sets of noisy gestures (one to four dimensions, up to 16 frames, up to three classes and three phrases each), redrawn per seed"


@check("C07", NUMERIC, DATA)
def c07(ctx):
    explore(ctx, ["train1", "win", "filter"], must_take=["Win", "Reset"])
    n = ctx.pick(1, 12)
    models(ctx, [(["win", "filter"], G, 150 * n, 40), (["win", "filter"], H, 150 * n, 40), (["win", "filter", "hier", "train1", "rm"], H, 100 * n, 40), (["win", "filter", "copy", "json", "train1"], GH, 100 * n, 40)])


@check("C10", DATA, "numbers of a class are compared exactly, as a hash")
def c10(ctx):
    explore(ctx, ["train1", "rm", "misfit"], slots=(1, 2), must_take=["Train1", "Rm", "Clear", "TrainNull"])
    explore(ctx, ["train1", "rm", "class", "config", "cov"], G, must_take=["Train1", "Rm", "CSet", "DSet"])
    n = ctx.pick(1, 12)
    models(ctx, [(["train1", "rm", "misfit", "query", "thread"], G, 250 * n, 25), (["train1", "rm", "misfit", "query", "thread"], H, 150 * n, 25),
                 (["train1", "rm", "config", "class", "query", "thread"], G, 150 * n, 25), (["train1", "rm", "filter", "hier", "class", "copy"], GH, 150 * n, 30)])


@check("C11", NUMERIC, DATA)
def c11(ctx):
    explore(ctx, ["train1", "est", "filter", "misfit", "rm"], must_take=["Est", "Reset"])
    n = ctx.pick(1, 12)
    models(ctx, [(["filter", "est", "config", "class", "misfit"], G, 200 * n, 30), (["filter", "est", "nohier", "config", "class", "misfit"], H, 150 * n, 30),
                 (["filter", "est", "hier", "win", "misfit", "train1"], H, 120 * n, 30), (["filter", "est", "win", "train1", "rm"], G, 150 * n, 30)])


@check("C12", NUMERIC, DATA)
def c12(ctx):
    explore(ctx, ["train1", "copy", "rm"], GH, (1, 2), must_take=["Copy", "Assign", "Del", "Train1"])
    n = ctx.pick(1, 12)
    models(ctx, [(["copy", "filter", "train1"], G, 200 * n, 35), (["copy", "filter", "train1", "hier", "exit"], H, 150 * n, 35),
                 (["copy", "config", "class", "win", "stop", "filter", "rm"], GH, 150 * n, 35), (["filter", "win", "hier"], GH, 150 * n, 40)])


@check("C13", NUMERIC, DATA, "decoding classes on their own adds, by design, a way of weight 0.05 from the last to the first state")
def c13(ctx):
    n = ctx.pick(1, 12)
    models(ctx, [(["filter", "config", "nohier"], H, 250 * n, 30), (["filter", "config", "class", "nohier", "stop"], H, 150 * n, 25), (["filter", "hier", "train1"], H, 100 * n, 35)])


@check("C14", NUMERIC, DATA)
def c14(ctx):
    explore(ctx, ["train1", "rm", "hier", "exit", "config", "states"], H, must_take=["Train1", "Rm", "Hier1", "Exit", "HSet"]) if not ctx.quick else \
        explore(ctx, ["train1", "rm", "hier", "class", "states"], H, (1,), must_take=["Train1", "Rm", "Hier1", "CSet"])
    n = ctx.pick(1, 12)
    models(ctx, [(["filter", "hier", "exit"], H, 200 * n, 40), (["filter", "train1", "rm", "exit", "hier", "misfit"], H, 150 * n, 40), (["filter", "train1", "rm", "json", "copy", "exit", "class"], H, 150 * n, 35)])


@check("C18", NUMERIC, DATA)
def c18(ctx):
    explore(ctx, ["win", "dim", "stop"], G, must_take=["Stop"])
    n = ctx.pick(1, 12)
    models(ctx, [(["stop", "snap", "config", "nohier"], G, 200 * n, 14), (["stop", "snap", "config", "nohier"], H, 150 * n, 14), (["stop", "snap", "thread", "train1", "misfit", "class"], GH, 200 * n, 16)])
    models(ctx, [(["cap", "snap", "nohier", "config"], GH, 40 * n, 8)], base=5)


@check("C21", NUMERIC, DATA)
def c21(ctx):
    n = ctx.pick(1, 12)
    models(ctx, [(["filter", "config"], G, 250 * n, 30), (["filter", "config", "class", "stop"], G, 200 * n, 25), (["filter", "train1", "rm", "copy", "json"], G, 150 * n, 35)])


@check("C22", NUMERIC, DATA, "of a long training the first four and the last two iterations are compared; k-means initialisations where two centres are equally near are not")
def c22(ctx):
    n = ctx.pick(1, 12)
    models(ctx, [(["snap", "config"], G, 150 * n, 12), (["snap", "config", "class", "stop", "thread"], G, 150 * n, 16), (["snap", "train1", "rm", "copy", "json", "stop"], G, 100 * n, 18)])


@check("C25", NUMERIC, DATA, "of a long training the first four and the last two iterations are compared; initial guesses are recomputed for one component per state or a fixed number of iterations")
def c25(ctx):
    n = ctx.pick(1, 12)
    models(ctx, [(["snap", "config", "nohier"], H, 150 * n, 12), (["snap", "config", "class", "stop", "thread"], H, 120 * n, 16), (["snap", "train1", "rm", "copy", "json", "stop"], H, 80 * n, 18)])


# ----------------------------------------------------------------------- JSON
DRIVERS.append("json")
DOC_TYPES = ["phrase", "set", "gauss", "shared", "pgmm", "phmm", "pkm", "cgmm", "chmm", "ckm", "gmm", "hmm"]
DOC_KINDS = ["null", "neg", "two", "half", "str", "arr", "obj", "pop", "push", "not", "big"]
DOC_MORE = ["huge", "inc", "dec", "true", "zero", "one", "arr1", "arrs", "text"]


def doc_cfg(types, kinds, changes, hist, depth, extra):
    return ("SPECIFICATION Spec\nCONSTANTS Types = %s\n KindsUsed = %s\n Changes = %d\n KeepHist = %s\n Depth = %d\nVIEW View\n%s"
            % (S(types), S(kinds), changes, "TRUE" if hist else "FALSE", depth, extra))


def documents(ctx):
    """every valid document, every single change of one, and random sequences of changes"""
    for types, kinds in ((DOC_TYPES[:10], DOC_KINDS + DOC_MORE), (DOC_TYPES[10:], ctx.pick(DOC_KINDS, DOC_KINDS + DOC_MORE))):
        ops, r = vlib.enumerate_ops("JsonMC", doc_cfg(types, kinds, 1, False, 0, "INVARIANT BasesGood\nINVARIANT EmitAll\nCHECK_DEADLOCK FALSE\n"), timeout=ctx.pick(600, 3000))
        ctx.states += r.distinct; ctx.transitions += r.generated
        ctx.mc.append(dict(module="JsonMC", distinct_states=r.distinct, transitions=r.generated, wall_s=round(r.wall, 1), constants=["Types = " + S(types), "Changes = 1"]))
        ops.sort(key=lambda o: json.dumps(o, sort_keys=True))
        flat = [x for o in ops for x in o]
        ctx.conform("json", "JsonTrace", [flat[i:i + 20] for i in range(0, len(flat), 20)])
    ctx.conform("json", "JsonTrace", generate("JsonMC", doc_cfg(DOC_TYPES, DOC_KINDS + DOC_MORE, 3, True, 12, "INVARIANT Emit\n"), ctx.pick(160, 4000), 60, ctx.seed * 10, procs=4, timeout=ctx.pick(400, 3000)), bind=False)


@check("C16", "documents are small; numbers learnt in training (means, covariances, probabilities) have no limits of their own; members of a type that the JSON library converts may be accepted or refused")
def c16(ctx):
    documents(ctx)


ODD = dict(XD_RICH="1")  # labels and names wrapped in quotes, backslashes, control characters, UTF-8


@check("C15", DATA, "labels contain no NUL byte; frames and parameters are finite")
def c15(ctx):
    explore(ctx, ["json"], slots=(1, 2), must_take=["Load", "LoadNew"])
    n = ctx.pick(1, 12)
    phrases(ctx, [["json", "multi"], ["json", "multi", "cols", "fill"], ["json", "shared", "multi"]], 200 * n, ctx.pick(30, 60), env=dict(ODD, XD_GRAIN="0.123456791"))
    sets(ctx, [["json", "multi", "rec"], ["json", "multi", "shape", "bi", "rec", "handles"]], 200 * n, ctx.pick(40, 60), env=dict(ODD, XD_GRAIN="0.876543283"))
    configs(ctx, [["json", "shared", "cols"], ["json", "config", "num"]], 150 * n, 30, env=ODD)
    gaussians(ctx, [["json", "shape"], ["json", "eval", "ellipse"]], 150 * n, 30)
    models(ctx, [(["json", "filter", "config"], GH, 120 * n, 30), (["json", "filter", "train1", "rm", "copy", "hier", "exit"], GH, 120 * n, 40), (["json", "stop", "class", "config", "filter"], GH, 80 * n, 25), (["json", "exit", "filter"], H, 100 * n, 30)], env=ODD)


# -------------------------------------------------------------------- k-means
DRIVERS.append("kmeans")
KM_T = "CONSTANTS Slots = {1, 2, 3}\n Learn <- Learn1\n"


def clumps(seed):
    """sets for k-means: clumps of small integers or sixty-fourths, one or several phrases, short and empty ones"""
    import random
    rng = random.Random(seed * 104729 + 5)

    def num(v): return "%.17g" % (round(v * 64) / 64)

    def frames(dim, n, spread, integer):
        cs = [[rng.uniform(-spread, spread) for _ in range(dim)] for _ in range(3)]
        if integer: return [[str(rng.randint(-4, 9)) for _ in range(dim)] for _ in range(n)]
        return [[num(rng.choice(cs)[d] + rng.uniform(-1, 1)) for d in range(dim)] for _ in range(n)]

    def st(dim, ns, spread=8, integer=False, bi=False, din=0):
        return dict(bi=bi, dim=dim, din=din, cols=[""] * dim, phr=[dict(i=3 * i - 2, l="ab"[i % 2], f=frames(dim, n, spread, integer)) for i, n in enumerate(ns)])
    L = [st(1, [8], integer=True), st(1, [5, 0, 6], integer=True), st(2, [9, 12]), st(2, [2, 10, 7], 30), st(3, [14]), st(3, [6, 9], integer=True),
         st(1, [1]), st(2, [4, 4], integer=True), st(2, [0, 9]), st(2, []), st(2, [0, 0]), st(1, [16, 3], 100), st(3, [10, 8], bi=True, din=1), st(4, [12, 7, 3], bi=True, din=3)]
    L.append(dict(L[0], phr=[dict(i=0, l="", f=[["2.5"]] * 7)]))
    L.append(dict(L[2], phr=[dict(i=k, l="", f=[[num(100 * k + rng.uniform(-1, 1)), num(-50 * k + rng.uniform(-1, 1))] for _ in range(6)]) for k in range(3)]))
    return "".join(json.dumps(x) + "\n" for x in L)


def clusters_cfg(depth=0, hist=True, slots=(1, 2, 3), extra="INVARIANT Emit\n"):
    return "SPECIFICATION Spec\nCONSTANTS Slots = %s\n Learn <- Learn0\n KeepHist = %s\n Depth = %d\n%s" % (S(slots), "TRUE" if hist else "FALSE", depth, extra)


@check("C19", "data sets of up to 24 frames in one to four dimensions and up to 7 centres", "where a frame is nearly as close to two centres, or a move of the centres nearly meets the threshold, only the range of the centres is compared",
       "centres are compared to 5 digits, distances to 5 digits, the index of the nearest centre exactly")
def c19(ctx):
    from framework import data_env
    ctx.model("KmeansMC", "SPECIFICATION Spec\nCONSTANTS Points = %s\n MaxN = %d\n MaxK = %d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % ctx.pick(("{0, 1, 2, 5, 9}", 4, 3), ("{0, 1, 2, 3, 5, 9}", 6, 4)), must_take=["Next"])
    ctx.model("ClustersMC", clusters_cfg(hist=False, slots=(1, 2), extra="INVARIANT Inv\nPROPERTY Steady\nVIEW VarsView\nCHECK_DEADLOCK FALSE\n"), env=data_env(tiny_sets()),
              must_take=["New", "Del", "Copy", "Assign", "Clusters1", "Mode", "Train", "Filter", "FilterBad"])
    for k in range(ctx.pick(3, 30)):
        data = clumps(ctx.seed * 100 + k)
        ctx.conform("kmeans", "ClustersTrace", generate("ClustersMC", clusters_cfg(35), ctx.pick(250, 1000), 35, ctx.seed * 100 + k, procs=4, env=data_env(data)), KM_T, data=data)


def tiny_sets():
    return "".join(json.dumps(dict(bi=False, dim=d, din=0, cols=[""] * d, phr=[dict(i=0, l="", f=[["1"] * d] * n)] if n >= 0 else [])) + "\n" for d, n in ((1, 2), (2, 1), (1, -1)))


# ---------------------------------------------------------- training in threads
DRIVERS.append("training")
TR_T = 'CONSTANTS Labels = {"", "a", "b", "c d"}\n'


def threads_lib(seed):
    """short sets, so that a training takes few steps: two, three and one class, a class that cannot be trained, other dimensions, no data, two modalities"""
    import random
    rng = random.Random(seed * 6007 + 3)

    def st(classes, dim=1, bi=False, din=0):
        ph = []
        for i, (l, n) in enumerate(classes):
            c = [rng.uniform(-3, 3) for _ in range(dim)]
            ph.append(dict(i=i + 1, l=l, f=[["%.17g" % (round((c[d] + rng.uniform(-1, 1) + 0.5 * t) * 64) / 64) for d in range(dim)] for t in range(n)]))
        return dict(bi=bi, dim=dim, din=din, cols=[""] * dim, phr=ph)
    L = [st([("a", 5), ("b", 6), ("a", 4)]), st([("b", 5)]), st([("c d", 5), ("a", 7), ("", 4)]), st([("a", 0), ("b", 6), ("", 2), ("c d", 5)]), st([("a", 5), ("b", 4)], 2),
         st([]), st([("a", 6), ("b", 5)], 2, True, 1), st([("b", 5), ("c d", 6), ("", 0)], 3, True, 1)]
    return "".join(json.dumps(x) + "\n" for x in L)


def training_cfg(fam, modes, depth=0, hist=True, labels=("", "a", "b", "c d"), kinds=("gmm", "hmm"), runs=9, it=3, spec="Spec", extra="INVARIANT Emit\n"):
    return ("SPECIFICATION %s\nCONSTANTS Labels = %s\n Families = %s\n Kinds = %s\n Modes = %s\n Iter = %d\n Runs = %d\n KeepHist = %s\n Depth = %d\nCHECK_DEADLOCK FALSE\n%s"
            % (spec, S(labels), S(fam), S(kinds), S(modes), it, runs, "TRUE" if hist else "FALSE", depth, extra))


TR_MC = "VIEW VarsView\nINVARIANT Inv\nPROPERTIES Reported OnceEach"


def training_models(ctx, fams):
    """every interleaving the specification allows; with fairness, that calls return and trainings come to rest"""
    from framework import data_env
    P = lambda l, n, i: dict(i=i, l=l, f=[[str(i)]] * n)
    two = [dict(bi=False, dim=1, din=0, cols=[""], phr=[P("a", 4, 0), P("b", 4, 1)]), dict(bi=False, dim=1, din=0, cols=[""], phr=[P("a", 0, 0), P("b", 4, 1)])]
    text = lambda L: "".join(json.dumps(x) + "\n" for x in L)
    for fam, sets, runs in fams:
        ctx.model("TrainingMC", training_cfg(fam, (0, 1, 2), hist=False, labels=("a", "b"), kinds=("gmm",), runs=runs, it=1, extra=TR_MC + "\n"), env=data_env(text(two[:sets])), must_take=["CTrain", "CTrain1", "Quieten", "Begin1", "Ending", "AllDone", "Done1"])
    ctx.model("TrainingMC", training_cfg(ctx.pick([f for f in fams[0][0] if f not in ("react", "again")], fams[0][0]), ctx.pick((2,), (0, 1, 2)), hist=False, labels=("a", "b"), kinds=("gmm",), runs=ctx.pick(1, 2), it=1, spec="Fairly", extra=TR_MC + " Returning Resting Reporting\n"), env=data_env(text(two[1:])), must_take=["Quieten"])


def schedules(ctx, fam, modes, num, depth, runs, policy="mixed", pre=1, flavours=("asan", "tsan"), kinds=("gmm", "hmm"), data=None, share=2):
    """scripts of the specification, each under many schedules, with both sanitizers"""
    from framework import data_env
    data = data or threads_lib(ctx.seed)
    ss = generate("TrainingMC", training_cfg(fam, modes, depth, kinds=kinds), num, 60 * depth, ctx.seed * 100 + depth, procs=4, env=data_env(data))
    for k, s in enumerate(ss):
        s[0].update(emin=1, emax=1 + k % 3, hier=k % 2 == 0, policy=policy, runs=runs, seed=ctx.seed * 1000003 + 7919 * k, pre=pre)
    for f in flavours:
        T = ctx.conform("training", "TrainingTrace", ss if f == "asan" else ss[::share], TR_T, flavour=f, data=data, bind=f == "asan")
        done = [json.loads(t[-1])["op"] for t in T if '"End"' in t[-1][:40]]
        ctx.notes.append("%s %s: %d scripts, %d schedules, %d different histories, %d scripts explored completely" % (
            f, policy, len(T), sum(d["runs"] for d in done), sum(d["different"] for d in done), sum(d["complete"] for d in done)))


SCHED = ("schedules switch threads at operations on locks, conditions, threads and sleeps (and, in the ThreadSanitizer build, at atomic operations); what is between is covered by the sanitizer",
         "while a listener of the last event uses the model, the caller waits; the size of a model is not asked for while it trains")


@check("C08", *SCHED)
def c08(ctx):
    training_models(ctx, [(["again", "copy", "modes", "join"], 2, 1)])
    n = ctx.pick(1, 30)
    schedules(ctx, ["copy", "modes", "misfit", "bi", "join"], (0, 1, 2), 150 * n, 7, 20)
    schedules(ctx, ["again", "copy"], (1, 2), 100 * n, 4, 30)
    schedules(ctx, ["join"], (1, 2), 24 * n, 2, 3000, policy="list", pre=1)
    if not ctx.quick: schedules(ctx, ["join"], (1, 2), 200, 2, 60000, policy="list", pre=2)


@check("C09", *SCHED)
def c09(ctx):
    training_models(ctx, [(["stop", "react"], 1, 1)] + ctx.pick([], [(["stop", "react", "again", "join"], 2, 1), (["stop", "join"], 2, 2)]))
    n = ctx.pick(1, 30)
    schedules(ctx, ["stop"], (1, 2), 60 * n, 5, 25)
    schedules(ctx, ["stop", "react"], (0, 1, 2), 60 * n, 5, 25)
    schedules(ctx, ["stop", "react", "copy", "modes", "join", "misfit"], (0, 1, 2), 150 * n, 8, 25)
    schedules(ctx, ["stop", "join"], (1, 2), 24 * n, 2, 3000, policy="list", pre=1)
    if not ctx.quick: schedules(ctx, ["stop", "join"], (1, 2), 200, 2, 60000, policy="list", pre=2)


# ------------------------------------------------------------------ JSON text
DRIVERS.append("jsontext")
TEXTS = [b'', b' ', b'null', b'true', b'false', b'nul', b'nulll', b'True', b'[', b']', b'{', b'}', b'[]', b'{}', b'[ ]', b'{ }', b'[,]', b'[1,]', b'[,1]', b'[1,,2]', b'[1 2]', b'{,}',
         b'{"a"}', b'{"a":}', b'{"a":1,}', b'{"a" 1}', b'{a:1}', b'{1:2}', b'{"a":1 "b":2}', b'{"":1}', b'{"":1,}', b'{"":1,"a":2}', b'{"a":1,"":2}', b'{"a":{"":1,}}', b'{"a":1,"a":2}',
         b'{"b":1,"a":2,"b":[3]}', b"{'a':1}", b"'a'", b'-', b'[-]', b'- 1', b'--1', b'+1', b'.5', b'5.', b'01', b'-01', b'1.e5', b'1e', b'1e+', b'1e5', b'1E-5', b'0e0', b'-0', b'-0.0', b'0.0', b'1.0',
         b'1e400', b'-1e400', b'1e-400', b'1e-320', b'4.9e-324', b'1.7976931348623157e308', b'1.7976931348623159e308', b'2147483647', b'2147483648', b'-2147483648', b'-2147483649', b'4294967295', b'4294967296',
         b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'18446744073709551615', b'18446744073709551616', b'18446744073709551619', b'18446744073709551620', b'184467440737095516150',
         b'99999999999999999999999999', b'0.1', b'0.30000000000000004', b'123456789.123456789', b'0x10', b'1f', b'1a', b'NaN', b'Infinity', b'-Infinity', b'tru', b'[true,false,null]', b'[tru]', b'[truefalse]',
         b'""', b'"', b'"a', b'"\\"', b'"\\', b'"\\a"', b'"\\x41"', b'"\\u"', b'"\\u0"', b'"\\u004"', b'"\\u0041"', b'"\\u00e9"', b'"\\u20AC"', b'"\\ud83d\\ude00"', b'"\\ud83d"', b'"\\ud83dx"',
         b'"\\ud83d\\u0041"', b'"\\ude00"', b'"\\ud83d\\u', b'"\\ud83d\\ude0"', b'"\\uDBFF\\uDFFF"', b'"\\u0000"', b'"a\\u0000b"', b'{"a\\u0000b":1,"a":2}', b'"\\u007f\\u0080\\u07ff\\u0800\\uffff"', b'"\\n\\t\\r\\b\\f\\/\\\\\\""',
         b'"\x01"', b'"a\nb"', b'"\xc3\xa9"', b'"\xff"', b'"\x00"', b'\x00', b'null\x00', b'[1]\x00', b'1 2', b'[] []', b'[]]', b'{}}', b'/', b'/ ', b'//', b'// a', b'//a\n1', b'1//a', b'1 // a\n', b'/*a*/1', b'/*a*/ [1] /*b*/', b'/*', b'/*a',
         b'/*a*', b'/**/', b'/***/2', b'1/*', b'[1/*a*/,/*b*/2]', b'[/*a*/]', b'{/*a*/}', b'{"a"/*a*/:/*b*/1/*c*/,/*d*/"b":2}', b'[1//\n]', b'[1/', b'[1/*', b'{"a":/', b'\xef\xbb\xbf1', b'\t\r\n 1 \t\r\n', b'\x0b1', b'\x0c1', b'\xa01',
         b'[[[[[[1]]]]]]', b'{"a":{"a":{"a":{}}}}', b'[{"a":[{"b":[]}]}]', b'[[]', b'[[]]]', b'{"a":[}', b'[{]}', b'{"a":1]', b'[1}', b':', b',', b'"a":1', b'[1:2]', b'{"a":1:2}', b'[1,2,3,4,5,6,7,8,9,10,11]', b'["' + b'x' * 90 + b'"]', b'[' * 60, b'[' * 60 + b']' * 60]


def texts(seed):
    """texts of JSON, nearly JSON, and not JSON: handcrafted, random, and with one character removed, doubled or replaced"""
    import random
    r = random.Random(seed)
    blank = lambda: r.choice(["", "", "", " ", "\n", "\t ", "\r\n"])
    note = lambda: r.choice(["", "", "", "", "", "/*c*/", "//c\n", "/* \" */"])

    def number():
        k = r.randrange(8)
        if k == 0: return str(r.choice([2**31, 2**32, 2**63, 2**64, 10**19, 10**15, 0]) + r.randrange(-2, 3))
        if k == 1: return str(-r.choice([2**31, 2**32, 2**63]) + r.randrange(-2, 3))
        if k == 2: return repr(r.uniform(-10, 10))
        if k == 3: return "%.*e" % (r.randrange(18), r.uniform(-10, 10) * 10.0 ** r.randrange(-300, 300))
        if k == 4: return str(r.randrange(-100, 100)) + "." + str(r.randrange(1000)) + r.choice(["", "e3", "E-2", "e+01"])
        return str(r.randrange(-9, 100))

    def string():
        return '"' + "".join(r.choice(["a", "b", "\\n", "\\\"", "\\\\", "\\/", "\\u00e9", "\\u0000", "\\ud83d\\ude00", "\\u20ac", "\\u001f", "\u00e9", " ", "/", ",", "}", "]", ":", "\x7f", "\\b\\f"]) for _ in range(r.randrange(5))) + '"'

    def value(d):
        k = r.randrange(10) if d else r.randrange(6)
        if k < 2: v = number()
        elif k < 4: v = string()
        elif k < 6: v = r.choice(["null", "true", "false", "[]", "{}"])
        elif k < 8: v = "[" + ",".join(value(d - 1) for _ in range(r.randrange(4))) + "]"
        else: v = "{" + ",".join(blank() + string() + blank() + ":" + value(d - 1) for _ in range(r.randrange(4))) + "}"
        return blank() + note() + v + blank()
    out = list(TEXTS)
    for k in range(60): out.append((value(1 + k % 4)).encode()[:200])
    for k in range(4):
        t = ("[" if k % 2 else "{\"k\":") + value(2) + ("]" if k % 2 else "}")
        out += [t.encode()[:n] for n in range(min(80, len(t.encode())))]
    chars = b'[]{}:,"\\/*-+.eE0179aunt \n\x00\xff'
    base = list(out)
    for k in range(500):
        t = bytearray(r.choice(base))
        if not t: continue
        i = r.randrange(len(t)); m = r.randrange(4)
        if m == 0: del t[i]
        elif m == 1: t.insert(i, t[i])
        elif m == 2: t[i] = r.choice(chars)
        else: t.insert(i, r.choice(chars))
        out.append(bytes(t))
    return out


def jt_cfg(fam, depth=0, hist=True, slots=(1, 2, 3), heavy=12, extra="INVARIANT Emit\n"):
    return ("SPECIFICATION Spec\nCONSTANTS Slots = %s\n Families = %s\n KeepHist = %s\n Depth = %d\n Heavy = %d\n%s"
            % (S(slots), S(fam), "TRUE" if hist else "FALSE", depth, heavy, extra))


JT_MODES = ("string", "range", "stream", "builder", "notes", "bnotes")
JT_T = "CONSTANTS Slots = {1, 2, 3}\n"


@check("C24", "real numbers are finite; a real number that is an integer may come back as an integer; an array with gaps and one with nulls are not compared",
       "comments, raw control characters, text after the value and depths above 900 may be accepted or refused")
def c24(ctx):
    from framework import data_env
    lib = texts(ctx.seed)
    data = "".join(json.dumps(dict(t=list(t))) + "\n" for t in lib)
    env = data_env(data)
    r = ctx.model("JsonTextMC", jt_cfg([], hist=False, slots=(1, 2), heavy=ctx.pick(3, 4), extra="INVARIANT Inv\nVIEW VarsView\nCONSTRAINT Small\nCHECK_DEADLOCK FALSE\n"), env=env, cover=False)
    reads = [dict(o="read", s=1 + k % 3, m=m, text=list(t)) for k, t in enumerate(lib) for m in JT_MODES]
    n = 40
    ctx.conform("jsontext", "JsonTextTrace", [reads[i:i + n] for i in range(0, len(reads), n)], JT_T)
    deep = [dict(o="deep", s=1, t=t, n=d, z=z, m=m, w=w) for t in "ao" for d in (2, 300, 900, 1001, 1500) for z in (0, 1) for m, w in (("string", "fast"), ("stream", "styled"), ("builder", "dense"), ("range", "stream"))]
    ctx.conform("jsontext", "JsonTextTrace", [deep], JT_T, bind=False)
    for k, fam in enumerate([[], ["comment"], ["read"], ["read", "comment"]]):
        ctx.conform("jsontext", "JsonTextTrace", generate("JsonTextMC", jt_cfg(fam, ctx.pick(30, 50)), ctx.pick(250, 4000), ctx.pick(30, 50), ctx.seed * 10 + k, procs=2, env=env), JT_T)
