"""What each property's check runs."""
import json, os, re, threading
from engine import VERIF

FLOATS = "IEEE double arithmetic in the specification, with stated tolerances for the single precision of the code"


def cfg(name):
    return open(os.path.join(VERIF, "spec", name)).read()


class Background(threading.Thread):
    """A model-checking run beside the drivers."""

    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn, self.exc, self.res = fn, None, None
        self.start()

    def run(self):
        try:
            self.res = self.fn()
        except BaseException as exc:
            self.exc = exc

    def done(self):
        self.join()
        if self.exc:
            raise self.exc
        return self.res


def growth(c):
    mc = Background(lambda: c.model("MCGrowth", cfg("MCGrowth_thorough.cfg" if c.thorough else "MCGrowth_quick.cfg"),
                                    workers=4, timeout=3000 if c.thorough else 600))
    traces = c.driver("growth.py", timeout=3000 if c.thorough else 600)
    mc.done()
    if c.prop == "C08":
        c.model("Draw", cfg("Draw_thorough.cfg" if c.thorough else "Draw_quick.cfg"), workers=4, timeout=300)
        c.validate("TraceDraw", [c.prop], c.driver("draws.py", timeout=1500 if c.thorough else 300))
    if c.prop == "C16":
        c.model("Calls", cfg("Calls_thorough.cfg" if c.thorough else "Calls_quick.cfg"), workers=2, timeout=300)
        c.validate("TraceCalls", [c.prop], c.driver("calls.py", timeout=1500 if c.thorough else 300))
    c.validate("TraceGrowth", [c.prop], traces, timeout=3000 if c.thorough else 700)
    return ("forests fitted on generated data sets (numerical, categorical, missing values; weights; all parameters); one trace "
            "per tree: every node must be a step that Growth allows and every probe answered as Aggregation says",
            [FLOATS, "data sets of 8 to 400 rows, and of some thousand rows for the large trees (there the best split only at nodes of at most 60 rows)"])


def traced(model, cfgs, driver, trace, rule, assumptions, shards=8, args=()):
    """The usual plan: model check, run the driver, validate its traces."""
    def plan(c):
        mc = Background(lambda: c.model(model, cfg(model + ("_thorough.cfg" if c.thorough else "_quick.cfg")), workers=4,
                                        timeout=3000 if c.thorough else 600)) if model else None
        traces = c.driver(driver, args=args, shards=shards, timeout=3000 if c.thorough else 600)
        if mc:
            mc.done()
        c.validate(trace, [c.prop], traces, timeout=3000 if c.thorough else 700)
        return rule, assumptions
    return plan


PLANS = {p: growth for p in ("C06", "C07", "C08", "C09", "C10", "C16")}

PLANS["C04"] = traced("BitPack", None, "bits.py", "TraceBits",
                      "histories of writes and reads of the real packed storage for every number of bits up to 40, rows around "
                      "word boundaries, every dtype; each read must return what BitPack's content says",
                      ["column maxima up to 2^40"])

ENC = ("histories of the real encoder: a fit, then batches in every container, dtype, order and subset; every bin, rejection and "
       "column type must be what Encoder says, and consistent with everything observed before")
for _p in ("C01", "C02", "C03", "C20"):
    PLANS[_p] = traced("MCEncoder", None, "encoder.py", "TraceEncoder", ENC,
                       ["distinct values of a column are more than one unit in the last place apart and below 1e300"])

PLANS["C05"] = traced("Bootstrap", None, "bootstrap.py", "TraceBootstrap",
                      "forests of 1 to 120 trees fitted on 2 to 150 rows (weights, one-versus-rest, refits, every n_jobs): the "
                      "bags, multiplicities and weights of each tree must be a ValidBootstrap, and the trees of a forest distinct",
                      ["at least 2 rows", "distinct bootstraps are demanded from 25 rows on; each row in-bag in 35 to 90 % of 120 trees"])

PLANS["C11"] = traced("MCForest", None, "combine.py", "TraceForest",
                      "forests of 1 to 136 trees, labels of 11 kinds, arrays and frames, predicted in batches of 1 to 2500 rows with every "
                      "n_jobs: each answer must be the combination of the single trees' answers, and the same in every batch",
                      ["probabilities compared up to 1e-6; ties of the largest probability up to 1e-8 accept either class"])


PLANS["C19"] = traced("Inspect", None, "inspection.py", "TraceInspect",
                      "the tables of nodes, decisions, depths and numbers of leaves that fitted forests show after fit, changes of step and "
                      "dirichlet, pickling and lighten: each table must describe a tree, the same one as before, with the weights of the "
                      "current step, and the leaves, paths and predictions of rows must follow from it",
                      ["forests of 1 to 3 trees (per class) on 12 to 70 rows; class probabilities are shown with two digits"])


PLANS["C21"] = traced("Signals", None, "signals.py", "TraceSignals",
                      "calls of get_signal and make_regression with changing arguments, between other draws from numpy's generator: the "
                      "labels must be the scaled signals of Signals plus noise times gaussians that depend on the seed and size only",
                      ["inputs on which the signal is flat are not claimed", "1500 draws: mean and variance of inputs and gaussians"],
                      shards=4)


def from_tla(text):
    """The value that ToString printed: sequences and records of numbers and strings."""
    text = text.replace("<<", "[").replace(">>", "]")
    text = re.sub(r"\[(?=\w+ \|->)", "{", text)
    text = re.sub(r"\{([^\[\]{}]*)\]", r"{\1}", text)
    text = re.sub(r"(\w+) \|->", r'"\1":', text)
    return json.loads(text)


def generated(c, module, cfgname, tag, num=None, depth=None, seed=1):
    """The behaviours that TLC finds in a model (all of them, or num random ones), printed by the invariant Emit."""
    args = [] if num is None else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    r = c.tlc(module, cfg(cfgname), args=args, workers=1, timeout=600)
    if not r.ok:
        raise RuntimeError("generation with %s failed: %s" % (cfgname, r.out[-2000:]))
    got = {json.dumps(from_tla(json.loads(line)[len(tag) + 1:])) for line in r.out.splitlines() if line.startswith('"' + tag + " ")}
    if not got:
        raise RuntimeError("no behaviour generated by " + cfgname)
    return [json.loads(x) for x in sorted(got)]


def threads(c):
    def models():
        for m in ("sum", "col", "slot"):
            c.model("MCForest", cfg("MCForest_%s.cfg" % m), workers=2, timeout=300)
    mc = Background(models)
    big = 6 if c.thorough else 1
    t3 = generated(c, "MCForest", "MCForest_gen3.cfg", "SCHED")
    groups = [dict(callers=1, trees=2, orders=generated(c, "MCForest", "MCForest_gen2.cfg", "SCHED")),
              dict(callers=1, trees=3, orders=t3 if c.thorough else t3[c.seed % 3::3]),
              dict(callers=1, trees=4, orders=generated(c, "MCForest", "MCForest_gen4.cfg", "SCHED", 300 * big, 13, c.seed)),
              dict(callers=2, trees=2, orders=generated(c, "MCForest", "MCForest_gen22.cfg", "SCHED", 300 * big, 13, c.seed + 1)),
              dict(callers=2, trees=3, orders=generated(c, "MCForest", "MCForest_gen23.cfg", "SCHED", 150 * big, 19, c.seed + 2))]
    path = os.path.join(c.work, "schedules.json")
    with open(path, "w") as f:
        json.dump(groups, f)
    traces = c.driver("threads.py", args=(path,), timeout=3000 if c.thorough else 600)
    mc.done()
    c.validate("TraceForest", [c.prop], traces)
    return ("interleavings of worker threads generated by TLC (%d: all of 2 and every third or all of 3 workers, random ones of 4 workers "
            "and of two callers), replayed on the real prediction methods with stand-in trees under a scheduler; concurrent calls "
            "with real trees" % sum(len(g["orders"]) for g in groups),
            ["a step that the code's own locks hold back is overtaken after 12 ms", "stand-in trees replace forest.trees"])


PLANS["C15"] = threads


def lifecycle(c):
    mc = Background(lambda: c.model("MCLifecycle", cfg("MCLifecycle_thorough.cfg" if c.thorough else "MCLifecycle_quick.cfg"),
                                    workers=3, timeout=3000 if c.thorough else 600))
    big = 8 if c.thorough else 1
    two, few, one, regfew = ["step", "dir"], ["step", "dir", "agg", "rs"], ["step"], ["step", "agg", "rs"]
    every = ["step", "dir", "maxd", "nest", "rs", "agg", "crit", "mss", "msl", "mf", "bins", "cw", "mc", "strat", "njobs", "unk", "catmin",
             "sub", "cat", "verb"]
    reg = [p for p in every if p not in ("dir", "crit", "cw", "mc", "strat")]
    seeds = iter(range(c.seed, c.seed + 100))

    def group(name, kind, params, start, length, num=None, keep=None):
        h = generated(c, "MCLifecycle", "MCLifecycle_%s.cfg" % name, "HIST", None if num is None else num * big,
                      None if num is None else length + 2, next(seeds))
        if keep and len(h) > keep * big:
            h = h[c.seed % (len(h) // (keep * big))::len(h) // (keep * big)]
        return dict(kind=kind, params=params, start=[1] if start else [], hist=h)

    if c.prop == "C12":
        groups = dict(step3=group("step3", "clf", two, True, 3), step4=group("step4", "clf", two, True, 4, keep=2500),
                      stepreg4=group("stepreg4", "reg", one, True, 4, keep=600), steplong=group("steplong", "clf", few, False, 12, num=300),
                      steplongreg=group("steplongreg", "reg", regfew, False, 12, num=120),
                      copylong=group("copylong", "clf", few, False, 12, num=100))
    elif c.prop == "C13":
        groups = dict(copy3=group("copy3", "clf", two, True, 3), copy4=group("copy4", "clf", two, True, 4, num=800),
                      copylong=group("copylong", "clf", few, False, 12, num=300), copylongreg=group("copylongreg", "reg", regfew, False, 12, num=150))
    else:
        groups = dict(life=group("life", "clf", every, False, 14, num=350), lifereg=group("lifereg", "reg", reg, False, 14, num=150),
                      lifefit=group("lifefit", "clf", every, True, 5, num=500))
    path = os.path.join(c.work, "histories.json")
    with open(path, "w") as f:
        json.dump(groups, f)
    traces = c.driver("lifecycle.py", args=(path,), timeout=3000 if c.thorough else 600)
    mc.done()
    c.validate("TraceLifecycle", [c.prop], traces, extra="INVARIANT Coherent", timeout=3000 if c.thorough else 700)
    return ("histories of operations on forests generated by TLC (%d), executed on real forests; every result, parameter, prediction and "
            "leaf must be what Lifecycle says, predictions being compared with a new forest fitted with the values the model demands"
            % sum(len(g["hist"]) for g in groups.values()),
            ["predictions compared up to 5e-5", "two data sets per kind of forest, 3 or 5 trees"])


for _p in ("C12", "C13", "C17"):
    PLANS[_p] = lifecycle

def merged(path):
    """Traces of the same id, from different processes, as one trace."""
    by = {}
    for line in open(path):
        d = json.loads(line)
        if d["id"] in by:
            by[d["id"]]["ev"] += d["ev"]
        else:
            by[d["id"]] = d
    with open(path, "w") as f:
        for d in by.values():
            f.write(json.dumps(d) + "\n")


def determinism(c):
    mc = Background(lambda: c.model("MCStreams", cfg("MCStreams_thorough.cfg" if c.thorough else "MCStreams_quick.cfg"),
                                    workers=3, timeout=3000 if c.thorough else 600))
    traces = c.driver("determinism.py", timeout=3000 if c.thorough else 600)
    mc.done()
    merged(traces)
    c.validate("TraceStreams", [c.prop], traces)
    return ("the same forests fitted alone, with disturbed generators, every n_jobs, refitted, cloned, pickled, after and beside other fits, "
            "in two processes: equal arguments must give equal digests, different random_state different bootstraps",
            ["digests of single trees' predictions, leaves and splits; sums over trees taken with n_jobs=1",
             "different bootstraps are demanded from 25 rows on"])


PLANS["C14"] = determinism

PLANS["C18"] = traced("MCExtract", None, "extract.py", "TraceExtract",
                      "repeated extractions with changing options from random data sets and from the data sets that come with wildwood: "
                      "split, matrices, labels and names must be those that Extract derives from the training rows",
                      ["data sets of 12 to 90 rows with a column of distinct values, by which rows are told apart",
                       "no missing categories"])

TRACE = "TLA+ specification model checked with TLC; traces recorded from the real code validated against it with TLC"
TECHNIQUE = {p: TRACE for p in PLANS}
TRUST = " Trusts TLC, the double arithmetic override (java/Float64.java) and what the driver records."
_G = "Growth and Aggregation are model checked on all small data sets of the configuration; every recorded tree must be a behaviour of them: "
_L = ("Lifecycle is model checked with all operations on two objects; the histories that TLC generates from it are executed on real forests, "
      "predictions compared with a new forest fitted with the parameters the model demands: ")
_E = "Encoder is model checked on all small columns; every recorded fit and batch must satisfy it: "
NOTE = {
    "C01": _E + "the bins of values, in all containers and dtypes, and the balance of bins for columns of more than 50000 rows.",
    "C02": _E + "known, missing and unknown categories in batches of every order, subset, level list and container.",
    "C03": _E + "the type of each column and the rejection of invalid declarations; distinct values on both sides of the limits.",
    "C04": "BitPack (words implement the content) is model checked for all small layouts; histories of writes and reads of the real storage "
           "for each number of bits up to 40 must return its content.",
    "C05": "Bootstrap is model checked for all draws and thread orders of small instances; recorded forests must have valid bootstraps.",
    "C06": _G + "rows, counts and weights of each node, structure, and the route of seen and unseen rows; large, deep and wide trees.",
    "C07": _G + "each node's depth and minima, and each leaf must be one that may stop.",
    "C08": _G + "each split must be the best of some choice of max_features features, within the accuracy of single precision; "
                "each feature must get chosen over many trees.",
    "C09": _G + "node predictions, and those of trees without aggregation.",
    "C10": _G + "predictions with aggregation against the recursion and, for small trees, against the sum over all prunings.",
    "C11": "Combination of recorded single-tree answers computed in the specification and compared with every answer of the forest.",
    "C12": _L + "all histories of step and dirichlet up to length 4, random ones of length 12.",
    "C13": _L + "histories with pickling (also in another process), copying and lightening.",
    "C14": "Streams (generators, threads, disturbances) is model checked; digests of real forests fitted under disturbances must be a function "
           "of the arguments.",
    "C15": "Forest (workers, lock, outputs) is model checked for sums, columns and slots; interleavings that TLC generates are forced upon the "
           "real prediction methods.",
    "C16": _G + "with sample and class weights, against the weights that the arguments define. Calls (what is taken, copied and written) is model checked; the caller's "
                "objects, in all layouts, types and containers, are compared before and after every recorded call, and equivalent ways "
                "of giving weights must agree.",
    "C17": _L + "assignments, rejections, clones, failed fits and refits of all parameters.",
    "C19": "Inspect (tables of nodes, paths, parameter changes) is model checked on all small trees; recorded tables, paths, depths and "
           "predictions of real forests must be consistent with it.",
    "C20": _E + "what comes back from bins, in mixed tables with missing and unknown values and columns without any value.",
    "C21": "Signals (draws of calls; the scaled signals on a grid) is model checked; recorded calls must return its values.",
    "C18": "Extract is model checked on small data sets; the recorded extractions must be what it derives from the training rows.",
}
NOTE = {p: NOTE[p] + TRUST for p in PLANS}
