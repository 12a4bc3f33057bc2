"""What each property's check runs."""

import random

from . import backends, classify, conc, crash, locks, mc, seq, tlc
from .runner import Report, run_jobs

# batches per family: (quick, thorough); traces per batch
SEQ_BATCH = 150
SEQ_N = {p: (6, 60) for p in seq.PROFILES}
# how often each model is explored and replayed (quick, thorough); length of a walk
MODEL_N, MODEL_WALK = (1, 3), 40
WEIGHT = {"redis": 0.7, "mongo": 0.7, "zarr": 0.5}


def run(prop, tier, seed):
    if prop in seq.PROFILES:
        return sequential(prop, tier, seed)
    if prop in conc.FAMS:
        return concurrent(prop, tier, seed)
    if prop == "C08":
        return crashes(prop, tier, seed)
    if prop == "C10":
        return progress(prop, tier, seed)
    if prop == "C19":
        return classification(prop, tier, seed)
    raise SystemExit(f"unknown property {prop}")


def sequential(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    fams = seq.PROFILES[prop][1]
    n = SEQ_N[prop][tier == "thorough"] * (2 if len(fams) < 6 else 1)
    jobs = []
    if prop in mc.MODELS:
        # the walks differ with the seed; more of them in the thorough tier
        jobs += [(mc.job, (prop, f, k, f"{seed}.{b}", tier == "thorough" and b == 0, MODEL_WALK))
                 for b in range(MODEL_N[tier == "thorough"]) for k in (1, 2) for f in fams]
    if prop in seq.PROBES:
        jobs.append((seq.probe_job, (prop,)))
    for b in range(n):
        for f in fams:
            jobs.append((seq.job, (prop, f, f"{seed}.{b}", int(SEQ_BATCH * WEIGHT.get(f, 1)))))
    outs = run_jobs(jobs, rep)
    for k in ("model_states", "model_transitions", "pairs", "pairs_replayed"):
        if prop in mc.MODELS:
            rep.cov[k] = sum(o.get(k, 0) for o in outs)
    collect(rep, outs)
    return rep.finish()


# batches per family (quick, thorough), programs per batch, extra single
# preemptions per order, schedules with several preemptions per program
CONC_N = (36, 360)
CONC_PROGS, CONC_EXTRA, CONC_MORE = 5, 20, 60
CONC_DEALS = 3


def concurrent(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    fams = conc.FAMS[prop]
    n = CONC_N[tier == "thorough"] // len(fams)
    # every pair of operations in some families (quick) or several times in each
    rng = random.Random(f"{prop}/{seed}")
    cards = [c for _ in range(CONC_DEALS) for c in conc.deck(prop, rng)]
    jobs = []
    for b in range(n):
        for i, f in enumerate(fams):
            hand = cards[b * len(fams) + i::n * len(fams)] if tier != "thorough" else cards[b % 20::20]
            jobs.append((conc.job, (prop, f, f"{seed}.{b}", CONC_PROGS, CONC_EXTRA, CONC_MORE, hand)))
    if prop in conc.PROBES:
        jobs.insert(0, (conc.probe_job, (prop,)))
    outs = run_jobs(jobs, rep)
    rep.cov["schedules"] = sum(o["schedules"] for o in outs)
    rep.cov["programs"] = sum(o["programs"] for o in outs)
    collect(rep, outs)
    return rep.finish()


# batches per family; scenes per batch, crashing processes per scene
CRASH_N = (4, 40)
CRASH_SCENES, CRASH_FORKS = 30, 16


def crashes(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    jobs = [(model, ("CrashFS", "CrashFS" + c, ok)) for c, ok in (
        ("Replace", True), ("Streamed", True), ("Inplace", True), ("InplaceCrash", False),
        ("InplaceStreamed", False))]
    jobs += [(crash.job, (prop, f, f"{seed}.{b}", CRASH_SCENES, CRASH_FORKS))
             for b in range(CRASH_N[tier == "thorough"]) for f in crash.FAMS]
    outs = run_jobs(jobs, rep)
    models(rep, outs)
    for k in ("instants", "processes", "crashes", "scenes"):
        rep.cov[k] = sum(o.get(k, 0) for o in outs)
    collect(rep, [o for o in outs if "model" not in o])
    return rep.finish()


# batches per family; share of the fault scenarios per batch; programs per batch
LOCK_N = (3, 30)
LOCK_SHARE = {"json": 0.25, "jsonattr": 0.25}
LOCK_PROGS = 6


def progress(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    jobs = []
    for b in range(LOCK_N[tier == "thorough"]):
        for f in locks.FAMS:
            jobs.append((locks.fault_job, (prop, f, f"{seed}.{b}", LOCK_SHARE.get(f, 0.05))))
            jobs.append((locks.deadlock_job, (prop, f, f"{seed}.{b}", LOCK_PROGS, 5, 15)))
    outs = run_jobs(jobs, rep)
    rep.cov["schedules"] = sum(o["schedules"] for o in outs)
    rep.cov["programs"] = sum(o["programs"] for o in outs)
    collect(rep, outs)
    return rep.finish()


# batches; operations and processes with histories per batch
CLASS_N = (24, 300)
CLASS_OPS, CLASS_RUNS = 600, 10


def classification(prop, tier, seed):
    rep = Report(prop, tier, seed, "model_checking")
    jobs = [(model, ("Resolver", "ResolverSound", True)), (model, ("Resolver", "ResolverUnsound", False))]
    jobs += [(classify.job, (prop, f"{seed}.{b}", CLASS_OPS, CLASS_RUNS))
             for b in range(CLASS_N[tier == "thorough"])]
    outs = run_jobs(jobs, rep)
    models(rep, outs)
    for k in ("operations", "processes"):
        rep.cov[k] = sum(o.get(k, 0) for o in outs)
    collect(rep, [o for o in outs if "model" not in o])
    return rep.finish()


def model(spec):
    """Check a model exhaustively; it has to satisfy its invariants, or to violate one."""
    module, cfg, ok = spec
    rc, out = tlc.run(module, cfg=cfg, scratch=backends.SCRATCH)
    good = "Model checking completed. No error has been found." in out
    if good != ok or (not ok and "is violated" not in out):
        raise RuntimeError(f"model {cfg}: expected {'no error' if ok else 'a violation'}:\n{out[-3000:]}")
    gen, distinct = tlc.counts(out)
    return {"model": cfg, "states": distinct, "transitions": gen, "holds": ok, "viol": []}


def models(rep, outs):
    """Enter the counts of the models into the report."""
    for o in outs:
        if "model" in o:
            rep.cov.setdefault("models", {})[o["model"]] = {
                k: o[k] for k in ("states", "transitions", "holds")}
            if o["holds"]:
                rep.cov["states"] = rep.cov.get("states", 0) + o["states"]
                rep.cov["transitions"] = rep.cov.get("transitions", 0) + o["transitions"]


def collect(rep, outs):
    cov = rep.cov
    cov["states"] = cov.get("states", 0) + sum(o["stats"]["states"] + o.get("model_states", 0) for o in outs)
    cov["transitions"] = cov.get("transitions", 0) + sum(
        o["stats"]["transitions"] + o.get("model_transitions", 0) for o in outs)
    cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + sum(
        o["stats"]["traces"] for o in outs)
    cov["cut_short"] = cov.get("cut_short", 0) + sum(o["stats"]["cut"] for o in outs)
    cov["events"] = cov.get("events", 0) + sum(o["events"] for o in outs)
    ops = cov.setdefault("event_counts", {})
    for o in outs:
        for k, v in o["ops"].items():
            ops[k] = ops.get(k, 0) + v
    cov.setdefault("samples", []).extend([o["sample"] for o in outs if o["sample"]][:2])
    for o in outs:
        for v in o["viol"]:
            rep.violation(v["key"], v)
