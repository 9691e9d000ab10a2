"""Run the cases of one property, in parallel, and write the evidence."""
import gc
import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Case:
    def __init__(self, prop, name, fn, params, tier, table, block, bounds,
                 validate, budget, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.tier = tier
        self.table = table
        self.block = block
        self.bounds = bounds
        self.validate = validate
        self.budget = budget
        self.weight = weight

    @property
    def id(self):
        return f"{self.prop}/{self.name}"


REG = {}

# harnesses that run a second time on whole numbers: in both tiers, and
# (whole properties) in the thorough tier
INTEGERS = {
    "A01": {"composition[kind=points,tree=fork]",
            "composition[kind=vectors,tree=chain]",
            "composition[kind=quaternions,tree=chain]"},
    "A02": {"round_trip", "round_trip_edge", "inverse_flag", "identity"},
    "A03": {"defining_formula", "any_length_formula"},
    "A04": {"constructors_agree", "labelled_layout"},
    "I01": {"static_layouts", "untimed_through_motion"},
    "I02": {"untimed_labels"},
    "I03": set(),
    "I04": {"labelled_arguments"},
    "Q01": {"inverse", "product"},
    "Q02": {"pairwise", "combinations", "broadcast"},
    "Q03": {"mean_of_equal", "mean_of_slices"},
    "Q04": {"interp_layout"},
    "Q05": {"euler_separate"},
    "C03": set(),
    "T01": {"data_and_frame", "two_frames", "events_only",
            "data_and_static"},
    "T02": {"pointwise", "symbolic_times"},
    "T03": {"events_and_data", "two_event_frames"},
    "V01": {"linear_layouts", "linear_gradient", "linear_outliers"},
    "V02": {"angular_layouts", "angular_formula"},
    "V03": {"lookup_static", "lookup_defaults"},
    "V04": {"velocity_untimed"},
    "E01": {"arc_maps", "arc_plane"},
    "E02": {"rotation_recovered"},
    "E03": {"transform_recovered", "transform_general"},
    "E04": {"icp_rotation", "icp_translation"},
    "P01": {"points", "vectors", "frame"},
}


def case_name(nm, p):
    if p:
        nm += "[" + ",".join(
            f"{k}={v}" for k, v in sorted(p.items())) + "]"
    return nm


def case(prop, name=None, params=None, tier="quick", table=None, block=(),
         bounds="", validate=2, budget=None, weight=1, whole=None):
    """Register a harness; ``params``: list of keyword dicts (one case each).

    tier: "quick" (both tiers) or "thorough" (thorough only); a parameter
    dict may carry its own "_tier".

    whole: predicate of the parameters; where it holds the harness runs a
    second time with every declared real a whole number and every array of
    whole numbers of integer type.
    """

    def deco(fn):
        ps = [dict(p) for p in params or [{}]]
        again = []
        for p in ps if whole is not False and (
                whole or prop in INTEGERS) else ():
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            quick = whole(q) if whole else bool(
                {name or fn.__name__, case_name(name or fn.__name__, q)}
                & INTEGERS[prop])
            r = dict(p, _whole=True)
            if not quick:
                r["_tier"] = "thorough"
            again.append(r)
        ps += again
        for p in ps:
            f = fn
            wh = p.pop("_whole", False)
            if wh:
                def f(ctx, _fn=fn, **kw):
                    ctx.whole = True
                    return _fn(ctx, **kw)
            t = p.pop("_tier", tier)
            b = p.pop("_budget", budget)
            nm = case_name(name or fn.__name__, p)
            if wh:
                nm += "[integers]"
            c = Case(prop, nm, f, p, t, table, block, bounds, validate, b,
                     weight)
            REG.setdefault(prop, {})[nm] = c
        return fn

    return deco


def load_props():
    d = os.path.join(VERIF, "sx", "props")
    for f in sorted(glob.glob(os.path.join(d, "*.py"))):
        n = os.path.basename(f)[:-3]
        if not n.startswith("_"):
            importlib.import_module("sx.props." + n)


def load_findings():
    try:
        with open(FINDINGS) as fh:
            return json.load(fh)["findings"]
    except FileNotFoundError:
        return []


def match_finding(fs, prop, casename, cex):
    for f in fs:
        if f.get("status") != "open" or f["property"] != prop:
            continue
        if f.get("case") and f["case"] != casename:
            continue
        if f.get("obligation") and f["obligation"] != cex["obligation"]:
            continue
        obs = f.get("obligations")
        if obs and cex["obligation"] not in obs:
            continue
        ch = f.get("choices")
        if ch and any(cex["choices"].get(k) != v for k, v in ch.items()):
            continue
        if f.get("message") and f["message"] not in str(cex.get("message")):
            continue
        return f
    return None


# ----------------------------------------------------------------------


def run_case(c, seed, tier, deadline_s, last=float("inf")):
    from . import ctx as C
    from . import engine as E
    from . import loader

    loader.watch()
    t0 = time.time()
    eng = E.Engine(seed=seed, deadline=min(t0 + deadline_s, last))
    out = {"case": c.name, "errors": []}

    def replay(cand):
        msgs = None
        for k in range(1):
            st, msgs, _ = C.run_concrete(c, cand["values"], cand["choices"])
            if st == "fail":
                return True, "; ".join(msgs)
        return False, f"{st}: {msgs}"

    eng.replay = replay
    findings = load_findings()

    def stop(e):
        return sum(match_finding(findings, c.prop, c.name, x) is None
                   for x in e.cex) >= 2

    eng.stop = stop

    def body(e):
        e.principal = ()
        e.principal_pos = ()
        for k in ("svd_known", "svd_scales", "eig_known", "eig_perms",
                  "eig_nosign", "rot_known", "svd_nosign", "soft"):
            e.notes.pop(k, None)
        ctx = C.SymCtx(e, c.table, c.params, c.block)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c.fn(ctx, **c.params)
        except E.Unsupported as ex:
            e.stats.unsupported += 1
            out.setdefault("unsupported", {})
            k = str(ex)[:200]
            out["unsupported"][k] = out["unsupported"].get(k, 0) + 1
            e.flush_lemmas()
            e.report(E.Obligation("path outside the encoding", False,
                                  "unsupported"), True)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}"
                     for f in tb][-4:]
            e.oblige("no unexpected exception", False, "exc",
                     f"{type(ex).__name__}: {ex} at {where}"[:400])

    import numpy as np

    try:
        with np.errstate(all="ignore"):
            eng.explore(body)
    except AssertionError:
        raise
    out["sym_s"] = round(time.time() - t0, 3)
    # validation of the encoding against the real libraries
    val = {"runs": 0, "values": 0, "mismatch": []}
    if c.validate:
        validate(c, seed, val)
    # a run that fails on the real code refutes the encoding: report it
    for values, choices, failed in val.pop("failed", ())[:2]:
        if any(x["choices"] == choices for x in eng.cex):
            continue
        st, msgs, _ = C.run_concrete(c, values, choices)
        if st == "fail":
            eng.cex.append({
                "obligation": failed, "choices": choices, "values": values,
                "path_condition": [], "note": "validation run",
                "message": "; ".join(msgs)})
    out.update(
        stats=eng.stats.as_dict(), cex=eng.cex, undecided=eng.undecided,
        samples=eng.samples[:2], validation=val,
        notes={k: str(v)[:200] for k, v in eng.notes.items()
               if k in ("limit", "path_limit")},
        executed=sorted(loader.executed), wall=round(time.time() - t0, 3),
    )
    eng.stats_obj = None
    if hasattr(loader, "dump_lines"):
        loader.dump_lines()
    return out


def validate(c, seed, val):
    """Shim on constants versus real libraries on the same constants."""
    from . import ctx as C
    from . import engine as E

    done = 0
    for k in range(12):
        if done >= c.validate:
            break
        rng = random.Random(seed * 77 + k)
        choices = C.Choices({}, rng)
        values = C.Values({}, seed * 100 + k)
        ctx = C.ConcCtx(values, choices, c.table, c.params, c.block)
        import numpy as np

        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                c.fn(ctx, **c.params)
        except E.AssumeFailed:
            continue
        except Exception as ex:
            if not isinstance(ex, E.Unsupported):
                val.setdefault("failed", []).append(
                    (dict(values.used), dict(choices.given),
                     "no unexpected exception"))
            continue
        if ctx.failed:
            val.setdefault("failed", []).append(
                (dict(values.used), dict(choices.given),
                 ctx.failed[0].split(": got")[0].split(" (shape")[0]))
        eng = E.Engine(seed=seed)
        eng.numeric_atoms = True
        eng.worklist = []
        prev, E.CURRENT = E.CURRENT, eng
        sctx = C.ConstCtx(eng, values, C.Choices(dict(choices.given), rng),
                          rng, c.table, c.params, c.block)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                c.fn(sctx, **c.params)
        except (E.AssumeFailed, E.PathInfeasible, E.PathLimit):
            continue
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}"
                     for f in tb][-4:]
            val["mismatch"].append(
                f"shim raised {type(ex).__name__}: {ex} at {where}"[:300])
            done += 1
            continue
        finally:
            E.CURRENT = prev
        done += 1
        val["runs"] += 1
        a = dict((n, v) for n, v in ctx.observed)
        b = dict((n, v) for n, v in sctx.observed)
        for n in a:
            if n not in b or len(a[n]) != len(b[n]):
                val["mismatch"].append(f"{n}: not observed alike")
                continue
            for x, y in zip(a[n], b[n]):
                val["values"] += 1
                y = float(y)
                if x != x and y != y:
                    continue
                if x == y:
                    continue
                s = max(1.0, abs(x), abs(y))
                if not abs(x - y) <= 1e-6 * s:
                    val["mismatch"].append(f"{n}: real {x} shim {y}")
                    break


def _worker(args):
    prop, name, seed, tier, dl, last = args
    c = REG[prop][name]
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        return run_case(c, seed, tier, dl, last)
    except BaseException as e:
        return {"case": name, "errors": [
            f"{type(e).__name__}: {e}",
            traceback.format_exc()[-1500:]]}
    finally:
        gc.collect()


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    load_props()
    t0 = time.time()
    cases = [c for c in REG.get(a.prop, {}).values()
             if (tier == "thorough" or c.tier == "quick")
             and (not a.case or a.case in c.name)]
    if not cases:
        print(f"no cases for {a.prop}")
        return 2
    default = a.budget or (150 if tier == "quick" else 700)
    cases.sort(key=lambda c: -c.weight)
    last = t0 + (600 if tier == "quick" else 780)
    jobs = [(c.prop, c.name, seed, tier, c.budget or default, last)
            for c in cases]
    # import everything once, before forking
    from . import ctx as C
    from . import loader

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        load_error = None
        try:
            C.world(False)
        except Exception as e:
            load_error = e
    hard = 820 if tier == "quick" else 860
    results = []
    with mp.get_context("fork").Pool(min(a.jobs, len(jobs)),
                                     maxtasksperchild=1) as pool:
        handles = {j[1]: pool.apply_async(_worker, (j,)) for j in jobs}
        findings = load_findings()
        end = t0 + hard
        while handles and time.time() < end:
            ready = [n for n, h in handles.items() if h.ready()]
            for n in ready:
                r = handles.pop(n).get()
                results.append(r)
                if any(match_finding(findings, a.prop, n, x) is None
                       for x in r.get("cex", ())):
                    # a violation is decided; give the rest a short while
                    end = min(end, time.time() + 10)
            if not ready:
                time.sleep(0.05)
        for n in handles:
            results.append({"case": n, "errors": [
                "not finished: time limit, or another case decided first"]})
        pool.terminate()
    return finish(a, tier, seed, cases, results, t0)


def finish(a, tier, seed, cases, results, t0):
    prop = a.prop
    findings = load_findings()
    by = {c.name: c for c in cases}
    viol, known = [], {}
    tot = {}
    executed = set()
    undec, unsup, errs, mism = [], {}, [], []
    vruns = vvals = 0
    samples = []
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
        executed.update(r.get("executed", ()))
        for u in r.get("undecided", ()):
            undec.append(dict(u, case=r["case"]))
        for k, v in r.get("unsupported", {}).items():
            unsup[k] = unsup.get(k, 0) + v
        if r["errors"]:
            errs.append({"case": r["case"], "errors": r["errors"]})
        val = r.get("validation") or {}
        vruns += val.get("runs", 0)
        vvals += val.get("values", 0)
        mism += [f"{r['case']}: {m}" for m in val.get("mismatch", ())]
        for s in r.get("samples", ())[:1]:
            samples.append(dict(s, case=r["case"]))
        for cx in r.get("cex", ()):
            f = match_finding(findings, prop, r["case"], cx)
            if f is not None:
                known.setdefault(f["id"], f)
            else:
                viol.append((r["case"], cx))
    # write replays
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(d, f"{prop}-*.json")):
        os.unlink(old)
    lines = []
    for i, (cn, cx) in enumerate(viol[:10]):
        p = os.path.join(d, f"{prop}-{i}.json")
        with open(p, "w") as fh:
            json.dump({"property": prop, "case": cn, **jsonable(cx)}, fh,
                      indent=1)
        lines.append((p, cn, cx))
    for f in known.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for p, cn, cx in lines[:10]:
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  case {cn}: {cx['obligation']}: {cx.get('message')}"[:600])
    ev = evidence(prop, tier, seed, cases, results, tot, executed, undec,
                  unsup, errs, mism, vruns, vvals, samples, viol, known, t0)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(jsonable(ev), fh, indent=1)
    print(
        f"{prop} [{tier}] cases={len(cases)} paths={tot.get('paths', 0)} "
        f"obligations={tot.get('obligations', 0)} "
        f"discharged={tot.get('discharged', 0)} "
        f"undecided={len(undec)} unsupported={sum(unsup.values())} "
        f"limit={tot.get('limit', 0)} errors={len(errs)} "
        f"mismatch={len(mism)} violations={len(viol)} "
        f"wall={time.time() - t0:.1f}s"
    )
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0)):
            s = r.get("stats", {})
            print(f"  {r.get('wall', 0):7.1f}s {r['case']}: paths="
                  f"{s.get('paths')} inf={s.get('infeasible')} "
                  f"obl={s.get('obligations')} dis={s.get('discharged')} "
                  f"q={s.get('queries')} z3={s.get('solver_s', 0):.1f}s "
                  f"lim={s.get('limit')} conc={s.get('concretized')}")
        for u in undec[:10]:
            print("  UNDECIDED", u)
        for k, v in list(unsup.items())[:10]:
            print("  UNSUPPORTED", v, k)
        for e in errs[:10]:
            print("  ERROR", e["case"], "\n".join(e["errors"]))
        for m in mism[:20]:
            print("  MISMATCH", m)
    return 1 if viol else 0


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def evidence(prop, tier, seed, cases, results, tot, executed, undec, unsup,
             errs, mism, vruns, vvals, samples, viol, known, t0):
    from .stubs import CONTRACTS

    return {
        "property": prop,
        "tier": tier,
        "level": "model_checking",
        "seed": seed,
        "verdict": "violation" if viol else "held",
        "coverage": {
            "states": max(1, tot.get("paths", 0)),
            "transitions": max(1, tot.get("decisions", 0)
                               + tot.get("obligations", 0)),
            "traces_validated_against_impl": vruns,
            "samples": samples[:6] or [{"case": c.name} for c in cases[:3]],
            "functions_encoded": sorted(executed),
            "bounds": sorted({c.bounds for c in cases if c.bounds}),
            "cases": [
                {
                    "case": r["case"],
                    "paths": r.get("stats", {}).get("paths", 0),
                    "infeasible_paths": r.get("stats", {}).get(
                        "infeasible", 0),
                    "obligations": r.get("stats", {}).get("obligations", 0),
                    "discharged_by_solver": r.get("stats", {}).get(
                        "discharged", 0),
                    "queries": r.get("stats", {}).get("queries", 0),
                    "solver_seconds": round(
                        r.get("stats", {}).get("solver_s", 0), 3),
                    "complete": not (
                        r.get("stats", {}).get("limit", 1)
                        or r.get("stats", {}).get("concretized", 0)
                        or r.get("undecided") or r["errors"]
                        or r.get("unsupported")),
                }
                for r in results
            ],
            "queries_discharged": tot.get("queries", 0),
            "solver_seconds": round(tot.get("solver_s", 0), 3),
            "solver_unknown": tot.get("unknown", 0),
            "obligations": tot.get("obligations", 0),
            "obligations_discharged": tot.get("discharged", 0),
            "obligations_undecided": undec[:20],
            "paths_outside_encoding": unsup,
            "paths_cut_by_limit": tot.get("limit", 0),
            "concretized_values": tot.get("concretized", 0),
            "rewrite_lemmas_certified": tot.get("lemmas", 0),
            "encoding_validation": {
                "runs": vruns, "values_compared": vvals,
                "mismatches": mism[:20]},
            "library_contracts": CONTRACTS,
            "errors": errs[:10],
        },
        "known_findings": [f["id"] for f in known.values()],
        "violations": [
            {"case": c, "obligation": x["obligation"],
             "message": x.get("message")} for c, x in viol[:10]],
        "wall_s": round(time.time() - t0, 2),
    }


def replay_main(path):
    """Re-execute a recorded counterexample on the real code."""
    from . import ctx as C

    load_props()
    with open(path) as fh:
        d = json.load(fh)
    c = REG[d["property"]][d["case"]]
    st, msgs, _ = C.run_concrete(c, d["values"], d["choices"])
    print(st, *msgs, sep="\n  ")
    return 1 if st == "fail" else 0
