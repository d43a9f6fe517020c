"""python3 -m pps.run <property> [--tier quick|thorough]: decides one property for the tree in /repo."""
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("PPS_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known_findings.txt")

VALUE = {"C11": ("linear",), "C12": ("tree", "xgb"), "C13": ("bagging", "gb", "xgb"), "C14": ("nb", "dummy"), "C15": ("scaler", "function"),
         "C16": ("impute",), "C17": ("encoder",), "C18": ("dictvec", "tfidf", "text"), "C19": ("hash",), "C20": ("text",), "C21": ("pipeline",),
         "C29": ("fasttext-vec",), "C30": ("fasttext",), "C33": ("pairwise",)}


def plan(pid):
    """(selector of configurations, judge)"""
    from . import judge as j
    if pid == "C33":
        return (lambda c: c.family == "pairwise"), j.j_pairwise
    if pid == "C30":
        return (lambda c: c.family == "fasttext" and c.supported is True), j.j_pairwise
    if pid in VALUE:
        fams = VALUE[pid]
        return (lambda c: c.family in fams and c.supported is True), j.j_value
    sup = lambda c: c.supported is True
    table = {
        "C02": (lambda c: c.family not in FUNCS, j.j_pure),
        "C03": (lambda c: c.supported is not False and c.family not in FUNCS, j.j_snapshot),
        "C04": (sup, j.j_state), "C05": (sup, j.j_input), "C06": (sup, j.j_result), "C07": (sup, j.j_rows),
        "C08": (lambda c: sup(c) and c.classifier and c.scores, j.j_labels),
        "C09": (lambda c: sup(c) and "predict_proba" in c.methods, j.j_logs),
        "C10": (lambda c: sup(c) and "predict_proba" in c.methods, j.j_prob),
        "C22": (lambda c: sup(c) and c.sparse_in is not None, j.j_sparse),
        "C23": (lambda c: sup(c) and c.sparse_out, j.j_sparse_out),
        "C24": (lambda c: sup(c) and c.bad and not c.family.startswith("fasttext"), j.j_malformed),
        "C25": (lambda c: c.supported is False or c.late, j.j_unsupported),
        "C26": (lambda c: c.supported is True and c.counterpart and c.family not in FUNCS, j.j_counterpart),
        "C27": (sup, j.j_crash),
        "C28": (sup, j.j_ambient),
        "C36": (lambda c: sup(c) and c.family not in FUNCS and not c.family.startswith("fasttext"), j.j_interface),
        "C31": (lambda c: sup(c) and c.family not in FUNCS, j.j_pickle),
    }
    return table.get(pid, (lambda c: False, None))


FUNCS = ("pairwise", "function")


def work(task):
    """one configuration in its own process"""
    pid, cid, n, seed, secs, budget = task
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from . import core, cases, judge
    from .core import Session, limited, TimeOut, Undecided, AnchorError, Unsup
    case = [c for c in cases.CASES if c.id == cid][0]
    sel, f = plan(pid)
    out = {"case": cid, "obs": [], "bad": [], "err": None}

    seen = []

    def once(bounded):
        S = Session(case, bounded, budget)
        seen.append(S)
        R = judge.Report(pid, case)
        J = judge.Judge(S, n, seed)
        f(J, R)
        return R

    def attempt(bounded, secs):
        try:
            return limited(lambda: once(bounded), secs), None
        except TimeOut:
            return None, "time limit"
        except AnchorError:
            raise
        except Undecided as e:
            return None, "undecided: %s" % e
        except (Unsup, RecursionError, MemoryError) as e:
            return None, "not analysable: %s" % e
        except Exception as e:
            if os.environ.get("PPS_DEBUG"):
                traceback.print_exc()
            return None, "analysis stopped: %s: %s" % (type(e).__name__, e)
    try:
        R, err = attempt(None, secs)
        und = R is None or any(s == "undecided" for _, s, _ in R.obs)
        if R is not None and R.bad:
            und = False
        if und:
            from . import terms as t_
            R2, err2 = attempt({}, secs)
            if R2 is not None:
                # a bounded verdict replaces the missing one
                if R is None:
                    R = R2
                    R.obs = [(w, "agreed (fixed sizes)" if s in ("proved", "agreed") else s, m) for w, s, m in R.obs]
                else:
                    d2 = {w: (s, m) for w, s, m in R2.obs}
                    for k, (w, s, m) in enumerate(R.obs):
                        if s == "undecided" and w in d2 and d2[w][0] != "undecided":
                            R.obs[k] = (w, "agreed (fixed sizes)", d2[w][1])
                    if not R.bad:
                        R.bad = R2.bad
            elif R is None:
                out["err"] = "%s; with fixed sizes: %s" % (err, err2)
        if R is not None:
            out["obs"], out["bad"] = R.obs, R.bad
    except AnchorError as e:
        out["anchor"] = str(e)
    except Exception as e:
        if os.environ.get("PPS_DEBUG"):
            traceback.print_exc()
        out["err"] = "analysis stopped: %s: %s" % (type(e).__name__, e)
    out["secs"] = time.time() - t0
    out["funcs"] = sorted(set("%s.%s" % (m, f) for S in seen for m, f, _ in S.I.funcs_seen if m.split(".")[0] in ("pure_sklearn", "pure_fasttext")))
    out["stmts"] = sorted(set((m, l) for S in seen for m, l in S.I.stmts_seen if m.split(".")[0] in ("pure_sklearn", "pure_fasttext")))
    return out


def gwork(task):
    pid, name, n, seed, secs = task
    t0 = time.time()
    from . import globalchecks as g
    from .core import limited, TimeOut, AnchorError, Undecided, Unsup
    out = {"case": name, "obs": [], "bad": [], "err": None}

    class C(object):
        id = name
    from . import judge
    R = judge.Report(pid, C)
    try:
        limited(lambda: getattr(g, name)(R, n, seed), secs)
    except AnchorError as e:
        out["anchor"] = str(e)
    except TimeOut:
        out["err"] = "time limit"
    except Exception as e:
        if os.environ.get("PPS_DEBUG"):
            traceback.print_exc()
        out["err"] = "analysis stopped: %s: %s" % (type(e).__name__, e)
    out["obs"], out["bad"] = R.obs, R.bad
    out["secs"] = time.time() - t0
    return out


def known():
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                # known: property=C00 configuration=... rule=... | description
                head, _, desc = l[7:].partition(" | ")
                d = {}
                for part in head.split("; "):
                    k, _, v = part.partition("=")
                    d[k.strip()] = v.strip()
                ks.append((d, desc))
    return ks


def is_known(b, ks):
    for d, desc in ks:
        if d.get("property") == b["property"] and d.get("configuration") == b["configuration"] and d.get("call") == b["call"] and d.get("rule") == b["rule"]:
            return desc
    return None


def main(argv):
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "pps.run"] + argv)
    pid = argv[0]
    tier = "thorough" if "thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" and "--tier" not in argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--case" in argv:
        only = argv[argv.index("--case") + 1]
    n, secs, budget = (48, 60, 250000) if tier == "quick" else (600, 240, 1500000)
    t0 = time.time()
    from . import cases, props
    sel, f = plan(pid)
    tasks = [(pid, c.id, n, seed, secs, budget) for c in cases.CASES if f and sel(c) and (only is None or only in c.id)]
    gl = [(pid, name, n, seed, secs * 3) for name in props.GLOBAL.get(pid, ()) if only is None or only in name]
    limit = 780 if tier == "quick" else 3000
    results = []
    late = 0
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1) as pool:
        hs = [pool.apply_async(gwork, (g,)) for g in gl] + [pool.apply_async(work, (t,)) for t in tasks]
        names = [g[1] for g in gl] + [t[1] for t in tasks]
        for h, nm in zip(hs, names):
            left = max(1, limit - (time.time() - t0))
            try:
                results.append(h.get(timeout=left))
            except multiprocessing.TimeoutError:
                late += 1
                results.append({"case": nm, "obs": [], "bad": [], "err": "run time limit", "secs": 0})
            except Exception as e:
                results.append({"case": nm, "obs": [], "bad": [], "err": "worker: %s" % e, "secs": 0})
        pool.terminate()
    os.makedirs(EVID, exist_ok=True)
    ks = known()
    bad, kn = [], []
    anchors = []
    obs = []
    for r in results:
        if r.get("anchor"):
            anchors.append("%s: %s" % (r["case"], r["anchor"]))
        for b in r["bad"]:
            d = is_known(b, ks)
            if d:
                kn.append((b, d))
            else:
                bad.append(b)
        for w, s, m in r["obs"]:
            obs.append({"configuration": r["case"], "obligation": w, "status": s, "note": m})
    cnt = {}
    for o in obs:
        cnt[o["status"]] = cnt.get(o["status"], 0) + 1
    und = [o for o in obs if o["status"] == "undecided"]
    errs = [{"configuration": r["case"], "reason": r["err"]} for r in results if r["err"]]
    funcs = sorted(set(f for r in results for f in r.get("funcs", ())))
    stmts = len(set(x for r in results for x in r.get("stmts", ())))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": props.EXPLAIN.get(pid, "") + " Decided without executing the code under analysis: the abstract interpreter summarises every call of every listed configuration as gated value graphs over symbolic sizes and data, with its effects.",
              "rule": props.RULE.get(pid, ""),
              "configurations_analysed": len([r for r in results if not r["err"]]),
              "configurations_not_analysed": errs,
              "functions_analysed": funcs, "statements_analysed": stmts,
              "obligations": len(obs) + sum(len(r["bad"]) for r in results),
              "obligations_by_status": cnt,
              "undecided": und[:60],
              "samples": obs[:12] + obs[len(obs) // 2:len(obs) // 2 + 6],
              "violations": len(bad), "known_findings": len(kn)},
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d configurations, %d obligations: %s; %d configurations without analysis; %.1fs" % (
        pid, len(results), len(obs), ", ".join("%d %s" % (v, k) for k, v in sorted(cnt.items())), len(errs), time.time() - t0))
    if "-v" in argv:
        for e in errs:
            print("  no analysis: %(configuration)s: %(reason)s" % e)
        for o in und:
            print("  undecided: %(configuration)s %(obligation)s: %(note)s" % o)
        for r in sorted(results, key=lambda r: -r["secs"])[:8]:
            print("  %.1fs %s" % (r["secs"], r["case"]))
    for b, d in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if bad:
        seen = set()
        k = 0
        for b in bad:
            key = (b["construct"], b["rule"])
            if key in seen:
                continue
            seen.add(key)
            k += 1
            if k > 12:
                break
            path = os.path.join(EVID, "%s-violation-%d.json" % (pid, k))
            with open(path, "w") as fh:
                json.dump(b, fh, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s | %s | %s: %s" % (b["construct"], b["rule"], b["configuration"], b["message"][:400]))
        return 1
    if anchors:
        print("ANALYSIS-BROKEN: %s" % "; ".join(anchors[:5]))
        return 3
    if not obs:
        print("ANALYSIS-BROKEN: no obligation was analysed")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
