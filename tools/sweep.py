"""All checks on one tree with shared analyses: PPS_REPO=<tree> python3 tools/sweep.py [-c substr,...] [-p C02,...] [-j 8]
prints one line per (property, configuration) that would be reported, and a status digest"""
import json, multiprocessing, os, sys, time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pps import run
PIDS = ["C%02d" % i for i in list(range(1, 34)) + [36]]


def one(task):
    cid, pids, n, seed, budget = task
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pps import cases, judge
    from pps.core import Session, limited, TimeOut, Undecided, AnchorError, Unsup
    case = [c for c in cases.CASES if c.id == cid][0]
    out = []
    t0 = time.time()
    sess = {}

    def attempt(pid, f, bounded):
        k = bounded is not None
        if k not in sess:
            sess[k] = judge.Judge(Session(case, bounded, budget), n, seed)
        R = judge.Report(pid, case)
        try:
            limited(lambda: f(sess[k], R), 60)
            return R, None
        except TimeOut:
            sess.pop(k, None)
            return None, "time limit"
        except AnchorError as e:
            return None, "ANCHOR " + str(e)
        except Undecided as e:
            return None, "undecided: %s" % e
        except (Unsup, RecursionError, MemoryError) as e:
            return None, "not analysable: %s" % e
        except Exception as e:
            return None, "analysis stopped: %s: %s" % (type(e).__name__, e)
    for pid in pids:
        sel, f = run.plan(pid)
        if not f or not sel(case):
            continue
        R, err = attempt(pid, f, None)
        if (R is None or any(s == "undecided" for _, s, _ in R.obs)) and not (R is not None and R.bad):
            R2, err2 = attempt(pid, f, {})
            if R2 is not None:
                if R is None:
                    R = R2
                    R.obs = [(w, "agreed" if s == "proved" else s, m) for w, s, m in R.obs]
                else:
                    d2 = {w: (s, m) for w, s, m in R2.obs}
                    R.obs = [(w, "agreed", m) if s == "undecided" and w in d2 and d2[w][0] != "undecided" else (w, s, m) for w, s, m in R.obs]
                    if not R.bad:
                        R.bad = R2.bad
            elif R is None:
                err = "%s; with fixed sizes: %s" % (err, err2)
        out.append((pid, None if R is None else R.obs, [] if R is None else R.bad, err if R is None else None))
    cov = set()
    for J in sess.values():
        cov |= set(x for x in J.S.I.stmts_seen if x[0].startswith('pure_'))
    return cid, out, cov


def main():
    a = sys.argv[1:]
    subs = a[a.index("-c") + 1].split(",") if "-c" in a else None
    pids = a[a.index("-p") + 1].split(",") if "-p" in a else PIDS
    j = int(a[a.index("-j") + 1]) if "-j" in a else 8
    js = a[a.index("-o") + 1] if "-o" in a else None
    from pps import cases, props
    tasks = [(c.id, pids, 48, 1, 250000) for c in cases.CASES if subs is None or any(s in c.id for s in subs)]
    gl = [(p, nm, 48, 1, 180) for p in pids for nm in props.GLOBAL.get(p, ())] if "-g" in a or subs is None else []
    t0 = time.time()
    bad, stat, miss = {}, {}, []
    full = {}
    covs = {}
    with multiprocessing.get_context("fork").Pool(j, maxtasksperchild=1) as pool:
        gs = [pool.apply_async(run.gwork, (g,)) for g in gl]
        for cid, out, cov in pool.imap_unordered(one, tasks):
            covs[cid] = sorted(cov)
            for pid, obs, bd, err in out:
                for b in bd:
                    bad.setdefault((pid, b["construct"], b["rule"]), (cid, b["message"]))
                if err:
                    miss.append((pid, cid, err))
                    full[pid + " " + cid] = "ERR " + err
                for w, s, m in obs or ():
                    stat[s] = stat.get(s, 0) + 1
                    full["%s %s %s" % (pid, cid, w)] = s
        for g, h in zip(gl, gs):
            r = h.get()
            for b in r["bad"]:
                bad.setdefault((g[0], b["construct"], b["rule"]), (g[1], b["message"]))
            if r["err"] or r.get("anchor"):
                miss.append((g[0], g[1], r["err"] or "ANCHOR " + r["anchor"]))
                full[g[0] + " " + g[1]] = "ERR"
    if "-v" in a:
        json.dump(covs, open(a[a.index("-v") + 1], "w"))
    if js:
        json.dump(full, open(js, "w"), indent=0, sort_keys=True)
    for (p, c, r), (cid, m) in sorted(bad.items()):
        print("BAD %s | %s | %s | %s: %s" % (p, c, r, cid, m[:160].replace("\n", " ")))
    und = [k for k, v in full.items() if v == "undecided"]
    for k in sorted(und)[:10]:
        print("UND %s" % k)
    for x in sorted(miss)[:10]:
        print("ERR %s %s: %s" % (x[0], x[1], x[2][:200]))
    print("SWEEP %d cases %s; %d undecided %d no analysis; %d bad; %.1fs" % (len(tasks), stat, len(und), len(miss), len(bad), time.time() - t0))


main()
