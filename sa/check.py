"""python3 sa/check.py <property id>: decide one property on /repo's working tree.

exit 0: every obligation of the property is discharged.   exit 1: VIOLATION line(s).   exit 2: the analysis could not be set up."""
import sys, os, json, time, signal, traceback, collections, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
from small import Result

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TASK_S = int(os.environ.get("VERIF_TASK_S", "400"))


class Ctx:
    def __init__(s, tree, thorough, seed):
        s.tree, s.thorough, s.seed = tree, thorough, seed
        s.progs = {}
        s.counts = collections.OrderedDict()
        s.analysed = collections.Counter()

    def prog(s, variant="AVX", dirs=("binned",), extra=()):
        from absint import Program
        k = (variant, tuple(dirs))
        if k not in s.progs:
            s.tree.generate(dirs)
            r = s.tree.compile(s.tree.csources(*dirs), variant, extra)
            p = Program(sorted(r.values()))
            p.all_names()
            s.progs[k] = p
        return s.progs[k]


    def matprog(s, mpi=False):
        """IR for the loop-nest summaries; the default folds get distinct values so that a mix-up shows"""
        from absint import Program
        k = "mpi" if mpi else "mat"
        if k in s.progs:
            return s.progs[k]
        t = s.tree
        dirs = ("binned", "binnedMPI") if mpi else ("binned", "binnedBLAS", "reproBLAS")
        t.generate(dirs)
        passes = "always-inline,function(sroa,mem2reg,simplifycfg,adce)"
        old = None if mpi else t.default_folds(5, 4)
        s.folds = {"d": 5, "z": 5, "s": 4, "c": 4} if old is not None else \
            {"d": t.getter["didefaultfold"], "z": t.getter["didefaultfold"], "s": t.getter["sidefaultfold"], "c": t.getter["sidefaultfold"]}
        try:
            extra, rels = (), t.csources(*dirs)
            if mpi:
                extra = t.mpiflags()
                with open(os.path.join(t.top, "sa_probe.c"), "w") as f:
                    f.write("#include <mpi.h>\nMPI_Datatype sa_probe_d(void){return MPI_DOUBLE;}\nMPI_Datatype sa_probe_f(void){return MPI_FLOAT;}\n")
                rels = rels + ["sa_probe.c"]
            r = t.compile(rels, "AVX", extra, passes, ".mat")
        finally:
            if old is not None:
                t.restore_config(old)
        p = Program(sorted(r.values()))
        p.all_names()
        s.progs[k] = p
        return p


class Timeout(Exception):
    pass


TASKS = []


def _work(i):
    t = TASKS[i]
    t0 = time.time()

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(TASK_S)
    try:
        rs = t.run()
    except Timeout:
        rs = [Result(frozenset(t.tags), t.fn, t.part, "analysable", False, "analysis did not finish in %d s" % TASK_S)]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rs = [Result(frozenset(t.tags), t.fn, t.part, "analysable", False,
                     "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))]
    finally:
        signal.alarm(0)
    return i, [(tuple(r.tags), r.fn, r.part, r.what, r.ok, r.detail) for r in rs], time.time() - t0


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                d = dict(x.split("=", 1) for x in l.split(" | ")[1:])
                out.append((d, l.split(" | ")[0][len("finding: "):], [0]))
    return out


def match(d, fn, part, what, detail):
    return all(v in {"fn": fn, "part": part, "what": what, "detail": detail}[k] if k != "fn" else v == fn
               for k, v in d.items() if k in ("fn", "part", "what", "detail"))


def main(pid):
    global TASKS
    import registry
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    entry = registry.PROPS[pid]
    res = []
    per = []
    try:
        with frontend.Tree() as tree:
            ctx = Ctx(tree, thorough, seed)
            for suite in entry["suites"]:
                TASKS += list(suite(ctx, pid))
            t1 = time.time()
            order = sorted(range(len(TASKS)), key=lambda i: -getattr(TASKS[i], "cost", 0))
            with multiprocessing.get_context("fork").Pool(min(frontend.JOBS, max(1, len(TASKS)))) as pool:
                heavy = any(getattr(t, "cost", 0) for t in TASKS)
                for i, rs, dt in pool.imap_unordered(_work, order, 1 if heavy else 8):
                    res += [r for r in rs if pid in r[0]]
                    per.append((TASKS[i].fn, len([r for r in rs if pid in r[0]]), dt))
    except (frontend.FrontendError, registry.Anchor) as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    kf = known_findings(pid)
    bad = []
    for tags, fn, part, what, ok, detail in res:
        if ok:
            continue
        for d, txt, n in kf:
            if match(d, fn, part, what, detail):
                n[0] += 1
                break
        else:
            bad.append((fn, part, what, detail))
    by = collections.Counter(r[1] for r in res)
    floor = entry.get("min", {}).get("thorough" if thorough else "quick", 1)
    for d, txt, n in kf:
        if n[0]:
            print("KNOWN-FINDING: %s (%d obligations)" % (txt, n[0]))
    n = len(res)
    nb = sum(1 for r in res if not r[4])
    cov = {
        "obligations": n, "discharged": n - nb,
        "checker_cmd": "python3 sa/check.py %s" % pid,
        "trusted_base": registry.TRUST,
        "tasks": len(TASKS), "functions": len(by),
        "analysed": {k: v for k, v in sorted(by.items())},
        "explanation": entry["explain"],
        "samples": [" | ".join((r[1], r[2], r[3])) for r in sorted(res, key=lambda r: hash_of(r, seed))[:8]],
        "known_findings": sum(x[2][0] for x in kf),
    }
    cov.update(getattr(ctx, "extra_cov", {}))
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": entry["level"],
          "coverage": cov, "assumptions": entry.get("assume", registry.ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations in %d functions, %d tasks, %.1f s" % (pid, n, len(by), len(TASKS), time.time() - t0))
    if os.environ.get("VERIF_PROFILE"):
        for fn, k, dt in sorted(per, key=lambda x: -x[2])[:25]:
            print("   %6.2f s %s" % (dt, fn))
    if bad:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        rp = os.path.join(HERE, "out", pid + ".violation.json")
        groups = collections.OrderedDict()
        for fn, part, what, detail in bad:
            groups.setdefault((fn, what), []).append((part, detail))
        with open(rp, "w") as f:
            json.dump([{"function": k[0], "obligation": k[1], "cases": [{"partition": p, "found": d} for p, d in v[:10]], "count": len(v)}
                       for k, v in groups.items()], f, indent=1)
        for k, v in list(groups.items())[:20]:
            print("  %s | %s | %s | %s%s" % (k[0], k[1], v[0][0], v[0][1][:300], " (+%d more)" % (len(v) - 1) if len(v) > 1 else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if n < floor:
        print("ANALYSIS-BROKEN property=%s only %d obligations, at least %d expected" % (pid, n, floor))
        return 2
    return 0


def hash_of(r, seed):
    import hashlib
    return hashlib.md5(("%d|%s|%s|%s" % (seed, r[1], r[2], r[3])).encode()).hexdigest()


if __name__ == "__main__":
    sys.setrecursionlimit(10000)
    sys.exit(main(sys.argv[1]))
