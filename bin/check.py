#!/usr/bin/env python3
"""Decide one property: build /repo, run generated scripts on the real library,
validate the recorded traces against the TLA+ specification with TLC."""
import sys, os, subprocess, json, time, random, shutil, tempfile, threading, signal, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "gen"))
import plan

TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ)
ENV.update(MALLOC_PERTURB_="90", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader",
           OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=1")
NCPU = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(work, dims):
    out = os.path.join(work, "b")
    e = dict(ENV)
    r = subprocess.run(["bash", os.path.join(V, "harness", "build.sh"), out, " ".join(map(str, dims))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=600)
    if r.returncode:
        raise ToolError("build failed:\n" + r.stdout[-3000:])
    return out


def script_of(cases):
    out = []
    for cid, P, grp, lines in cases:
        out.append("case %d %d %d" % (cid, P, grp))
        out += lines
    return "\n".join(out) + "\n"


class Batch:
    """a list of cases of one dimension run by one mpirun and judged by one TLC"""
    def __init__(self, work, name, dim, cases, delay, asan=False):
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        self.dim, self.cases, self.delay = dim, cases, delay
        self.out = os.path.join(self.dir, "trace.ndjson")
        self.prog = os.path.join(self.dir, "progress")
        self.crashes = []            # (case, op, kind, how)
        self.rejects = []            # (pid, clause, case, op, kind)
        self.states = self.trans = 0
        self.lines = 0

    def run(self, bdir, opt):
        open(self.out, "w").close()
        todo = list(self.cases)
        tries = 0
        while todo:
            tries += 1
            if os.path.exists(self.prog):
                os.unlink(self.prog)
            sp = os.path.join(self.dir, "script")
            with open(sp, "w") as f:
                f.write(script_of(todo))
            scr = os.path.join(self.dir, "scratch")
            os.makedirs(scr, exist_ok=True)
            maxp = max(c[1] for c in todo)
            e = dict(ENV)
            e.update(opt.get("env", {}))
            e["TMPDIR"] = self.dir
            if self.delay:
                e["DRV_DELAY"] = str(self.delay)
            cmd = ["mpirun", "-np", str(maxp), os.path.join(bdir, "drv%d" % self.dim), sp, self.out, self.prog, scr]
            how = self.exec_watch(cmd, e, opt.get("hang", 40))
            last = "-1 0 none"
            if os.path.exists(self.prog):
                t = open(self.prog).read().split("\n")
                t = [x for x in t if x]
                if t:
                    last = t[-1]
            c, o, k = last.split(" ", 2)
            if k == "end" and how == 0:
                break
            if k == "end":
                # failed after the last case: attribute to nothing, but report
                self.crashes.append((todo[-1][0], -1, "end", how))
                break
            if k == "none":
                if tries > 3:
                    raise ToolError("driver did not start (%s): %s" % (how, open(os.path.join(self.dir, "log")).read()[-1500:]))
                continue
            err = open(os.path.join(self.dir, "log")).read()
            if "DRV:" in err:
                raise ToolError("driver: " + err[-1500:])
            self.crashes.append((int(c), int(o), k, how))
            i = [x[0] for x in todo].index(int(c))
            todo = todo[i + 1:]
            self.trim()
            if len(self.crashes) >= opt.get("maxcrash", 6):
                break

    def trim(self):
        """drop an unfinished last line"""
        d = open(self.out, "rb").read()
        if d and not d.endswith(b"\n"):
            d = d[:d.rfind(b"\n") + 1]
            open(self.out, "wb").write(d)

    def exec_watch(self, cmd, env, hang):
        lf = open(os.path.join(self.dir, "log"), "w")
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=self.dir)
        last, lt = None, time.time()
        how = None
        while True:
            try:
                how = p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                s = (os.path.getsize(self.prog), os.path.getsize(self.out))
            except OSError:
                s = None
            if s != last:
                last, lt = s, time.time()
            elif time.time() - lt > hang:
                how = "hang"
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            p.wait(timeout=10)
        except Exception:
            pass
        lf.close()
        return how

    def validate(self, pid, spec, out=None):
        self.rejects, self.states, self.trans = [], 0, 0
        trace = out or self.out
        n = sum(1 for _ in open(trace))
        self.lines = n
        if n == 0:
            return
        while True:
            r, txt = tlc(self.dir, spec[0], spec[1] % self.dim, {"TRACE": trace, "PID": pid}, spec_heap=2500)
            for m in re.finditer(r'^"REJECT\|([^|]*)\|([^|]*)\|([^|]*)\|([^|]*)\|([^"]*)"', txt, re.M):
                self.rejects.append((m[1], m[2], int(m[3]), int(m[4]), m[5]))
            m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
            if m:
                self.trans += int(m[1]) - 1
                self.states += int(m[2])
            if r == 0 and re.search(r'^"DONE\|%d\|%d"' % (n, n), txt, re.M):
                return
            if "OutOfMemory" in txt or "StackOverflow" in txt or r is None:
                raise ToolError("TLC: " + txt[-3000:])
            # evaluation stopped at some line: attribute to the case
            a = re.findall(r'^"AT\|(\d+)"', txt, re.M)
            if not a:
                raise ToolError("TLC: " + txt[-3000:])
            cid = int(a[-1])
            open(os.path.join(self.dir, "tlc-error-%d" % cid), "w").write(txt)
            ml = re.findall(r"/\\ l = (\d+)", txt)
            rows = open(trace).read().splitlines()
            at = None
            if ml:
                k = int(ml[-1])
                if k <= len(rows):
                    at = json.loads(rows[k - 1])
            self.rejects.append((pid, "not-explained-by-the-specification", cid,
                                 at["o"] if at else -1, at["k"] if at else "?"))
            keep = []
            seen = False
            for row in rows:
                j = json.loads(row)
                if seen and j["c"] != cid:
                    keep.append(row)
                if j["c"] == cid:
                    seen = True
            trace = os.path.join(self.dir, "rest.ndjson")
            open(trace, "w").write("".join(x + "\n" for x in keep))
            n = len(keep)
            if n == 0:
                return


def tlc(wd, module, cfg, env, spec_heap=2500, extra=(), timeout=800, workers=1):
    md = tempfile.mkdtemp(dir=wd)
    e = dict(ENV)
    e.update(env)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx%dm" % spec_heap,
           "-XX:TieredStopAtLevel=4", "-cp", TLAJ, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", *extra, "-config", cfg, module]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return None, "timeout\n" + str(x.stdout)[-2000:]
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = plan.PLANS[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = decide(pid, P, tier, seed, work, t0)
    except ToolError as e:
        log("ERROR", str(e))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def cfg_text(m, spec, invs=()):
    c = "CONSTANTS\n"
    for k, v in m.items():
        c += "  %s = %s\n" % (k, '"%s"' % v if isinstance(v, str) else v)
    c += "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if invs:
        c += "INVARIANTS %s\n" % " ".join(invs)
    return c


def model_check(pid, P, tier, work):
    """exhaustive checking of the specification itself"""
    res = []
    for n, m in enumerate(P.get("mc", [])):
        if m.get("tier") == "thorough" and tier != "thorough":
            continue
        cfg = os.path.join(work, "mc%d.cfg" % n)
        with open(cfg, "w") as f:
            f.write(cfg_text(m["const"], m.get("spec", "Spec"), m["inv"]))
        r, txt = tlc(work, m["module"], cfg, {}, spec_heap=6000, workers=m.get("workers", 4),
                     timeout=m.get("timeout", 600 if tier != "thorough" else 3000))
        g = re.search(r"^(\d+) states generated, (\d+) distinct", txt, re.M)
        ok = r == 0 and "No error has been found" in txt
        if not ok:
            raise ToolError("specification %s %s: %s" % (m["module"], m["const"], txt[-3000:]))
        res.append({"module": m["module"], "constants": m["const"], "invariants": m["inv"],
                    "generated": int(g[1]), "distinct": int(g[2])})
    return res


def behaviours(pid, P, tier, seed, work):
    """behaviours of the specification, as scripts for the real library"""
    def one(n, b):
        num = b["num"] * (P.get("tscale", 8) if tier == "thorough" else 1)
        cfg = os.path.join(work, "sim%d.cfg" % n)
        with open(cfg, "w") as f:
            f.write(cfg_text(b["const"], "SSpec"))
        r, txt = tlc(work, b["module"], cfg, {}, workers=1,
                     extra=["-simulate", "num=%d" % num, "-depth", str(b["const"]["STEPS"] + 3), "-seed", str(seed * 1000 + n)],
                     timeout=b.get("timeout", 300 if tier != "thorough" else 3000))
        cases = []
        for m in re.finditer(r'^"?SCRIPT\|(\d+)\|(.*?)"?$', txt, re.M):
            cases.append((int(m[1]), [" ".join(x.split()) for x in m[2].split(";") if x]))
        if not cases:
            raise ToolError("no behaviours from %s: %s" % (b["module"], txt[-2000:]))
        return b, cases
    out = {}
    with ThreadPoolExecutor(4) as tp:
        for b, cases in tp.map(lambda x: one(*x), enumerate(P.get("sim", []))):
            rng = random.Random("%s-%d-%s" % (pid, seed, b["const"]))
            for np_, lines in cases:
                for t in b.get("tail", []):      # observations of derived structures
                    lines = lines + [t(rng, b["const"]["DIM"]) if callable(t) else t]
                out.setdefault(b["const"]["DIM"], []).append((np_, lines))
    return out


def decide(pid, P, tier, seed, work, t0):
    thorough = tier == "thorough"
    dims = P.get("dims", (2, 3))
    mcres = []
    pool = ThreadPoolExecutor(NCPU)
    fb = pool.submit(build, work, dims)
    fm = pool.submit(model_check, pid, P, tier, work)
    fs = pool.submit(behaviours, pid, P, tier, seed, work)
    rng = random.Random("%s-%d" % (pid, seed))
    # ---- cases
    cid = 0
    known = load_known(pid)
    alld = {}
    for d in dims:
        groups = []
        n = P["n"][d] * (P.get("tscale", 8) if thorough else 1)
        k = 0
        for kf in known:
            if kf["dim"] == d:
                groups.append([(kf["P"], -1, kf["lines"])])
        fixed = P.get("fixed")
        if fixed:
            for cases in fixed(d):
                groups.append(cases)
        from core import G
        while k < n:
            g = G(rng, d, P.get("pset", (1, 2, 3, 4, 5)))
            fn, = rng.choices([x[0] for x in P["gens"]], [x[1] for x in P["gens"]])
            cs = fn(g)
            groups.append(cs)
            k += len(cs)
        alld[d] = groups
    sims = fs.result()
    for d in dims:
        for np_, lines in sims.get(d, []):
            alld[d].append([(np_, 0, lines)])
    batches = []
    nsim = sum(len(x) for x in sims.values())
    per = {d: max(1, P.get("batches", {2: 4, 3: 4})[d]) * (2 if thorough else 1) for d in dims}
    ncases = 0
    samples = []
    for d in dims:
        bs = [[] for _ in range(per[d])]
        load = [0] * per[d]
        groups = alld[d]
        for grp in groups:
            i = load.index(min(load))
            for (np_, gid, lines) in grp:
                cid += 1
                bs[i].append((cid, np_, gid, lines))
                for kf in known:
                    if gid == -1 and kf["lines"] is lines:
                        kf["cid"] = cid
                load[i] += np_ + len(lines)
                ncases += 1
            if len(samples) < 3 and rng.random() < 0.2:
                samples.append({"dim": d, "P": grp[0][0], "script": grp[0][2]})
        for i, b in enumerate(bs):
            if b:
                delay = (seed * 100 + i + 1) if (P.get("delay") == "all" or (P.get("delay") != "none" and i % 2 == 1)) else 0
                batches.append(Batch(work, "d%d-%d" % (d, i), d, b, delay))
    if not samples:
        d0 = dims[0]
        samples = [{"dim": d0, "P": alld[d0][0][0][0], "script": alld[d0][0][0][2]}]
    bdir = fb.result()
    spec = P.get("spec", ("Trace.tla", "Trace%d.cfg"))
    opt = {"hang": P.get("hang", 60 if not thorough else 120), "env": P.get("env", {})}
    tb = time.time()

    def one(b):
        t1 = time.time()
        b.run(bdir, opt)
        t2 = time.time()
        b.validate(pid, spec)
        b.t = (round(t2 - t1, 1), round(time.time() - t2, 1))
        return b
    list(pool.map(one, batches))
    mcres = fm.result()
    # ---- judge
    rej, foreign = [], []
    for b in batches:
        for r in b.rejects:
            (rej if r[0] == pid else foreign).append((b, r))
        for (c, o, k, how) in b.crashes:
            own = plan.owners(k)
            r = (pid, "crash-or-hang:%s" % how, c, o, k)
            if pid in own or P.get("owns_all"):
                rej.append((b, r))
            else:
                foreign.append((b, r))
    kinds = {}
    clauses_lines = 0
    for b in batches:
        for row in open(b.out):
            k = row[6:row.index('"', 6)]
            kinds[k] = kinds.get(k, 0) + 1
    confirmed = []
    knownhit = set()
    for b, r in rej:
        if len(confirmed) >= 3:
            break
        kf = match_known(known, b, r)
        if kf:
            knownhit.add(kf)
            continue
        c = confirm(pid, b, r, bdir, spec, opt, work)
        if c:
            confirmed.append((b, r, c))
    for k in sorted(knownhit):
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    relevant = sum(v for k, v in kinds.items() if k in P["kinds"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(b.states for b in batches) + sum(m["distinct"] for m in mcres),
            "transitions": sum(b.trans for b in batches) + sum(m["generated"] for m in mcres),
            "traces_validated_against_impl": ncases,
            "samples": samples,
            "steps_by_operation": kinds,
            "steps_judging_this_property": relevant,
            "behaviours_from_specification": nsim,
            "specification_model_checked": mcres,
            "cases_lost_to_other_failures": len(foreign),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_KEEP"):
        log("batches", [(os.path.basename(b.dir), len(b.cases), b.lines, b.t) for b in batches])
    for b, r in foreign[:5]:
        log("note: outside this property: %s case %d op %d %s (%s)" % (r[1], r[2], r[3], r[4], r[0]))
    if confirmed:
        for b, r, path in confirmed:
            log("rejected: clause %s, case %d op %d %s" % (r[1], r[2], r[3], r[4]))
        log("VIOLATION property=%s replay=%s" % (pid, confirmed[0][2]))
        return 1
    if rej and not knownhit:
        log("note: %d rejections did not repeat" % len(rej))
        raise ToolError("a rejection did not repeat")
    if relevant == 0:
        raise ToolError("nothing explored")
    log("ok property=%s cases=%d steps=%d judged=%d wall=%.1f" % (pid, ncases, sum(kinds.values()), relevant, time.time() - t0))
    return 0


def load_known(pid):
    """known findings: each is one script that is always run"""
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) dim=(\d) P=(\d+) script=(\S+) clauses=(\S+) (.*)", l.strip())
            if m and m[1] == pid:
                lines = open(os.path.join(V, m[4])).read().split("\n")
                out.append({"dim": int(m[2]), "P": int(m[3]), "lines": [x for x in lines if x],
                            "clauses": m[5].split(","), "text": m[6], "cid": None})
    return out


def match_known(known, b, r):
    for k in known:
        if k["cid"] == r[2] and r[1].split(":")[0] in k["clauses"]:
            return k["text"]
    return None


def confirm(pid, b, r, bdir, spec, opt, work):
    """repeat the rejection; keep what is needed to replay it"""
    cases = [c for c in b.cases if c[0] == r[2]]
    if cases and cases[0][2] > 0:
        cases = [c for c in b.cases if c[2] == cases[0][2]]
    elif r[1].startswith("checksum"):
        cases = b.cases
    rp = os.path.join(V, "replay", "%s-%s-%d" % (pid, os.path.basename(b.dir), r[2]))
    shutil.rmtree(rp, ignore_errors=True)
    os.makedirs(rp)
    crash = r[1].startswith("crash")
    ok = False
    repro = 0
    for i in range(3):
        n = Batch(work, "confirm-%s-%d-%d-%d" % (os.path.basename(b.dir), r[2], r[3], i), b.dim, cases, b.delay)
        n.run(bdir, dict(opt, hang=2 * opt["hang"] if r[1].endswith("hang") else opt["hang"]))
        if crash:
            if any(x[0] == r[2] and x[2] == r[4] for x in n.crashes):
                repro += 1
                ok = True
        else:
            n.validate(pid, spec)
            if any(x[0] == pid and x[2] == r[2] for x in n.rejects):
                repro += 1
                ok = True
        if ok:
            shutil.copy(n.out, os.path.join(rp, "trace.ndjson"))
            shutil.copy(os.path.join(n.dir, "log"), os.path.join(rp, "driver.log"))
            break
    if not ok and not crash:
        # the recorded execution itself, judged again
        sub = os.path.join(b.dir, "again.ndjson")
        ids = set(c[0] for c in cases)
        with open(sub, "w") as f:
            for row in open(b.out):
                if json.loads(row)["c"] in ids:
                    f.write(row)
        n = Batch(work, "again-%d" % r[2], b.dim, cases, b.delay)
        n.validate(pid, spec, out=sub)
        if any(x[0] == pid and x[2] == r[2] for x in n.rejects):
            ok = True
            shutil.copy(sub, os.path.join(rp, "trace.ndjson"))
    if not ok:
        shutil.rmtree(rp, ignore_errors=True)
        return None
    with open(os.path.join(rp, "script"), "w") as f:
        f.write(script_of(cases))
    te = os.path.join(b.dir, "tlc-error-%d" % r[2])
    if os.path.exists(te):
        shutil.copy(te, os.path.join(rp, "tlc-error"))
    with open(os.path.join(rp, "README"), "w") as f:
        f.write("property %s, clause %s, case %d operation %d (%s), dim %d, reproduced by re-execution: %d\n"
                "replay: bash harness/build.sh /tmp/b %d; DRV_DELAY=%s mpirun -np %d /tmp/b/drv%d script out.ndjson prog /tmp\n"
                "judge:  cd spec; TRACE=trace.ndjson PID=%s tlc -config %s %s\n"
                % (r[0], r[1], r[2], r[3], r[4], b.dim, repro, b.dim, b.delay, max(c[1] for c in cases), b.dim, pid, spec[1] % b.dim, spec[0]))
    return rp


if __name__ == "__main__":
    main()
