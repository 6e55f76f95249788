#!/usr/bin/env python3
"""Driver of the property-based checks: builds /repo with sanitizers, runs generated
cases of one property on all cores, and on a failure reproduces, shrinks, replays 3x and
prints the VIOLATION line.  Usage: vrun.py PROP [quick|thorough] | --build-all | --replay FILE"""
import sys, os, json, subprocess, time, struct, hashlib, shutil, signal, tempfile, glob, fcntl, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from propconf import CONF, COMMON_ASSUMPTIONS

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
              OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
              OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
              OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1")
ENV = dict(os.environ)
ENV.update(MPIENV)
ENV["LC_ALL"] = "C"
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=3000"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
NCPU = os.cpu_count() or 4
SAN = "-fsanitize=address -fno-omit-frame-pointer"

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, logf, env=ENV):
    with open(logf, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env).returncode

class BuildError(Exception):
    pass

def build_lib(kind):
    """kind: seq | mpi | seqplain (no sanitizer, -O2)"""
    d = os.path.join(BUILD, kind)
    os.makedirs(d, exist_ok=True)
    lf = os.path.join(d, "build.log")
    open(lf, "wb").close()
    san = SAN if kind in ("seq", "mpi") else ""
    if kind == "tsan":
        san = "-fsanitize=thread"
    opt = "-O1 -g1" if san else "-O2 -g1"
    cflags = f"{opt} -w -U_FORTIFY_SOURCE -DSCOTCH_DEBUG_ALL {san}"
    if not os.path.exists(os.path.join(d, "build.ninja")):
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_SHARED_LIBS=OFF",
               "-DENABLE_TESTS=OFF", "-DCMAKE_C_COMPILER=gcc", f"-DCMAKE_C_FLAGS={cflags}"]
        if kind != "mpi":
            cmd.append("-DBUILD_PTSCOTCH=OFF")
        if sh(cmd, lf) != 0:
            raise BuildError("cmake failed, see " + lf)
    if sh(["ninja", "-C", d], lf) != 0:
        raise BuildError("ninja failed, see " + lf)
    return d

def build_prop(prop):
    c = CONF[prop]
    kind = c.get("kind", "seq")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = build_lib(kind)
        for k in c.get("also", []):
            build_lib(k)
        inc = os.path.join(d, "src", "include")
        hd = os.path.join(BUILD, "h_" + kind + ("_leak" if c.get("leak") else ""))
        os.makedirs(hd, exist_ok=True)
        lf = os.path.join(hd, prop + ".log")
        open(lf, "wb").close()
        cxx = "mpicxx" if kind == "mpi" else "g++"
        san = (SAN if kind in ("seq", "mpi") else ("-fsanitize=thread" if kind == "tsan" else "")).split()
        flags = ["-std=c++17", "-O1", "-g1", "-w", f"-I{VERIF}/harness", f"-I{inc}"] + san
        if kind == "mpi":
            flags.append("-DVF_MPI")
        if c.get("leak"):
            flags.append("-DVF_LEAK")
        flags.append(f'-DVF_BIN="{d}/bin"')
        flags.append(f'-DVF_REPO="{REPO}"')
        for x in c.get("cxxflags", []):
            flags.append(x.replace("@D@", d).replace("@REPO@", REPO))
        hdrs = glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + glob.glob(os.path.join(VERIF, "props", "*.hpp")) + [os.path.join(inc, "scotch.h")]
        hstamp = max(os.path.getmtime(h) for h in hdrs)
        fl = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8]
        objs, procs = [], []
        for s in ["harness/core.cpp", "harness/graph.cpp"] + (["harness/arch.cpp"] if c.get("arch") else []) + c["src"]:
            sp = os.path.join(VERIF, s)
            o = os.path.join(hd, os.path.basename(s) + "." + fl + ".o")
            objs.append(o)
            if not os.path.exists(o) or os.path.getmtime(o) < max(os.path.getmtime(sp), hstamp):
                procs.append((s, subprocess.Popen([cxx] + flags + ["-c", sp, "-o", o], stdout=open(lf, "ab"), stderr=subprocess.STDOUT, env=ENV)))
        for s, p in procs:
            if p.wait() != 0:
                raise BuildError(f"compiling {s} failed, see {lf}")
        exe = os.path.join(hd, "run_" + prop)
        libs = [f"{d}/lib/{l}" for l in c.get("libs", ["libptscotch.a", "libscotch.a"] if kind == "mpi" else ["libscotch.a"])]
        if kind == "mpi":
            libs = ["-Wl,--start-group"] + libs + ["-Wl,--end-group"]
        for x in c.get("prelink", []):
            if sh(["bash", "-c", x.replace("@D@", d).replace("@H@", hd)], lf) != 0:
                raise BuildError("preparing libraries failed, see " + lf)
        libs = [l.replace(f"{d}/lib/@H@", hd) for l in libs]
        cmd = [cxx] + san + objs + ["-o", exe] + libs + ["-lz", "-lbz2", "-llzma", "-lm", "-lpthread"] + c.get("ldflags", [])
        if sh(cmd, lf) != 0:
            raise BuildError("linking failed, see " + lf)
    return exe

def read_state(path):
    with open(path, "rb") as f:
        h = f.read(64)
        if len(h) < 64:
            return None
        magic, idx, nch, done, phase = struct.unpack("<5Q", h[:40])
        ch = f.read(8 * min(nch, 1 << 20))
    return dict(idx=idx, done=done, ch=list(struct.unpack("<%dQ" % (len(ch) // 8), ch)), nch=nch)

def read_idx(path):
    try:
        with open(path, "rb") as f:
            h = f.read(40)
        return struct.unpack("<5Q", h)[1]
    except Exception:
        return None

class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.c = CONF[prop]
        self.kind = self.c.get("kind", "seq")
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.env = dict(ENV)
        self.env["VF_SCRATCH"] = self.tmp
        self.env["SCOTCH_PTHREAD_NUMBER"] = str(self.c.get("threads", 1))
        self.env.update(self.c.get("env", {}))
        self.hang = self.c.get("hang", 60)          # CPU (seq) or wall (mpi) seconds allowed to one case
        self.t0 = time.time()

    def cmd(self, args, np=None):
        if self.kind == "mpi":
            return ["mpiexec", "--oversubscribe", "-n", str(np), self.exe, "--prop", self.c.get("caseprop", self.prop)] + args
        return [self.exe, "--prop", self.c.get("caseprop", self.prop)] + args

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        p.wait()

    def cpu(self, p):
        try:
            f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def wait_one(self, p, limit):
        """wait for a single-case process; returns rc or 'hang'"""
        t = time.time()
        while True:
            try:
                return p.wait(timeout=0.05 if time.time() - t < 2 else 0.3)
            except subprocess.TimeoutExpired:
                used = self.cpu(p) if self.kind != "mpi" else time.time() - t
                if used > limit or time.time() - t > 6 * limit + 30:
                    self.kill(p)
                    return "hang"

    def replay(self, ch, np, limit=None, tagname="r"):
        """returns (failed, message)"""
        rf = os.path.join(self.tmp, "replay_%s.txt" % tagname)
        ff = os.path.join(self.tmp, "fail_%s.txt" % tagname)
        sf = os.path.join(self.tmp, "state_%s" % tagname)
        for x in (ff, sf):
            if os.path.exists(x):
                os.unlink(x)
        with open(rf, "w") as f:
            f.write(" ".join(map(str, ch)) + "\n")
        ef = os.path.join(self.tmp, "err_%s.txt" % tagname)
        args = ["--replay", rf, "--fail", ff, "--state", sf, "--tier", self.tier]
        if self.c.get("leak"):
            args += ["--reps", "7"]
        if self.c.get("reps"):
            args += ["--reps", str(self.c["reps"])]
        with open(ef, "wb") as e:
            p = subprocess.Popen(self.cmd(args, np), stdout=subprocess.DEVNULL, stderr=e, env=self.env, start_new_session=True)
            rc = self.wait_one(p, limit or self.hang)
        if rc == 0:
            return False, "", None
        msg = self.message(rc, ff, ef)
        st = read_state(sf) if os.path.exists(sf) else None
        return True, msg, (st["ch"] if st else ch)

    def message(self, rc, ff, ef):
        if rc == "hang":
            return "HANG: case does not terminate"
        if os.path.exists(ff):
            return open(ff, errors="replace").read().strip()[:3000]
        e = open(ef, errors="replace").read()
        i = e.find("ERROR: AddressSanitizer")
        if i < 0:
            i = e.find("runtime error")
        if i < 0:
            i = max(0, len(e) - 1500)
        return ("CRASH rc=%s: " % rc) + e[i:i + 2500]

    def shrink(self, ch, np, msg, budget):
        end = time.time() + budget
        cls = msg.split(":")[0]
        best, bestmsg = ch, msg
        n = [0]
        import concurrent.futures as cf
        par = 2 if self.kind == "mpi" else NCPU
        pool = cf.ThreadPoolExecutor(par)
        cnt = [0]
        def attempt(c):
            cnt[0] += 1
            n[0] += 1
            return self.replay(c, np, limit=self.c.get("shrinklimit", 20), tagname="s%d" % (cnt[0] % 1000 + threading.get_ident() % 100000 * 1000))
        import threading
        def try_many(cands):
            """try candidates in parallel batches, return first success in order"""
            nonlocal best, bestmsg
            i = 0
            while i < len(cands) and time.time() < end:
                batch = cands[i:i + par]
                res = list(pool.map(attempt, batch))
                for c, (f, m, used) in zip(batch, res):
                    if f and m.split(":")[0] == cls:
                        u = used if used is not None and len(used) <= len(c) else c
                        if (len(u), u) < (len(best), best):
                            best, bestmsg = u, m
                            return True
                i += par
            return False
        improved = True
        while improved and time.time() < end:
            improved = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                c0 = len(best)
                cands = []
                for i in range(0, len(best), size):
                    cands.append(best[:i] + best[i + size:])
                    z = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if z != best:
                        cands.append(z)
                if len(cands) > 200:
                    random.Random(1).shuffle(cands)
                    cands = cands[:200]
                if try_many(cands):
                    improved = True
                    if size > len(best):
                        size = max(1, len(best) // 2)
                else:
                    size //= 2
            cands = []
            for i, v in enumerate(best[:400]):
                if v > 0:
                    for w in {0, v // 2, v - 1}:
                        if w < v:
                            cands.append(best[:i] + [w] + best[i + 1:])
            if try_many(cands[:600]):
                improved = True
        pool.shutdown(wait=True)
        return best, bestmsg, n[0]

    def run(self):
        c = self.c
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        try:
            self.exe = build_prop(self.prop)
        except BuildError as e:
            log("BUILD ERROR:", e)
            try:
                log(open(str(e).split("see ")[1]).read()[-3000:])
            except Exception:
                pass
            return 2
        tb = time.time() - self.t0
        total = c["cases"][0 if self.tier == "quick" else 1]
        scale = float(os.environ.get("VF_SCALE", "1"))
        total = max(8, int(total * scale))
        tmax = c.get("tmax", (240, 3000))[0 if self.tier == "quick" else 1]
        jobs = []
        if self.kind == "mpi":
            nps = c.get("nps", [1, 2, 3, 4, 5])
            batch = c.get("batch", 40)
            k, start = 0, 0
            while start < total:
                jobs.append(dict(np=nps[k % len(nps)], start=start, stride=1, count=min(batch, total - start)))
                start += batch
                k += 1
            maxpar = c.get("par", 4)
        else:
            W = c.get("workers", NCPU)
            for w in range(W):
                jobs.append(dict(np=None, start=w, stride=W, count=(total - w + W - 1) // W))
            maxpar = W
        stats = dict(evaluations=0, distinct_nontrivial=0, tags={}, known={}, samples=[], rule="")
        failure = None
        pending = list(enumerate(jobs))
        running = []
        deadline = time.time() + tmax
        incomplete = 0
        flaky = []
        nps_hit = {}
        while (pending or running) and not failure:
            while pending and len(running) < maxpar and time.time() < deadline:
                j, job = pending.pop(0)
                job.update(state=os.path.join(self.tmp, "state%d" % j), fail=os.path.join(self.tmp, "fail%d" % j), err=os.path.join(self.tmp, "err%d" % j), out=os.path.join(self.tmp, "out%d" % j))
                args = ["--seed", str(self.seed), "--start", str(job["start"]), "--stride", str(job["stride"]), "--count", str(job["count"]),
                        "--state", job["state"], "--fail", job["fail"], "--out", job["out"], "--tier", self.tier, "--tmax", str(max(5, deadline - time.time()))]
                e = open(job["err"], "wb")
                job["p"] = subprocess.Popen(self.cmd(args, job["np"]), stdout=subprocess.DEVNULL, stderr=e, env=self.env, start_new_session=True)
                job["lastidx"], job["cpu0"], job["t0"] = None, (time.time() if self.kind == "mpi" else 0), time.time()
                running.append(job)
            if pending and time.time() >= deadline:
                incomplete += len(pending)
                pending = []
            time.sleep(0.05)
            for job in list(running):
                rc = job["p"].poll()
                if rc is None:
                    idx = read_idx(job["state"])
                    now = self.cpu(job["p"]) if self.kind != "mpi" else time.time()
                    if idx != job["lastidx"]:
                        job["lastidx"], job["cpu0"], job["t0"] = idx, now, time.time()
                        continue
                    elif now - job["cpu0"] > self.hang or time.time() - job["t0"] > 6 * self.hang + 60:
                        self.kill(job["p"])
                        rc = "hang"
                    else:
                        continue
                running.remove(job)
                if rc == 0:
                    try:
                        o = json.load(open(job["out"]))
                    except Exception:
                        incomplete += 1
                        continue
                    stats["evaluations"] += o["evaluations"]
                    stats["distinct_nontrivial"] += o["distinct_nontrivial"]
                    stats["rule"] = o["rule"]
                    for k in ("tags", "known"):
                        for t, v in o[k].items():
                            stats[k][t] = stats[k].get(t, 0) + v
                    if job["np"]:
                        nps_hit[job["np"]] = nps_hit.get(job["np"], 0) + o["evaluations"]
                    stats["samples"] += o["samples"]
                    for x in ("state", "err", "fail"):
                        if os.path.exists(job[x]):
                            os.unlink(job[x])
                    continue
                st = read_state(job["state"]) if os.path.exists(job["state"]) else None
                msg = self.message(rc, job["fail"], job["err"])
                log("worker failed rc=%s case=%s: %s" % (rc, st and st["idx"] - 1, msg[:1500]))
                if st is None or st["idx"] == 0:
                    log("worker did not start")
                    self.startfail = getattr(self, "startfail", 0) + 1
                    if self.startfail <= 3:
                        pending.append((len(jobs) + self.startfail, {k: job[k] for k in ("np", "start", "stride", "count")}))
                    else:
                        incomplete += 1
                    continue
                # reproduce, in isolation
                f = [self.replay(st["ch"], job["np"], limit=2 * self.hang, tagname="c%d" % i) for i in range(1 if rc == "hang" else 2)]
                if all(x[0] for x in f):
                    failure = dict(ch=st["ch"], msg=f[0][1], np=job["np"], idx=st["idx"] - 1, mode="choices")
                else:
                    # depends on the previous cases of the worker: replay the worker's range up to the case
                    cnt = (st["idx"] - 1 - job["start"]) // job["stride"] + 1
                    again = [self.rerange(job, cnt) for _ in range(2)] if rc != "hang" else [(False, "")]
                    if all(x[0] for x in again):
                        failure = dict(ch=None, msg=again[0][1], np=job["np"], idx=st["idx"] - 1, mode="range", start=job["start"], stride=job["stride"], count=cnt)
                    else:
                        flaky.append(dict(idx=st["idx"] - 1, msg=msg[:600]))
                        log("not reproducible: ignored (recorded in evidence)")
                        # continue the worker's range after the case
                        rest = job["count"] - cnt
                        if rest > 0 and len(flaky) < 4:
                            pending.append((len(jobs) + 10 + len(flaky), dict(np=job["np"], start=job["start"] + cnt * job["stride"], stride=job["stride"], count=rest)))
                        if len(flaky) >= 4 and c.get("flaky_is_failure"):
                            failure = dict(ch=st["ch"], msg="intermittent: " + msg, np=job["np"], idx=st["idx"] - 1, mode="choices", flaky=True)
                if failure:
                    break
        for job in running:
            self.kill(job["p"])
        stats["samples"] = stats["samples"][:12]
        known_lines = self.known_findings(stats)
        rc = 0
        viol = 0
        if failure:
            viol = 1
            rc = self.report(failure)
        self.evidence(stats, viol, tb, incomplete, flaky, nps_hit, total)
        for l in known_lines:
            print(l, flush=True)
        if rc == 0 and stats["evaluations"] == 0:
            log("no case could be evaluated")
            return 2
        if rc == 0:
            print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (self.prop, self.tier, stats["evaluations"], stats["distinct_nontrivial"], time.time() - self.t0), flush=True)
        return rc

    def rerange(self, job, cnt):
        sf, ff, of, ef = [os.path.join(self.tmp, "rr_" + x) for x in ("state", "fail", "out", "err")]
        for x in (sf, ff):
            if os.path.exists(x):
                os.unlink(x)
        with open(ef, "wb") as e:
            p = subprocess.Popen(self.cmd(["--seed", str(self.seed), "--start", str(job["start"]), "--stride", str(job["stride"]), "--count", str(cnt), "--state", sf, "--fail", ff, "--out", of, "--tier", self.tier], job["np"]),
                                 stdout=subprocess.DEVNULL, stderr=e, env=self.env, start_new_session=True)
            rc = self.wait_one(p, 300)
        if rc == 0 or rc == "hang":
            return False, ""
        return True, self.message(rc, ff, ef)

    def report(self, f):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        n = 0
        if f["mode"] == "choices" and not f["msg"].startswith("HANG"):
            best, msg, n = self.shrink(f["ch"], f["np"], f["msg"], float(os.environ.get("VF_SHRINK", self.c.get("shrinkbudget", 45))))
            oks = [self.replay(best, f["np"], tagname="v%d" % i)[0] for i in range(3)]
            if all(oks):
                f["ch"], f["msg"] = best, msg
        path = os.path.join(VERIF, "replays", "%s-seed%d-case%d.json" % (self.prop, self.seed, f["idx"]))
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, case=f["idx"], mode=f["mode"], np=f["np"], choices=f["ch"], range=[f.get("start"), f.get("stride"), f.get("count")], message=f["msg"], shrink_attempts=n), open(path, "w"))
        log("FAILURE (%d choices after %d shrink attempts): %s" % (len(f["ch"] or []), n, f["msg"]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1

    def known_findings(self, stats):
        out = []
        try:
            kf = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == self.prop and k["status"] == "open"]
        except Exception:
            kf = []
        for k in kf:
            r = subprocess.run([self.exe, "--known", k["id"]] if self.kind != "mpi" else ["mpiexec", "--oversubscribe", "-n", str(k.get("np", 2)), self.exe, "--known", k["id"]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, timeout=120)
            still = b"KNOWN-STILL-FAILS" in r.stdout or r.returncode in (66, 77, -6, -11)
            if still:
                out.append("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["id"], k["what"]))
            else:
                log("known finding %s no longer fails" % k["id"])
        return out

    def evidence(self, s, viol, tb, incomplete, flaky, nps_hit, total):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.c.get("level", "exploration"),
                  coverage=dict(evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"], rule=s["rule"], samples=s["samples"], classes=dict(sorted(s["tags"].items())),
                                planned_cases=total, excluded_known=s["known"], unfinished_jobs=incomplete, non_reproducible=flaky, build_s=round(tb, 1)),
                  assumptions=COMMON_ASSUMPTIONS + self.c.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=viol)
        if nps_hit:
            ev["coverage"]["cases_by_process_count"] = {str(k): v for k, v in nps_hit.items()}
        if not ev["coverage"]["samples"]:
            ev["coverage"]["samples"] = ["(none kept)"]
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "--build-all":
        try:
            build_lib("seq")
            build_lib("mpi")
        except BuildError as e:
            log(e)
            return 1
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1])); ENV["VF_DESC"] = os.environ.get("VF_DESC", "")
        r = Runner(d["property"], d["tier"], d["seed"])
        try:
            r.exe = build_prop(d["property"])
            if d["mode"] == "choices":
                f, m, _ = r.replay(d["choices"], d["np"])
            else:
                f, m = r.rerange(dict(start=d["range"][0], stride=d["range"][1], np=d["np"]), d["range"][2])
            print("REPRODUCED: " + m if f else "not reproduced")
            return 1 if f else 0
        finally:
            r.cleanup()
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    r = Runner(a[0], tier, seed)
    try:
        return r.run()
    finally:
        r.cleanup()

if __name__ == "__main__":
    sys.exit(main())
