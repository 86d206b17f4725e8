#!/usr/bin/env python3
"""Builds the library and the monitoring harnesses from /repo's working tree,
runs the harness jobs of one property, and decides the property from the
events the monitors emit.  Usage: check.py <property id> [--replay FILE]"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "harness"))
import checks as table

NCPU = os.cpu_count() or 8
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"

BASE_ENV = dict(os.environ)
BASE_ENV.update({
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm_rsh_agent": "sh", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_oob_tcp_if_include": "lo", "OMP_NUM_THREADS": "1",
    "MALLOC_PERTURB_": "165", "PMIX_MCA_gds": "hash",
    "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1000000000:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
})


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------- building
def build(cfg, targets):
    c = table.CONFIGS[cfg]
    d = os.path.join(VERIF, "build", cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".vplock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cm = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
              "-DBUILD_TESTING=OFF", "-DOmega_h_USE_MPI=ON", "-DOmega_h_USE_Gmsh=OFF",
              "-DCMAKE_CXX_COMPILER=" + c.get("cxx", "/usr/bin/clang++"),
              "-DOmega_h_CXX_OPTIMIZE=OFF", "-DOmega_h_CXX_SYMBOLS=OFF", "-DOmega_h_CXX_WARNINGS=OFF",
              "-DCMAKE_CXX_FLAGS=" + c["flags"],
              "-DVP_HARNESS_DIR=" + os.path.join(VERIF, "harness"),
              "-DCMAKE_PROJECT_Omega_h_INCLUDE=" + os.path.join(VERIF, "harness", "inject.cmake")] + c.get("cmake", [])
        for attempt in (0, 1):
            r = subprocess.run(cm, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=BASE_ENV)
            if r.returncode == 0:
                r = subprocess.run(["ninja", "-C", d, "-j", str(NCPU + 1)] + sorted(targets), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=BASE_ENV)
                if r.returncode == 0:
                    return d
            log("build attempt failed")
        sys.stdout.write(r.stdout[-6000:])
        raise Inconclusive("the library or harness does not build")


# ------------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.viols = []       # dicts
        self.samples = []
        self.counters = {}
        self.distinct = set()
        self.notes = []
        self.stopped = 0
        self.inconclusive = 0
        self.chunks = 0


def run_proc(cmd, env, timeout, cwd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    out = [b"", b""]

    def rd(i, f):
        buf = []
        for ch in iter(lambda: f.read(1 << 16), b""):
            buf.append(ch)
        out[i] = b"".join(buf)
    th = [threading.Thread(target=rd, args=(0, p.stdout)), threading.Thread(target=rd, args=(1, p.stderr))]
    for t in th:
        t.start()
    hung = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        hung = True
    if hung:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    for t in th:
        t.join(20)
    # mpirun children may outlive it for a moment: same session
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return p.returncode, out[0].decode("utf8", "replace"), out[1].decode("utf8", "replace"), hung


WRAPS = {"memcheck": ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--num-callers=12",
                      "--max-stackframe=8000000", "--suppressions=" + os.path.join(VERIF, "harness", "valgrind.supp")]}


def command(job, bdir, first, count, tmp):
    cmd = []
    np_ = job.get("np", 1)
    if np_ > 1:
        cmd += ["mpirun", "--oversubscribe", "--tag-output" if False else "-q", "-n", str(np_)]
    cmd += WRAPS[job["wrap"]] if job.get("wrap") else []
    cmd += [os.path.join(bdir, job["bin"]), "--vp-seed=%d" % SEED, "--vp-first=%d" % first, "--vp-count=%d" % count,
            "--vp-tmp=" + tmp, "--vp-thorough=%d" % (TIER == "thorough")]
    if job.get("mode"):
        cmd.append("--vp-mode=" + job["mode"])
    return cmd + job.get("args", [])


def attempt(job, bdir, first, count, scratch, timeout):
    """one execution; returns (events, status, text) with status ok|crash|hang|env"""
    tmp = tempfile.mkdtemp(prefix="w", dir=scratch)
    env = dict(BASE_ENV)
    if job.get("cfg") == "tsan":
        env.pop("UBSAN_OPTIONS", None)  # its exit code would replace the one for races, which the harness judges
    env.update(job.get("env", {}))
    env["TMPDIR"] = tmp
    try:
        cmd = command(job, bdir, first, count, tmp)
        t0 = time.time()
        rc, out, err, hung = run_proc(cmd, env, timeout, tmp)
        if os.environ.get("VP_TIMES"):
            log("%-28s %-5s %5d+%-5d %.1fs" % (job["name"], job["cfg"], first, count, time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = []
    for line in out.splitlines():
        i = line.find("@VP {")
        if i >= 0:
            try:
                ev.append(json.loads(line[i + 4:]))
            except ValueError:
                pass
    done = any(e["t"] == "done" for e in ev)
    begun = [e["case"] for e in ev if e["t"] == "begin"]
    text = (err[-6000:] + "\n" + "\n".join(l for l in out.splitlines() if not l.startswith("@VP"))[-2000:]).strip()
    if hung:
        return ev, "hang", text, rc
    if any(e["t"] == "abort" for e in ev):
        return ev, "ok", text, rc
    if done and rc == 0:
        return ev, "ok", text, rc
    if not begun and not done:
        return ev, "env", text, rc
    return ev, "crash", text, rc


def crash_key(text, rc):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+(?: [\w\-]+)*)", text)
    fn = re.search(r"#\d+ 0x[0-9a-f]+ in (Omega_h::[\w:~]+|r3d::\w+)", text)
    if m:
        loc = re.search(r"SUMMARY: \w+Sanitizer: [\w\- ]+ ([^ \n]*?/)?(\w+\.[ch]pp)", text)
        where = fn.group(1) if fn else (loc.group(2) if loc else "")
        return "%s-%s-%s" % (m.group(1), m.group(2).split(" /")[0].strip().replace(" ", "-"), where)
    m = re.search(r"([\w]+\.[ch]pp):\d+:\d+: runtime error: ([^\n]*)", text)
    if m:
        return "UBSan-%s" % m.group(1)
    m = re.search(r"==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source|Mismatched|Jump|Argument)[^\n]*)", text)
    if m:
        fn = re.search(r"(?:at|by) 0x[0-9A-F]+: ((?:Omega_h|r3d)::[\w:~]+)", text)
        return "memcheck-%s-%s" % ("-".join(re.findall(r"[A-Za-z]+", m.group(1))[:3]), fn.group(1) if fn else "")
    m = re.search(r"assertion (.*?) failed at (?:\S*/)?(\S+?) ?\+", text)
    if m:
        return "assertion-%s" % m.group(2)
    return "crash"


def run_chunk(job, bdir, first, count, scratch, res, lock):
    tmo = job.get("timeout", 150) * (4 if TIER == "thorough" else 1)
    end = first + count
    while first < end:
        if time.time() - T0 > DEADLINE:
            with lock:
                res.stopped += end - first
            return
        n = end - first
        ev, st, text, rc = attempt(job, bdir, first, n, scratch, tmo)
        tries = 0
        while st == "env" and tries < 3:
            tries += 1
            time.sleep(0.5 * tries)
            ev, st, text, rc = attempt(job, bdir, first, n, scratch, tmo)
        if st == "env":
            # died before its first case, every time: the start-up itself fails
            with lock:
                res.viols.append({"key": "startup-" + crash_key(text, rc), "case": first, "msg": "harness dies at start-up (rc %s): %s" % (rc, text[-1500:]), "job": job, "raw": text})
            return
        cur = None
        for e in ev:
            if e["t"] == "begin":
                cur = e["case"]
        absorb(ev, job, res, lock)
        if st == "ok":
            ab = any(e["t"] == "abort" for e in ev)
            if not ab:
                return
            first = (cur if cur is not None else first) + 1
            continue
        cur = cur if cur is not None else first
        # confirm with the single case, then with the same chunk
        ev2, st2, text2, rc2 = attempt(job, bdir, cur, 1, scratch, job.get("case_timeout", tmo))
        if st2 == "ok" and st != "hang":
            ev2, st2, text2, rc2 = attempt(job, bdir, first, cur - first + 1, scratch, tmo)
        if st2 in ("crash", "hang") and st2 == st and rc2 not in (-9, 137):
            k = "hang" if st2 == "hang" else crash_key(text2, rc2)
            with lock:
                res.viols.append({"key": k, "case": cur, "job": job, "raw": text2,
                                  "msg": ("no result within %d s, twice" % tmo) if st2 == "hang" else ("process died (rc %s): %s" % (rc2, text2[-3000:]))})
        elif st2 == "ok" and st == "crash" and rc not in (-9, 137) and "Sanitizer" in text:
            with lock:
                res.viols.append({"key": crash_key(text, rc), "case": cur, "job": job, "raw": text, "msg": "sanitizer report, not reproduced on re-run: " + text[-3000:]})
        else:
            with lock:
                res.inconclusive += 1
                res.notes.append("case %d of %s: %s then %s (rc %s/%s), inconclusive: %s" % (cur, job["bin"], st, st2, rc, rc2, text[-300:]))
        first = cur + 1


def absorb(ev, job, res, lock):
    with lock:
        for e in ev:
            if e["t"] == "viol" and job.get("only") == "memory" and e["key"] != "race":
                res.counters["verdicts_left_to_other_checks"] = res.counters.get("verdicts_left_to_other_checks", 0) + 1
            elif e["t"] == "viol":
                e["job"] = job
                e["raw"] = e.get("msg", "")
                res.viols.append(e)
            elif e["t"] == "sample":
                if sum(1 for s in res.samples if s.startswith(job["name"])) < 3:
                    res.samples.append("%s case %s: %s" % (job["name"], e["case"], e["text"]))
            elif e["t"] == "stats":
                for k, v in e["counters"].items():
                    if k == "#samples":
                        continue
                    if k == "#cases":
                        if e["rank"] == 0:
                            res.counters["cases:" + job["name"]] = res.counters.get("cases:" + job["name"], 0) + v
                    else:
                        res.counters[k] = res.counters.get(k, 0) + v
                res.distinct.update(job["name"] + h for h in e["distinct"])


def run_jobs(jobs, res, scratch):
    """jobs: list of (job, bdir, first, count). Slots weighted by ranks."""
    lock = threading.Lock()
    cond = threading.Condition()
    free = [NCPU]
    threads = []

    def work(j, w):
        try:
            run_chunk(j[0], j[1], j[2], j[3], scratch, res, lock)
        finally:
            with cond:
                free[0] += w
                cond.notify_all()
    for j in jobs:
        w = min(NCPU, j[0].get("weight", j[0].get("np", 1)))
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        t = threading.Thread(target=work, args=(j, w))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status", "open") == "open"]


def match_known(v, known):
    for k in known:
        if re.search(k["key"], v["key"]) and ("msg" not in k or re.search(k["msg"], v.get("raw", v["msg"]), re.S)) and \
           ("bin" not in k or k["bin"] == v["job"]["bin"]) and ("mode" not in k or k["mode"] == v["job"].get("mode")):
            return k
    return None


def main():
    global DEADLINE, SEED
    pid = sys.argv[1]
    chk = table.CHECKS[pid]
    DEADLINE = 480 if TIER == "quick" else 6 * 3600
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        SEED = replay["seed"]
    res = Result()
    cfgs = {}
    for j in chk["jobs"]:
        j.setdefault("cfg", "fast")
        j.setdefault("name", j["bin"][2:] + (":" + j["mode"] if j.get("mode") else "") + ("@%d" % j["np"] if j.get("np", 1) > 1 else ""))
        cfgs.setdefault(j["cfg"], set()).add(j["bin"])
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    dirs = {}
    ths = []
    errs = []

    def b(cfg, t):
        try:
            dirs[cfg] = build(cfg, t)
        except Exception as e:
            errs.append(e)
    for cfg, t in cfgs.items():
        th = threading.Thread(target=b, args=(cfg, t))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    if errs:
        print("INCONCLUSIVE property=%s %s" % (pid, errs[0]))
        return 2
    tb = time.time() - T0
    log("built", ", ".join(cfgs))
    scratch_root = os.path.join(VERIF, "scratch")
    os.makedirs(scratch_root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid, dir=scratch_root)
    todo = []
    for j in chk["jobs"]:
        if replay:
            if j["name"] == replay["job"]:
                todo.append((j, dirs[j["cfg"]], replay["case"], 1))
            continue
        n = j["n"] if TIER == "quick" else j.get("n_thorough", j["n"] * 30)
        ch = j.get("chunk") or max(1, min(n, -(-n * j.get("np", 1) // NCPU)))
        if TIER == "thorough":
            ch = min(ch, 400)
        i = 0
        while i < n:
            todo.append((j, dirs[j["cfg"]], i, min(ch, n - i)))
            i += ch
    # long multi-rank chunks first
    todo.sort(key=lambda t: -t[0].get("prio", t[0].get("weight", t[0].get("np", 1))))
    try:
        run_jobs(todo, res, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = load_known(pid)
    fresh = []
    hit = {}
    for v in res.viols:
        k = match_known(v, known)
        if k:
            hit[k["id"]] = k
        else:
            fresh.append(v)
    wall = time.time() - T0
    cases = sum(v for k, v in res.counters.items() if k.startswith("cases:"))
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": len(res.distinct),
        "rule": chk["rule"],
        "samples": res.samples[:12] or ["(no sample emitted)"],
        "observed": {k: v for k, v in sorted(res.counters.items())},
        "jobs": [{"name": j["name"], "config": j["cfg"], "ranks": j.get("np", 1)} for j in chk["jobs"]],
        "build_s": round(tb, 1),
        "inconclusive_cases": res.inconclusive, "cases_not_reached": res.stopped,
        "known_findings_seen": sorted(hit), "notes": res.notes[:10],
    }
    evd = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
           "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        tmpf = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
        json.dump(evd, open(tmpf, "w"), indent=1)
        os.replace(tmpf, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for nt in res.notes[:5]:
        log("note:", nt)
    log("cases %d distinct %d viol %d known %d inconclusive %d wall %.1f" % (cases, len(res.distinct), len(fresh), len(hit), res.inconclusive, wall))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in fresh:
            key = (v["job"]["name"], v["key"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 8:
                break
            nm = re.sub(r"[^A-Za-z0-9_.@-]+", "_", "%s-%s-%s-%s" % (pid, v["job"]["name"], v["key"], v["case"]))[:120]
            path = os.path.join(VERIF, "replays", nm + ".json")
            json.dump({"property": pid, "job": v["job"]["name"], "case": v["case"], "seed": SEED, "key": v["key"], "msg": v["msg"],
                       "replay": "VERIF_SEED=%d python3 check.py %s --replay %s" % (SEED, pid, path),
                       "command": " ".join(command(v["job"], dirs[v["job"]["cfg"]], v["case"], 1, "."))}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   [%s case %s] %s: %s" % (v["job"]["name"], v["case"], v["key"], v["msg"][:1500]))
        return 1
    if cases == 0:
        print("INCONCLUSIVE property=%s nothing was observed" % pid)
        return 2
    print("OK property=%s cases=%d distinct_nontrivial=%d" % (pid, cases, len(res.distinct)))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("INCONCLUSIVE", e)
        sys.exit(2)
