#!/usr/bin/env python3
"""check.py ID: builds the harness of a property against /repo's working tree, runs it, and judges what its monitors saw.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself could not do its job.
Environment: VERIF_SEED (every random choice derives from it), VERIF_TIER (quick, thorough).
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = 8
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS  # noqa: E402

BASE = ["-std=c++14", "-g1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w", "-pthread",
        "-DMAX_HTTP_HEADER_SIZE=@HDR@", "-DMAX_HTTP_BODY_SIZE=@BODY@", "-DLISTEN_QUEUE_SIZE=64", "-DUSE_SSL", "-DNOMINMAX",
        "-Dhtonf", "-Dhtonll", "-Dntohll", "-Dhtond", "-Dntodh", "-DFRNETLIB_STATIC"]
FLAVORS = {
    # address and undefined behaviour sanitizers, checked standard library, and no lucky zeroes on the stack
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "fuzz": ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "fuzz": ["-fsanitize=address,undefined,fuzzer"], "plain": []}
WRAPS = ["recv", "send", "read", "write", "recvmsg", "sendmsg", "recvfrom", "sendto", "readv", "writev", "socket", "bind", "listen",
         "connect", "accept", "accept4", "setsockopt", "getsockopt", "fcntl", "fcntl64", "select", "poll", "ppoll", "close", "getaddrinfo",
         "epoll_create", "epoll_create1", "epoll_ctl", "epoll_wait", "shutdown"]


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def flags_for(flavor, opts):
    f = list(FLAVORS[flavor])
    for b in BASE:
        f.append(b.replace("@HDR@", opts.get("hdr", "0xC800")).replace("@BODY@", opts.get("body", "0xA00000")))
    f += opts.get("cflags", [])
    f += ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "lib")]
    return f


def compile_one(src, obj, flags):
    tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
    r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)


def build(harness, flavor, opts):
    """Returns the path of the harness' executable, rebuilt from the working tree unless its every input is unchanged."""
    headers = glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(VERIF + "/lib/*.h")
    headers = [h for h in headers if os.path.isfile(h)]
    repo_headers = [h for h in headers if not h.startswith(VERIF)]
    sources = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if not sources:
        raise HarnessError("no sources in " + REPO)
    flags = flags_for(flavor, opts)
    jobs, objs = [], []
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    for src in sources:
        obj = os.path.join(d, "%s-%s.o" % (os.path.basename(src)[:-4], digest(repo_headers + [src], flags)))
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((src, obj, flags))
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    hflags = flags + opts.get("hflags", []) + (["-DVH_FUZZ"] if flavor == "fuzz" else [])
    hobj = os.path.join(d, "%s-%s.o" % (harness, digest(headers + [hsrc], hflags)))
    if not os.path.exists(hobj):
        jobs.append((hsrc, hobj, hflags))
    # the slow ones first
    jobs.sort(key=lambda j: (not j[0].startswith(VERIF), not j[0].endswith("/Http.cpp")))
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
    exe = os.path.join(BUILD, "%s-%s-%s" % (harness, flavor, digest([], (objs, hobj, opts))))
    if not os.path.exists(exe):
        link = ["clang++"] + LINK[flavor] + ["-pthread", hobj] + objs
        if opts.get("wrap"):
            link += ["-Wl,--wrap=" + w for w in WRAPS]
        link += ["-lmbedtls", "-lmbedx509", "-lmbedcrypto", "-lcrypto"] if False else ["-lmbedtls", "-lmbedx509", "-lmbedcrypto"]
        tmp = "%s.%d.%d.tmp" % (exe, os.getpid(), threading.get_ident())
        r = subprocess.run(link + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("linking %s failed:\n%s" % (harness, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=95:handle_abort=1:handle_sigbus=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:check_initialization_order=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=95",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=95:second_deadlock_stack=1",
}


def san_env(flavor):
    env = dict(os.environ)
    env.update(SAN)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
    env.pop("VERIF_REPO", None)
    env["VERIF_DIR"] = VERIF
    env["VH_CERTS"] = os.path.join(VERIF, "certs")
    return env


def crash_key(text):
    """Names a crash by its kind and the library function it happened in."""
    kind = "crash"
    m = re.search(r"ERROR: (?:AddressSanitizer|libFuzzer): ([\w-]+)", text)
    if m:
        kind = m.group(1)
    elif "runtime error:" in text:
        kind = "ub"
        m = re.search(r"runtime error: ([a-z -]+)", text)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", m.group(1).strip())[:40]
    elif "ThreadSanitizer: " in text:
        m = re.search(r"ThreadSanitizer: ([\w -]+?)(?: \(|$)", text, re.M)
        kind = "tsan-" + re.sub(r"[^a-z]+", "-", m.group(1).strip()) if m else "tsan"
    where = ""
    for m in re.finditer(r"#\d+ (?:0x\w+ in )?(.+?) (/\S+?):\d+", text):
        if m.group(2).startswith(REPO + "/"):
            where = re.sub(r"\(.*", "", m.group(1)).strip()
            where = re.sub(r"[^\w:~]+", "", where)
            break
    return "%s:%s" % (kind, where or "?")


class Run:
    def __init__(self, prop, cfg):
        self.prop, self.cfg = prop, cfg
        self.violations = []   # (key, case, detail, replay command)
        self.counters, self.samples, self.hashes = {}, {}, set()
        self.evaluations = self.cases = 0
        self.notes, self.errors = [], []
        self.lock = threading.Lock()
        self.mark = os.path.join(BUILD, "mark-%s-%d" % (prop, os.getpid()))

    def absorb(self, out, replay):
        """Takes in a worker's output."""
        got = False
        for line in out.splitlines():
            if line.startswith("V\t"):
                f = line.split("\t", 3)
                with self.lock:
                    self.violations.append((f[1], f[2], f[3] if len(f) > 3 else "", replay(f[2])))
            elif line.startswith("S\t"):
                s = json.loads(line[2:])
                got = True
                with self.lock:
                    self.evaluations += s["evaluations"]
                    self.cases += s["cases"]
                    for k, v in s["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for k, v in s["samples"].items():
                        self.samples.setdefault(k, []).extend(v)
        return got

    def settled(self):
        return os.path.exists(self.mark)

    def unmark(self):
        if self.settled():
            os.unlink(self.mark)

    def settle(self):
        """Once there's a violation, the other workers needn't take long any more."""
        known = known_findings(self.prop)
        if any(v[0] not in known for v in self.violations):
            open(self.mark, "w").close()

    def exec(self, cmd, env, timeout):
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=BUILD, errors="replace", text=True)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            dec = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
            return "timeout", dec(e.stdout), dec(e.stderr)

    def worker(self, exe, flavor, part, w, workers):
        env = san_env(flavor)
        env.update(part.get("env", {}))
        env["VH_MARK"] = self.mark
        env["VH_KNOWN"] = ",".join(known_findings(self.prop))
        base = [exe, "--seed", str(SEED)] + (["--thorough"] if TIER == "thorough" else [])
        base += part.get("args", [])
        hashes = os.path.join(BUILD, "h-%s-%d-%s-%d" % (self.prop, os.getpid(), os.path.basename(exe)[-8:], w))
        limit = part.get("timeout", 800 if TIER == "quick" else 6000)

        def replay(case):
            sec, _, idx = case.partition(":")
            return " ".join(base + ["--section", sec, "--index", idx])
        resume, hangs = 0, 0
        while True:
            cmd = base + ["--worker", str(w), "--workers", str(workers), "--resume", str(resume), "--hashes", hashes]
            rc, out, err = self.exec(cmd, env, limit)
            done = self.absorb(out, replay)
            if done and rc == 0:
                break
            if rc == 98 and self.settled():
                break
            h = re.search(r"^H\t(\S*)\t(\d+)$", out, re.M)
            if rc == 97 and h:
                # Stuck in a case: only a violation if it gets stuck again when run by itself
                sec, _, idx = h.group(1).partition(":")
                rc2, out2, err2 = self.exec(base + ["--section", sec, "--index", idx], env, limit)
                self.absorb("\n".join(l for l in out2.splitlines() if l.startswith("V\t")), replay)
                if rc2 == 97:
                    with self.lock:
                        self.violations.append(("hang:" + sec, h.group(1), "the case doesn't finish, also when it is repeated", replay(h.group(1))))
                    self.settle()
                    break
                if rc2 not in (0,):
                    with self.lock:
                        self.crash(rc2, out2, err2, replay)
                    self.settle()
                    break
                self.notes.append("inconclusive: %s exceeded its watchdog once and finished when repeated" % h.group(1))
                hangs += 1
                if hangs > 5:
                    self.errors.append("too many cases exceeded their watchdog")
                    break
                resume = int(h.group(2))
                continue
            with self.lock:
                if rc == "timeout":
                    self.errors.append("worker %d of %s didn't finish in %d s" % (w, exe, limit))
                elif rc == 2 or rc == 94:
                    self.errors.append("harness failure: %s" % (out + err)[-1500:])
                else:
                    self.crash(rc, out, err, replay)
            self.settle()
            break
        if os.path.exists(hashes):
            with open(hashes, "rb") as f:
                data = f.read()
            with self.lock:
                self.hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
            os.unlink(hashes)

    def crash(self, rc, out, err, replay):
        d = re.findall(r"^D\t(.*)\t(\S*)$", out, re.M)
        case = d[-1][1] if d else "?"
        why = d[-1][0] if d else "exit status %s" % rc
        if why.startswith("uncaught exception"):
            key = "exception"
        elif "rss limit" in err or "hard_rss_limit" in err:
            key = "memory-limit"
        elif rc in (-9, 137):
            self.errors.append("worker killed (%s)" % rc)
            return
        else:
            key = crash_key(err)
        detail = why + ": " + "\n".join(l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "WARNING: Thread" in l or re.match(r"\s+#[0-5] ", l))[:1800]
        self.violations.append((key, case, detail, replay(case)))

    def fuzz(self, exe, part, job):
        env = san_env("fuzz")
        env.update(part.get("env", {}))
        runs = part["runs"][1 if TIER == "thorough" else 0]
        art = os.path.join(BUILD, "fuzz-%s-%d-%d" % (self.prop, os.getpid(), job))
        shutil.rmtree(art, ignore_errors=True)
        os.makedirs(art)
        try:
            cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (SEED * 64 + job + 1), "-max_len=%d" % part.get("max_len", 2048), "-artifact_prefix=%s/" % art,
                   "-timeout=60", "-rss_limit_mb=3500", "-use_value_profile=1", "-print_final_stats=1", "-verbosity=1", "-detect_leaks=0"]
            if part.get("dict"):
                cmd.append("-dict=" + os.path.join(VERIF, "golden", part["dict"]))
            os.makedirs(art + "/corpus")
            rc, out, err = self.exec(cmd + [art + "/corpus"], env, part.get("timeout", 700 if TIER == "quick" else 6000))
            m = re.search(r"stat::number_of_executed_units:\s+(\d+)", err)
            n = int(m.group(1)) if m else 0
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", err)
            with self.lock:
                self.evaluations += n
                self.counters["fuzz_executions"] = self.counters.get("fuzz_executions", 0) + n
                if cov:
                    self.counters["fuzz_edges_max"] = max(self.counters.get("fuzz_edges_max", 0), int(cov[-1][0]))
                    self.counters["fuzz_features_max"] = max(self.counters.get("fuzz_features_max", 0), int(cov[-1][1]))
                    self.counters["fuzz_corpus"] = self.counters.get("fuzz_corpus", 0) + int(cov[-1][2])
            if rc == 0:
                return
            if rc == "timeout":
                self.notes.append("inconclusive: fuzzing job %d was cut short" % job)
                return
            crash = sorted(glob.glob(art + "/crash-*") + glob.glob(art + "/timeout-*") + glob.glob(art + "/oom-*"))
            keep = ""
            if crash:
                keep = os.path.join(BUILD, "replay", "%s-%s" % (self.prop, os.path.basename(crash[0])))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(crash[0], keep)
            rep = lambda c: "%s %s" % (exe, keep)
            before = len(self.violations)
            self.absorb(out, rep)
            if len(self.violations) > before:
                return
            if crash and os.path.basename(crash[0]).startswith("timeout-"):
                rc2, out2, err2 = self.exec([exe, "-timeout=60", keep], env, 300)
                if rc2 == 0:
                    self.notes.append("inconclusive: one fuzzer input exceeded its time once")
                    return
                with self.lock:
                    self.violations.append(("hang:fuzz", keep, "input doesn't finish", rep("")))
                return
            with self.lock:
                if rc in (-9, 137):
                    self.errors.append("fuzzer killed")
                else:
                    self.crash(rc, out, err, rep)
        finally:
            shutil.rmtree(art, ignore_errors=True)

    def go(self):
        for part in self.cfg["parts"]:
            if part.get("tier") and part["tier"] != TIER:
                continue
            t0 = time.time()
            exe = build(part.get("harness", self.cfg["harness"]), part["flavor"], part.get("build", {}))
            t1 = time.time()
            if part["flavor"] == "fuzz":
                n = part.get("jobs", JOBS)
                with ThreadPoolExecutor(n) as ex:
                    for f in [ex.submit(self.fuzz, exe, part, j) for j in range(n)]:
                        f.result()
            else:
                n = part.get("workers", JOBS)
                with ThreadPoolExecutor(n) as ex:
                    for f in [ex.submit(self.worker, exe, part["flavor"], part, w, n) for w in range(n)]:
                        f.result()
            log("%s %s: built in %.1f s, ran for %.1f s" % (self.prop, part["flavor"], t1 - t0, time.time() - t1))
            if any(v[0] not in known_findings(self.prop) for v in self.violations):
                break


def known_findings(prop):
    """Keys of recorded findings: lines 'known: property=<id> key=<key> <what fails>'."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        log("usage: check.py ID, with ID one of", " ".join(CHECKS))
        return 2
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    run = Run(prop, cfg)
    run.unmark()
    try:
        run.go()
    except HarnessError as e:
        log("ERROR:", e)
        return 2
    finally:
        run.unmark()
    known = known_findings(prop)
    fresh = [v for v in run.violations if v[0] not in known]
    seen = sorted(set(v[0] for v in run.violations if v[0] in known))
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, known[k], "" if k in seen else " (not met in this run)"))
    missing = ["%s: %d observed, at least %d expected" % (k, run.counters.get(k, 0), n)
               for k, n in cfg.get("require", {}).items() if run.counters.get(k, 0) < n]
    if not fresh and missing and not run.errors:
        run.errors.append("too little was observed: " + "; ".join(missing))

    samples = []
    for k, v in sorted(run.samples.items()):
        samples += ["%s: %s" % (k, x) for x in v[:2]]
    coverage = dict(evaluations=run.evaluations, distinct_nontrivial=len(run.hashes), rule=cfg["rule"], samples=samples[:24] or ["none"],
                    cases=run.cases, observed={k: v for k, v in sorted(run.counters.items()) if not k.startswith("ms:")})
    if run.notes:
        coverage["notes"] = run.notes
    if cfg.get("exhaustive"):
        coverage["exhaustive_parts"] = cfg["exhaustive"]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=cfg["level"], coverage=coverage, assumptions=cfg.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    if fresh:
        rep = os.path.join(BUILD, "replay", "%s-%d.txt" % (prop, SEED))
        with open(rep, "w") as f:
            for key, case, detail, cmd in fresh:
                f.write("key: %s\ncase: %s\nreplay: %s\n%s\n\n" % (key, case, cmd, detail))
        for key in sorted(set(v[0] for v in fresh)):
            v = [x for x in fresh if x[0] == key][0]
            log("violated: %s [%s] %s" % (v[0], v[1], v[2][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if run.errors:
        for e in run.errors:
            log("ERROR:", e)
        return 2
    if os.environ.get("VERIF_TIMING"):
        log({k: v for k, v in sorted(run.counters.items()) if k.startswith("ms:")})
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, run.evaluations, len(run.hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
