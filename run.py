#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check C07 [--tier quick|thorough] [--seed N] [--job NAME]
  run.py replay <file written by a check>
  run.py setup            builds every harness once
  run.py list
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
import checks as registry  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
IO_WRAPS = ["fopen", "fclose", "fread", "fwrite", "fseek", "ftell", "fputs",
            "opendir", "closedir", "remove", "unlink", "mkdir",
            "clock_gettime"]
PT_WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock",
            "pthread_mutex_trylock", "pthread_cond_wait",
            "pthread_cond_signal", "pthread_cond_broadcast",
            "__atomic_compare_exchange"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=alignment,float-divide-by-zero"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
# name: (compile flags of everything, extra flags of the library, link flags)
VARIANTS = {
    "asan": (["-O1"] + SAN, [], []),
    "dbg": (["-O1", "-DDEBUG", "-D_DEBUG"] + SAN, [], []),
    "tsan": (["-O1", "-fsanitize=thread"], [], []),
    "msan": (["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins",
              "-fno-sanitize-memory-param-retval"], [], []),
    "plain": (["-O2"], [], []),
    # thread sanitizer's callbacks, implemented by rt/sched.c
    "sched": (["-O1"], ["-fsanitize=thread"], []),
    "schedasan": (["-O0"] + SAN, COV, []),
    "nothread": (["-O1", "-DFIFTYONE_DEGREES_NO_THREADING"] + SAN, [], []),
    "memonly": (["-O1", "-DFIFTYONE_DEGREES_MEMORY_ONLY"] + SAN, [], []),
    "noexc": (["-O1", "-DFIFTYONE_DEGREES_EXCEPTIONS_DISABLED"] + SAN, [], []),
    "noieee": (["-O1", "-UFLT_RADIX"] + SAN, [], []),
}
COMMON = ["-g", "-w", "-fno-omit-frame-pointer", "-iquote", REPO,
          "-iquote", os.path.join(VERIF, "rt"), "-iquote", os.path.join(VERIF, "h")]
QUICK_S = 540    # a quick check begins no more cases after this many seconds
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:"
                    "handle_abort=1:exitcode=99:detect_stack_use_after_return=0:"
                    "strict_string_checks=1:quarantine_size_mb=64:"
                    "clear_shadow_mmap_threshold=4194304:"
                    "max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "allocator_may_return_null=1:halt_on_error=0:exitcode=99:second_deadlock_stack=1:"
                    "report_atomic_races=0:history_size=4",
    "MSAN_OPTIONS": "allocator_may_return_null=1:exitcode=99:handle_abort=1",
}


class BuildError(Exception):
    pass


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------- build
_lock = threading.Lock()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest():
    out = []
    for d in (REPO, os.path.join(VERIF, "rt"), os.path.join(VERIF, "h")):
        for n in sorted(os.listdir(d)):
            if n.endswith((".h", ".hpp", ".inc")):
                out.append(n.encode() + read(os.path.join(d, n)))
    return sha(*out)


def compile_one(src, flags, hdr, cxx):
    std = ["-std=gnu++17"] if cxx else ["-std=gnu11"]
    cc = CLANGXX if cxx else CLANG
    cmd = [cc] + std + COMMON + flags
    key = sha(src, read(src), hdr, " ".join(cmd))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True,
                           text=True, cwd=VERIF)
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj


def prune():
    d = os.path.join(BUILD, "obj")
    for sub in (d, os.path.join(BUILD, "bin")):
        if not os.path.isdir(sub):
            continue
        files = [os.path.join(sub, n) for n in os.listdir(sub)]
        stats = []
        for p in files:
            try:
                st = os.stat(p)
                stats.append((st.st_mtime, st.st_size, p))
            except OSError:  # gone meanwhile: another check is building
                pass
        files = stats
        total = sum(f[1] for f in files)
        for _, size, p in sorted(files):
            if total < 1500 << 20:
                break
            total -= size
            try:
                os.unlink(p)
            except OSError:
                pass


def build(job, pool):
    """Compiles the repository's sources, the runtime and the harness."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags, libflags, ldflags = VARIANTS[job["variant"]]
    flags = flags + job.get("cflags", [])
    if job["variant"].startswith("sched"):
        flags = flags + ["-DVR_SCHED"]
    hdr = headers_digest()
    harness = os.path.join(VERIF, "h", job["harness"])
    cxx = job["harness"].endswith(".cpp")
    jobs = []
    lib = [n for n in sorted(os.listdir(REPO)) if n.endswith(".c")]
    if cxx:
        lib += [n for n in sorted(os.listdir(REPO)) if n.endswith(".cpp")]
    for n in lib:
        jobs.append((os.path.join(REPO, n), flags + libflags, hdr,
                     n.endswith(".cpp")))
    rt = ["vrt.c"]
    wraps = []
    if job.get("io"):
        rt.append("wrapio.c")
        wraps += IO_WRAPS
    if job["variant"].startswith("sched"):
        rt.append("sched.c")
        wraps += PT_WRAPS
    wraps += job.get("wraps", [])
    for n in rt:
        jobs.append((os.path.join(VERIF, "rt", n), flags, hdr, False))
    jobs.append((harness, flags + (libflags if job.get("instrument") else []), hdr, cxx))
    objs = list(pool.map(lambda a: compile_one(*a), jobs))
    link = [CLANGXX if cxx else CLANG] + [f for f in flags if f.startswith("-f")] \
        + (libflags if job["variant"] == "schedasan" else []) \
        + ["-Wl,--wrap=" + w for w in wraps] \
        + ["-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-g"] \
        + ldflags
    # the coverage runtime is ours
    link = [f for f in link if not f.startswith("-fsanitize-coverage")]
    key = sha(*(objs + link))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (
        os.path.splitext(job["harness"])[0], job["variant"], key[:12]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run(link + objs + ["-o", tmp, "-lpthread", "-latomic",
                                          "-lm"], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link of %s\n%s" % (job["harness"], r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------ reports
FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in ([^\s(]+).*?(/\S+?):(\d+)", re.M)


def repo_frames(text):
    out = []
    for m in FRAME.finditer(text):
        if m.group(2).startswith(REPO + "/"):
            out.append(m.group(1).replace("fiftyoneDegrees", ""))
    return out


def classify(stderr, rc):
    """(key, text) pairs of what a sanitizer or the C library reported."""
    out = []
    for block in re.split(r"(?=WARNING: ThreadSanitizer)", stderr):
        if not block.startswith("WARNING: ThreadSanitizer"):
            continue
        kind = re.search(r"ThreadSanitizer: ([^\(\n]+)", block).group(1).strip()
        fns = []
        for part in re.split(r"\n\n", block):
            fr = repo_frames(part)
            if fr and fr[0] not in fns:
                fns.append(fr[0])
        out.append(("tsan:%s:%s" % (kind, "|".join(sorted(fns[:2]))), block[:3000]))
    if out:
        return out
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: ([^\n]+)", stderr)
    if m:
        if m.group(1).startswith(VERIF):
            raise HarnessError("undefined behaviour in the harness: "
                               + stderr[-1500:])
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(3))
        fr = repo_frames(stderr)
        return [("ubsan:%s:%s" % (msg[:70], fr[0] if fr else
                                  os.path.basename(m.group(1))), stderr[-3000:])]
    m = re.search(r"ERROR: (Address|Memory)Sanitizer: ([\w-]+)", stderr) or \
        re.search(r"WARNING: (Memory)Sanitizer: ([\w-]+)", stderr)
    a = re.search(r"([\w.]+):(\d+): [^\n]*Assertion `([^\n]*)' failed", stderr)
    if a:
        fr = repo_frames(stderr)
        return [("assert:%s:%s" % (fr[0] if fr else a.group(1), a.group(3)[:60]),
                 stderr[-3000:])]
    if m:
        first = stderr[m.start():]
        fr = repo_frames(first.split("\n\n")[0])
        if not fr:
            fr = repo_frames(first)
        kind = m.group(2)
        s = re.search(r"(READ|WRITE) of size", first)
        rw = ":" + s.group(1).lower() if s else ""
        return [("%s:%s%s:%s" % ("asan" if m.group(1) == "Address" else "msan",
                                 kind, rw, fr[0] if fr else "?"), first[:3000])]
    return [("crash:rc%s" % rc, stderr[-2000:])]


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


# --------------------------------------------------------------------- run
class Result:
    def __init__(self):
        self.counts, self.maxs, self.sets = {}, {}, {}
        self.samples, self.fails, self.notes = [], [], []
        self.truncated = 0
        self.stopped = 0           # cases not begun because time was up
        self.until = 0
        self.cases = 0
        self.lock = threading.Lock()
        self.first_new = None      # when the first new violation was seen
        self.is_known = lambda key: False

    def fail(self, key, text, job, case):
        self.fails.append((key, text, job, case))
        if self.first_new is None and not self.is_known(key):
            self.first_new = time.time()

    def enough(self):
        """A violation is certain: what still runs need not end."""
        return self.first_new is not None and time.time() > self.first_new + 45


def parse_out(path, res, job):
    n_cases = 0
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            try:
                e = json.loads(line)
            except ValueError:
                continue
            t = e["t"]
            with res.lock:
                if t == "count" and e["key"] == "cases_stopped":
                    res.stopped += e["n"]
                elif t == "count":
                    res.counts[e["key"]] = res.counts.get(e["key"], 0) + e["n"]
                    if e["key"] == "cases":
                        n_cases += e["n"]
                        res.cases += e["n"]
                elif t == "max":
                    res.maxs[e["key"]] = max(res.maxs.get(e["key"], 0), e["n"])
                elif t == "sample":
                    if len([s for s in res.samples if s.startswith(
                            job["name"] + " ")]) < 4:
                        res.samples.append("%s case %d: %s" % (
                            job["name"], e["case"], e["text"]))
                elif t == "fail":
                    res.fail(e["key"], e["text"], job, e["case"])
                elif t == "harness_error":
                    raise HarnessError("%s: %s" % (job["name"], e["text"]))
    d = path + ".dist"
    if os.path.exists(d):
        data = read(d)
        pos = 0
        while pos + 80 <= len(data):
            name = data[pos:pos + 64].split(b"\0")[0].decode()
            n, _full = struct.unpack("<QQ", data[pos + 64:pos + 80])
            pos += 80
            with res.lock:
                res.sets.setdefault(name, set()).update(
                    struct.unpack("<%dQ" % n, data[pos:pos + 8 * n]))
            pos += 8 * n
    return n_cases


def progress_of(out):
    try:
        d = read(out + ".progress")
        case = d[:64].split(b"\0")[0].decode()
        note = d[64:].split(b"\0")[0].decode(errors="replace")
        return case, note
    except OSError:
        return "", ""


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_once(exe, job, seed, lo, hi, thorough, tmp, tag, timeout, res=None):
    out = os.path.join(tmp, "%s-%s.jsonl" % (job["name"], tag))
    scratch = os.path.join(tmp, "s-%s-%s" % (job["name"], tag))
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--seed", str(seed), "--cases", "%d:%d" % (lo, hi), "--out",
           out, "--scratch", scratch]
    if thorough:
        cmd.append("--thorough")
    if res and res.until:
        cmd += ["--until", str(int(res.until))]
    for k, v in sorted(job.get("opts", {}).items()):
        cmd += ["--opt", "%s=%s" % (k, v)]
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": scratch,
           "TMPDIR": scratch, "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer"}
    for p in ("/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18"):
        if os.path.exists(p):
            for k in ("ASAN", "MSAN", "TSAN", "UBSAN"):
                env[k + "_SYMBOLIZER_PATH"] = p
            break
    env.update(SAN_ENV)
    env["TSAN_OPTIONS"] += ":suppressions=" + os.path.join(VERIF, "rt", "tsan.supp")
    err = os.path.join(tmp, "%s-%s.err" % (job["name"], tag))
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, cwd=scratch, env=env,
                             preexec_fn=limits, stdin=subprocess.DEVNULL)
        try:
            # the timeout is of one case, not of all of them
            end, rc, at = time.time() + timeout, None, None
            while rc is None:
                try:
                    rc = p.wait(timeout=1 if res else timeout)
                except subprocess.TimeoutExpired:
                    now = progress_of(out)[0]
                    if res and now != at:
                        end, at = time.time() + timeout, now
                    if time.time() >= end:
                        rc = "timeout"
                    elif res and res.enough():
                        rc = "enough"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    size = os.path.getsize(err)
    with open(err, "rb") as ef:
        if size > 400000:
            ef.seek(0)
        text = ef.read(400000).decode(errors="replace")
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, out, text


def run_shard(exe, job, seed, lo, hi, thorough, tmp, res, shard, is_known):
    timeout = job.get("timeout", 120) * (4 if thorough else 1)
    pos, attempt, crashes, slow = lo, 0, 0, 0
    while pos < hi and not res.enough():
        attempt += 1
        tag = "%d.%d" % (shard, attempt)
        rc, out, err = run_once(exe, job, seed, pos, hi, thorough, tmp, tag,
                                timeout, res)
        done = parse_out(out, res, job)
        if rc == 0:
            if "ThreadSanitizer" in err:
                rc = 99
            else:
                return
        if rc == "enough":
            with res.lock:
                res.truncated += hi - pos
            return
        if rc == 77:
            raise HarnessError("%s: %s" % (job["name"], err[-1500:]))
        case, note = progress_of(out)
        if rc == "timeout":
            if not case.isdigit():
                with res.lock:
                    res.truncated += hi - pos
                return
            c = int(case)
            rc2, out2, err2 = run_once(exe, job, seed, c, c + 1, thorough, tmp,
                                       tag + "r", max(45, timeout / 2))
            if rc2 == "timeout":
                with res.lock:
                    res.fail("hang:%s" % job["harness"].split(".")[0],
                             "case does not end: " + note, job, c)
                crashes += 1
                pos = c + 1
            else:
                slow += 1
                pos = c
                if slow > 1:
                    with res.lock:
                        res.truncated += hi - pos
                    return
            if crashes > 2:
                return
            continue
        # a sanitizer, an assertion or a signal ended the process
        tsan = "ThreadSanitizer" in err and case in ("done", "teardown")
        c = int(case) if case.isdigit() else (hi - 1)
        found = classify(err, rc)
        with res.lock:
            for key, text in found:
                res.fail(key, (("case: %s\n" % note) if note else "")
                         + text, job, c)
        if tsan or not case.isdigit():
            return
        if not all(is_known(k) for k, _ in found):
            crashes += 1
        if crashes >= 4 or attempt > 400:
            with res.lock:
                res.truncated += hi - c - 1
            return
        pos = c + 1


def check(pid, tier, seed, only=None, cases=None):
    t0 = time.time()
    spec = registry.CHECKS[pid]
    thorough = tier == "thorough"
    known = [k for k in load_known() if k[0] == pid]

    def is_known(key):
        return any(fnmatch.fnmatchcase(key, pat) for _, pat, _ in known)

    jobs = [dict(j) for j in spec["jobs"] if only is None or j["name"] == only]
    tmp = tempfile.mkdtemp(prefix="vr-%s-" % pid)
    os.chmod(tmp, 0o755)
    res = Result()
    res.is_known = is_known
    if not thorough:
        res.until = t0 + QUICK_S
    try:
        prune()
        with cf.ThreadPoolExecutor(NPROC) as pool:
            exes = {}
            for j in jobs:
                exes[j["name"]] = build(j, pool)
        t_build = time.time() - t0
        tasks = []
        for j in jobs:
            n = j["thorough"] if thorough else j["quick"]
            lo0 = 0
            if cases:
                lo0, n = cases[0], cases[1] - cases[0]
            shards = min(j.get("shards", NPROC), n) or 1
            per = (n + shards - 1) // shards
            for s in range(shards):
                lo, hi = lo0 + s * per, lo0 + min(n, (s + 1) * per)
                if lo < hi:
                    tasks.append((j, lo, hi, s))
        tasks.sort(key=lambda t: -t[0].get("weight", 1))
        workers = spec.get("workers", NPROC)
        with cf.ThreadPoolExecutor(workers) as pool:
            futs = [pool.submit(run_shard, exes[j["name"]], j, seed, lo, hi,
                                thorough, tmp, res, s, is_known)
                    for j, lo, hi, s in tasks]
            for f in futs:
                f.result()
        planned = sum(hi - lo for _, lo, hi, _ in tasks)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- floors: a run in which the monitors saw too little is an error
    new, kn = {}, {}
    for key, text, job, case in res.fails:
        pat = next((d for _, p, d in known if fnmatch.fnmatchcase(key, p)), None)
        if pat is not None:
            kn.setdefault(pat, []).append((key, text, job, case))
        else:
            new.setdefault(key, []).append((key, text, job, case))
    problems = []
    if not new:
        for name, floor in spec.get("floors", {}).items():
            if res.stopped:        # as much less as there was time for
                floor = floor * (planned - res.stopped) // planned // 4
            if only is None and res.counts.get(name, 0) < floor:
                problems.append("event '%s' seen %d times, floor %d" % (
                    name, res.counts.get(name, 0), floor))
        if res.truncated > planned // 2:
            problems.append("%d of %d cases not run" % (res.truncated, planned))

    replays = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (key, items) in enumerate(sorted(new.items())):
        _, text, job, case = items[0]
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "job": job["name"], "seed": seed,
                       "tier": tier, "case": case, "key": key, "text": text,
                       "times": len(items),
                       "command": "python3 run.py replay " + path}, f, indent=1)
        replays.append((key, path, text))

    main = spec.get("nontrivial", "nontrivial")
    distinct = len(res.sets.get(main, ()))
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": res.cases,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": res.samples[:12] or ["no case ran to a sample"],
            "events_observed": dict(sorted(
                (k, v) for k, v in res.counts.items() if k != "cases")),
            "gauges_max": res.maxs,
            "distinct_observed": {k: len(v) for k, v in sorted(res.sets.items())
                                  if k != main},
            "jobs": [{"job": j["name"], "harness": j["harness"],
                      "build": j["variant"],
                      "cases": j["thorough"] if thorough else j["quick"]}
                     for j in jobs],
            "cases_not_run": res.truncated + res.stopped,
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if kn:
        ev["coverage"]["known_findings_seen"] = {
            d: len(v) for d, v in kn.items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmpf = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(VERIF, "evidence", pid + ".json"))

    for d in sorted(set(d for _, _, d in known)):
        print("KNOWN-FINDING: property=%s %s%s" % (
            pid, d, " (seen %d times in this run)" % len(kn[d]) if d in kn else
            " (not reached in this run)"))
    for key, path, text in replays[:10]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s\n  %s" % (key, "\n  ".join(text.split("\n")[:14])))
    print("%s %s seed %d: %d cases, %d distinct, %d oracle checks, "
          "%d violation(s), %.1f s (build %.1f)" % (
              pid, tier, seed, res.cases, distinct,
              res.counts.get("oracle_checks", 0), len(new), ev["wall_s"],
              t_build))
    if new:
        return 1
    if problems:
        print("ERROR: " + "; ".join(problems))
        return 3
    return 0


def replay(path):
    r = json.load(open(path))
    job = next(j for j in registry.CHECKS[r["property"]]["jobs"]
               if j["name"] == r["job"])
    tmp = tempfile.mkdtemp(prefix="vr-replay-")
    try:
        with cf.ThreadPoolExecutor(NPROC) as pool:
            exe = build(job, pool)
        res = Result()
        rc, out, err = run_once(exe, job, r["seed"], r["case"], r["case"] + 1,
                                r["tier"] == "thorough", tmp, "replay", 600)
        parse_out(out, res, job)
        print(err[-6000:])
        for key, text, _, _ in res.fails:
            print("FAIL %s\n  %s" % (key, text))
        if rc not in (0,):
            print("ended with", rc, [k for k, _ in classify(err, rc)])
        return 1 if res.fails or rc != 0 else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    if argv[1] == "list":
        for k in sorted(registry.CHECKS):
            print(k, registry.CHECKS[k]["title"])
        return 0
    if argv[1] == "replay":
        return replay(argv[2])
    if argv[1] == "setup":
        with cf.ThreadPoolExecutor(NPROC) as pool:
            for k in sorted(registry.CHECKS):
                for j in registry.CHECKS[k]["jobs"]:
                    build(j, pool)
        print("built")
        return 0
    if argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        only = cases = None
        i = 3
        while i < len(argv):
            if argv[i] == "--tier":
                tier = argv[i + 1]
            elif argv[i] == "--seed":
                seed = int(argv[i + 1])
            elif argv[i] == "--job":
                only = argv[i + 1]
            elif argv[i] == "--cases":
                a, b = argv[i + 1].split(":")
                cases = (int(a), int(b))
            i += 2
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            return check(argv[2], tier, seed, only, cases)
        except BuildError as e:
            print("ERROR: build failed: %s" % e)
            return 2
        except HarnessError as e:
            print("ERROR: harness: %s" % e)
            return 2
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
