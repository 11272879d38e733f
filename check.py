#!/usr/bin/env python3
"""Decides one property of id3v2lib by running the real code under monitors.

    check.py PROPERTY [--tier quick|thorough] [--seed N]
    check.py --replay FILE

Exit 0: the property held on everything that was run. Exit 1: violated, with a line
"VIOLATION property=<id> replay=<file>". Anything else: the check could not answer.
"""
import argparse
import array
import atexit
import concurrent.futures
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from properties_config import CONFIG, ASSUMPTIONS  # noqa: E402

WORKERS = 8
STATE_RUNNING = 1

VARIANTS = {
    # nonnull-attribute: memcpy of nothing to or from NULL (malloc(0) may return it); pointer-overflow
    # and shift-base: formally undefined, no effect with any compiler in use.
    "asan": (["-O1", "-fsanitize=address,undefined",
              "-fno-sanitize=nonnull-attribute,pointer-overflow,shift-base", "-fno-sanitize-recover=all"],
             ["-fsanitize-coverage=trace-pc-guard"]),
    # as asan, but the work that C library functions do for the library is counted (harness/cost.h)
    "cost": (["-O1", "-fsanitize=address,undefined",
              "-fno-sanitize=nonnull-attribute,pointer-overflow,shift-base", "-fno-sanitize-recover=all", "-DCOST"],
             ["-fsanitize-coverage=trace-pc-guard", "-fno-builtin", "-U_FORTIFY_SOURCE"]),
    "plain": (["-O2"], []), # for gigabytes
    # new and freed memory has contents of the harness' choice
    "fill": (["-O2", "-DFILL"], ["-fno-builtin-malloc", "-fno-builtin-free", "-fno-builtin-realloc"]),
    # allocations can fail; no sanitizer, since a child process is made for each
    "oom": (["-O1", "-DOOM"], ["-fno-builtin"]),
    "msan": (["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"], ["-fsanitize-coverage=trace-pc-guard"]),
    "tsan": (["-O1", "-fsanitize=thread"], []),
    "fuzz": (["-O1", "-DFUZZ", "-fsanitize=address,undefined",
              "-fno-sanitize=nonnull-attribute,pointer-overflow,shift-base", "-fno-sanitize-recover=all"],
             ["-fsanitize=fuzzer-no-link"]),
}
# The same harness over the library as other people build it: (harness, compiler of the library and its flags)
BUILDS = {
    "gcc-O0": (["-O1"], ["gcc", "-std=c99", "-g"]),  # as the Makefile does
    "gcc-O3": (["-O1"], ["gcc", "-std=c99", "-O3", "-DNDEBUG"]),
    "clang-uchar": (["-O1"], ["clang", "-std=c99", "-O2", "-funsigned-char", "-ftrivial-auto-var-init=pattern"]),
    "gcc-uchar": (["-O1"], ["gcc", "-std=gnu17", "-Os", "-funsigned-char", "-DNDEBUG"]),
}
# Calls of the library's objects that are redirected to counting functions in the cost variant
COUNTED = ("memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strchr strrchr strstr strcpy strncpy strcat strncat "
           "strdup strndup fread fwrite fgets getc fgetc putc fputc fseek fseeko qsort").split()
# and in the fill variant: what depends on memory, time, process or user
FILLED = "malloc realloc free time gettimeofday clock_gettime clock getpid getppid gettid getuid geteuid getgid getegid isatty".split()
# Errors for this compiler, warnings for the one that builds the library
LENIENT = ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion",
                                       "incompatible-function-pointer-types", "return-type")]
# The symbolizer is another process, which the injected faults would hit as well: off
RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:symbolize=0:malloc_context_size=4:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=8192",
    "UBSAN_OPTIONS": "symbolize=0:print_stacktrace=1:exitcode=66",
    "MSAN_OPTIONS": "symbolize=0:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4",
}


class CheckError(Exception):
    """The check cannot answer."""


class Stop(Exception):
    """Another worker has found a violation."""


# ---- building ----------------------------------------------------------------------------------
def sources():
    out = []
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(base, n) for n in names if n.endswith(".c")]
    if not out:
        raise CheckError("no sources in %s/src" % REPO)
    return sorted(out)


def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("does not compile: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


def build(variants, work):
    """Compiles the working tree and the harness; returns {variant: executable}."""
    jobs, objects = [], {}
    for v in variants:
        flags, lib_flags = VARIANTS[v] if v in VARIANTS else (BUILDS[v][0], None)
        d = os.path.join(work, "obj-" + v)
        os.mkdir(d)
        main = os.path.join(d, "harness.o")
        jobs.append(["clang++", "-std=c++17", "-g", "-w", "-fno-omit-frame-pointer"] + flags +
                    ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"), "-c",
                     os.path.join(HERE, "harness", "main.cpp"), "-o", main])
        objects[v] = [main]
        for i, s in enumerate(sources()):
            o = os.path.join(d, "%d.o" % i)
            cc = BUILDS[v][1] + ["-w"] if lib_flags is None else ["clang", "-std=c99", "-g", "-w", "-fno-omit-frame-pointer"] + LENIENT + flags + lib_flags
            jobs.append(cc + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-c", s, "-o", o])
            objects[v].append(o)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(compile_one, jobs))
    for o in objects.get("cost", [])[1:]:
        compile_one(["objcopy"] + ["--redefine-sym=%s=cost_%s" % (f, f) for f in COUNTED] + [o])
    for o in objects.get("fill", [])[1:]:
        compile_one(["objcopy"] + ["--redefine-sym=%s=fill_%s" % (f, f) for f in FILLED] + [o])
    for o in objects.get("oom", [])[1:]:
        compile_one(["objcopy"] + ["--redefine-sym=%s=oom_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "strdup", "strndup")] + [o])
    out = {}
    for v in variants:
        exe = os.path.join(work, "harness-" + v)
        extra = ["-fsanitize=fuzzer"] if v == "fuzz" else []
        compile_one(["clang++"] + (VARIANTS.get(v) or BUILDS[v])[0] + extra + objects[v] + ["-o", exe, "-lpthread"])
        out[v] = exe
        shutil.rmtree(os.path.join(work, "obj-" + v))
    return out


def make_locales(path):
    """Locales with other characters and cases than ASCII; without localedef, only those of the system are used."""
    os.mkdir(path)
    for language, charset in (("tr_TR", "ISO-8859-9"), ("en_US", "ISO-8859-1"), ("ja_JP", "EUC-JP")):
        try:
            subprocess.run(["localedef", "-i", language, "-f", charset, os.path.join(path, "%s.%s" % (language, charset))],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            pass
    RUN_ENV["LOCPATH"] = path


def unescape(literal):
    """The bytes of a C string literal, up to its first NUL."""
    def one(m):
        e = m.group(1)
        if e[0] == "x":
            return chr(int(e[1:], 16) & 255)
        if e[0] in "01234567":
            return chr(int(e, 8) & 255)
        return {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}.get(e, e)
    text = re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", one, literal, flags=re.S)
    raw = b"".join(bytes([ord(c)]) if ord(c) < 256 else c.encode("utf-8", "replace") for c in text)
    return raw.split(b"\0")[0]


def mine_dictionary(path):
    """Numbers, frame ids and strings that occur in the sources, as hints to the workload generators."""
    numbers, ids, strings = set(), set(), set()
    for base, _, names in os.walk(REPO):
        if not base.startswith((os.path.join(REPO, "src"), os.path.join(REPO, "include"))):
            continue
        for n in names:
            if not n.endswith((".c", ".h")):
                continue
            with open(os.path.join(base, n), errors="replace") as f:
                text = f.read()
            text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)
            num = r"(0[xX][0-9a-fA-F]+|\d+)[uUlL]*"
            for m in re.finditer(r"(?<![\w.])" + num + r"\b", text):
                numbers.add(int(m.group(1), 0) if m.group(1).lower().startswith("0x") else int(m.group(1)))
            for m in re.finditer(r"(?<![\w.])" + num + r"(?:\s*(?:<<|\*)\s*" + num + r"\b)+", text):
                value = None
                for op, n in re.findall(r"(<<|\*)?\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", m.group(0)):
                    n = int(n, 0) if n.lower().startswith("0x") else int(n)
                    value = n if value is None else value * n if op == "*" else value << min(n, 40)
                    numbers.add(value)
            for m in re.finditer(r'"([A-Z0-9]{4})"', text):
                ids.add(m.group(1))
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
                strings.add(unescape(m.group(1)))
    with open(path, "w") as f:
        for n in sorted(numbers):
            if n < 1 << 32:
                f.write("n %d\n" % n)
        for i in sorted(ids):
            f.write("i %s\n" % i)
        for t in sorted(strings):
            if 0 < len(t) <= 200 and t[:1] not in (b"\xff", b"\xfe") and not t.endswith(b".h"):
                f.write("s %s\n" % t.hex())
    return len(numbers), len(ids)


# ---- running -----------------------------------------------------------------------------------
class Runner:
    def __init__(self, prop, seed, work, exes, deadline, chunk_timeout):
        self.prop, self.seed, self.work, self.exes = prop, seed, work, exes
        self.deadline, self.chunk_timeout = deadline, chunk_timeout
        self.dict = os.path.join(work, "dict")
        self.lock = threading.Lock()
        self.stop = False
        self.procs = set()
        self.n = 0
        self.stats, self.findings, self.notes = [], {}, []
        self.hashes = set()
        self.violation = None
        self.per_case = {}  # {(mode, variant): {case: hash}}, for comparisons of builds

    def run(self, variant, mode, start, count, timeout, *more):
        """One process; returns (rc, case, stats or None, stdout, stderr, timed out)."""
        with self.lock:
            self.n += 1
            name = "run%d" % self.n
        d = os.path.join(self.work, name)
        os.mkdir(d)
        stats = os.path.join(self.work, name + "-stats")
        env = dict(os.environ, **RUN_ENV)
        cmd = [self.exes[variant], mode, "--seed", str(self.seed), "--from", str(start), "--count", str(count),
               "--dir", d, "--stats", stats, "--dict", self.dict, *more]
        out, err = open(stats + ".out", "w+", errors="replace"), open(stats + ".err", "w+", errors="replace")
        timed_out = False
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=env, cwd=d, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            p.wait(timeout=max(1, min(timeout, self.deadline - time.time())))
        except subprocess.TimeoutExpired:
            timed_out = True
            kill(p)
            p.wait()
        with self.lock:
            self.procs.discard(p)
        texts = []
        for f in (out, err):
            f.seek(0, os.SEEK_END)
            size = f.tell()
            f.seek(0)
            texts.append(f.read(60000) if size < 60000 else f.read(60000) + "\n...\n")
            f.close()
        case, result = start, None
        if os.path.exists(stats + ".case"):
            with open(stats + ".case", "rb") as f:
                raw = f.read()
            if len(raw) == 16:
                c, state = struct.unpack("<QQ", raw)
                if state == STATE_RUNNING:
                    case = c
        if p.returncode == 0 and os.path.exists(stats):
            with open(stats) as f:
                result = json.load(f)
            h = array.array("Q")
            with open(stats + ".hashes", "rb") as f:
                h.frombytes(f.read())
            result["hashes"] = h
        shutil.rmtree(d, ignore_errors=True)
        for suffix in ("", ".case", ".hashes", ".out", ".err"):
            try:
                os.unlink(stats + suffix)
            except OSError:
                pass
        return p.returncode, case, result, texts[0], texts[1], timed_out

    def chunk(self, job, start, count):
        """All cases of a range, whatever it takes; raises CheckError when it cannot be decided."""
        variant, mode, strict = job["variant"], job["mode"], job.get("strict", True)
        end, timeouts, stuck = start + count, 0, None
        while start < end:
            if self.stop:
                raise Stop()
            if time.time() > self.deadline:
                raise CheckError("out of time")
            rc, case, result, out, err, timed_out = self.run(variant, mode, start, end - start, self.chunk_timeout)
            if self.stop:
                raise Stop()
            self.take_findings(job, out)
            if rc == 0 and result is not None:
                with self.lock:
                    self.stats.append((job, result))
                    if strict:
                        self.hashes.update(result["hashes"])
                    if job.get("compared") and len(result["hashes"]) == end - start:
                        self.per_case.setdefault((mode, variant), {}).update(zip(range(start, end), result["hashes"]))
                return
            if timed_out:
                timeouts += 1
                if timeouts > 1:
                    raise CheckError("%s/%s: no end of case %d after %d s, twice" % (mode, variant, case, self.chunk_timeout))
                continue
            if rc == -signal.SIGKILL or rc == 78 or rc == 0:
                # out of memory, descriptors or disk: try again from there, alone in a new process
                if stuck == case:
                    raise CheckError("%s/%s case %d: rc %d: %s" % (mode, variant, case, rc, err[-800:]))
                stuck, start = case, case
                self.note("restarted at case %d of %s/%s (rc %d): %s" % (case, mode, variant, rc, err.strip()[-200:]))
                continue
            if rc == 77 and not strict:
                start = case + 1  # an oracle of another property: not this check's business
                continue
            self.confirm(job, start, case, end, rc, out, err)
            return

    def confirm(self, job, start, case, end, rc, out, err):
        variant, mode = job["variant"], job["mode"]
        if variant == "tsan" or mode == "C17":
            # schedules do not repeat; what a race detector or comparison has seen has happened
            self.report(job, case, 1, rc, out, err)
            return
        for a, n in ((case, 1), (start, case - start + 1), (start, end - start)):
            rc2, case2, _, out2, err2, timed_out = self.run(variant, mode, a, n, self.chunk_timeout)
            if rc2 not in (0, 78, -signal.SIGKILL) and not timed_out:
                self.report(job, a, n, rc2, out2, err2)
                return
        if rc in (66, 77):
            # seen by a sanitizer or an oracle, but dependent on what was in memory, or on the time
            self.report(job, case, 1, rc, out, err + "\n(did not happen again when the case was repeated)\n")
            return
        raise CheckError("%s/%s case %d failed once and not again: rc %d: %s" % (mode, variant, case, rc, err[:2000]))

    def compare(self, mode, reference, others):
        """Cases for which differently built libraries have different outcomes; returns the number of comparisons."""
        ref, n = self.per_case.get((mode, reference), {}), 0
        for v in others:
            other = self.per_case.get((mode, v), {})
            common = sorted(set(ref) & set(other))
            n += len(common)
            bad = [c for c in common if ref[c] != other[c]]
            if bad and self.violation is None:
                text = explain(self, mode, bad[0], reference, v)
                self.report(dict(mode=mode, variant=v, compared=True, reference=reference), bad[0], 1, 0, "", "%d of %d cases have another outcome when the library is built as %s (%s) than as %s; case %d:\n%s"
                            % (len(bad), len(common), v, " ".join(BUILDS[v][1]), reference, bad[0], text))
        return n

    def take_findings(self, job, out):
        for m in re.finditer(r"^FINDING property=(\S+) key=(\S+) seed=(\d+) case=(\d+): (.*)$", out, re.M):
            with self.lock:
                self.findings.setdefault(m.group(2), (job, int(m.group(4)), m.group(5)))

    def note(self, text):
        with self.lock:
            if len(self.notes) < 20:
                self.notes.append(text)

    def report(self, job, start, count, rc, out, err):
        with self.lock:
            if self.violation is None:
                self.violation = dict(property=self.prop, seed=self.seed, mode=job["mode"], variant=job["variant"],
                                      start=start, count=count, rc=rc, stdout=out[-4000:], stderr=err[:12000])
                if job.get("reference"):
                    self.violation["reference"] = job["reference"]
            self.stop = True
            for p in list(self.procs):
                kill(p)

    def run_all(self, jobs):
        work = []
        for job in jobs:
            n = job["cases"]
            chunk = max(1, n if "fixed" in job else min(job.get("chunk", 4000), -(-n // (2 * WORKERS))))
            work += [(job, a, min(chunk, n - a)) for a in range(0, n, chunk)]
        error = None
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            futures = [ex.submit(self.chunk, *w) for w in work]
            for f in concurrent.futures.as_completed(futures):
                try:
                    f.result()
                except Stop:
                    pass
                except Exception as e:  # noqa: BLE001
                    error = error or e
                    for g in futures:
                        g.cancel()
        if error is not None and self.violation is None:
            raise error if isinstance(error, CheckError) else CheckError(repr(error))


def outcomes(runner, mode, variant, case):
    """The names and hashes of all outcomes of a case."""
    rc, _, _, out, err, _ = runner.run(variant, mode, case, 1, 600, "--outcomes", "1")
    lines = [l for l in out.splitlines() if l.startswith("OUTCOME")]
    return (lines[-1] if lines else "rc %d: %s" % (rc, err[-600:]))


def explain(runner, mode, case, a, b):
    x, y = outcomes(runner, mode, a, case), outcomes(runner, mode, b, case)
    sx, sy = re.findall(r"\[(.*?)\]=(\w+)", x), re.findall(r"\[(.*?)\]=(\w+)", y)
    for i, (p, q) in enumerate(zip(sx, sy)):
        if p != q:
            return "step %d (%s) differs: %s instead of %s\n%s" % (i, q[0], q[1], p[1], x[-600:])
    if x == y:
        return "(did not happen again when the case was repeated alone)\n" + x[:600]
    return x[-600:] + "\n" + y[-600:]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


# ---- fuzzing (thorough) ------------------------------------------------------------------------
def fuzz(runner, exe, runs):
    """libFuzzer over the same hostile workload; returns statistics, or reports a violation."""
    corpus = os.path.join(runner.work, "corpus")
    os.mkdir(corpus)
    seeds = subprocess.run([runner.exes["asan"], "SEEDS", "--seed", str(runner.seed), "--from", "0", "--count", "400", "--dir", corpus],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **RUN_ENV))
    if seeds.returncode != 0:
        raise CheckError("no seed corpus: %s" % seeds.stdout[-500:])
    procs = []
    for i in range(WORKERS):
        d = os.path.join(runner.work, "fuzz%d" % i)
        os.mkdir(d)
        own = os.path.join(runner.work, "corpus%d" % i)
        os.mkdir(own)
        env = dict(os.environ, FUZZ_DIR=d, FUZZ_MODE=runner.prop, **RUN_ENV)
        log = open(d + "-log", "w")
        procs.append((subprocess.Popen([exe, "-seed=%d" % (runner.seed * 100 + i), "-runs=%d" % runs, "-max_len=8192", "-timeout=120",
                                        "-rss_limit_mb=3500", "-malloc_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=%s/" % d, own, corpus],
                                       stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, cwd=d, start_new_session=True), d))
    total, edges = 0, 0
    for p, d in procs:
        try:
            p.wait(timeout=max(1, runner.deadline - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            p.wait()
        with open(d + "-log", errors="replace") as f:
            text = f.read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", text)
        total += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", text)
        edges = max(edges, int(m[-1]) if m else 0)
        arts = [a for a in os.listdir(d) if a.startswith(("crash-", "timeout-"))]
        if arts and runner.violation is None:
            keep = os.path.join(HERE, "evidence", "replays")
            os.makedirs(keep, exist_ok=True)
            dst = os.path.join(keep, "%s-fuzz-%s" % (runner.prop, arts[0]))
            shutil.copy(os.path.join(d, arts[0]), dst)
            runner.violation = dict(property=runner.prop, seed=runner.seed, mode="FUZZ", variant="fuzz", input=dst, rc=p.returncode,
                                    start=0, count=1, stdout="", stderr=text[-8000:])
    return {"fuzzer_executions": total, "fuzzer_edges": edges}


# ---- known findings ----------------------------------------------------------------------------
def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


# ---- main --------------------------------------------------------------------------------------
def scratch_root():
    for d in ("/dev/shm", "/tmp", tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def write_replay(v):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-seed%d-case%d.json" % (v["property"], v["mode"], v["variant"], v["seed"], v["start"]))
    v["how"] = "python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the numbers of cases")
    ap.add_argument("--replay")
    args = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="id3v2-", dir=scratch_root())
    atexit.register(shutil.rmtree, work, ignore_errors=True)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    # a scratch name with a dot would be taken for a file extension
    if "." in work:
        raise CheckError("scratch directory %s" % work)

    if args.replay:
        with open(args.replay) as f:
            v = json.load(f)
        if CONFIG[v["property"]].get("locales"):
            make_locales(os.path.join(work, "locales"))
        exes = build([v["variant"]] + ([v["reference"]] if "reference" in v else []), work)
        mine_dictionary(os.path.join(work, "dict"))
        if v["mode"] == "FUZZ":
            env = dict(os.environ, FUZZ_DIR=work, FUZZ_MODE=v["property"], **RUN_ENV)
            sys.exit(1 if subprocess.run([exes["fuzz"], v["input"]], env=env, cwd=work).returncode else 0)
        r = Runner(v["property"], v["seed"], work, exes, time.time() + 3600, 3600)
        if "reference" in v:
            x, y = (outcomes(r, v["mode"], b, v["start"]) for b in (v["reference"], v["variant"]))
            print(explain(r, v["mode"], v["start"], v["reference"], v["variant"]))
            sys.exit(0 if x == y else 1)
        rc, case, _, out, err, _ = r.run(v["variant"], v["mode"], v["start"], v["count"], 3600)
        print(out + err)
        print("rc %d, case %d" % (rc, case))
        sys.exit(0 if rc == 0 else 1)

    prop = args.property
    if prop not in CONFIG:
        ap.error("unknown property %s" % prop)
    cfg = CONFIG[prop]
    scale = args.scale * (cfg.get("thorough_factor", 20) if args.tier == "thorough" else 1)
    # the few long cases ("fixed") first, so that they run beside the others
    jobs = [dict(j, cases=j["fixed"][args.tier == "thorough"]) for j in cfg["jobs"] if "fixed" in j]
    jobs += [dict(j, cases=max(WORKERS, int(j["cases"] * scale))) for j in cfg["jobs"] if "fixed" not in j]
    jobs += [dict(j, cases=int(j["cases"] * args.scale)) for j in cfg.get("thorough_jobs", []) if args.tier == "thorough"]
    variants = sorted({j["variant"] for j in jobs})
    fuzz_runs = int(cfg.get("fuzz_runs", 0) * args.scale) if args.tier == "thorough" else 0
    if cfg.get("locales"):
        make_locales(os.path.join(work, "locales"))
    exes = build(variants + (["fuzz"] if fuzz_runs else []), work)
    n_numbers, n_ids = mine_dictionary(os.path.join(work, "dict"))
    built = time.time() - t0
    limit = 800 if args.tier == "quick" else 4 * 3600
    r = Runner(prop, args.seed, work, exes, t0 + limit, 300 if args.tier == "quick" else 1800)
    r.run_all(jobs)
    compared = r.compare(cfg["builds"][0], cfg["builds"][1], cfg["builds"][2]) if "builds" in cfg and r.violation is None else 0
    extra = fuzz(r, exes["fuzz"], fuzz_runs) if fuzz_runs and r.violation is None else {}

    known = known_findings(prop)
    for key in sorted(r.findings):
        job, case, text = r.findings[key]
        if key in known:
            continue
        if r.violation is None:
            r.violation = dict(property=prop, seed=args.seed, mode=job["mode"], variant=job["variant"], start=case, count=1, rc=0,
                               stdout="FINDING key=%s: %s" % (key, text), stderr="")

    # what was observed
    counters, blocks, cases, edges, guards, samples, per = {}, 0, 0, 0, 0, [], {}
    for job, s in r.stats:
        cases += s["cases"]
        name = "%s/%s" % (job["mode"], job["variant"])
        per[name] = per.get(name, 0) + s["cases"]
        if job.get("strict", True) and not job.get("no_counters"):
            for k, (v, is_max) in s["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if is_max else counters.get(k, 0) + v
            if len(samples) < 6:
                samples += s["samples"][:2]
        blocks += s["blocks"]
        if s["guards"]:
            guards = max(guards, s["guards"])
            edges |= int(s["edges"][::-1] or "0", 2)
    if "builds" in cfg:
        counters["outcomes_compared_between_builds"] = compared
    for m in cfg.get("required", []):
        if r.violation is None and not counters.get(m):
            raise CheckError("the monitors observed no %s" % m)
    if r.violation is None and (cases == 0 or not r.hashes or not samples):
        raise CheckError("nothing was observed")
    coverage = {
        "evaluations": sum(counters.get(k, 0) for k in cfg["evaluations"]) if "evaluations" in cfg else cases,
        "distinct_nontrivial": len(r.hashes),
        "rule": cfg["rule"],
        "samples": samples[:6],
        "cases_per_workload": per,
        "observed": counters,
        "library_blocks_executed": blocks,
        "library_edges_reached": bin(edges).count("1"),
        "library_edges_instrumented_with_ubsan_error_branches": guards,
        "dictionary_from_sources": {"numbers": n_numbers, "frame_ids": n_ids},
        "build_s": round(built, 1),
    }
    coverage.update(extra)
    if r.notes:
        coverage["restarts"] = r.notes
    if r.findings:
        coverage["findings"] = {k: v[2] for k, v in sorted(r.findings.items())}
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": cfg["level"], "coverage": coverage,
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
        "violations": 0 if r.violation is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    if r.violation is not None:
        v = r.violation
        path = write_replay(v)
        print((v["stdout"] + v["stderr"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        sys.exit(1)
    for key in sorted(r.findings):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
    print("%s: held on %d cases (%d distinct, non-trivial) in %.0f s" % (prop, cases, len(r.hashes), time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
