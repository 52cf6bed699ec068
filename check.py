#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's current working tree.

  check.py P07              quick tier (or VERIF_TIER)
  check.py P07 --thorough   thorough tier
  check.py --replay FILE    runs the case of a replay file again, with its trace
  check.py --setup          checks that the tools are there

exit 0: the property held on everything explored;  exit 1 + "VIOLATION property=<id> replay=<path>": broken.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import FLAVOURS, BINARIES, PROPS, RULES  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 4)
KNOWN = os.path.join(VERIF, "known_findings.txt")


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def lib_files(ext):
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(ext)]
    return out


def build(names):
    """Builds the binaries from /repo/Source and /verif/src; returns {name: path}. Objects are cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    make_locale()
    headers = sha(*[os.path.relpath(f, SRC).encode() + read(f) for f in lib_files((".h", ".hpp"))])
    vhdr = sha(*[read(f) for f in sorted(glob.glob(VERIF + "/src/*.h"))])
    libcpp = lib_files(".cpp")
    jobs, links, res = {}, [], {}
    for name in names:
        b = BINARIES[name]
        cxx, flags, lflags = FLAVOURS[b["flavour"]]
        flags = flags + b.get("defs", [])
        objs = []
        units = [(f, []) for f in libcpp] + [(os.path.join(VERIF, "src", s), []) for s in b["src"]]
        alt = b.get("alt")
        if alt:  # a second copy of a part of the library, under another namespace name and other flags
            units += [(f, alt["flags"]) for f in libcpp if os.path.relpath(f, SRC).startswith(alt["libdir"] + "/")]
            units += [(os.path.join(VERIF, "src", s), alt["flags"]) for s in alt["src"]]
        for f, add in units:
            own = f.startswith(VERIF + "/src")
            fl = flags + add + (["-I" + SRC] if own else [])
            key = sha(cxx, " ".join(fl), headers, vhdr if own else "", os.path.relpath(f, SRC), read(f))
            obj = os.path.join(BUILD, "o", key + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs[obj] = (os.path.getsize(f) + (200000 if os.path.basename(f).startswith("kinds") else 0), [cxx] + fl + ["-c", f, "-o"])
        path = os.path.join(BUILD, "b", name + "-" + sha(*objs, " ".join(lflags)))
        res[name] = path
        if not os.path.exists(path):
            links.append((path, [cxx] + flags + objs + lflags + b.get("lflags", []) + ["-lpthread", "-o"]))
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "b"), exist_ok=True)

    def one(out, cmd):
        tmp = out + ".%d.tmp" % os.getpid() + (".o" if out.endswith(".o") else "")
        p = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, out)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        order = sorted(jobs.items(), key=lambda kv: -kv[1][0])
        for f in [ex.submit(one, o, c[1]) for o, c in order]:
            f.result()
        for f in [ex.submit(one, o, c) for o, c in links]:
            f.result()
    # keep the cache small
    for d, keep in (("o", 1500), ("b", 60)):
        fs = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try:
                os.unlink(f)
            except OSError:
                pass
    return res


def make_locale():
    """A locale with a decimal comma and grouped digits, for cases that run in such a program."""
    dst = os.path.join(BUILD, "loc", "vf_VF")
    if os.path.exists(os.path.join(dst, "LC_NUMERIC")):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        with open(os.path.join(tmp, "src"), "w") as f:
            f.write('LC_NUMERIC\ndecimal_point ","\nthousands_sep "."\ngrouping 3;3\nEND LC_NUMERIC\n')
        subprocess.run(["localedef", "--force", "--quiet", "-i", tmp + "/src", "-f", "UTF-8", tmp + "/vf_VF"],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        if os.path.exists(tmp + "/vf_VF/LC_NUMERIC"):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            os.rename(tmp + "/vf_VF", dst)
    except (OSError, subprocess.SubprocessError):
        pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1:strict_string_checks=1:detect_odr_violation=0:quarantine_size_mb=32:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:detect_deadlocks=0",
    "LSAN_OPTIONS": "exitcode=66:print_suppressions=0",
    "LC_ALL": "C",
    "LOCPATH": os.path.join(BUILD, "loc"),
    "TZ": "UTC",
})
# a worker must not be upset by what calls the check
for k in ("LD_PRELOAD", "GTEST_FILTER"):
    ENV.pop(k, None)


class Result:
    def __init__(self):
        self.cases = self.events = self.foreign = self.inconclusive = 0
        self.counts, self.hashes, self.states, self.samples, self.notes = {}, set(), set(), [], []
        self.lost = []

    def add(self, r, job):
        self.cases += r["cases"]
        self.events += r["events"]
        self.foreign += r["foreign"]
        self.inconclusive += r["inconclusive"]
        for k, v in r["counts"].items():
            if k.startswith("max_"):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        self.hashes.update((job, h) for h in r["hashes"])
        self.states.update(r["states"])
        if len(self.samples) < 3 and r["samples"]:
            self.samples.append(r["samples"][0])
        self.notes += r["foreign_notes"][:1]


def status_of(out):
    try:
        a = read(out + ".status").decode(errors="replace").split()
        return int(a[0]), a[1]
    except Exception:
        return None, None


def exec_worker(cmd, scratch, hang, cwd=None):
    """Runs one worker process. Returns (kind, rc, stderr, report, case); kind: held violated crash hang killed."""
    out = os.path.join(scratch, "out.json")
    for f in (out, out + ".status"):
        if os.path.exists(f):
            os.unlink(f)
    errp = os.path.join(scratch, "err")
    with open(errp, "wb") as ef, open(os.path.join(scratch, "stdout"), "wb") as of:
        p = subprocess.Popen(cmd + ["--out", out, "--scratch", scratch], stdout=of, stderr=ef, stdin=subprocess.DEVNULL,
                             env=ENV, cwd=cwd or scratch, start_new_session=True)
        last, since, kind = None, time.time(), None
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = status_of(out)
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                kind = "hang"
                if os.environ.get("VERIF_HANG_STACKS"):
                    subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 12"], stdout=ef, stderr=ef)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    err = read(errp)[-20000:].decode(errors="replace")
    case = status_of(out)[0]
    rep = None
    if os.path.exists(out):
        try:
            rep = json.loads(read(out).decode())
        except ValueError:
            rep = None
    if kind == "hang":
        return kind, p.returncode, err, rep, case
    if p.returncode == 0 and rep and rep["verdict"] == "held":
        return "held", 0, err, rep, case
    if p.returncode == 10 and rep:
        return "violated", 10, err, rep, rep["case"]
    if p.returncode in (-9, -15):
        return "killed", p.returncode, err, rep, case
    return "crash", p.returncode, err, rep, case


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


def run_prop(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    jobs = [j for j in spec["jobs"] if j.get(tier, 0) > 0]
    bins = build(sorted({j["bin"] for j in jobs}))
    tb = time.time() - t0
    budget = spec.get("budget", {}).get(tier, 150 if tier == "quick" else 700)
    deadline = time.time() + budget
    total = Result()
    violations, lock, build_lock, stop = [], threading.Lock(), threading.Lock(), threading.Event()
    known = known_findings(prop)
    known_hit = {}
    scratch_root = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.chmod(scratch_root, 0o755)

    work = []
    for ji, j in enumerate(jobs):
        n = j[tier]
        chunk = j.get("chunk") or max(1, (n + 4 * JOBS - 1) // (4 * JOBS))
        for a in range(0, n, chunk):
            work.append((a * 1.0 / n, ji, a, min(n, a + chunk)))
    work.sort()
    perjob = [0] * len(jobs)

    def cmd_for(j, a, b, extra=()):
        return [bins[j["bin"]], "--prop", prop, "--tier", tier, "--seed", str(seed), "--from", str(a), "--to", str(b)] + list(j.get("args", [])) + list(extra)

    def violation(j, ji, a, b, case, what, trace, err, chunk_only=False):
        for rx, text in known:
            if rx.search(what) or rx.search(err):
                known_hit[text] = known_hit.get(text, 0) + 1
                return
        with lock:
            violations.append(dict(property=prop, binary=j["bin"], args=list(j.get("args", [])), seed=seed, tier=tier, case=case,
                                   range=[a, b], needs_range=chunk_only, what=what, trace=trace, stderr=err[-6000:]))
        stop.set()

    def elsewhere(j, case):
        """A job with "against" is about a difference between two builds: does the case fail in the other one as well?"""
        if not j.get("against"):
            return False
        with build_lock:
            other = build([j["against"]])[j["against"]]
        sc = tempfile.mkdtemp(dir=scratch_root)
        for _ in range(j.get("against_tries", 1)):
            k = exec_worker([other] + cmd_for(j, case, case + 1)[1:], sc, j.get("hang", 60))[0]
            if k != "held":
                with lock:
                    total.foreign += 1
                    total.notes.append("case %d fails in %s as well" % (case, j["against"]))
                return True
        return False

    def unit(item):
        _, ji, a, b = item
        j = jobs[ji]
        if stop.is_set() or time.time() > deadline:
            return
        scratch = tempfile.mkdtemp(dir=scratch_root)
        hang = j.get("hang", 60)
        try:
            tries = 0
            while a < b and not stop.is_set():
                kind, rc, err, rep, case = exec_worker(cmd_for(j, a, b), scratch, hang)
                if kind == "held":
                    with lock:
                        total.add(rep, ji)
                        perjob[ji] += rep["cases"]
                    return
                if kind == "violated":
                    if elsewhere(j, case):
                        a = case + 1
                        continue
                    violation(j, ji, a, b, case, rep["what"], rep["trace"], err)
                    return
                if case is None or case < a or case >= b:
                    case = a
                if kind == "killed":
                    tries += 1
                    if tries > 2:
                        with lock:
                            total.lost.append("%s cases %d-%d: killed from outside" % (j["bin"], a, b))
                        return
                    continue
                # crash, sanitizer report or hang: run the single case again, with its trace
                scratch2 = tempfile.mkdtemp(dir=scratch_root)
                k2, rc2, err2, rep2, _ = exec_worker(cmd_for(j, case, case + 1, ["--verbose"]), scratch2, hang)
                if kind == "hang":
                    if k2 == "hang" or k2 == "crash":
                        violation(j, ji, a, b, case, "case %d does not finish within %d s (twice)" % (case, hang), err2, err2)
                        return
                    if j.get("hang_is_violation"):
                        violation(j, ji, a, b, case, "case %d made no progress for %d s" % (case, hang), err, err)
                        return
                    with lock:
                        total.lost.append("%s case %d: one unexplained stall" % (j["bin"], case))
                    a = case + 1
                    continue
                if elsewhere(j, case):
                    a = case + 1
                    continue
                if rc == 3:
                    raise RuntimeError("harness error in %s: %s" % (" ".join(cmd_for(j, a, b)), err))
                head = sanitizer_head(err) or sanitizer_head(err2) or "process ended with status %d" % rc
                violation(j, ji, a, b, case, head, err2 if k2 != "held" else err, err, k2 == "held")
                return
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    try:
        with concurrent.futures.ThreadPoolExecutor(spec.get("workers", JOBS)) as ex:
            for f in [ex.submit(unit, w) for w in work]:
                f.result()
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", scratch_root], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch_root, ignore_errors=True)

    for text in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    cov = dict(evaluations=total.cases, distinct_nontrivial=len(total.hashes), rule=RULES[spec["rule"]],
               samples=total.samples[:3] or ["(none)"], events_observed=total.events, distinct_states_seen=len(total.states), observed=dict(sorted(total.counts.items())),
               cases_per_workload={(" ".join([j["bin"]] + j.get("args", []))): perjob[i] for i, j in enumerate(jobs)},
               planned_cases=sum(j[tier] for j in jobs), abandoned_outside_property=total.foreign, inconclusive=total.inconclusive + len(total.lost),
               build_s=round(tb, 1))
    if total.notes:
        cov["abandoned_examples"] = total.notes[:3]
    if total.lost:
        cov["lost"] = total.lost[:10]
    if violations:
        cov["violations"] = [v["what"][:500] for v in violations[:3]]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = violations[0]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, sha(v["what"], v["case"], seed)[:10]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  " + v["what"][:1500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if total.cases == 0:
        print("no case could be run: %s" % total.lost)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %d events, %d abandoned, %.1f s (build %.1f s)%s" % (
        prop, total.cases, len(total.hashes), total.events, total.foreign, time.time() - t0, tb, " lost: %s" % total.lost if total.lost else ""))
    return 0


def sanitizer_head(err):
    for rx in (r"(ERROR: AddressSanitizer:.*)", r"(WARNING: ThreadSanitizer:.*)", r"(.*runtime error:.*)", r"(ERROR: LeakSanitizer:.*)", r"(==\d+==ERROR.*)", r"(terminate called.*\n.*)", r"(ThreadSanitizer:.*)", r"(.*Assertion.*)"):
        m = re.search(rx, err)
        if m:
            s = m.group(1).strip()
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err) or re.findall(r"#\d+ ([^\n]*Source/[^\n]*)", err)
            fr = [f for f in fr if "Source/" in f or "mvlt::" in f][:3]
            return re.sub(r"^==\d+==", "", s) + ("  at " + " <- ".join(fr) if fr else "")
    return None


def replay(path):
    v = json.load(open(path))
    b = build([v["binary"]])[v["binary"]]
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    a, e = v["range"] if v["needs_range"] else (v["case"], v["case"] + 1)
    cmd = [b, "--prop", v["property"], "--tier", v["tier"], "--seed", str(v["seed"]), "--from", str(a), "--to", str(e)] + v["args"] + ["--verbose"]
    print(" ".join(cmd))
    kind, rc, err, rep, case = exec_worker(cmd, scratch, 120)
    print(err)
    print(kind, rc, (rep or {}).get("what", ""))
    shutil.rmtree(scratch, ignore_errors=True)
    return 0 if kind == "held" else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        for t in ("clang++", "g++"):
            if not shutil.which(t):
                print("missing " + t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        return 0
    prop = a[0]
    tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return run_prop(prop, tier, seed)
    except BuildError as e:
        print("build failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
