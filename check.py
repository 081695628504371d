#!/usr/bin/env python3
"""Driver of all checks: check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness against /repo's working tree, runs generated-input search in
parallel workers, shrinks and confirms failures, writes evidence/<ID>.json.
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
"""
import argparse, array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 8
sys.path.insert(0, VERIF)
from props import PROPS, TARGETS, LEVEL  # noqa: E402

ENV = dict(os.environ, OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", OMP_DYNAMIC="false", VERIF_REPO=REPO,
           ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:exitcode=77:allocator_may_return_null=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", LC_ALL="C")
ENV.pop("OMP_NUM_THREADS", None)

CXX = ["g++", "-std=c++17", "-DNDEBUG", "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP",
       "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-fopenmp", "-w"]
# null / vptr / alignment / pointer-overflow diagnose idioms inside Thrust itself (tag dispatch through null references)
# and pointer arithmetic that never becomes an access; every real access is covered by AddressSanitizer
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,vptr,alignment,pointer-overflow,nonnull-attribute",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAV = {
    "opt": dict(cxx=["-O2", "-g1"], hx=["-O1", "-g1"], f=["-O2", "-g1"], ld=[]),
    "san": dict(cxx=["-O1", "-g1"] + SAN, hx=["-O1", "-g1"] + SAN,
                f=["-O1", "-g1", "-fcheck=bounds", "-fsanitize=address"],
                ld=["-fsanitize=address,undefined"]),
    # data races between callers; libgomp itself is not instrumented, so only for calls with one worker thread
    "tsan": dict(cxx=["-O1", "-g1", "-fsanitize=thread"], hx=["-O1", "-g1", "-fsanitize=thread"],
                 f=["-O1", "-g1", "-fsanitize=thread"], ld=["-fsanitize=thread"]),
}
TSAN_DEAD = "FATAL: ThreadSanitizer"  # its run time cannot map its memory here: no verdict


KNOWN_SOURCES = {k for t in TARGETS.values() for k in t.get("kernels", [])} | {"ls_apply_st_3d_cuda"}


class BuildError(Exception):
    pass


class ProgramRejected(Exception):
    """the compiler rejects a generated program that the language accepts"""
    def __init__(self, src, err):
        self.src, self.err = src, err


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run_cmd(cmd, what, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), (r.stderr or r.stdout)[-4000:]))
    return r


def build(target, flavour, extra_sources=()):
    """-> path of the executable for target in flavour, built from the current trees."""
    alt = TARGETS[target].get("reduced")
    try:
        return build_as(target, flavour, extra_sources, [])
    except BuildError as e:
        if not alt or not re.search(r"\berror:", str(e)):
            raise
        # helpers that only the library itself uses may have changed their names: go on without the parts that call them directly
        exe = build_as(target, flavour, extra_sources, [alt])
        print("note: %s built with %s: %s" % (target, alt, "; ".join(re.findall(r"error: .*", str(e))[:2])), file=sys.stderr)
        return exe


def build_as(target, flavour, extra_sources, more):
    t, fl = TARGETS[target], FLAV[flavour]
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/cuda", "-I" + VERIF + "/engine", "-I" + VERIF + "/harness"]
    jobs, objs, pre = [], [], []

    def cxx_job(src, flags):
        pre.append((src, flags))

    def preprocessed(job):
        # the key is the preprocessed text: an edit of comments, or of a header a source does not use, rebuilds nothing
        src, flags = job
        r = subprocess.run(CXX + flags + inc + ["-E", "-P", src], capture_output=True)
        if r.returncode != 0:
            raise BuildError("preprocessing %s failed:\n%s" % (src, r.stderr.decode("utf8", "replace")[-3000:]))
        return os.path.join(obj, sha(re.sub(rb"\s+", b" ", r.stdout), flags, CXX, os.path.basename(src)) + ".o")

    def compile_cxx(src, flags, o):
        tmp = "%s.%d.%d.tmp.o" % (o, os.getpid(), threading.get_ident())
        try:
            run_cmd(CXX + flags + inc + ["-c", src, "-o", tmp], "compiling " + src)
        except BuildError as e:
            if src not in extra_sources or not re.search(r"\berror:", str(e)):
                raise
            # is it the program or the header as a whole?
            probe = tmp + ".cpp"
            with open(probe, "w") as f:
                f.write(t.get("probe", '#include "span.hpp"\n'))
            try:
                run_cmd(CXX + flags + inc + ["-fsyntax-only", probe], "compiling the bare header")
            finally:
                os.unlink(probe)
            raise ProgramRejected(src, str(e))
        os.rename(tmp, o)

    for k in t.get("kernels", []):
        cxx_job("%s/src/cuda/%s.cpp" % (REPO, k), fl["cxx"])
    for h in t["harness"]:
        cxx_job(h if h.startswith("/") else "%s/harness/%s" % (VERIF, h), fl["hx"] + t.get("flags", []) + more)
    for h in extra_sources:
        cxx_job(h, fl["hx"] + t.get("flags", []) + more)
    with ThreadPoolExecutor(NCPU) as ex:
        for (src, flags), o in zip(pre, ex.map(preprocessed, pre)):
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(src), lambda src=src, flags=flags, o=o: compile_cxx(src, flags, o)))
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)

    def f_job(m):
        src = "%s/m4/%s.m4" % (REPO, m)
        text = run_cmd(["m4", src, "-I" + REPO + "/m4"], "m4 " + src).stdout
        code = "\n".join(l for l in text.splitlines() if l.strip() and l[0] not in "cC*!")
        o = os.path.join(obj, sha(code, fl["f"], m) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((20000, lambda: compile_f(src, text, o)))

    def compile_f(src, text, o):
        tmp = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
        ff = os.path.join(gen, os.path.basename(tmp) + ".f")
        with open(ff, "w") as f:
            f.write(text)
        run_cmd(["gfortran"] + fl["f"] + ["-w", "-c", ff, "-o", tmp + ".o"], "compiling " + src)
        os.unlink(ff)
        os.rename(tmp + ".o", o)

    for m in t.get("fortran", []):
        f_job(m)
    jobs.sort(key=lambda j: -j[0])
    if jobs:
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(j) for _, j in jobs]:
                f.result()
    exe = os.path.join(obj, "%s-%s" % (target, sha(*objs)))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        link = lambda more: run_cmd(["g++", "-fopenmp"] + fl["ld"] + objs + more + (["-lgfortran"] if t.get("fortran") else []) +
                                    ["-o", tmp], "linking " + target)
        try:
            link([])
        except BuildError as e:
            # library code may have moved into a source file of its own
            new = [f for f in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/cuda/*.cpp"))
                   if not re.search(r"(\.t|_test)\.cpp$", f) and os.path.relpath(f, REPO + "/src/cuda")[:-4] not in KNOWN_SOURCES]
            if "undefined reference" not in str(e) or not new:
                raise
            more = ["%s.%d.new%d.o" % (exe, os.getpid(), q) for q in range(len(new))]
            for f, o in zip(new, more):
                run_cmd(CXX + fl["cxx"] + inc + ["-c", f, "-o", o], "compiling " + f)
            link(more)
            for o in more:
                os.unlink(o)
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the object cache below a few GB"""
    d = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.getmtime(os.path.join(d, n)), os.path.getsize(os.path.join(d, n)), os.path.join(d, n))
                    for n in os.listdir(d))
    except FileNotFoundError:
        return
    tot = sum(s for _, s, _ in fs)
    now = time.time()
    for m, s, p in fs:
        if tot < 3e9:
            break
        if now - m > 1800:
            try:
                os.unlink(p)
                tot -= s
            except OSError:
                pass


# ------------------------------------------------------------------ running
HANG = 90


class Outcome:
    def __init__(self, kind, msg="", choices=None, case=""):
        self.kind, self.msg, self.choices, self.case = kind, msg, choices, case


def replay(exe, prop, choices, timeout=HANG, before=()):
    """runs the cases of `before` and then `choices` in one process -> Outcome kind pass|fail|crash|hang|oom"""
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "r%d_%d_%d.txt" % (os.getpid(), threading.get_ident(), time.monotonic_ns()))
    with open(f, "w") as h:
        for c in before:
            h.write(" ".join(map(str, c)) + "\n;\n")
        h.write(" ".join(map(str, choices)) + "\n")
    try:
        p = subprocess.Popen([exe, "replay", prop, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(ENV, PBT_REPLAY="1"), start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return Outcome("hang", "no result within %d s" % timeout)
    finally:
        os.unlink(f)
    out, err = out.decode("utf8", "replace"), err.decode("utf8", "replace")
    m = re.search(r"^CASE (.*)$", out, re.M)
    case = m.group(1) if m else ""
    if p.returncode == 0:
        return Outcome("pass", case=case)
    if p.returncode == 10:
        msg = re.search(r"^FAIL (.*)$", out, re.M)
        ch = re.search(r"^CHOICES(.*)$", out, re.M)
        return Outcome("fail", msg.group(1) if msg else "", [int(x) for x in ch.group(1).split()] if ch else choices, case)
    if p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
        return Outcome("oom", "killed")
    if TSAN_DEAD in err:
        return Outcome("oom", TSAN_DEAD)
    return Outcome("crash", "exit %d: %s" % (p.returncode, crash_line(err)), choices, case)


def crash_line(err):
    for pat in (r"ERROR: AddressSanitizer: .*", r"WARNING: ThreadSanitizer: .*", r"runtime error: .*", r"Fortran runtime error: .*", r"Error termination.*",
                r"what\(\): .*", r"HARNESS.*"):
        m = re.search(pat, err)
        if m:
            loc = re.search(r"#\d+ .*?(/repo/\S+)", err)
            return m.group(0)[:300] + (" at " + loc.group(1) if loc else "")
    return err.strip().replace("\n", " | ")[-300:]


def shrink(exe, prop, choices, kind, budget, before=()):
    """greedy choice-list minimisation; every candidate is re-run out of process"""
    end = time.time() + budget
    best = list(choices)
    tries = 0

    def ok(c):
        o = replay(exe, prop, c, 30, before)
        return o if o.kind == kind else None

    def attempt(cands):
        nonlocal best, tries
        cands = [c for c in cands if (len(c), c) < (len(best), best)]
        i = 0
        while i < len(cands) and time.time() < end:
            batch = cands[i:i + NCPU]
            i += NCPU
            tries += len(batch)
            with ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(ok, batch))
            for c, o in zip(batch, res):
                if o:
                    n = o.choices if o.kind == "fail" and o.choices is not None else c
                    best = min(best, c, n, key=lambda z: (len(z), z))
                    return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        while best and best[-1] == 0:
            best.pop()
        for size in (16, 8, 4, 2, 1):
            pos = len(best) - size
            cands = []
            while pos >= 0:
                cands.append(best[:pos] + best[pos + size:])
                pos -= max(1, size // 2)
            while attempt(cands) and time.time() < end:
                progress = True
                cands = [best[:p] + best[p + size:] for p in range(len(best) - size, -1, -max(1, size // 2))]
            cands = [best[:p] + [0] * size + best[p + size:] for p in range(0, max(0, len(best) - size + 1), size)
                     if any(best[p:p + size])]
            while attempt(cands) and time.time() < end:
                progress = True
                cands = [best[:p] + [0] * size + best[p + size:] for p in range(0, max(0, len(best) - size + 1), size)
                         if any(best[p:p + size])]
        i = 0
        while i < len(best) and time.time() < end:
            lo, v = 0, best[i]
            if v:
                cands, x = [], 0
                for num in (0, 1, 2, 3, 4, 8, 16):
                    if num < v:
                        cands.append(num)
                cands += [v // 4, v // 2, v - v // 4, v - 1]
                cands = sorted(set(x for x in cands if 0 <= x < v))
                if attempt([best[:i] + [x] + best[i + 1:] for x in cands]):
                    progress = True
                    if i < len(best) and best[i] and best[i] < v:
                        continue
            i += 1
    return best, tries


def find_history(exe, prop, seed, worker, index, choices, kind):
    """the failure needs earlier cases in the same process, or several tries: -> shortened list of cases before it, or None"""
    def bad(seq):
        o = replay(exe, prop, choices, 2 * HANG, seq)
        return o if o.kind not in ("pass", "oom") else None

    if bad([choices] * 300):
        return [choices] * 300
    f = os.path.join(BUILD, "tmp", "h%d.txt" % os.getpid())
    n, last = 1, 0
    seq = None
    while index and last < min(index, 100000):
        n = min(n, index, 100000)
        try:
            subprocess.run([exe, "dump", prop, str(seed), str(worker), str(index - n), str(index), f], env=ENV, timeout=2 * HANG,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            cases = [[int(x) for x in c.split()] for c in open(f).read().split(";\n")]
        except (subprocess.TimeoutExpired, OSError):
            break
        if bad(cases):
            seq = cases
            break
        last, n = n, n * 8
    if seq is None:
        return None
    end = time.time() + 60
    size = max(1, len(seq) // 2)
    while time.time() < end:
        pos, hit = 0, False
        while pos < len(seq) and time.time() < end:
            cand = seq[:pos] + seq[pos + size:]
            if bad(cand):
                seq, hit = cand, True
            else:
                pos += size
        if size == 1 and not hit:
            break
        size = max(1, size // 2)
    return seq


def run_search(exe, prop, seed, ncases, cap, tag, nworkers):
    """-> (stats, first failing (kind,msg,choices) or None)"""
    d = os.path.join(BUILD, "run", "%s-%s-%d" % (prop, tag, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    procs = []
    per = max(1, ncases // nworkers)
    for w in range(nworkers):
        base = os.path.join(d, "w%d" % w)
        err = open(base + ".err", "wb")
        p = subprocess.Popen([exe, "run", prop, str(seed), str(w), str(per), str(cap), base],
                             stdout=subprocess.DEVNULL, stderr=err, env=ENV, start_new_session=True)
        err.close()
        procs.append(dict(p=p, base=base, last=None, since=time.time(), done=False, w=w))
    bad = None
    notes = []

    def prog(base):
        try:
            b = read(base + ".prog")
            a = array.array("Q")
            a.frombytes(b)
            n = min(a[1], len(a) - 2)
            return a[0], list(a[2:2 + n])
        except Exception:
            return 0, []

    def killall():
        for q in procs:
            if q["p"].poll() is None:
                try:
                    os.killpg(q["p"].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                q["p"].wait()

    lastpoll = 0
    while True:
        alive = False
        for q in procs:
            if q["done"]:
                continue
            rc = q["p"].poll()
            if rc is None:
                alive = True
                continue
            q["done"] = True
            if rc in (0, 10):
                st = json.load(open(q["base"] + ".json"))
                if rc == 10 and not bad:
                    bad = ("fail", st["msg"], st["choices"], q["w"], st["index"])
            elif rc in (-signal.SIGKILL, -signal.SIGTERM):
                notes.append("worker %d was killed from outside; its remaining cases were not run" % q["w"])
            elif TSAN_DEAD in read(q["base"] + ".err").decode("utf8", "replace"):
                notes.append("worker %d: %s; its cases were not run" % (q["w"], TSAN_DEAD))
            elif not bad:
                ix, ch = prog(q["base"])
                bad = ("crash", "exit %d: %s" % (rc, crash_line(read(q["base"] + ".err").decode("utf8", "replace"))), ch, q["w"],
                       max(0, ix - 1))
        if bad or not alive:
            break
        now = time.time()
        if now - lastpoll > 5:
            lastpoll = now
            for q in procs:
                if q["done"]:
                    continue
                s, c = prog(q["base"])
                if (s, len(c)) != q["last"]:
                    q["last"], q["since"] = (s, len(c)), now
                elif now - q["since"] > HANG and s > 0 and not bad:
                    bad = ("hang", "no progress for %d s" % HANG, c, q["w"], max(0, s - 1))
        time.sleep(0.05)
    killall()
    tot = dict(ran=0, discarded=0, nontrivial=0, labels={}, samples=[], wall=0, hashes=set(), notes=notes)
    for q in procs:
        f = q["base"] + ".json"
        if os.path.exists(f):
            st = json.load(open(f))
            for k in ("ran", "discarded", "nontrivial"):
                tot[k] += st[k]
            for l, n in st["labels"].items():
                tot["labels"][l] = tot["labels"].get(l, 0) + n
            tot["samples"] += st["samples"]
            tot["wall"] = max(tot["wall"], st["wall"])
            a = array.array("Q")
            a.frombytes(read(q["base"] + ".hash"))
            tot["hashes"].update(a)
        else:
            tot["ran"] += max(0, prog(q["base"])[0] - 1)
    shutil.rmtree(d, ignore_errors=True)
    return tot, bad


def known(prop):
    """lines of known_findings.txt for this property: (key, text)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.id in ("setup", "selfcheck"):
        for t in ("g++", "gfortran", "m4"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        # fill the object cache; a check builds whatever is missing or out of date itself
        done = set()
        for pid in PROPS:
            for st in PROPS[pid]["stages"]:
                t = st["target"]
                extra = [VERIF + "/harness/" + x for x in TARGETS[t].get("program", [])]
                if TARGETS[t].get("generator"):
                    mod = __import__(TARGETS[t]["generator"])
                    extra = mod.generate(st.get("prop", pid), a.seed, a.tier, os.path.join(BUILD, "gen"), st.get("programs_" + a.tier))
                elif (t, st["flavour"]) in done:
                    continue
                done.add((t, st["flavour"]))
                t0 = time.time()
                try:
                    build(t, st["flavour"], extra)
                except (BuildError, ProgramRejected) as e:
                    print("note: %s %s does not build: %s" % (t, st["flavour"], str(e)[:500]))
                print("%s %s %s: %.1f s" % (pid, t, st["flavour"], time.time() - t0), flush=True)
        return 0
    pid = a.id
    P = PROPS[pid]
    t0 = time.time()
    rep = None
    if a.replay:
        head = open(a.replay).readline()
        m = re.search(r"stage=(\S+) seed=(\d+)", head)
        mt = re.search(r"tier=(\S+)", head)
        if mt:
            a.tier = mt.group(1)
        body = "".join(l for l in open(a.replay) if not l.startswith("#"))
        rep = (m.group(1), int(m.group(2)), [[int(x) for x in c.split()] for c in body.split(";\n")])
    stats, violations = [], []
    unrepro = []
    try:
        for si, st in enumerate(P["stages"]):
            stage = "%d:%s:%s" % (si, st["target"], st["flavour"])
            seed = a.seed
            if rep and rep[0] != stage:
                continue
            if rep:
                seed = rep[1]
            extra = [VERIF + "/harness/" + x for x in TARGETS[st["target"]].get("program", [])]
            name = st.get("prop", pid)
            if TARGETS[st["target"]].get("generator"):
                mod = __import__(TARGETS[st["target"]]["generator"])
                extra = mod.generate(name, seed, a.tier, os.path.join(BUILD, "gen"), st.get("programs_" + a.tier))
            try:
                exe = build(st["target"], st["flavour"], extra)
            except ProgramRejected as e:
                rd = os.path.join(VERIF, "replays")
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, "%s-%s-rejected.txt" % (pid, os.path.basename(e.src)))
                with open(rp, "w") as f:
                    f.write("# property=%s stage=%s seed=%d tier=%s   the compiler rejects one of the generated programs below\n" % (pid, stage, seed, a.tier))
                    f.write("".join("# " + l + "\n" for l in (e.err[-3000:] + "\n" + read(e.src).decode()).splitlines()))
                print("a well-formed generated program no longer compiles: " + "; ".join(re.findall(r"error: .*", e.err)[:2]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                violations.append(rp)
                break
            if rep:
                o = replay(exe, name, rep[2][-1], 2 * HANG, rep[2][:-1])
                print(o.kind, o.msg, "\ncase:", o.case)
                return 0 if o.kind == "pass" else 1
            n, cap = st[a.tier]
            for attempt in range(3):
                sd = seed + 1000003 * attempt
                tot, bad = run_search(exe, name, sd, int(n * a.scale), cap, "%s%d" % (st["flavour"], si), st.get("workers", NCPU))
                tot["stage"] = stage
                stats.append(tot)
                if not bad:
                    break
                kind, msg, ch, w, ix = bad
                hits = [replay(exe, name, ch) for _ in range(3)]
                same = [h for h in hits if h.kind != "pass" and h.kind != "oom"]
                if len(same) < 3:
                    more = [replay(exe, name, ch) for _ in range(12)] if kind != "hang" else []
                    same += [h for h in more if h.kind not in ("pass", "oom")]
                before = []
                if not same and kind != "hang":
                    before = find_history(exe, name, sd, w, ix, ch, kind) or []
                    if before:
                        hits = [replay(exe, name, ch, 2 * HANG, before) for _ in range(3)]
                        same = [h for h in hits if h.kind not in ("pass", "oom")]
                if not same:
                    unrepro.append("%s: %s" % (stage, msg))
                    print("note: a failure that did not recur on replay was ignored: " + msg, file=sys.stderr)
                    continue
                k = same[0].kind
                small, tries = (ch, 0) if k == "hang" else shrink(exe, name, ch, k, 60 if not before else 30, before)
                if before and len(before) <= 2:
                    for i in range(len(before)):
                        # shorten the cases before it with the others fixed
                        best = before[i]
                        for cand in [[], [0], best[:len(best) // 4], best[:len(best) // 2]]:
                            t = before[:i] + [cand] + before[i + 1:]
                            if replay(exe, name, small, 2 * HANG, t).kind == k:
                                before = t
                                break
                fin = replay(exe, name, small, 2 * HANG, before)
                if fin.kind == "pass":
                    small, fin = ch, same[0]
                rd = os.path.join(VERIF, "replays")
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, "%s-%s.txt" % (pid, sha(pid, stage, small, before)[:10]))
                with open(rp, "w") as f:
                    f.write("# property=%s stage=%s seed=%d tier=%s   replay: python3 check.py %s --replay <this file>\n" % (pid, stage, seed, a.tier, pid))
                    f.write("# case: %s\n# %s: %s\n" % (fin.case, fin.kind, fin.msg.replace("\n", " ")))
                    if before:
                        f.write("# needs the %d case(s) before it, run in the same process\n" % len(before))
                    for c in before:
                        f.write(" ".join(map(str, c)) + "\n;\n")
                    f.write(" ".join(map(str, small)) + "\n")
                print("%s %s" % (fin.kind, fin.msg))
                print("case: " + fin.case + (" (after %d other case(s) in the same process)" % len(before) if before else ""))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                violations.append(rp)
                break
            if violations:
                break
    except BuildError as e:
        print("BUILD ERROR: the code under test or the harness does not build\n" + str(e), file=sys.stderr)
        return 2
    hashes = set()
    labels = {}
    for s in stats:
        hashes |= s["hashes"]
        for l, n in s["labels"].items():
            labels[l] = labels.get(l, 0) + n
    for key, text in known(pid):
        if labels.get("known:" + key, 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=LEVEL,
              coverage=dict(evaluations=sum(s["ran"] for s in stats), distinct_nontrivial=len(hashes), rule=P["rule"],
                            samples=[x for s in stats for x in s["samples"]][:12],
                            discarded=sum(s["discarded"] for s in stats),
                            per_stage=[dict(stage=s["stage"], evaluations=s["ran"], nontrivial=s["nontrivial"],
                                            wall_s=round(s["wall"], 2), notes=s["notes"]) for s in stats],
                            distribution=dict(sorted(labels.items())), unreproduced=unrepro),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    prune()
    if not violations:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"]))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
