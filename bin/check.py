#!/usr/bin/env python3
"""Decides one property of DStruct by running the real code under monitors.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles the workload drivers in /verif/harness against /repo's working tree, runs them,
reads the verdicts of the monitors and writes /verif/evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: no verdict.
"""
import array, concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from plan import PLAN, UNITS, MODES, RULES, ASSUME  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
NCPU = os.cpu_count() or 4
RUN_WALL = 780          # seconds: a driver which is not done by then gives no verdict


def sources(root, ext=(".hpp", ".h", ".cpp")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "build", ".xmake", "tests", "examples", "docs"))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(ext)]
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in sources(REPO) + sources(HARNESS):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]


class Failed(Exception):
    """The check itself cannot give a verdict."""


def run(cmd, timeout, env=None):
    """Runs cmd in its own process group; output through files, so big output cannot block."""
    with tempfile.TemporaryFile() as so:
        p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, start_new_session=True, env=env, cwd=BUILD)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        so.seek(0, 2); n = so.tell(); so.seek(max(0, n - 400000))
        return rc, so.read().decode("utf-8", "replace")


def compile_cmd(unit, mode, out):
    u, m = UNITS[unit], MODES[mode]
    return m["cc"].split() + ["-I" + REPO, "-I" + HARNESS] + (["-DVH_PART=%d" % u["part"]] if "part" in u else []) \
        + [os.path.join(HARNESS, f) for f in [u["src"]] + u.get("more", [])] + ["-o", out] + m.get("ld", "").split()


def build(unit, mode, tree):
    d = os.path.join(BUILD, tree); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s.%s" % (unit, mode))
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, None
        log = ""
        for _ in range(2):
            rc, log = run(compile_cmd(unit, mode, out + ".tmp"), 600)
            if rc == 0:
                os.rename(out + ".tmp", out)
                return out, None
        return None, log


def toolchain_works(mode):
    """Does a program which does not include the library compile this way?"""
    src = os.path.join(BUILD, "empty-%s-%d.cpp" % (mode, os.getpid()))
    with open(src, "w") as f:
        f.write("#include <cstdio>\nint main() { return 0; }\n")
    try:
        return run(MODES[mode]["cc"].split() + [src, "-o", src + ".out"], 120)[0] == 0
    finally:
        for x in (src, src + ".out"):
            if os.path.exists(x):
                os.unlink(x)


def header_compiles():
    """Does a program which only includes the headers compile? Tells a broken interface from a broken toolchain."""
    src = os.path.join(BUILD, "plain-%d.cpp" % os.getpid())
    with open(src, "w") as f:
        f.write("#include <dstruct.hpp>\nint main() { return 0; }\n")
    try:
        return run(["g++", "-std=c++11", "-w", "-fsyntax-only", "-I" + REPO, src], 120)[0] == 0
    finally:
        os.unlink(src)


ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", MSAN_OPTIONS="exitcode=97", TSAN_OPTIONS="exitcode=96:halt_on_error=1:report_signal_unsafe=0")

RESULT = re.compile(r"^(CHILD)?(VIOL|ASSERT|HANG|CRASH|DEATH)\b.*$", re.M)
SANI = re.compile(r"^(.*(?:ERROR: AddressSanitizer|runtime error:|WARNING: MemorySanitizer|WARNING: ThreadSanitizer|ERROR: LeakSanitizer|ERROR: ThreadSanitizer).*)$", re.M)


def judge(rc, out):
    """-> (verdict, headline). verdict: ok, violation, hang, error"""
    if rc is None:
        return "error", "no answer within %d s" % RUN_WALL
    s = SANI.search(out)
    r = RESULT.search(out)
    if rc == 0 and "STATS {" in out:
        return "ok", ""
    if rc == 3:
        return "error", out[-400:]
    if rc == 4:                # this part of a driver has no workload of the suites asked for
        return "none", ""
    if rc == 11:
        return "hang", r.group(0) if r else "HANG"
    if s and not (r and r.group(0).startswith("VIOL")):
        return "violation", s.group(1).strip()[:300]
    vs = [m.group(0) for m in RESULT.finditer(out) if not m.group(0).startswith("CHILD")]
    if rc in (10, 13, 14) and vs:
        return "violation", vs[-1][:300]
    if rc == 12:
        return "violation", "unbounded allocation: " + (r.group(0) if r else "")
    if rc in (96, 97, 98, 99):
        return "violation", "sanitizer stopped the program (%d): %s" % (rc, out[-300:])
    if rc == -9:
        return "error", "the driver was killed (SIGKILL)"
    if rc == -signal.SIGXCPU:
        return "hang", "an operation does not return: CPU time used up"
    if rc < 0:
        return "violation", "the driver died of signal %d" % -rc
    return "error", "driver ended with %d: %s" % (rc, out[-300:])


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


class Job:
    def __init__(self, unit, mode, args, seed, shard, shards):
        self.unit, self.mode, self.args, self.seed, self.shard, self.shards = unit, mode, args, seed, shard, shards
        self.key = "%s.%s" % (unit, mode)

    def cmd(self, binary, hashes=None):
        c = [binary] + self.args + ["--seed", str(self.seed), "--shard", "%d/%d" % (self.shard, self.shards)]
        return c + (["--hashes", hashes] if hashes else [])


def expand(pid, tier, seed):
    jobs = []
    for spec in PLAN[pid]["jobs"]:
        if spec.get("tier", tier) != tier:
            continue
        scale = spec.get("scale", 100)
        if tier == "thorough":
            scale = spec.get("tscale", scale * 12)
        shards = spec.get("shards", 1) if tier == "quick" else spec.get("tshards", max(4, spec.get("shards", 1)))
        for unit in spec["units"]:
            for mode in spec["modes"].split(","):
                a = ["--classes", spec["classes"], "--scale", str(scale)]
                if spec.get("suite"):
                    a += ["--suite", spec["suite"]]
                if spec.get("ops"):
                    a += ["--ops", str(spec["ops"])]
                if spec.get("fault"):
                    a += ["--fault", str(spec["fault"])]
                if tier == "thorough" and spec.get("depth"):
                    a += ["--depth", str(spec["depth"])]
                a += ["--cpu", str(spec.get("cpu", 40 if tier == "quick" else 300))]
                # another sequence of random choices for every way of building
                s = seed * 64 + (0 if spec.get("same") else sorted(m for m in MODES if "-" not in m).index(mode))
                jobs += [Job(unit, mode, a, s, k, shards) for k in range(shards)]
    return jobs


def main():
    pid = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    if pid not in PLAN or tier not in ("quick", "thorough"):
        print("usage: check.py PROPERTY [--tier quick|thorough]"); return 2
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    tree = tree_hash()
    # keep the build cache small
    for d in sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)[:-4]:
        if os.path.isdir(d) and os.path.basename(d) != tree and time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
    if opt.get("--replay"):
        return replay(pid, opt["--replay"], tree)
    jobs = expand(pid, tier, seed)
    if not jobs:
        print("no jobs"); return 2
    keys = sorted({(j.unit, j.mode) for j in jobs}, key=lambda k: -UNITS[k[0]].get("weight", 1))
    bins, results, stats, hashes, digests = {}, [], [], set(), {}
    stop = [None]
    known, shown = known_findings(pid), []
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            todo = {ex.submit(build, u, m, tree): (u, m) for u, m in keys}
            runs = {}
            deadline = t0 + (840 if tier == "quick" else 6 * 3600)

            def start(j, n):
                if stop[0]:
                    return None
                hf = os.path.join(tmp, "%d.h" % n)
                lim = min(RUN_WALL if tier == "quick" else 6 * 3600, max(5, deadline - time.time()))
                rc, out = run(j.cmd(bins[(j.unit, j.mode)], hf), lim, ENV)
                v, head = judge(rc, out)
                if v == "hang":      # a loaded machine is no violation: it must happen again
                    rc, out = run(j.cmd(bins[(j.unit, j.mode)], hf), lim, ENV)
                    v, head = judge(rc, out)
                    if v == "hang":
                        v = "violation"
                return j, v, head, out, hf

            pend = set(todo)
            nrun = 0
            while pend:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    if f in todo:
                        u, m = todo[f]
                        b, log = f.result()
                        if b is None:
                            if m in ("san", "null", "fast") and header_compiles() or m.startswith("cfg-") and toolchain_works(m):
                                results.append((Job(u, m, [], seed, 0, 1), "violation", "a program using the documented interface does not compile: " + first_error(log), log))
                                stop[0] = True
                            else:
                                raise Failed("cannot compile %s (%s):\n%s" % (u, m, log[-1500:]))
                            continue
                        bins[(u, m)] = b
                        for j in jobs:
                            if (j.unit, j.mode) == (u, m):
                                nf = ex.submit(start, j, nrun); nrun += 1
                                runs[nf] = j; pend.add(nf)
                    else:
                        r = f.result()
                        if r is None:
                            continue
                        j, v, head, out, hf = r
                        if v == "violation":
                            hit = [d for rx, d in known if rx.search(head.replace(" ", "_"))]
                            if hit:
                                shown += hit; continue
                            results.append((j, v, head, out)); stop[0] = True
                        elif v == "error":
                            results.append((j, v, head, out))
                        elif v == "none":
                            continue
                        else:
                            m = re.search(r"^STATS (\{.*\})$", out, re.M)
                            s = json.loads(m.group(1)); s["unit"] = j.key; stats.append(s)
                            for d in re.finditer(r"^DIGEST (\S+ \d+) (\w+)$", out, re.M):
                                digests.setdefault(d.group(1), {}).setdefault(d.group(2), []).append(j)
                            if os.path.exists(hf):
                                a = array.array("Q"); a.frombytes(open(hf, "rb").read()); hashes.update(a); os.unlink(hf)
    except Failed as e:
        print(str(e)); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if digests and not any(r[1] == "violation" for r in results):
        results += compare(digests, bins, stats)
    for d in sorted(set(shown)):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    viol = [r for r in results if r[1] == "violation"]
    errs = [r for r in results if r[1] == "error"]
    evidence(pid, tier, seed, stats, hashes, jobs, len(viol), time.time() - t0)
    if viol:
        j, _, head, out = viol[0]
        path = os.path.join("evidence", "replays", "%s-%s.txt" % (pid, hashlib.sha1((j.key + head).encode()).hexdigest()[:10]))
        with open(os.path.join(HERE, path), "w") as f:
            f.write("property: %s\nunit: %s\nmode: %s\n" % (pid, j.unit, j.mode))
            f.write("build: %s\n" % " ".join(compile_cmd(j.unit, j.mode, "driver")))
            f.write("args: %s\n" % " ".join(j.cmd("")[1:]))
            f.write("replay: python3 %s %s --replay %s\n\n%s\n\n%s\n" % (os.path.abspath(__file__), pid, path, head, out[-60000:]))
        print(head[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for j, _, head, out in errs[:3]:
            print("no verdict from %s: %s" % (j.key, head[:800]))
        return 2
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    if not tot("cases") or not tot("checks"):
        print("no verdict: nothing was executed"); return 2
    print("%s held: %d executions, %d distinct non-trivial histories, %d operations, %d comparisons with the oracle, %.1f s"
          % (pid, tot("cases"), len(hashes) if hashes else tot("distinct"), tot("ops"), tot("checks"), time.time() - t0))
    return 0


def compare(digests, bins, stats):
    """The same history must give the same observations in every configuration."""
    n = 0
    for name in sorted(digests, key=lambda x: (x.split(".")[0].zfill(9), int(x.split()[1]))):
        by = sorted(digests[name].items(), key=lambda kv: -len(kv[1]))
        n += sum(len(v) for _, v in by) - 1
        if len(by) > 1:
            a, b = by[0][1][0], by[1][1][0]
            kind, case = name.split(".")[0], name.split()[1]
            if kind.isdigit():
                outs = [run(j.cmd(bins[(j.unit, j.mode)]) + ["--kind", kind, "--case", case], 120, ENV)[1].splitlines() for j in (a, b)]
            else:
                outs = [[], []]
            first = next((k for k, (x, y) in enumerate(zip(*outs)) if x != y), 0)
            log = "\n".join(["history up to the first difference (%s):" % a.mode] + [x[:400] for x in outs[0][max(0, first - 30):first + 1]] + ["in %s instead:" % b.mode] + [x[:400] for x in outs[1][first:first + 1]])
            head = "VIOL class=model key=configuration config=%s: %s observes something else than %s in the same history" % (name, ",".join(sorted({j.mode for _, v in by[1:] for j in v})), a.mode)
            return [(b, "violation", head, log)]
    if stats:
        stats[0]["digest_comparisons"] = n
    return []


def first_error(log):
    m = re.search(r"^.*\berror:.*$", log, re.M)
    return (m.group(0) if m else log[-300:])[:400]


def evidence(pid, tier, seed, stats, hashes, jobs, nviol, wall):
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    p = PLAN[pid]
    samples, seen = [], set()
    for s in sorted(stats, key=lambda s: s["unit"]):
        for x in s.get("samples", [])[:2]:
            c = x.split(":")[0]
            if c not in seen and len(samples) < 10:
                seen.add(c); samples.append(x[:1200])
    cov = {
        "evaluations": tot("cases"), "distinct_nontrivial": len(hashes) if hashes else tot("distinct"),
        "rule": RULES.get(p.get("rule", "history"), p.get("rule", "")),
        "samples": samples or ["no execution completed"],
        "operations": tot("ops"), "oracle_comparisons": tot("checks"), "abstract_states_seen_per_unit_sum": tot("states"),
        "workload_configurations": tot("configs"),
    }
    for k, name in (("exhaustive_cases", "exhaustively_enumerated_histories"), ("exhaustive_configs", "completed_exhaustive_configurations"), ("maxsize", None), ("forks", "child_processes_observed"),
                    ("faults", "injected_allocation_failures"), ("stops", "fail_stops_observed"), ("survived", "failures_survived_as_specified"),
                    ("elements_constructed", "element_constructions_monitored"), ("elements_copied", "element_copies_monitored"), ("allocations", "allocator_calls_monitored"), ("switches", "thread_switches_observed"), ("digest_comparisons", "digests_compared_between_configurations")):
        if name and tot(k):
            cov[name] = tot(k)
    if stats:
        cov["largest_container"] = max(s.get("maxsize", 0) for s in stats)
    ig = {}
    for s in stats:
        for k, v in s.get("ignored", {}).items():
            ig[k] = ig.get(k, 0) + v
    if ig:
        cov["observations_of_other_properties_not_judged_here"] = ig
    cov["units"] = sorted({j.key for j in jobs})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "exploration"), "coverage": cov,
          "assumptions": ASSUME + p.get("assume", []), "wall_s": round(wall, 2), "violations": nviol}
    t = os.path.join(EVID, pid + ".json.tmp%d" % os.getpid())
    with open(t, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(t, os.path.join(EVID, pid + ".json"))


def replay(pid, path, tree):
    txt = open(path if os.path.exists(path) else os.path.join(HERE, path)).read()
    g = lambda k: re.search(r"^%s: (.*)$" % k, txt, re.M).group(1)
    b, log = build(g("unit"), g("mode"), tree)
    if not b:
        print(log[-3000:]); print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    rc, out = run([b] + g("args").split(), RUN_WALL, ENV)
    v, head = judge(rc, out)
    print(out[-6000:])
    if v in ("violation", "hang"):
        print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    return 0 if v == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
