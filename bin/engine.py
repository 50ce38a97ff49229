"""Solver-based checking engine: encodes /repo's current sources with CBMC,
decides the harness assertions with a SAT/SMT back end, replays every
counterexample (and every reachability witness) against a native build of the
same sources, and writes the evidence file."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BASE_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
               "--div-by-zero-check", "--unwinding-assertions"]
NCPU = os.cpu_count() or 4
TOTAL_MEM_GB = 28


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, cwd=cwd, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


class EngineError(Exception):
    pass


class Build:
    """Compiles /repo's sources (as the project's own CMake lists them)."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.cache = {}
        cm = os.path.join(work, "cm")
        rc, out, err = sh(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja",
                           "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                           "-DBUILD_TESTING=OFF", "-DBUILD_EXAMPLE=OFF",
                           "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        if rc:
            raise EngineError("cmake failed:\n" + out + err)
        ents = json.load(open(os.path.join(cm, "compile_commands.json")))
        self.sources, self.flags = {}, []
        for e in ents:
            words = e["command"].split()
            self.sources[os.path.basename(e["file"])] = e["file"]
            if not self.flags:
                self.flags = [w for w in words if w.startswith(("-D", "-I"))]
        if not self.sources:
            raise EngineError("no sources in compile_commands.json")

    def job_flags(self, job):
        flags = [f for f in self.flags if f[2:].split("=")[0] not in job.get("undefs", [])]
        for d in job.get("defines", []):
            name = d.split("=")[0]
            flags = [f for f in flags if f != "-D" + name and not f.startswith("-D" + name + "=")]
            flags.append("-D" + d)
        return flags

    def _once(self, key, fn):
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None:
                ent[1] = fn()
        return ent[1]

    def src_list(self, job):
        ex = set(job.get("exclude", [])) | {"wt_200k_G.c", "eas_report.c"}
        if job.get("full_lib"):
            ex.discard("wt_200k_G.c")
        only = job.get("only")
        return [s for n, s in sorted(self.sources.items())
                if n not in ex and (only is None or n in only)] + [os.path.join(HARN, "stub_report.c")]

    def goto_obj(self, src, job, flags):
        cut = sorted(set(job.get("cut", [])) | set(job.get("cut_in", {}).get(os.path.basename(src), [])))
        key = ("g", src, tuple(flags), tuple(cut))

        def mk():
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
            o = os.path.join(self.work, h + ".gb")
            csrc = src
            if os.path.basename(src) == "eas_config.c":
                # the module tables declare every interface as 'extern EAS_VOID_PTR';
                # give the declarations their real types so the linker accepts them
                text = open(src, errors="replace").read()
                text = re.sub(r"^extern EAS_VOID_PTR(\s+EAS_\w*Parser\s*;)", r"extern EAS_CONST S_FILE_PARSER_INTERFACE\1", text, flags=re.M)
                text = re.sub(r"^extern EAS_VOID_PTR(\s+EAS_(?:Reverb|Chorus)\s*;)", r"extern EAS_CONST S_EFFECTS_INTERFACE\1", text, flags=re.M)
                csrc = os.path.join(self.work, h + "_config.c")
                open(csrc, "w").write('#include "eas_types.h"\n#include "eas.h"\n#include "eas_parser.h"\n#include "eas_effects.h"\n#line 1 "%s"\n' % src + text)
            rc, out, err = sh(["goto-cc", "-D__CPROVER__=1", "-c", csrc, "-o", o] + flags +
                              (["-I" + os.path.dirname(src)] if csrc != src else []))
            if rc:
                raise EngineError("goto-cc %s:\n%s%s" % (src, out, err))
            if cut:
                text = open(src, errors="replace").read()
                for f in cut:
                    if not re.search(r"\b%s\b" % re.escape(f), text):
                        continue
                    o2 = o + "x"
                    rc, out, err = sh(["goto-instrument", "--remove-function-body", f, o, o2])
                    if rc == 0 and os.path.exists(o2):
                        os.replace(o2, o)
            return o
        return self._once(key, mk)

    def goto_bin(self, job):
        flags = self.job_flags(job)
        objs = [self.goto_obj(s, job, flags) for s in self.src_list(job)]
        if job.get("memloops"):
            objs = objs + [self.goto_obj(os.path.join(HARN, "stub_mem.c"), job, flags)]
        out = os.path.join(self.work, job["name"] + ".bin")
        harness = os.path.join(HARN, job["harness"])
        rc, o, e = sh(["goto-cc", "-D__CPROVER__=1", "-I" + HARN] + flags +
                      ["-D" + d for d in job.get("hdefines", [])] +
                      [harness] + objs + ["--function", "harness", "-o", out])
        if rc:
            raise EngineError("goto-cc link %s:\n%s%s" % (job["name"], o[-3000:], e[-3000:]))
        out2 = out + ".d"
        rc, o, e = sh(["goto-instrument", "--drop-unused-functions", "--slice-global-inits", out, out2])
        if rc == 0 and os.path.exists(out2):
            out = out2
        elif job.get("debug"):
            print(o, e)
        return out

    def defined(self, src, flags):
        """Global functions a C file defines."""
        def mk():
            h = hashlib.sha1(repr(("d", src, flags)).encode()).hexdigest()[:16]
            o = os.path.join(self.work, h + ".o")
            rc, so, se = sh(["gcc", "-w", "-O0", "-I" + HARN] + flags + ["-c", src, "-o", o])
            if rc:
                raise EngineError("gcc %s: %s" % (src, se[-2000:]))
            rc, so, se = sh(["nm", "--defined-only", "-g", o])
            return frozenset(l.split()[-1] for l in so.splitlines() if len(l.split()) == 3 and l.split()[1] in "TW")
        return self._once(("d", src, tuple(flags)), mk)

    def complete(self, job, missing):
        """Add the sources that define the missing functions to the job."""
        flags = self.job_flags(job)
        have = set(self.defined(os.path.join(HARN, job["harness"]), flags + ["-D" + d for d in job.get("hdefines", [])]))
        cur = self.src_list(job)
        for s in cur:
            have |= self.defined(s, flags)
        added = False
        for n, s in sorted(self.sources.items()):
            if s in cur or n in ("wt_200k_G.c", "eas_report.c") or job.get("only") is None:
                continue
            d = self.defined(s, flags)
            if d & set(missing):
                job["only"] = list(job["only"]) + [n]
                job["cut_in"] = dict(job.get("cut_in", {}))
                job["cut_in"][n] = sorted(d & have)
                have |= d
                added = True
        return added

    def native_bin(self, job):
        def mk():
            flags = self.job_flags(job)
            cut = sorted(job.get("cut", []))
            san = ["-fsanitize=address,bounds,integer-divide-by-zero,null",
                   "-fno-sanitize-recover=all"]
            base = ["gcc", "-w", "-g", "-O1", "-fPIC", "-fno-inline", "-fno-builtin-memcpy"] + san

            def comp(src, cut=cut):
                cut = sorted(set(cut) | set(job.get("cut_in", {}).get(os.path.basename(src), [])))
                h = hashlib.sha1(repr(("n", src, flags, cut)).encode()).hexdigest()[:16]
                o = os.path.join(self.work, h + ".o")

                def c1():
                    rc, so, se = sh(base + flags + ["-c", src, "-o", o])
                    if rc:
                        raise EngineError("gcc %s: %s" % (src, se[-2000:]))
                    if cut:
                        sh(["objcopy"] + ["--weaken-symbol=" + f for f in cut] + [o])
                    return o
                return self._once(("n", src, tuple(flags), tuple(cut)), c1)
            objs = [comp(s) for s in self.src_list(job)]
            out = os.path.join(self.work, job["name"] + ".native")
            rc, so, se = sh(base + ["-I" + HARN] + flags + ["-D" + d for d in job.get("hdefines", [])] +
                            [os.path.join(HARN, job["harness"]), os.path.join(HARN, "replay_rt.c")] +
                            objs + ["-o", out, "-lm", "-Wl,--unresolved-symbols=ignore-all"])
            if rc:
                raise EngineError("native link %s: %s" % (job["name"], se[-3000:]))
            return out
        return self._once(("nb", job["name"]), mk)


def parse_inputs(trace):
    """The ordered list of nd_*() results along the trace."""
    vals = []
    for st in trace:
        if st.get("stepType") != "input" or st.get("inputID") != "nd":
            continue
        val = 0
        v = st.get("values") or []
        if v:
            m = re.match(r"-?\d+", str(v[0].get("data")))
            if m:
                val = int(m.group(0))
            elif v[0].get("binary"):
                val = int(v[0]["binary"], 2)
        if val >= 1 << 63:
            val -= 1 << 64
        vals.append(val)
    return {i + 1: v for i, v in enumerate(vals)}


def native_run(binary, vals, work, timeout=20):
    fd, path = tempfile.mkstemp(dir=work, suffix=".vals")
    with os.fdopen(fd, "w") as f:
        for k in sorted(vals):
            f.write("%d %d\n" % (k, vals[k]))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=43")
    try:
        rc, out, err = sh(["setarch", "-R", binary, path] if shutil.which("setarch") else [binary, path],
                          timeout=timeout, env=env, cwd=work)
    except subprocess.TimeoutExpired:
        return "hang", "no termination within %ds" % timeout
    if rc not in (0, 42, 43, 77, 78) and "REPLAY" not in err and shutil.which("setarch"):
        try:
            rc, out, err = sh([binary, path], timeout=timeout, env=env, cwd=work)
        except subprocess.TimeoutExpired:
            return "hang", "no termination within %ds" % timeout
    tail = "\n".join(err.splitlines()[:25])
    if rc == 0:
        return "ok", tail
    if rc == 42:
        return "check-failed", tail
    if rc == 77:
        return "assume", tail
    if rc == 78:
        return "error", tail
    return "crash", tail


def run_cbmc(job, gb, work):
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--verbosity", "8", "--object-bits", str(job.get("object_bits", 10))]
    cmd += job.get("checks", BASE_CHECKS)
    cmd += ["--unwind", str(job.get("unwind", 4))]
    if job.get("unwindset"):
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in job["unwindset"].items())]
    solver = job.get("solver", "cadical")
    if solver in ("z3", "cvc5"):
        cmd += ["--" + solver]
    elif solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    else:
        cmd += ["--sat-solver", solver]
    if job.get("slice", True):
        cmd += ["--slice-formula"]
    cmd += job.get("malloc", ["--no-malloc-may-fail"])
    cmd += job.get("cbmc_args", [])
    mem = int(job.get("mem", 6))
    outp = os.path.join(work, job["name"] + ".json")
    t0 = time.time()
    with open(outp, "wb") as f:
        p = subprocess.Popen(["bash", "-c", "ulimit -v %d; exec \"$@\"" % (mem * 1024 * 1024), "x"] + cmd,
                             stdout=f, stderr=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout=job.get("timeout", 240))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            rc = "timeout"
    wall = time.time() - t0
    res = {"rc": rc, "wall": wall, "cmd": " ".join(cmd)}
    raw = open(outp, "r", errors="replace").read()
    try:
        data = json.loads(raw)
    except ValueError:
        data = []
        try:
            data = json.loads(raw.rstrip().rstrip(",") + "]")
        except ValueError:
            pass
    msgs, results = [], None
    for d in data:
        if "messageText" in d:
            msgs.append(d["messageText"])
        if "result" in d:
            results = d["result"]
    text = "\n".join(msgs)
    def num(rx, cast=int, allm=False):
        m = re.findall(rx, text)
        if not m:
            return 0
        return sum(cast(x) for x in m) if allm else cast(m[-1])
    res.update(steps=num(r"size of program expression: (\d+) steps"),
               sliced=num(r"slicing removed (\d+) assignments"),
               vccs=num(r"Generated (\d+) VCC"),
               vccs_left=num(r"VCC\(s\), (\d+) remaining"),
               variables=num(r"(\d+) variables"), clauses=num(r"variables, (\d+) clauses"),
               solver_s=num(r"Runtime Solver: ([0-9.e+-]+)s", float, True),
               symex_s=num(r"Runtime Symex: ([0-9.e+-]+)s", float, True),
               queries=len(re.findall(r"Runtime Solver:", text)) or 0)
    res["nobody"] = sorted(set(re.findall(r"no body for (?:function|callee) '?([A-Za-z0-9_]+)", text)))
    res["results"] = results
    if results is None and rc != "timeout":
        res["error"] = text[-1500:]
    os.unlink(outp)
    return res




def reachable_functions(gb):
    rc, out, err = sh(["goto-instrument", "--reachable-call-graph", gb])
    fs = set()
    for m in re.finditer(r"^(\S+) -> (\S+)$", out, re.M):
        fs.add(m.group(1)); fs.add(m.group(2))
    return {f for f in fs if not f.startswith(("__CPROVER", "nd_", "nondet_", "verif_"))}


INTERNAL_LIB = re.compile(r"^(malloc|free|calloc|realloc|memcpy|memset|memcmp|memmove|exit|abort|strlen|printf|fprintf|vfprintf|__builtin.*)$")


def classify(desc, prop):
    if desc.startswith("REACH:"):
        return "reach"
    if desc.startswith("CHECK:"):
        return "check"
    if "unwinding assertion" in desc or ".unwind." in prop:
        return "unwind"
    if "recursion unwinding" in desc:
        return "unwind"
    if desc.startswith("pointer relation") or desc.startswith("pointer arithmetic"):
        return "relation"       # an address is computed or compared but not used: not observable
    return "safety"


def run_job(job, build, work, depth=0):
    """Decides one job. A loop that needs more iterations than the stated bound (code written
    differently) is unrolled further instead of giving no answer."""
    r = run_job_at(job, build, work)
    if r["status"] == "unconfirmed" and depth < 2 and all(f["kind"] == "unwind" for f in r["failures"]):
        deeper = dict(job, unwind=2 * job.get("unwind", 4) + 2)
        r = run_job(deeper, build, work, depth + 1)
        r["notes"].insert(0, "unrolled to %d" % deeper["unwind"])
    return r


def run_job_at(job, build, work):
    r = {"job": job["name"], "status": "undecided", "notes": []}
    t0 = time.time()
    try:
        gb = build.goto_bin(job)
    except EngineError as e:
        r["status"] = "error"; r["notes"].append(str(e)[-3000:])
        return r
    r["functions"] = sorted(reachable_functions(gb))
    c = run_cbmc(job, gb, work)
    for _ in range(4):
        # the code under test calls something outside the encoded files: encode that too
        miss = [f for f in c["nobody"] if not f.startswith(("nd_", "nondet_", "__CPROVER", "__builtin"))]
        if not miss or c["rc"] == "timeout":
            break
        try:
            if not build.complete(job, miss):
                r["status"] = "error"
                r["notes"].append("no definition for %s" % ", ".join(miss))
                c["results"] = None
                break
            gb = build.goto_bin(job)
            r["functions"] = sorted(reachable_functions(gb))
        except EngineError as e:
            r["status"] = "error"; r["notes"].append(str(e)[-3000:])
            return r
        c = run_cbmc(job, gb, work)
    r["cbmc"] = {k: v for k, v in c.items() if k not in ("results",)}
    r["wall_s"] = round(time.time() - t0, 2)
    if c["results"] is None:
        if r["status"] != "error":
            r["status"] = "timeout" if c["rc"] == "timeout" else "error"
        if c.get("error"):
            r["notes"].append(c["error"])
        return r
    tally = {"check": 0, "safety": 0, "unwind": 0, "reach": 0, "relation": 0}
    fails, reach_bad, witnesses, undec = [], [], [], []
    for p in c["results"]:
        kind = classify(p.get("description", ""), p.get("property", ""))
        tally[kind] += 1
        if kind == "reach":
            if p["status"] == "FAILURE":
                witnesses.append(p)
            else:
                reach_bad.append(p["description"])
        elif kind == "relation":
            pass
        elif p["status"] == "FAILURE":
            fails.append((kind, p))
        elif p["status"] != "SUCCESS":
            undec.append(p["property"])
    r["tally"] = tally
    r["reach_bad"] = reach_bad
    r["undec"] = undec
    r["failures"], r["witness"] = [], []
    order = {"check": 0, "safety": 1, "unwind": 2}
    fails.sort(key=lambda x: order[x[0]])
    seen = 0
    for kind, p in fails:
        if seen >= 6:
            break
        seen += 1
        vals = parse_inputs(p.get("trace", []))
        loc = p.get("sourceLocation") or {}
        f = {"kind": kind, "desc": p.get("description", ""), "property": p.get("property"),
             "where": "%s:%s %s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", "")),
             "inputs": vals}
        try:
            nb = build.native_bin(job)
            f["replay"], f["replay_output"] = native_run(nb, vals, work, job.get("replay_timeout", 20))
        except EngineError as e:
            f["replay"], f["replay_output"] = "error", str(e)
        f["confirmed"] = f["replay"] in ("check-failed", "crash", "hang")
        r["failures"].append(f)
    if job.get("replay_witness", True) and witnesses:
        for p in witnesses[: job.get("max_witness", 3)]:
            vals = parse_inputs(p.get("trace", []))
            w = {"desc": p["description"], "inputs": vals}
            try:
                nb = build.native_bin(job)
                w["replay"], w["replay_output"] = native_run(nb, vals, work, job.get("replay_timeout", 20))
            except EngineError as e:
                w["replay"], w["replay_output"] = "error", str(e)
            r["witness"].append(w)
            if w["replay"] in ("check-failed", "crash"):
                r["failures"].append({"kind": "witness", "desc": w["replay_output"].splitlines()[0] if w["replay_output"] else "crash",
                                      "property": p["property"], "where": "", "inputs": vals,
                                      "replay": w["replay"], "replay_output": w["replay_output"], "confirmed": True})
    if any(f["confirmed"] for f in r["failures"]):
        r["status"] = "violated"
    elif r["failures"]:
        r["status"] = "unconfirmed"
    elif reach_bad:
        r["status"] = "vacuous"
    elif undec:
        r["status"] = "undecided"
    else:
        r["status"] = "held"
    r["wall_s"] = round(time.time() - t0, 2)
    return r


class Pool:
    """Runs jobs in parallel within the CPU and memory budget."""

    def __init__(self):
        self.cv = threading.Condition()
        self.mem = 0
        self.cpu = 0

    def run(self, job, fn):
        m = int(job.get("mem", 6))
        m_eff = min(m, job.get("mem_expect", 3))
        with self.cv:
            self.cv.wait_for(lambda: self.cpu < NCPU and (self.mem + m_eff <= TOTAL_MEM_GB or self.cpu == 0))
            self.cpu += 1; self.mem += m_eff
        try:
            return fn()
        finally:
            with self.cv:
                self.cpu -= 1; self.mem -= m_eff
                self.cv.notify_all()


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def run_property(prop, spec, tier, only=None, keep=False, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    for j in jobs:
        if tier == "thorough":
            j.update(j.get("thorough", {}))
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    evdir = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    try:
        build = Build(work)
        pool = Pool()
        jobs.sort(key=lambda j: -j.get("cost", 10))
        with ThreadPoolExecutor(max_workers=max(8, NCPU)) as ex:
            futs = [ex.submit(pool.run, j, (lambda j=j: run_job(j, build, work))) for j in jobs]
            results = [f.result() for f in futs]
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    violations, lines = 0, []
    for job, r in zip(jobs, results):
        if verbose or r["status"] != "held":
            c = r.get("cbmc", {})
            print("[%s] %-11s %s steps=%s vccs=%s vars=%s solver=%.1fs wall=%.1fs" % (
                r["job"], r["status"], r.get("tally"), c.get("steps"), c.get("vccs_left"), c.get("variables"),
                c.get("solver_s", 0), r.get("wall_s", 0)))
            for n in r["notes"]:
                print("    note:", n)
            if r.get("undec"):
                print("    undecided:", r["undec"][:8])
            for b in r.get("reach_bad", []):
                print("    unreachable:", b)
            if verbose and c.get("nobody"):
                print("    no body:", c["nobody"])
        for i, f in enumerate(r.get("failures", [])):
            path = os.path.join(evdir, "replay", "%s-%s-%d.json" % (prop, r["job"], i))
            with open(path, "w") as fh:
                json.dump({"property": prop, "job": r["job"], "harness": job["harness"], **f}, fh, indent=1)
            head = "    %s %s at %s -> replay %s" % (f["kind"], f["desc"], f["where"], f["replay"])
            print(head)
            if verbose:
                print("      inputs", list(f["inputs"].values()))
                print("      " + "\n      ".join(f["replay_output"].split("\n")[:5]))
            kf = next((k for k in known if k.get("job") == r["job"] and re.search(k["match"], f["desc"] + " @ " + f["where"] + " " + f.get("replay_output", "").split("\n")[0])), None)
            if kf:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            elif f["confirmed"]:
                violations += 1
                lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    write_evidence(prop, spec, tier, seed, jobs, results, violations, time.time() - t0, evdir)
    for l in dict.fromkeys(lines):
        print(l)
    decided = [r for r in results if r["status"] == "held"]
    bad = [r for r in results if r["status"] in ("error", "vacuous")]
    if violations:
        return 1
    if bad:
        return 2
    if not decided and not lines:
        return 2
    return 0


def write_evidence(prop, spec, tier, seed, jobs, results, violations, wall, evdir):
    fn_repo = set()
    for r in results:
        fn_repo |= set(r.get("functions", []))
    fn_repo = sorted(f for f in fn_repo if not INTERNAL_LIB.match(f))
    cs = [r.get("cbmc", {}) for r in results]
    samples = []
    for r in results:
        for w in r.get("witness", []):
            if len(samples) < 8:
                iv = w["inputs"]
                samples.append({"job": r["job"], "reached": w["desc"],
                                "symbolic_inputs_assigned_by_solver": {str(k): iv[k] for k in sorted(iv)[:24]},
                                "native_replay": w["replay"]})
    cov = {
        "states": sum(c.get("steps", 0) for c in cs),
        "transitions": sum(max(0, c.get("steps", 0) - c.get("sliced", 0)) for c in cs),
        "meaning": "states = symbolic program states (SSA steps of the unrolled program); transitions = the SSA steps left after slicing, i.e. the transition relation given to the solver; each stands for all concrete values of the symbolic inputs within the bounds",
        "traces_validated_against_impl": sum(1 for r in results for w in r.get("witness", []) if w["replay"] == "ok"),
        "samples": samples,
        "queries": {"harnesses": len(results), "solver_calls": sum(c.get("queries", 0) for c in cs),
                    "assertions_generated": sum(c.get("vccs", 0) for c in cs),
                    "assertions_sent_to_solver": sum(c.get("vccs_left", 0) for c in cs),
                    "boolean_variables": sum(c.get("variables", 0) for c in cs),
                    "clauses": sum(c.get("clauses", 0) for c in cs)},
        "solver_seconds": round(sum(c.get("solver_s", 0) for c in cs), 2),
        "symex_seconds": round(sum(c.get("symex_s", 0) for c in cs), 2),
        "functions_encoded": fn_repo,
        "unbodied_functions": sorted({n for c in cs for n in c.get("nobody", [])}),
        "harnesses": [{
            "name": r["job"], "verdict": r["status"], "what": j.get("what", ""),
            "bounds": {"unwind": j.get("unwind", 4), "unwindset": j.get("unwindset", {}), "text": j.get("bounds", "")},
            "cut_or_stubbed": j.get("cut", []), "defines": j.get("defines", []) + j.get("hdefines", []),
            "assertions": r.get("tally", {}), "unreached": r.get("reach_bad", []),
            "solver": j.get("solver", "cadical"),
            "solver_s": round(r.get("cbmc", {}).get("solver_s", 0), 2), "wall_s": r.get("wall_s", 0),
        } for j, r in zip(jobs, results)],
        "not_decided": [r["job"] for r in results if r["status"] not in ("held", "violated")],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": violations}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
