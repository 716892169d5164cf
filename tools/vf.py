#!/usr/bin/env python3
"""Driver of the contract-based checks: builds the verifier and the bitcode of /repo's current sources, discharges the
obligations of one property, replays counterexamples natively, writes the evidence file.

  vf.py check C01 [--tier quick|thorough]      the registered check
  vf.py run C01 P_int8 [odcv options]          one harness, verbose (development)
"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, concurrent.futures as cf, hashlib, signal

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
E = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"
NCPU = os.cpu_count() or 8
sys.path.insert(0, os.path.join(V, "tools"))
INC = [f"-I{REPO}/src", f"-I{E}/include", f"-I{E}/include/eckit/sql", f"-I{E}/include/eckit", f"-I{V}/harness"]
CXX = "-std=gnu++17 -O1 -Xclang -disable-llvm-passes -g1 -DNDEBUG -fno-access-control -fno-discard-value-names -Dodccore_EXPORTS -w -emit-llvm -c".split()
SANF = "-std=gnu++17 -fPIC -O0 -g1 -DNDEBUG -fno-access-control -w -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=all -DV_NATIVE -c".split()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def core_sources():
    s = []
    for d in ("core", "codec", "api"):
        s += sorted(glob.glob(f"{REPO}/src/odc/{d}/*.cc"))
    for f in ("MDI", "ODBAPISettings", "LibOdc", "ODBAPIVersion"):
        s.append(f"{REPO}/src/odc/{f}.cc")
    return [x for x in s if os.path.exists(x)]


def lib_sources():
    """every source file of the library (not the command line tools), except those that are templates included elsewhere"""
    inc = set()
    for h in glob.glob(f"{REPO}/src/odc/**/*.h", recursive=True):
        inc |= set(re.findall(r'#include "(?:odc/)?([^"]*\.cc)"', open(h, errors="replace").read()))
    out = []
    for s in sorted(glob.glob(f"{REPO}/src/odc/**/*.cc", recursive=True)):
        r = os.path.relpath(s, f"{REPO}/src/odc")
        if not r.startswith("tools/") and r not in inc:
            out.append(s)
    return out


EXTRA = {  # further translation units for properties that reach beyond core/codec/api
    "tools": ["Writer", "WriterBufferingIterator", "Reader", "ReaderIterator", "IteratorProxy", "csv/TextReader", "csv/TextReaderIterator",
              "Comparator", "StringTool", "TemplateParameters", "DispatchingWriter", "ODAHandle", "CommandLineParser"],
    "sql": ["Select", "SelectIterator", "sql/ODAOutput", "sql/SQLSelectOutput", "sql/TODATable", "sql/TODATableIterator", "sql/Types", "sql/SQLOutputConfig"],
}


def gen_headers(out):
    g = os.path.join(out, "gen")
    os.makedirs(g, exist_ok=True)
    ver = open(f"{REPO}/VERSION").read().strip() if os.path.exists(f"{REPO}/VERSION") else "0.0.0"
    ma, mi, pa = (ver.split(".") + ["0", "0", "0"])[:3]
    open(f"{g}/odc_config.h", "w").write(f'''#pragma once
#define odc_VERSION_STR "{ver}"
#define odc_VERSION "{ver}"
#define odc_VERSION_MAJOR {ma}
#define odc_VERSION_MINOR {mi}
#define odc_VERSION_PATCH {pa}
#define odc_INSTALL_PREFIX "/usr/local"
#define odc_BINARY_DIR "/nowhere"
#define odc_GIT_SHA1 "0123456789abcdef0123456789abcdef01234567"
''')
    open(f"{g}/odc_ecbuild_config.h", "w").write("#pragma once\n")
    t = open(f"{REPO}/src/odc/ODBAPIVersionSHA1.cc.in").read().replace("@odc_GIT_SHA1@", "0123456789abcdef0123456789abcdef01234567")
    open(f"{g}/ODBAPIVersionSHA1.cc", "w").write(t)
    return g


def objname(p):
    return re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(p, "/"))


def par(jobs):
    """jobs: list of (cmd, what)"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda j: (j[1], *sh(j[0])), jobs))
    for what, rc, o in rs:
        if rc:
            raise BuildError(f"{what}\n{o[-4000:]}")


class Build:
    def __init__(self, out):
        self.out = out
        os.makedirs(out, exist_ok=True)

    def fresh(self, target, src):
        """development only (VF_CACHE): reuse an object newer than everything it could depend on"""
        if "VF_CACHE" not in os.environ or not os.path.exists(target):
            return False
        t = os.path.getmtime(target)
        deps = [src] + glob.glob(f"{V}/harness/*.h") + (glob.glob(f"{REPO}/src/odc/**/*.h", recursive=True) if True else [])
        return all(os.path.getmtime(d) < t for d in deps)

    def engine(self):
        e = os.path.join(self.out, "odcv")
        if "VF_CACHE" in os.environ and os.path.exists(e) and all(os.path.getmtime(f) < os.path.getmtime(e) for f in glob.glob(f"{V}/engine/*.*")):
            return e, None
        return e, ["bash", f"{V}/engine/build.sh", self.out]

    def prepare(self, extra=()):
        """engine, bitcode of the models and of every source file of /repo the property reaches, linked"""
        g = gen_headers(self.out)
        self.inc = [f"-I{g}"] + INC
        jobs, objs = [], []
        self.odcv, ecmd = self.engine()
        if ecmd:
            jobs.append((ecmd, "building the verifier"))
        srcs = core_sources() + [f"{g}/ODBAPIVersionSHA1.cc"]
        for grp in extra:
            srcs += [p for p in (f"{REPO}/src/odc/{x}.cc" for x in EXTRA[grp]) if os.path.exists(p)]
        for s in [m for m in sorted(glob.glob(f"{V}/models/*.cc")) if "sql" in extra or not m.endswith("eckitsql.cc")] + srcs:
            o = os.path.join(self.out, objname(s) + ".bc")
            objs.append(o)
            if not self.fresh(o, s):
                jobs.append((["clang++"] + CXX + self.inc + [f"-I{V}/models", "-include", f"{V}/models/vthread.h", s, "-o", o], "compiling " + s))
        for s in sorted(glob.glob(f"{V}/models/*.c")):
            o = os.path.join(self.out, objname(s) + ".bc")
            objs.append(o)
            if not self.fresh(o, s):
                jobs.append((["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-builtin", "-w", "-emit-llvm", "-c", s, "-o", o], "compiling " + s))
        par(jobs)
        self.core = os.path.join(self.out, f"core{'-'.join(extra)}.bc")
        par([(["llvm-link-18"] + objs + ["-o", self.core], "linking")])

    def harness(self, h, extra=()):
        s = f"{V}/harness/{h}.cc"
        o = os.path.join(self.out, objname(s) + ".bc")
        if not self.fresh(o, s):
            par([(["clang++"] + CXX + self.inc + [s, "-o", o], "compiling " + s)])
        m = os.path.join(self.out, h + ".bc")
        par([(["llvm-link-18", self.core, o, "-o", m], "linking " + h)])
        return m

    def bitcode(self, harnesses, extra=()):
        self.prepare(extra)
        return {h: self.harness(h, extra) for h in harnesses}

    def native(self, h, extra=(), mode=""):
        """sanitized native build of the harness against /repo's current sources and the real eckit; mode "sched": the tasks
        run under the scheduler of models/thread.cc, so that a recorded schedule replays; "tsan": free threads, ThreadSanitizer"""
        d = os.path.join(self.out, "native" + mode)
        os.makedirs(d, exist_ok=True)
        g = gen_headers(self.out)
        inc = [f"-I{g}"] + INC
        srcs = lib_sources() + [f"{g}/ODBAPIVersionSHA1.cc", f"{V}/harness/native.cc", f"{V}/harness/{h}.cc"]
        flags, san = SANF, "address,undefined"
        if mode == "sched":
            srcs += [f"{V}/models/thread.cc", f"{V}/harness/native_sched.cc"]
            inc = inc + ["-include", f"{V}/models/vthread.h"] + [f"-Dpthread_mutex_{x}=v_pthread_mutex_{x}" for x in ("lock", "unlock", "trylock")]
        if mode == "tsan":
            san = "thread"
            flags = [x for x in SANF if "sanitize" not in x] + ["-fsanitize=thread"]
        jobs, objs = [], []
        for s in srcs:
            o = os.path.join(d, objname(s) + ".o")
            objs.append(o)
            if not self.fresh(o, s):
                jobs.append((["g++"] + flags + inc + [s, "-o", o], "compiling " + s))
        par(jobs)
        exe = os.path.join(d, h)
        L = f"{E}/lib64"
        par([(["g++", "-fsanitize=" + san, "-o", exe] + objs + [f"-L{L}", "-leckit_sql", "-leckit", f"-Wl,-rpath,{L}", "-lpthread", "-ldl", "-rdynamic"], "linking native " + h)])
        return exe


def odcv(b, mod, h, outjson, budget, qtime, opts=()):
    cmd = [b.odcv, mod, "--harness", h, "--out", outjson, "--time", str(budget), "--qtime", str(qtime)] + list(opts)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 60)
        rc, err = r.returncode, r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = -9, "killed: over its budget"
    try:
        j = json.load(open(outjson))
    except Exception:
        j = {"harness": h, "verdict": "incomplete", "errors": {"verifier produced no result rc=%s %s" % (rc, err): 1}, "obligations": [], "functions": []}
    j["wall"] = time.time() - t
    return j


def list_harnesses(b, mod):
    rc, o = sh([b.odcv, mod, "--list"])
    return [x for x in o.split() if re.match(r"[PB]_", x)]


def replay_text(pid, hfile, h, name, w, note):
    lines = [f"# property {pid}, harness {hfile}.cc:{h}, obligation {name}", "# replay: python3 /verif/tools/vf.py replay <this file>"]
    lines += ["# " + x for x in note.splitlines()]
    return "\n".join(lines + [f"{n} {v}" for n, v in w]) + "\n"


def native_run(exe, h, w, timeout=120, env={}):
    env0, d = env, tempfile.mkdtemp(prefix="vfr_")
    try:
        f = os.path.join(d, "in")
        open(f, "w").write("\n".join(f"{n} {v}" for n, v in w) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=8000:hard_rss_limit_mb=12000", UBSAN_OPTIONS="print_stacktrace=1", HOME=d, TMPDIR=d, **env0)
        p = subprocess.Popen([exe, h, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=d, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
            return "hang", (o or "") + "\nREPLAY-FAIL terminates (no answer after %d s)" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    """known_findings.json: [{property, harness, obligation, what, match?}]; match: a regular expression on where/detail"""
    try:
        k = json.load(open(f"{V}/known_findings.json"))
    except FileNotFoundError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == pid]


def check(pid, tier):
    import spec
    t0 = time.time()
    P = spec.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    extra = P.get("extra", ())
    tmp = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    edir = f"{V}/evidence"
    os.makedirs(edir, exist_ok=True)
    for f in glob.glob(f"{edir}/replay_{pid}_*"):
        os.remove(f)
    total = 780 if tier == "quick" else 3300
    try:
        b = Build(tmp)
        b.prepare(extra)
        t_build = time.time() - t0
        files = [f for f in [pid, pid + "p"] + P.get("files", []) if os.path.exists(f"{V}/harness/{f}.cc")]
        mods, structural = {}, []
        for f in files:
            try:
                mods[f] = b.harness(f, extra)
            except BuildError as e:
                if f == pid and not P.get("contract_only"):
                    raise
                structural.append(f"{f}.cc does not compile against the current sources: {str(e)[-600:]}")
        work = []
        for f, m in mods.items():
            for h in list_harnesses(b, m):
                if h.endswith("_T") and tier == "quick":
                    continue
                work.append((f, h))
        if not work:
            print("ERROR: no harness")
            return 2
        order = P.get("first", [])
        work.sort(key=lambda x: (x[1] not in order, x[1].startswith("P_")))
        btime, ptime = P.get("btime", 240), P.get("ptime", 180)
        if tier == "thorough":
            btime, ptime = 4 * btime, 4 * ptime

        def one(fh):
            f, h = fh
            left = total - (time.time() - t0)
            bud = min(btime if h.startswith("B_") else ptime, max(5, left - 120))
            opts = ["--max-steps", str(P.get("steps", 150000000))]
            j = odcv(b, mods[f], h, os.path.join(tmp, f"o_{h}.json"), bud, P.get("qtime", 20), opts)
            j["file"] = f
            log(f"  {h}: {j['verdict']} {j['wall']:.1f}s obligations={j.get('obligation_instances')} paths={j.get('paths')}")
            return j

        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, work))
        t_prove = time.time() - t0 - t_build
        viol, known, notes = [], [], []
        kf = known_findings(pid)
        fails, susp = [], []
        for j in res:
            h = j["harness"]
            for o in j.get("obligations", []):
                if not o["failed"]:
                    continue
                k = [x for x in kf if x["harness"] == h and x["obligation"] == o["name"] and re.search(x.get("match", ""), o.get("where", "") + " " + o.get("detail", ""))]
                if k:
                    known.append((k[0], j, o))
                else:
                    fails.append((j, o))
            for q in j.get("suspects", []):
                if h.startswith("B_") and q["why"].split(" at ")[0] != "time limit" or "step limit" in q["why"]:
                    susp.append((j, q))
        exes = {}

        def native(f, mode=P.get("native", "")):
            if (f, mode) not in exes:
                try:
                    exes[f, mode] = Build(tmp).native(f, extra, mode)
                except BuildError as e:
                    log(str(e)[-1500:])
                    exes[f, mode] = None
            return exes[f, mode]

        bfails = [(j, o) for j, o in fails if j["harness"].startswith("B_")]
        pfails = [(j, o) for j, o in fails if j["harness"].startswith("P_")]
        unconfirmed = []
        for j, o in bfails:
            h, f = j["harness"], j["file"]
            race = o["name"] == "no-data-race"
            exe = (native(f, "tsan") if race else native(f)) if len(viol) < 4 and time.time() - t0 < total + 60 else None
            w = o.get("witness", [])
            note = f"obligation {o['name']} of {h} fails: {o.get('detail','')}\nat {o.get('where','')}"
            if exe is None:
                unconfirmed.append((j, o, note + "\n(not replayed natively)"))
                continue
            for k in range(8 if race else 1):
                rc, out = native_run(exe, h, w, env={"TSAN_OPTIONS": "exitcode=66"})
                bad = rc == "hang" or rc == 42 or (isinstance(rc, int) and rc not in (0, 5, 6))
                if race:
                    bad = "WARNING: ThreadSanitizer: data race" in out
                if bad:
                    break
            note += f"\nnative replay: exit {rc}\n" + out[-3000:]
            if bad:
                viol.append((j, o["name"], w, note, True))
            else:
                unconfirmed.append((j, o, note))
        for j, q in susp:
            if viol or time.time() - t0 > total + 60:
                break
            exe = native(j["file"])
            if exe is None:
                continue
            rc, out = native_run(exe, j["harness"], q["witness"])
            if rc == "hang" or rc == 42 or (isinstance(rc, int) and rc not in (0, 5, 6)):
                viol.append((j, "terminates" if rc == "hang" else "replay", q["witness"], f"path left by the verifier ({q['why']}); native replay: exit {rc}\n{out[-3000:]}", True))
        for j, o in pfails:
            note = f"obligation {o['name']} of {j['harness']} fails: {o.get('detail','')}\nat {o.get('where','')}\nverifier verdict: {j['verdict']}"
            viol.append((j, o["name"], o.get("witness", []), note, False))
        for j, o, note in unconfirmed:
            notes.append(f"{j['harness']}/{o['name']}: symbolic counterexample not confirmed natively")
            if not viol:
                viol.append((j, o["name"], o.get("witness", []), note, False))
        for j in res:  # a contract whose precondition nothing meets proves nothing; bounded checks that reach nothing are broken
            if j["harness"].startswith("P_") and j["verdict"] == "ok" and not j.get("covers"):
                j["verdict"], j["discharged"] = "vacuous", 0
                log(f"incomplete: {j['harness']}: reached no cover point")
        rc = 0
        printed = set()
        for k, j, o in known:
            if k["what"] not in printed:
                printed.add(k["what"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        confirmed = [v for v in viol if v[4]]
        for n, (j, name, w, note, conf) in enumerate(confirmed or viol):
            rf = f"{edir}/replay_{pid}_{n}_{j['harness']}.txt"
            open(rf, "w").write(replay_text(pid, j["file"], j["harness"], name, w, note))
            print(f"VIOLATION property={pid} replay={rf}" + ("" if conf else " no-failing-input-found"), flush=True)
            rc = 1
        ev = evidence(pid, P, tier, seed, res, structural, notes, known, viol, t_build, t_prove, time.time() - t0)
        json.dump(ev, open(f"{edir}/{pid}.json", "w"), indent=1)
        bad = [f"{j['harness']}: {list(j['errors'].items())[:2]}" for j in res if j["harness"].startswith("B_") and j["verdict"] in ("incomplete", "unknown")]
        vac = [j["harness"] for j in res if j["verdict"] == "ok" and not j.get("covers")]
        for x in bad:
            log("incomplete: " + x)
        if rc == 0 and vac:
            print(f"ERROR: {vac} reached no cover point: nothing was checked")
            rc = 2
        if rc == 0:
            c = ev["coverage"]
            print(f"{pid}: held; {c['obligations']} obligations, {c['discharged']} discharged by contract proofs; bounded: {c['bounded']['obligations']} of {len(c['bounded']['harnesses'])} harnesses; {time.time()-t0:.0f}s")
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


BASE_TRUST = [
    "odcv (/verif/engine): symbolic execution of LLVM 18 IR of /repo's sources compiled by clang 18 -O1 without passes; z3 5.3.2 decides the conditions",
    "eckit is closed here: /verif/models/eckitmodel.cc stands in for the eckit classes the code calls (Buffer, DataHandle, Exceptions, MD5 as an injective digest, Log)",
    "/verif/models/stdmodel.cc, cstr.c: libstdc++.so out-of-line parts (red-black tree, list hooks, exceptions, pthread_once) and the C string functions",
    "iostream formatting is opaque; out-of-range float-to-integer conversion as x86-64 does it; allocation succeeds; one thread unless the property says otherwise",
]


def evidence(pid, P, tier, seed, res, structural, notes, known, viol, t_build, t_prove, wall):
    pr = [j for j in res if j["harness"].startswith("P_")]
    bd = [j for j in res if j["harness"].startswith("B_")]
    tot = lambda js, k: sum(int(j.get(k) or 0) for j in js)
    fns = sorted({f for j in pr for f in j.get("functions", []) if f.startswith("odc") or "odc::" in f})
    bfns = sorted({f for j in bd for f in j.get("functions", []) if f.startswith("odc") or "odc::" in f})
    solver = {"queries": sum(j.get("solver", {}).get("queries", 0) for j in res), "seconds": round(sum(j.get("solver", {}).get("seconds", 0) for j in res), 2), "max_query_s": max([j.get("solver", {}).get("max_query_s", 0) for j in res] or [0]), "back_end": "z3 5.3.2 (C API), with constant folding and interval reasoning of odcv before it"}
    H = lambda j: {"harness": j["harness"], "verdict": j["verdict"], "obligations": {o["name"]: o["n"] for o in j.get("obligations", [])}, "paths": j.get("paths"), "ir_steps": j.get("steps"), "memory_checks": j.get("mem_checks"), "solver_s": j.get("solver", {}).get("seconds"), "wall_s": round(j["wall"], 1), "states": P.get("text", {}).get(j["harness"], ""), **({"loop_contracts": j["loop_contracts"]} if j.get("loop_contracts") else {}), **({"callees_by_contract": j["replaced_by_contract"]} if j.get("replaced_by_contract") else {}), **({"errors": j["errors"]} if j.get("errors") else {})}
    cov = {
        "obligations": tot(pr, "obligation_instances"), "discharged": tot(pr, "discharged"),
        "checker_cmd": f"python3 /verif/tools/vf.py check {pid} --tier {tier}",
        "trusted_base": BASE_TRUST + P.get("trusted", []),
        "contracts": [H(j) for j in pr],
        "functions_under_contract": fns,
        "undischarged_contracts": [j["harness"] for j in pr if j["verdict"] != "ok"] + structural,
        "memory_safety_obligations": tot(pr, "mem_checks"),
        "bounded": {"note": "bounded checks of the whole path through the public interface; not counted as proved", "obligations": tot(bd, "obligation_instances"), "discharged": tot(bd, "discharged"), "paths": tot(bd, "paths"), "memory_checks": tot(bd, "mem_checks"), "harnesses": [H(j) for j in bd], "functions_reached": bfns, "incomplete": [j["harness"] for j in bd if j["verdict"] in ("incomplete", "unknown")]},
        "solver": solver, "build_s": round(t_build, 1), "verify_s": round(t_prove, 1), "notes": notes, "known_findings": [k["what"] for k, _, _ in known],
    }
    if P["level"] != "proof":
        cov["explanation"] = P.get("explanation", "bounded symbolic execution of the real code through its public interface for all values of the symbolic inputs; bounds per harness below")
    return {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(viol)}


def replay(path):
    t = open(path).read()
    m = re.search(r"harness (\w+)\.cc:(\w+)", t)
    import spec
    f, h = m.group(1), m.group(2)
    tmp = tempfile.mkdtemp(prefix="vfrep_")
    try:
        P = spec.PROPS.get(f.rstrip("p"), {})
        race = re.search(r"obligation no-data-race", t.splitlines()[0])
        exe = Build(tmp).native(f, P.get("extra", ()), "tsan" if race else P.get("native", ""))
        w = [l.split() for l in t.splitlines() if l and not l.startswith("#")]
        rc, out = native_run(exe, h, w)
        print(out)
        print("exit", rc)
        return 1 if rc == "hang" or rc not in (0, 5, 6) else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def dev_run(pid, h, opts):
    b = Build(os.environ.get("VF_OUT", "/tmp/vb"))
    import spec
    mods = b.bitcode([pid], spec.PROPS.get(pid.rstrip("p"), {}).get("extra", ()))
    j = odcv(b, mods[pid], h, os.environ.get("VF_OUT", "/tmp/vb") + f"/o_{h}.json", float(os.environ.get("T", "60")), float(os.environ.get("Q", "10")), opts)
    fn = len(j.get("functions", []))
    print(f"{h}: {j['verdict']} wall={j['wall']:.1f}s obl={j.get('obligation_instances')} disch={j.get('discharged')} paths={j.get('paths')} steps={j.get('steps')} mem={j.get('mem_checks')} fns={fn} solver={j.get('solver')} covers={j.get('covers')}")
    for k, v in j.get("errors", {}).items():
        print("  ERR", v, k[:600])
    for o in j.get("obligations", []):
        if o["failed"] or o["undecided"] or "-a" in opts:
            print("  OBL", o["name"], {k: o[k] for k in ("n", "failed", "undecided")}, o.get("where", "")[:400], "\n     ", o.get("detail", "")[:300], "\n     ", o.get("witness"))
    if "path_ends" in j:
        print("  ends", j["path_ends"])


if __name__ == "__main__":
    if sys.argv[1] == "check":
        tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
        try:
            sys.exit(check(sys.argv[2], tier))
        except BuildError as e:
            print("ERROR: cannot build:", str(e)[-6000:])
            sys.exit(2)
    elif sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    elif sys.argv[1] == "run":
        os.environ.setdefault("VF_CACHE", "1")
        dev_run(sys.argv[2], sys.argv[3], sys.argv[4:])
    elif sys.argv[1] == "list":
        os.environ.setdefault("VF_CACHE", "1")
        b = Build(os.environ.get("VF_OUT", "/tmp/vb"))
        import spec
        m = b.bitcode([sys.argv[2]], spec.PROPS.get(sys.argv[2].rstrip("p"), {}).get("extra", ()))
        print("\n".join(list_harnesses(b, m[sys.argv[2]])))
    elif sys.argv[1] == "native":
        os.environ.setdefault("VF_CACHE", "1")
        print(Build(os.environ.get("VF_OUT", "/tmp/vb")).native(sys.argv[2], (), sys.argv[3] if len(sys.argv) > 3 else ""))
