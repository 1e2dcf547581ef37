#!/usr/bin/env python3
"""check.py ID [quick|thorough]            run the check of one property against /repo's working tree
   check.py ID --replay SEED CASE [VARIANT]  run one recorded case again and print what the monitors say
Builds the model and the monitors (mon/) into a scratch directory, runs generated workloads in parallel under the
monitors, and writes evidence/<ID>.json.  Exit 0: no violation observed; exit 1: VIOLATION line printed; exit 2: no answer."""
import os, sys, re, json, time, shutil, subprocess, tempfile, threading, hashlib, glob, queue

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from plan import PLAN, MINIMA, RULES, ASSUME

NPROC = min(8, os.cpu_count() or 8)
GROUPS = {**{f"C{i:02d}": "PHYS" for i in (1, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)}}
FUN = ("C30", "C31")
IO = ("C02", "C03", "C14", "C21", "C22", "C26", "C27")

class BuildError(Exception):
    pass

def group(pid):
    return "PHYS" if pid in GROUPS else "IO" if pid in IO else "FUN" if pid in FUN else "API"

BASE = ["-O1", "-g1", "-w"]
VARIANTS = {
    "plain": BASE,
    "asan": ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero",
             "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g", "-w", "-fsanitize=thread"],
    "pattern": BASE + ["-ftrivial-auto-var-init=pattern"],
    "zero": BASE + ["-ftrivial-auto-var-init=zero"],
    "vg": ["-O0", "-g", "-w"],
}

def lib_sources():
    """the sources of the library as the project's own build file lists them"""
    default = ["src/bmi_lgar.cxx", "src/lgar.cxx", "src/soil_funcs.cxx", "src/linked_list.cxx", "src/mem_funcs.cxx",
               "src/util_funcs.cxx", "src/aet.cxx", "giuh/giuh.c"]
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
        found = []
        for call in re.findall(r"add_library\s*\(\s*lasambmi\s+SHARED([^)]*)\)", txt):
            found = [re.sub(r"^\./", "", t) for t in call.split() if re.search(r"\.(cxx|cpp|cc|c)$", t)]
        found = [f for f in found if os.path.exists(os.path.join(REPO, f))]
        if len(found) >= 3:
            return found
    except OSError:
        pass
    return [f for f in default if os.path.exists(os.path.join(REPO, f))]

def run_many(cmds):
    """run compile commands in parallel; raise on the first failure"""
    procs, errs = [], []
    pend = list(cmds)
    while pend or procs:
        while pend and len(procs) < NPROC + 2:
            c = pend.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        c, p = procs.pop(0)
        out, _ = p.communicate()
        if p.returncode:
            errs.append(" ".join(c) + "\n" + out[-3000:])
    if errs:
        raise BuildError(errs[0])

def build(pid, variants, bdir):
    """compile what the check needs; returns {variant: binary} and extra environment"""
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "giuh"), "-I" + os.path.join(REPO, "bmi")]
    srcs = lib_sources()
    cmds, link, env = [], [], {}
    def obj(flags, tag, src, defs=(), std="-std=c++17"):
        o = os.path.join(bdir, tag + "." + src.replace("/", "_") + ".o")
        # the project's build compiles giuh.c with the C++-named C compiler; include/all.hxx declares it extern "C"
        cc = ["gcc"] if src.endswith(".c") else ["g++", std]
        cmds.append(cc + flags + ["-DBMI_ACTIVE", *defs] + inc + ["-c", os.path.join(REPO, src), "-o", o])
        return o
    bins = {}
    for v in variants:
        fl = VARIANTS[v]
        objs = [obj(fl, v, s) for s in srcs]
        mo = os.path.join(bdir, v + ".main.o")
        cmds.insert(0, ["g++", "-std=c++17"] + fl + ["-DBMI_ACTIVE", "-DMON_" + group(pid)] + inc + ["-I" + os.path.join(VERIF, "mon"), "-c", os.path.join(VERIF, "mon/main.cpp"), "-o", mo])
        bins[v] = os.path.join(bdir, "mon-" + v)
        link.append(["g++"] + fl + [mo] + objs + ["-o", bins[v], "-ldl", "-lpthread", "-lm"])
    if pid == "C26":
        objs = [os.path.join(bdir, "plain." + s.replace("/", "_") + ".o") for s in srcs] + [obj(BASE, "driver", "src/bmi_main_lgar.cxx")]
        env["MON_DRIVER"] = os.path.join(bdir, "driver")
        link.append(["g++"] + objs + ["-o", env["MON_DRIVER"], "-lm"])
    if pid == "C28":
        objs = [obj(BASE + ["-fPIC"], "ngen", s, ("-DNGEN",)) for s in srcs]
        env["MON_NGEN"] = os.path.join(bdir, "liblasambmi.so")
        link.append(["g++", "-shared"] + objs + ["-o", env["MON_NGEN"], "-lm"])
    run_many(cmds)
    run_many(link)
    return bins, env

class Result:
    def __init__(self):
        self.C, self.M, self.H = {}, {}, set()
        self.V, self.S, self.G, self.B = [], [], {}, {}
        self.lock = threading.Lock()
        self.lost = []

    def take(self, variant, line):
        k, _, rest = line.partition(" ")
        with self.lock:
            if k == "V":
                case, key, msg = (rest.split(" ", 2) + ["", ""])[:3]
                self.V.append(dict(variant=variant, case=int(case), key=key, msg=msg))
            elif k == "C":
                n, v = rest.rsplit(" ", 1)
                self.C[n] = self.C.get(n, 0) + int(v)
                if n == "cases":
                    self.C["cases_" + variant] = self.C.get("cases_" + variant, 0) + int(v)
            elif k == "M":
                n, v = rest.rsplit(" ", 1)
                self.M[n] = max(self.M.get(n, float("-inf")), float(v))
            elif k == "H":
                self.H.update(rest.split())
            elif k == "S":
                if len(self.S) < 6:
                    self.S.append(rest)
            elif k == "G":
                case, d = rest.split(" ", 1)
                if variant == "vg":      # shorter runs
                    return
                self.G.setdefault(int(case), {})[variant] = d
            elif k == "B":
                case, d = rest.split(" ", 1)
                self.B[(variant, int(case))] = d

def variant_env(base, name, extra):
    e = dict(base)
    e.update(extra)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1"
    e.pop("MALLOC_PERTURB_", None)
    e.update(PLAN_ENV.get(name, {}))
    return e

# run variants: build variant + environment
PLAN_ENV = {
    "asan": {"MON_SLOW": "6"},
    "tsan": {"MON_TSAN": "1", "MON_SLOW": "4"},
    "perturb": {"MALLOC_PERTURB_": "165"},
    "pattern": {"MALLOC_PERTURB_": "90"},
    "zero": {"MALLOC_PERTURB_": "255"},
    "vg": {"MON_SLOW": "40", "MON_SMALL": "1"},
}
BUILD_OF = {"perturb": "plain"}

def command(variant, binary, pid, seed, a, b, work, thorough):
    cmd = [binary, pid, str(seed), str(a), str(b), work] + (["thorough"] if thorough else [])
    if variant == "tsan":
        return ["setarch", "-R"] + cmd if TSAN_SETARCH else cmd
    if variant == "vg":
        return ["valgrind", "-q", "--error-exitcode=0", "--trace-children=no", "--undef-value-errors=yes", "--leak-check=no",
                f"--log-file={work}/vg.%p.log"] + cmd
    return cmd

TSAN_SETARCH = False

def tsan_probe(binary, env, work):
    """ThreadSanitizer may need address space randomisation off; find out how it starts here"""
    global TSAN_SETARCH
    for alt in (False, True):
        pre = ["setarch", "-R"] if alt else []
        try:
            p = subprocess.run(pre + [binary, "C18", "1", "0", "0", work], env=env, capture_output=True, text=True, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if p.returncode == 0 and p.stdout.rstrip().endswith("E"):
            TSAN_SETARCH = alt
            return True
    return False

def sweep(pid, seed, jobs, bins, env0, extra, work, thorough, deadline, res):
    """jobs: list of (variant, cases, chunk).  Stops early once violations are confirmed."""
    q = queue.Queue()
    chunks = []
    for v, n, ch in jobs:
        chunks.append([(v, a, min(a + ch, n)) for a in range(0, n, ch)])
    while any(chunks):     # interleave the variants
        for c in chunks:
            if c:
                q.put(c.pop(0))
    stop = threading.Event()
    running = set()
    def worker():
        while not stop.is_set() and time.time() < deadline:
            try:
                v, a, b = q.get_nowait()
            except queue.Empty:
                return
            w = os.path.join(work, f"{v}.{a}")
            os.makedirs(w, exist_ok=True)
            p = subprocess.Popen(command(v, bins[BUILD_OF.get(v, v)], pid, seed, a, b, w, thorough), env=variant_env(env0, v, extra),
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True, errors="replace")
            with res.lock:
                running.add(p)
            ended = False
            for line in p.stdout:
                line = line.rstrip("\n")
                if line == "E":
                    ended = True
                elif line:
                    try:
                        res.take(v, line)
                    except ValueError:
                        pass
                    if line.startswith("V "):
                        with res.lock:
                            if len({(x["variant"], x["case"]) for x in res.V}) >= 12:
                                stop.set()
            p.wait()
            with res.lock:
                running.discard(p)
            if v == "vg":
                for f in glob.glob(w + "/vg.*.log"):
                    t = open(f, errors="replace").read()
                    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid (read|write)|.*uninitialised).*(\n==\d+==.*){0,5}", t)
                    with res.lock:
                        res.C["memcheck_processes"] = res.C.get("memcheck_processes", 0) + 1
                    if m:
                        res.take(v, f"V {a} memcheck " + re.sub(r"==\d+==", "", m.group(0)).replace("\n", " ")[:600])
            if not ended and not stop.is_set():
                with res.lock:
                    res.lost.append((v, a, b))
            if not res.B:
                shutil.rmtree(w, ignore_errors=True)
    ths = [threading.Thread(target=worker) for _ in range(NPROC)]
    for t in ths:
        t.start()
    while any(t.is_alive() for t in ths):
        for t in ths:
            t.join(0.2)
        if stop.is_set() or time.time() > deadline + 60:
            with res.lock:
                ps = list(running)
            for p in ps:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
    return q.qsize()

def main():
    t0 = time.time()
    if len(sys.argv) < 2 or not re.fullmatch(r"C\d\d+", sys.argv[1]):
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = (int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else None)
        else:
            tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    plan = PLAN[pid][tier]
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"lgar-{pid}-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    env0 = dict(os.environ)
    env0["MON_REPO"] = REPO
    env0.update(LC_ALL="C.UTF-8")
    try:
        return body(pid, tier, seed, thorough, plan, evid, tmp, env0, t0, replay)
    except BuildError as e:
        print(f"BUILD FAILED for {pid}: the model or the monitors do not compile\n{e}", file=sys.stderr)
        print(f"ERROR property={pid}: build failed, no answer")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def body(pid, tier, seed, thorough, plan, evid, tmp, env0, t0, replay):
    variants = [v for v, _, _ in plan["jobs"]]
    bdir = os.path.join(tmp, "build")
    work = os.path.join(tmp, "work")
    os.makedirs(bdir)
    os.makedirs(work)
    if replay:
        rs, rc, rv = replay
        rv = rv or variants[0]
        bins, extra = build(pid, sorted({BUILD_OF.get(rv, rv)}), bdir)
        p = subprocess.run(command(rv, bins[BUILD_OF.get(rv, rv)], pid, rs, rc, rc + 1, work, thorough), env=variant_env(env0, rv, extra))
        for f in glob.glob(work + "/*/out"):      # what the model printed
            sys.stdout.write(open(f, errors="replace").read()[-int(os.environ.get("MON_TAIL", "3000")):])
        return p.returncode
    bins, extra = build(pid, sorted({BUILD_OF.get(v, v) for v in variants}), bdir)
    tb = time.time() - t0
    jobs = list(plan["jobs"])
    notes = []
    if "tsan" in bins and not tsan_probe(bins["tsan"], variant_env(env0, "tsan", extra), work):
        jobs = [j for j in jobs if j[0] != "tsan"]
        notes.append("ThreadSanitizer cannot start in this environment; its part was skipped")
    res = Result()
    deadline = t0 + plan["cap"]
    left = sweep(pid, seed, jobs, bins, env0, extra, work, thorough, deadline, res)
    if left:
        notes.append(f"stopped with {left} chunks of cases not run")
    # differently poisoned runs of the same case must agree
    if pid == "C20":
        agree = 0
        for case, d in sorted(res.G.items()):
            if len(d) > 1:
                agree += 1
                if len(set(d.values())) > 1:
                    res.V.append(dict(variant="all", case=case, key="differs", msg="the same run gives different results with differently filled fresh memory: " + json.dumps(d)))
        res.C["runs_compared_across_fillings"] = agree
    # a run that was killed or timed out counts only if it happens again
    confirmed = []
    retried = {}
    for v in res.V:
        if v["key"] == "terminated" and ("time limit" in v["msg"] or "signal 9" in v["msg"]) or v["msg"].startswith("harness:") or "harness:" in v["msg"]:
            k = (v["variant"], v["case"])
            if k not in retried and len(retried) < 3:
                w = os.path.join(work, f"retry.{v['variant']}.{v['case']}")
                os.makedirs(w, exist_ok=True)
                try:
                    p = subprocess.run(command(v["variant"], bins[BUILD_OF.get(v["variant"], v["variant"])], pid, seed, v["case"], v["case"] + 1, w, thorough),
                                       env=variant_env(env0, v["variant"], extra), capture_output=True, text=True, timeout=200)
                    retried[k] = any(l.startswith("V ") for l in p.stdout.splitlines())
                except subprocess.TimeoutExpired:
                    retried[k] = True
            if retried.get(k, False):
                confirmed.append(v)
        else:
            confirmed.append(v)
    if res.lost and not confirmed:
        notes.append(f"{len(res.lost)} chunks ended without a report: {res.lost[:3]}")
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    fresh, seen = [], {}
    for v in confirmed:
        hit = next((k for k in known if pid in k["properties"] and k["key"] == v["key"] and re.search(k["match"], v["msg"])), None)
        if hit:
            seen[hit["what"]] = seen.get(hit["what"], 0) + 1
        else:
            fresh.append(v)
    for k in known:
        if pid in k["properties"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']} (observed {seen.get(k['what'], 0)} times in this run)")
    # evidence must show that the monitors saw something
    short = [f"{k} {res.C.get(k, 0)} < {n}" for k, n in MINIMA.get(pid, {}).items() if res.C.get(k, 0) < (n if not left else 1)]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=res.C.get("cases", 0), distinct_nontrivial=len(res.H), rule=RULES[pid],
                            samples=res.S[:6], counters=dict(sorted(res.C.items())), maxima=dict(sorted(res.M.items())), notes=notes,
                            build_s=round(tb, 2), cases_planned={v: n for v, n, _ in plan["jobs"]}),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(evid, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        rdir = os.path.join(evid, f"replay-{pid}")
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        for v in fresh[:12]:
            d = res.B.get((v["variant"], v["case"]))
            if d and os.path.isdir(d):
                try:
                    shutil.copytree(d, os.path.join(rdir, f"{v['variant']}.{v['case']}"), dirs_exist_ok=True)
                    o = os.path.join(rdir, f"{v['variant']}.{v['case']}", "out")
                    if os.path.exists(o) and os.path.getsize(o) > 200000:
                        os.truncate(o, 200000)
                except OSError:
                    pass
        rp = os.path.join(rdir, "replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=fresh[:40],
                           replay=f"python3 check.py {pid} --replay {seed} {fresh[0]['case']} {fresh[0]['variant'] if fresh[0]['variant'] != 'all' else ''}".strip()), f, indent=1)
        for v in fresh[:5]:
            print(f"  {v['variant']} case {v['case']} {v['key']}: {v['msg'][:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if res.lost or short or not res.C.get("cases"):
        print(f"ERROR property={pid}: the monitors did not observe enough: lost {len(res.lost)}, {short}")
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} cases={res.C.get('cases')} distinct={len(res.H)} wall={ev['wall_s']}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
