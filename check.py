#!/usr/bin/env python3
"""Builds the library from /repo's working tree with the monitors, runs one property's workload, reports.

usage: check.py <ID> [--replay FILE] [--tier quick|thorough] [--n CASES] [--keep]
exit 0 held on everything explored, 1 violation, 2 the check itself could not be carried out.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NSHARD = 8
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(EVID, "replays") if "VERIF_EVIDENCE" in os.environ else os.path.join(VERIF, "replays")

SAN = "-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
VARIANTS = {   # flags for the library and the code that touches it
    "asan": SAN + "-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -fsanitize-address-use-after-scope",
    "tsan": SAN + "-fsanitize=thread",
    "plain": "-O1 -g1 -fno-omit-frame-pointer",
}
LIBFLAGS = "-DDEBUG -std=c++11 -include limits -w"
HFLAGS = "-std=c++17 -w"
COMMON = ["common", "gen", "main", "model", "refcrypto", "refxml", "refkdb", "refkdbx"]   # never touch the library

def P(stem, quick, thorough, variant="asan", level="exploration", cpu=30, **kw):
    d = dict(stem=stem, level=level, phases=[dict(variant=variant, quick=quick, thorough=thorough, cpu=cpu)])
    d.update(kw)
    return d

FUZZ_WORDS = r"""<Group> </Group> <Entry> </Entry> <UUID> <Times> <String><Key> <Binary><Key> <History> <AutoType> <Association> <CustomIconUUID> <LastTopVisibleEntry> <RecycleBinUUID>
<CustomData><Item><Key> <![CDATA[ ]]> <!-- --> &#x0; &amp; <IconID> 2999-12-28T22:59:59Z ProtectedInMemory=\"True\" AAAAAAAAAAAAAAAAAAAAAA== \xff\xff\x00\x00\x00\x00
<Value\x20Protected=\"True\"> <Value\x20Ref=\"0\"/> <Binary\x20ID=\"0\"\x20Compressed=\"True\">""".split()
NSCALE = 37   # kinds of large database in props_scale.cc
NKINDS = 66   # kinds of repetitive input in props_cost.cc
SPEC = {
    "C01": P("props_round", 8000, 300000),
    "C02": P("props_round", 5000, 150000),
    "C03": P("props_round", 8000, 300000),
    "C04": P("props_interop", 8000, 200000),
    "C05": P("props_interop", 5000, 100000),
    "C06": P("props_key", 6000, 150000),
    "C07": P("props_key", 12000, 300000),
    "C08": P("props_damage", 1200, 40000),
    "C09": P("props_damage", 4000, 120000),
    "C10": P("props_hostile", 6000, 60000, cpu=60, fuzz=240),
    "C11": P("props_hostile", 900, 40000, cpu=60, fuzz=240),
    "C12": dict(stem="props_cost", level="exploration", phases=[
        dict(variant="asan", name="memory", quick=800, thorough=20000, cpu=30, retry=2),
        dict(variant="plain", name="time", quick=NKINDS, thorough=3 * NKINDS, cpu=60, retry=1, shards=3)]),
    "C39": dict(stem="props_scale", level="exploration", phases=[
        dict(variant="asan", name="memory", quick=2 * NSCALE, thorough=40 * NSCALE, cpu=30, retry=2),
        dict(variant="plain", name="time", quick=NSCALE, thorough=3 * NSCALE, cpu=60, retry=1, shards=3)]),
    "C32": P("props_hostile", 6000, 150000, cpu=60),
    "C35": P("props_hostile", 1300, 50000, cpu=60, fuzz=240),
    "C33": P("props_hostile", 5000, 150000, cpu=60),
    "C13": P("props_io", 220, 12000, level="fault_enumeration", cpu=60),
    "C30": P("props_io", 600, 20000, level="fault_enumeration", cpu=60),
    "C19": P("props_obj", 9000, 120000),
    "C20": P("props_obj", 3200, 80000),
    "C23": P("props_eq", 2200, 100000),
    "C24": P("props_eq", 30000, 250000),
    "C40": P("props_eq", 6000, 150000),
    "C21": dict(stem="props_run", level="exploration", phases=[dict(variant="tsan", quick=1600, thorough=40000, cpu=60, shards=4)]),
    "C25": dict(stem="props_run", level="exploration", phases=[dict(variant="plain", quick=8, thorough=16, cpu=1500, shards=1, wall_thorough=600)]),
    "C26": dict(stem="props_run", level="exploration", phases=[
        dict(variant="asan", quick=1500, thorough=40000, cpu=60, wall_thorough=450),
        dict(variant="plain", name="valgrind", quick=400, thorough=12000, cpu=90, retry=2, wall_quick=150, wall_thorough=350,
             wrapper=["valgrind", "-q", "--vgdb=no", "--error-exitcode=86", "--exit-on-first-error=yes", "--num-callers=16", "--read-var-info=no"])]),
    "C14": P("props_codec", 20000, 400000),
    "C15": P("props_codec", 40000, 300000),
    "C16": P("props_codec", 20000, 500000),
    "C17": P("props_codec", 30000, 800000),
    "C18": P("props_codec", 40000, 1500000),
    "C31": P("props_codec", 20000, 600000),
    "C22": P("props_interop", 10000, 300000),
    "C28": P("props_interop", 12000, 300000),
    "C27": P("props_round", 3000, 60000),
    "C29": P("props_round", 8000, 200000),
    "C38": P("props_small", 8000, 400000),
    "C36": P("props_env", 4000, 150000),
    "C37": P("props_env", 4000, 150000),
    "C34": P("props_edit", 6000, 150000),
}

def log(*a):
    print(*a, flush=True)

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def build(stem, variant):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "src")
    libs = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith((".cc", ".cpp", ".cxx", ".c")))
    if not libs:
        raise RuntimeError("no library sources in " + src)
    lib_hdr = sh256(*[p + "\n" + hashlib.sha256(rd(p)).hexdigest() for d, _, fs in sorted(os.walk(src)) for p in sorted(os.path.join(d, f) for f in fs if f.endswith((".hh", ".h", ".hpp", ".inc")))])
    h_hdr = sh256(*[f + hashlib.sha256(rd(os.path.join(H, f))).hexdigest() for f in sorted(os.listdir(H)) if f.endswith(".hh")])
    jobs, objs = [], []
    def add(path, flags, deps):
        key = sh256(flags, deps, path, rd(path))
        o = os.path.join(BUILD, os.path.basename(path) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(path), ["clang++"] + flags.split() + ["-c", path, "-o", o + ".%d.tmp" % os.getpid()], o))
    fuzz = variant == "fuzz"   # as asan, with libFuzzer's main and coverage feedback from the library
    v = VARIANTS["asan" if fuzz else variant]
    for p in libs:
        add(p, v + (" -fsanitize=fuzzer-no-link " if fuzz else " ") + LIBFLAGS + " -I" + src, lib_hdr)
    for s in [stem, "bridge"]:
        add(os.path.join(H, s + ".cc"), v + " " + HFLAGS + " -I" + src + " -I" + H, lib_hdr + h_hdr)
    for s in [x for x in COMMON if not fuzz or x != "main"]:
        add(os.path.join(H, s + ".cc"), ("-O1 -g1 -fsanitize=thread " if variant == "tsan" else "-O1 -g1 ") + HFLAGS + " -I" + H, h_hdr)
    if stem == "props_eq":   # the sample program, called as a function by C40
        add(os.path.join(REPO, "sample", "sample.cc"), v + " " + LIBFLAGS + " -Dmain=sample_main -I" + src, lib_hdr)
    def run(j):
        r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "%s\n%s" % (" ".join(j[1]), r.stdout[-4000:])
        os.rename(j[1][-1], j[2])
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(NSHARD) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        raise RuntimeError("build failed: " + errs[0])
    exe = os.path.join(BUILD, "%s-%s-%s" % (stem, variant, sh256(v, *objs)))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++"] + v.split() + (["-fsanitize=fuzzer"] if fuzz else []) + objs + ["-rdynamic", "-lcrypto", "-lz", "-lpthread", "-ldl", "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link failed: " + r.stdout[-4000:])
        os.rename(t, exe)
    return exe

def run_env(phase):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    a = "detect_leaks=0:exitcode=86:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=60000"
    if phase.get("asan"):
        a += ":" + phase["asan"]
    e["ASAN_OPTIONS"] = a
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=86"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=0"
    e.update(phase.get("env", {}))
    return e

def frames(err):
    out = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+?) (/[^\s]+|\()", err):
        out.append(m.group(1).split("(")[0][:60] + "@" + os.path.basename(m.group(2)))
    return [f for f in out if "sanitizer" not in f][:6]

def crash_summary(rc, err):
    for pat in (r"SUMMARY: [^\n]*", r"==\d+== (?:Conditional jump|Use of uninit|Syscall param|Invalid (?:read|write)|Mismatched|Source and dest|Jump to)[^\n]*(\n==\d+==[^\n]*){0,4}", r"[^\n]*Assertion [^\n]*", r"runtime error: [^\n]*", r"terminate called[^\n]*(\n\s*what\(\)[^\n]*)?", r"ERROR: [A-Za-z]+Sanitizer[^\n]*"):
        m = re.search(pat, err)
        if m:
            s = m.group(0)
            return s.strip().replace(REPO + "/", "")
    return "exit status %d, no diagnostic" % rc

class Runner:
    def __init__(self, pid, seed, tier, work):
        self.pid, self.seed, self.tier, self.work = pid, seed, tier, work
        self.viol, self.outs, self.errors, self.notes = [], [], [], []
        self.serial, self.t0 = 0, time.time()

    def argv(self, exe, phase, frm, to, shards, shard, tag, cpu, wall):
        d = os.path.join(self.work, tag + ".d")
        os.makedirs(d, exist_ok=True)
        f = {k: os.path.join(self.work, tag + "." + k) for k in ("state", "viol", "out", "err")}
        cmd = phase.get("wrapper", []) + [exe, "--prop", self.pid, "--seed", str(self.seed), "--from", str(frm), "--to", str(to), "--shards", str(shards), "--shard", str(shard),
               "--tier", self.tier, "--dir", d, "--repo", REPO, "--state", f["state"], "--viol", f["viol"], "--out", f["out"], "--case-cpu", str(cpu), "--max-wall", str(wall), "--phase", phase.get("name", phase["variant"])]
        return cmd, f

    def run_once(self, exe, phase, frm, to, shards, shard, tag, cpu, wall):
        cmd, f = self.argv(exe, phase, frm, to, shards, shard, tag, cpu, wall)
        for p in f.values():
            if os.path.exists(p):
                os.unlink(p)
        with open(f["err"], "wb") as ef:
            p = subprocess.Popen(cmd, env=run_env(phase), stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=self.work, start_new_session=True)
            end, rc = time.time() + wall + max(60, 1.5 * cpu), None
            while rc is None:
                try:
                    rc = p.wait(timeout=2)
                except subprocess.TimeoutExpired:
                    if self.enough():
                        rc = 97
                    elif time.time() > end:
                        rc = 98   # blocked without using CPU
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        err = rd(f["err"]).decode("utf-8", "replace")
        if len(err) > 200000:
            err = err[:100000] + "\n...\n" + err[-100000:]
        vs = []
        if os.path.exists(f["viol"]):
            for l in rd(f["viol"]).decode("utf-8", "replace").splitlines():
                try:
                    vs.append(json.loads(l, strict=False))
                except ValueError:
                    pass
        out = None
        if os.path.exists(f["out"]):
            try:
                out = json.loads(rd(f["out"]).decode("utf-8", "replace"), strict=False)
            except ValueError:
                out = None
        st = rd(f["state"]).decode().strip() if os.path.exists(f["state"]) else ""
        return rc, err, vs, out, st

    def enough(self):
        # A violation is known and confirming more would take long; or the time a quick run may take is up.
        t = time.time() - self.t0
        return self.tier == "quick" and (t > 660 or bool(self.viol) and t > 330)

    def shard(self, exe, phase, n, shards, k, wall):
        frm, cpu, restarts, t0 = 0, phase["cpu"], 0, time.time()
        while True:
            self.serial += 1
            left = max(5, wall - (time.time() - t0))
            tag = "p%s.%d.%d" % (phase.get("name", phase["variant"]), k, self.serial)
            rc, err, vs, out, st = self.run_once(exe, phase, frm, n, shards, k, tag, cpu, left)
            for v in vs:
                v["phase"] = phase.get("name", phase["variant"])
            self.viol += vs
            if out:
                self.outs.append(out)
            if rc == 97:
                self.notes.append("shard %d ended early after %d s" % (k, time.time() - self.t0))
                return
            if rc in (0, 1):
                if not out:
                    self.errors.append("shard %d produced no record: %s" % (k, err[-500:]))
                return
            if rc == 3 or (not st):
                self.errors.append("shard %d: harness error (exit %d): %s" % (k, rc, err[-1500:]))
                return
            ph = phase.get("name", phase["variant"])
            if not st.isdigit():
                self.viol.append(dict(idx=0, key="crash-at-exit", msg=crash_summary(rc, err), phase=ph))
                return
            idx = int(st)
            hang = rc in (98, 99)
            retry = phase.get("retry", 4)
            rc2, err2, vs2, out2, st2 = self.run_once(exe, phase, idx, idx + 1, 1, 0, tag + "r", cpu * (retry if hang else 1), 1e6 if not hang else cpu * retry)
            if rc2 == 97:
                self.notes.append("case %d was not repeated, the time was up" % idx)
                if not hang:
                    self.viol.append(dict(idx=idx, key="crash", msg=crash_summary(rc, err) + " | " + " < ".join(frames(err)), phase=ph, stderr=err[:6000]))
                return
            if hang:
                if rc2 in (98, 99):
                    self.viol.append(dict(idx=idx, key="hang", msg="case did not end within %d CPU seconds" % (cpu * retry), phase=ph))
                    return   # others would take as long
                elif rc2 not in (0, 1, 3):
                    self.viol.append(dict(idx=idx, key="crash", msg=crash_summary(rc2, err2) + " | " + " < ".join(frames(err2)), phase=ph))
                else:
                    self.notes.append("case %d exceeded the CPU limit once and ended when run alone" % idx)
            else:
                e = err2 if rc2 not in (0, 1, 3, 98, 99) else err
                rep = rc2 not in (0, 1, 3, 98, 99)
                if rc == -9 and not rep:
                    self.notes.append("case %d: process killed from outside" % idx)
                else:
                    self.viol.append(dict(idx=idx, key="crash", msg=crash_summary(rc2 if rep else rc, e) + " | " + " < ".join(frames(e)) + ("" if rep else " (did not recur when the case ran alone)"), phase=ph, stderr=e[:6000]))
            for v in vs2:
                v["phase"] = ph
                self.viol.append(v)
            restarts += 1
            frm = idx + 1
            if restarts >= 5 or time.time() - t0 > wall or frm >= n:
                if restarts >= 5:
                    self.notes.append("shard %d stopped after %d crashes" % (k, restarts))
                return

    def fuzz(self, exe, secs):
        """Coverage-guided workload (thorough tier): libFuzzer workers share a corpus that starts from valid files."""
        d = os.path.join(self.work, "fuzz")
        corp = os.path.join(d, "corpus")
        os.makedirs(corp)
        open(os.path.join(d, "dict"), "w").write("\n".join('"%s"' % w for w in FUZZ_WORDS) + "\n")
        env = run_env({})
        env.update(FUZZ_PROP=self.pid, FUZZ_DIR=d)
        subprocess.run([exe], env=dict(env, FUZZ_SEEDS=corp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, timeout=120)
        seeds = len(os.listdir(corp))
        def worker(i):
            f = os.path.join(d, "log%d" % i)
            with open(f, "wb") as ef:
                p = subprocess.Popen([exe, "-seed=%d" % (self.seed * 100 + i + 1), "-max_total_time=%d" % secs, "-max_len=12000", "-len_control=0", "-dict=dict", "-reload=20", "-rss_limit_mb=3500", "-malloc_limit_mb=3000",
                                      "-timeout=120", "-print_final_stats=1", "-artifact_prefix=%s/a%d-" % (d, i), corp], env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=d, start_new_session=True)
                try:
                    rc = p.wait(timeout=secs + 300)
                except subprocess.TimeoutExpired:
                    rc = 98
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            return rc, rd(f).decode("utf-8", "replace")
        with ThreadPoolExecutor(NSHARD) as ex:
            rs = list(ex.map(worker, range(NSHARD)))
        execs, cov, ft = 0, 0, 0
        for i, (rc, err) in enumerate(rs):
            m = re.findall(r"#(\d+)\s+\w+\s+cov: (\d+) ft: (\d+)", err)
            if m:
                execs, cov, ft = execs + max(int(x[0]) for x in m), max(cov, max(int(x[1]) for x in m)), max(ft, max(int(x[2]) for x in m))
            if rc == 0:
                continue
            art = [a for a in os.listdir(d) if a.startswith("a%d-" % i) and "slow-unit" not in a]
            if not art:
                self.errors.append("fuzz worker %d: exit %d without an input: %s" % (i, rc, err[-600:]))
                continue
            if art[0].split("-")[1] == "oom" and self.pid != "C10" and self.pid != "C11":
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            keep = os.path.join(REPLAYS, "%s-fuzz-%s" % (self.pid, art[0][3:]))
            shutil.copy(os.path.join(d, art[0]), keep)
            m = re.search(r"FUZZVIOL \[([^\]]*)\] ([^\n]*)", err)
            self.viol.append(dict(idx=i, key=m.group(1) if m else "fuzz-" + art[0].split("-")[1], msg=(m.group(2) if m else crash_summary(rc, err) + " | " + " < ".join(frames(err))) + " | input " + keep, phase="fuzz", input=keep, stderr=err[-8000:]))
        self.fuzzed = dict(seconds=secs, workers=NSHARD, executions=execs, seeds=seeds, corpus=len(os.listdir(corp)), edges=cov, features=ft)

def known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+::\s*(.*)", l)
            if m:
                r.append(m.groups())
    return r

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    opt = {}
    while args:
        a = args.pop(0)
        opt[a] = True if a == "--keep" else args.pop(0)
    spec = SPEC[pid]
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    only = None
    if "--replay" in opt:
        only = json.load(open(opt["--replay"]))
        seed, tier = only["seed"], only["tier"]
    base = os.environ.get("TMPDIR") or "/tmp"
    work = tempfile.mkdtemp(prefix="vk_%s_" % pid, dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 and not spec.get("disk") else base)
    R = Runner(pid, seed, tier, work)
    try:
        try:
            exes = []
            with ThreadPoolExecutor(1) as ex:
                for ph in spec["phases"]:
                    exes.append(build(spec["stem"], ph["variant"]))
        except RuntimeError as e:
            log("ERROR: " + str(e))
            return 2
        tb = time.time() - t0
        for ph, exe in zip(spec["phases"], exes):
            if only:
                if only.get("phase", ph["variant"]) != ph.get("name", ph["variant"]):
                    continue
                rc, err, vs, out, st = R.run_once(exe, ph, only["idx"], only["idx"] + 1, 1, 0, "replay", ph["cpu"] * 2, 3000)
                sys.stdout.write(err)
                for v in vs:
                    log("VIOLATION property=%s replay=%s" % (pid, opt["--replay"])); log("  [%s] %s" % (v["key"], v["msg"]))
                if rc not in (0, 1) and not vs:
                    log("VIOLATION property=%s replay=%s" % (pid, opt["--replay"])); log("  exit status %d" % rc)
                return 1 if vs or rc not in (0,) else 0
            if tier == "quick" and R.viol and ph is not spec["phases"][0]:
                R.notes.append("phase %s left out, violations are known" % ph.get("name", ph["variant"]))
                continue
            n = int(opt.get("--n") or ph[tier])
            shards = ph.get("shards", NSHARD)
            wall = ph.get("wall_" + tier, 120 if tier == "quick" else 560)
            with ThreadPoolExecutor(shards) as ex:
                list(ex.map(lambda k: R.shard(exe, ph, n, shards, k, wall), range(shards)))
        if only:
            r = subprocess.run([build("fuzz", "fuzz"), only["input"]], env=dict(run_env({}), FUZZ_PROP=pid, FUZZ_DIR=work))
            if r.returncode:
                log("VIOLATION property=%s replay=%s" % (pid, opt["--replay"]))
            return 1 if r.returncode else 0
        if tier == "thorough" and spec.get("fuzz") and not R.viol and ("--n" not in opt or "--fuzz" in opt):
            R.fuzz(build("fuzz", "fuzz"), int(opt.get("--fuzz") or spec["fuzz"]))
        wall_s = time.time() - t0
        # Merge records.
        counts, distinct, samples, ev, cases, stopped, timeup, rule, lasterr = {}, set(), [], 0, 0, 0, 0, "", ""
        for o in R.outs:
            ev += o["evaluations"]; cases += o["cases"]; stopped += o["stopped"]; timeup += bool(o["timeup"]); rule = o["rule"]; lasterr = o["lasterr"] or lasterr
            distinct.update(o["distinct"])
            for k, v in o["counts"].items():
                counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
            samples += o["samples"][:1]
        kn, fresh, seen_known = known(), {}, {}
        for v in R.viol:
            for (p, k, text) in kn:
                if p == pid and k == v["key"]:
                    seen_known.setdefault(k, text)
                    break
            else:
                fresh.setdefault(v["key"], []).append(v)
        cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=rule, samples=samples[:6] or ["none"], cases=cases, observed=counts, shards=NSHARD, shards_ended_by_time=timeup,
                   abandoned_cases=stopped, build_s=round(tb, 1), notes=R.notes, known_findings_seen=sorted(seen_known), violation_keys={k: len(v) for k, v in fresh.items()})
        if hasattr(R, "fuzzed"):
            cov["coverage_guided"] = R.fuzzed
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov, wall_s=round(wall_s, 1), violations=sum(len(v) for v in fresh.values())), f, indent=1)
            f.write("\n")
        for k, text in sorted(seen_known.items()):
            log("KNOWN-FINDING: property=%s %s: %s" % (pid, k, text))
        log("%s %s seed=%d: %d cases, %d evaluations, %d distinct, build %.1fs, total %.1fs, observed %s" % (pid, tier, seed, cases, ev, len(distinct), tb, wall_s, json.dumps(counts, sort_keys=True)))
        for x in R.notes:
            log("note: " + x)
        if fresh:
            rdir = REPLAYS
            os.makedirs(rdir, exist_ok=True)
            for k in sorted(fresh)[:12]:
                v = min(fresh[k], key=lambda v: v["idx"])
                p = os.path.join(rdir, "%s-%s-%s-%d-%d.json" % (pid, tier, re.sub(r"[^A-Za-z0-9]+", "_", k)[:40], seed, v["idx"]))
                with open(p, "w") as f:
                    json.dump(dict(property=pid, seed=seed, tier=tier, idx=v["idx"], key=k, phase=v.get("phase"), input=v.get("input"), msg=v["msg"], stderr=v.get("stderr", ""), command="python3 check.py %s --replay %s" % (pid, p)), f, indent=1)
                log("VIOLATION property=%s replay=%s" % (pid, p))
                log("  [%s] x%d, e.g. case %d: %s" % (k, len(fresh[k]), v["idx"], v["msg"][:1200]))
            return 1
        if R.errors:
            for e in R.errors[:5]:
                log("ERROR: " + e)
            return 2
        if stopped > max(3, cases // 20):
            log("ERROR: %d of %d cases abandoned: %s" % (stopped, cases, lasterr))
            return 2
        if not ev or len(distinct) < spec.get("min_distinct", 2):
            log("ERROR: nothing observed")
            return 2
        return 0
    finally:
        if opt.get("--keep"):
            log("kept " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
