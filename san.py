#!/usr/bin/env python3
"""C20: the workloads of the other properties under sanitizers.

Builds the harness with AddressSanitizer and with ThreadSanitizer, and the small
workload in miri/ for the interpreter Miri, all from /repo's working tree; runs
them, and the plain (overflow-checked) build under valgrind's memcheck. Only the
reports of these tools, deaths by a memory signal and panics of the overflow and
unsafe-precondition checks count; what else the workloads judge is decided by the
checks of those properties."""
import glob, json, os, re, shutil, signal, subprocess, sys, time

verif = os.path.dirname(os.path.abspath(__file__))
build = verif + "/.build"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
tier = os.environ.get("VERIF_TIER", "quick")
thorough = tier == "thorough"
budget = int(os.environ.get("TSV_BUDGET", "0") or 0) or (300 if thorough else 30)
only = os.environ.get("TSV_LEGS", "asan,tsan,valgrind,miri").split(",")
t0 = time.time()
TARGET = "x86_64-unknown-linux-gnu"
base = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_DIR=verif)
base.pop("CARGO_TARGET_DIR", None)
base.pop("RUSTFLAGS", None)

BUILDS = {
    # without debug assertions, so that memory errors are not forestalled by a panic
    "asan": (["cargo", "+nightly", "build", "--offline", "--target", TARGET, "--manifest-path", verif + "/harness/Cargo.toml"],
             {"RUSTFLAGS": "-Zsanitizer=address -Coverflow-checks=on", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_TARGET_DIR": build + "/asan"}),
    "tsan": (["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", TARGET, "--manifest-path", verif + "/harness/Cargo.toml"],
             {"RUSTFLAGS": "-Zsanitizer=thread --cfg crossbeam_sanitize_thread", "CARGO_TARGET_DIR": build + "/tsan"}),
    "miri": (["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", verif + "/miri/Cargo.toml", "--", "0"],
             {"CARGO_TARGET_DIR": build + "/miri", "MIRI_SYSROOT_DIR": ""}),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance"
BUILDS["miri"][1].pop("MIRI_SYSROOT_DIR")
BUILDS["miri"][1]["MIRIFLAGS"] = MIRIFLAGS

TURNS = {
    "asan": "C01,C08,C17,C21,C04,C13,C05,C07,C15,C02,C16,C06,C09,C18,C19,C03,C14,C12",
    "tsan": "C14,C15,C17,C10,C14,C11,C15,C01,C17,C08,C14,C07,C13",
    "valgrind": "C17,C13,C21,C01,C08,C15,C04,C07,C05,C16,C06,C18",
}
SIGS = (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT)


def done(code):
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def start(args, env, log):
    return subprocess.Popen(args, env=env, stdin=subprocess.DEVNULL, stdout=open(log, "wb"), stderr=subprocess.STDOUT, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


work = ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp") + f"/tsverif-C20-{os.getpid()}"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
os.makedirs(build, exist_ok=True)

# builds
bs = {n: start(a, dict(base, **e), f"{build}/{n}.log") for n, (a, e) in BUILDS.items() if n in only}
for n, p in bs.items():
    if p.wait() != 0:
        print(open(f"{build}/{n}.log", errors="replace").read()[-3000:])
        print(f"C20: the {n} build failed")
        done(2)
built = time.time() - t0


class Job:
    def __init__(self, leg, name, args, env, limit, turns=None):
        self.leg, self.name, self.limit, self.turns = leg, name, limit, turns
        self.dir = f"{work}/{name}"
        os.makedirs(self.dir)
        self.log, self.out, self.rep = self.dir + "/stderr", self.dir + "/out.jsonl", self.dir + "/report"
        self.args = [x.replace("@OUT", self.out).replace("@REP", self.rep) for x in args]
        env = {k: v.replace("@REP", self.rep) for k, v in env.items()}
        self.env = dict(base, TSV_WORKDIR=self.dir + "/work", **env)
        os.makedirs(self.dir + "/work")
        self.t = time.time()
        self.p = start(self.args, self.env, self.log)
        self.state = "running"

    def lines(self):
        r = []
        if os.path.exists(self.out):
            for l in open(self.out, errors="replace"):
                try:
                    r.append(json.loads(l))
                except ValueError:
                    pass
        return r

    def reports(self):
        """What the tool had to say."""
        r = []
        for f in glob.glob(self.rep + "*"):
            r.append(open(f, errors="replace").read())
        r.append(open(self.log, errors="replace").read())
        return r

    def verdict(self):
        """The first violation this job has met, if any."""
        for t in self.reports():
            m = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|ERROR: ThreadSanitizer: .*)", t)
            if m and not re.search(r"AddressSanitizer: (stack-overflow|out-of-memory|allocation-size-too-big|hard rss limit|requested allocation size)|ThreadSanitizer: (signal-unsafe|thread leak|stack-overflow)", m.group(1)):
                return m.group(1).strip(), t
            m = re.search(r"error: Undefined Behavior: .*", t)
            if m:
                return m.group(0).strip(), t
            m = re.search(r"UB-PANIC at .*", t) or re.search(r"panicked at /.*\n(attempt to .* overflow|unsafe precondition.*)", t)
            if m:
                return m.group(0).strip().replace("\n", ": "), t
            if self.leg == "valgrind":
                m = re.search(r"==\d+== (Invalid (read|write|free|jump).*|Conditional jump or move depends.*|Use of uninitialised value.*|Syscall param .*|Source and destination overlap.*|Mismatched free.*|Process terminating with default action of signal (4|7|8|11) .*)", t)
                if m:
                    return "memcheck: " + m.group(1), t
        for v in self.lines():
            if v.get("t") == "viol":
                return v["msg"], "\n".join(v.get("trace", []))
        rc = self.p.returncode
        if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            return f"the process died of {signal.Signals(-rc).name}", open(self.log, errors="replace").read()[-4000:]
        return None

    def poll(self):
        if self.state != "running":
            return
        if self.p.poll() is not None:
            self.state = "ended" if self.p.returncode == 0 else "broke off"
        elif time.time() - self.t > self.limit:
            kill(self.p)
            self.state = "stopped"


def worker(leg, i, ms, pre=(), exe=None, env={}):
    exe = exe or f"{build}/{leg}/{TARGET}/debug/tsverif"
    turns = TURNS[leg].split(",")
    turns = ",".join(turns[(i * 5) % len(turns):] + turns[:(i * 5) % len(turns)])
    return Job(leg, f"{leg}{i}", [*pre, exe, "worker", turns, str(i), str(ms), "@OUT"], dict(env, TSV_SAN=leg), ms / 1000 + 150, turns)


jobs, violation = [], None


def run(js):
    global violation
    jobs.extend(js)
    while any(j.state == "running" for j in js) and not violation:
        time.sleep(0.3)
        for j in js:
            was = j.state
            j.poll()
            if was == "running" and j.state != "running":
                v = j.verdict()
                if v:
                    violation = (j, *v)
                    break
    for j in js:
        kill(j.p)


ms = budget * 1000
A = {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=77:log_path=@REP:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3500"}
T = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:log_path=@REP:report_signal_unsafe=0:history_size=4:report_thread_leaks=0"}
js = []
if "asan" in only:
    js += [worker("asan", i, ms, env=A) for i in range(4)]
if "tsan" in only:
    js += [worker("tsan", i, ms, env=T) for i in range(4)]
run(js)
js = []
if "valgrind" in only and not violation:
    vg = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=30", "--fair-sched=yes", "--log-file=@REP"]
    js += [worker("valgrind", i, ms * 2, pre=vg, exe=build + "/target/debug/tsverif") for i in range(3)]
if "miri" in only and not violation:
    parts = [["parse", "layers"], ["parse", "archives"], ["threads"], ["archive-threads"], ["threads"]]
    if thorough:
        parts += [["packs"], ["layers"], ["archives"], ["threads"], ["archive-threads"]] * 2
    for i, ps in enumerate(parts):
        e = {"CARGO_TARGET_DIR": build + "/miri", "MIRIFLAGS": f"{MIRIFLAGS} -Zmiri-seed={seed * 31 + i}"}
        js.append(Job("miri", f"miri{i}", BUILDS["miri"][0][:-1] + [str(seed * 100 + i), *ps], e, 600 if thorough else 240))
if js:
    run(js)

# what was observed
obs, cases, hashes, samples = {}, 0, set(), []
for j in jobs:
    if j.leg == "miri":
        ps = re.findall(r"^part (\S+) seed .*", open(j.log, errors="replace").read(), re.M)
        obs["miri_parts"] = obs.get("miri_parts", 0) + len(ps)
        cases += len(ps)
        for p in ps:
            hashes.add((j.name, p))
            obs["miri_" + p] = obs.get("miri_" + p, 0) + 1
    for v in j.lines():
        if v.get("t") == "start":
            obs[j.leg + "_cases"] = obs.get(j.leg + "_cases", 0) + 1
        if v.get("t") == "other":
            obs["cases_failed_otherwise"] = obs.get("cases_failed_otherwise", 0) + 1
            if len(samples) < 8:
                samples.append(f"{j.name}: {v['p']} {v['seed']}: {v['msg'][:300]}")
        if v.get("t") == "summary":
            cases += v["cases"]
            hashes.update((j.leg, h) for h in v["hashes"])
            for k, x in v["counts"].items():
                if k.startswith("cases_") or k.startswith("~cases"):
                    k = f"{j.leg}_{k.lstrip('~')}"
                    obs[k] = obs.get(k, 0) + x
    obs[f"{j.leg}_runs_{j.state.replace(' ', '_')}"] = obs.get(f"{j.leg}_runs_{j.state.replace(' ', '_')}", 0) + 1
samples += [" ".join(j.args)[:300] for j in jobs[:2]]
rule = "a case is one random workload of another property run under one tool; distinct by tool and the fingerprint of its history"
os.makedirs(verif + "/evidence", exist_ok=True)
json.dump({"property": "C20", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
           "coverage": {"evaluations": cases, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples, "observed": obs},
           "assumptions": ["the tools report what they are documented to report; GMP and libc are not instrumented", "Miri runs with the tree borrows model"],
           "wall_s": time.time() - t0, "violations": 1 if violation else 0}, open(verif + "/evidence/C20.json", "w"), indent=1)
if violation:
    j, what, text = violation
    os.makedirs(verif + "/replays", exist_ok=True)
    rp = f"{verif}/replays/C20-{j.name}-{seed}.json"
    last = [v for v in j.lines() if v.get("t") == "start"][-1:]
    json.dump({"property": "C20", "tool": j.leg, "command": j.args, "last_case": last, "violation": what, "report": text[-20000:]}, open(rp, "w"), indent=1)
    print(f"C20: {j.leg}: {what}" + (f" (in a case of {last[0]['p']})" if last else ""))
    for l in text.splitlines():
        if "terminus_store" in l:
            print("   ", l.strip()[:200])
            break
    print(f"VIOLATION property=C20 replay={rp}")
    done(1)
for leg in only:
    if obs.get(leg + "_cases", 0) + (obs.get("miri_parts", 0) if leg == "miri" else 0) == 0:
        print(f"C20: inconclusive: nothing ran under {leg}: {obs}")
        done(2)
print(f"C20: held on {cases} workloads ({len(hashes)} distinct), builds {built:.0f} s, {time.time() - t0:.0f} s; {json.dumps(obs)}")
done(0)
