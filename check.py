#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, runs its
workloads under the monitors, and writes evidence/<id>.json.

  check.py C01 [quick|thorough]     exit 0 held, 1 violated, 2 no answer
  check.py --replay FILE            runs the recorded case again
  check.py --build                  only builds
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(HERE, "harness")
TARGET = os.path.join(H, "target")
SCRATCH = os.path.join(HERE, "scratch")
NCPU = min(8, os.cpu_count() or 8)

NO_FUZZ = {"C16", "C17", "C18", "C20", "C21", "C22"}
# quick: (ms of seeded workers, s of coverage-guided workers)
BUDGET = {"quick": (40000, 40), "thorough": (240000, 240)}

PROPS = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    if line.strip():
        p = json.loads(line)
        PROPS[p["id"]] = p

SAN = {"san_c20": "C20"}


def log(*a):
    print(*a, flush=True)


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.lower().endswith("_proxy") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            del e[k]
    e["RUSTFLAGS"] = "--cap-lints allow"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


class NoAnswer(Exception):
    pass


def stamp():
    """Digest of every source that goes into the build."""
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "stacks"), os.path.join(REPO, "stacks_derive"), os.path.join(H, "src")):
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml")]
    files += [os.path.join(H, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs", "fuzz.toml")]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


BUILDS = {
    # name: (cargo arguments, RUSTFLAGS, path of the binary)
    "fz": (["--features", "fuzz", "--config", os.path.join(H, "fuzz.toml")], "", "release/vh"),
    "tsan": (["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], " -Zsanitizer=thread",
             "x86_64-unknown-linux-gnu/release/vh"),
    "asan": (["--target", "x86_64-unknown-linux-gnu"], " -Zsanitizer=address",
             "x86_64-unknown-linux-gnu/release/vh"),
}


def build(names):
    """Builds the harness in the given flavours, in parallel. Returns binaries."""
    want = stamp()
    jobs = []
    bins = {}
    for n in names:
        args, flags, path = BUILDS[n]
        tdir = os.path.join(TARGET, n)
        mark = os.path.join(tdir, "vh.stamp")
        bins[n] = os.path.join(tdir, path)
        have = None
        if os.path.exists(mark):
            have = open(mark).read()
            os.unlink(mark)
        if have != want:
            # never trust modification times: forget everything made from these sources
            for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", "*"), recursive=True):
                b = os.path.basename(d)
                if b.startswith(("stacks", "vh-")):
                    shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target-dir", tdir] + args
        p = subprocess.Popen(cmd, cwd=H, env=env({"RUSTFLAGS": "--cap-lints allow" + flags}),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        jobs.append((n, p, mark))
    for n, p, mark in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            log(out[-6000:])
            for _, q, _ in jobs:
                if q.poll() is None:
                    q.kill()
            raise NoAnswer(f"building the harness ({n}) failed")
        if not os.path.exists(bins[n]):
            raise NoAnswer(f"no binary {bins[n]}")
        with open(mark, "w") as f:
            f.write(want)
    return bins


def dictionary(path):
    """Literals of the sources under test: they steer the workloads to the
    boundaries the code itself mentions. No oracle uses them."""
    ints, strs = set(), set()
    for root in (os.path.join(REPO, "stacks", "src"), os.path.join(REPO, "stacks_derive", "src")):
        for d, _, fs in os.walk(root):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                t = open(os.path.join(d, f), errors="replace").read()
                t = t.split("#[cfg(test)]")[0]
                for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                    x = m.group(1)
                    if 0 < len(x) <= 64 and "{" not in x and "\\" not in x:
                        strs.add(x)
                for m in re.finditer(r"b?'([^'\\])'", t):
                    strs.add(m.group(1))
                    ints.add(ord(m.group(1)))
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])", t):
                    try:
                        v = int(m.group(1).replace("_", ""), 0)
                    except ValueError:
                        try:
                            v = int(m.group(1).replace("_", ""))
                        except ValueError:
                            continue
                    if v < 1 << 128:
                        ints.add(v)
    with open(path, "w") as f:
        json.dump({"ints": [str(x) for x in sorted(ints)], "strs": sorted(strs)}, f)


def rc_name(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal {-rc}"
    return f"exit {rc}"


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(SCRATCH, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.dict = os.path.join(self.dir, "dict.json")
        dictionary(self.dict)
        self.violations = []
        self.known = []
        self.cases = 0
        self.events = {}
        self.samples = []
        self.hashes = set()
        self.parts = []
        self.problems = []
        self.t0 = time.time()

    # -- one case again, in a process of its own
    def one(self, binary, args, limit=90, extra=None):
        try:
            p = subprocess.run([binary, "one", "--prop", self.prop, "--dict", self.dict] + args, timeout=limit,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(extra), cwd=self.dir)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return None, ""

    def violate(self, message, how, report=None):
        os.makedirs(os.path.join(SCRATCH, "replays"), exist_ok=True)
        path = os.path.join(SCRATCH, "replays", f"{self.prop}-{len(self.violations)}.json")
        rec = {"property": self.prop, "message": message, "seed": self.seed, "tier": self.tier,
               "dict": json.load(open(self.dict))}
        rec.update(how)
        if report:
            rec["report"] = report[-8000:]
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append((message, path))

    def absorb(self, tag, part):
        """Takes over what one worker observed."""
        f = os.path.join(self.dir, part, f"{tag}.json")
        if not os.path.exists(f):
            return None
        try:
            j = json.load(open(f))
        except ValueError:
            return None
        self.cases += j["cases"]
        for k, v in j["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        for x in j["samples"]:
            if len(self.samples) < 8 and x not in self.samples:
                self.samples.append(x)
        hf = os.path.join(self.dir, part, f"{tag}.hashes")
        if os.path.exists(hf):
            b = open(hf, "rb").read()
            for i in range(0, len(b) - 7, 8):
                self.hashes.add(b[i:i + 8])
        return j

    def suspect(self, binary, what, args, how, extra=None, san=False):
        """A worker died or hung on a case: does the case do it again, alone?"""
        rc, out = self.one(binary, args, extra=extra)
        if rc is None:
            self.violate(f"{what}; the case alone does not end within 90 s", how)
        elif rc == 1:
            self.violate(out.strip()[-1500:], how)
        elif rc < 0 and rc != -signal.SIGKILL:
            self.violate(f"{what}; the case alone ends with {rc_name(rc)}", how, out)
        elif rc == 66 and san:
            self.violate(f"{what}; sanitizer report on the case alone", how, out)
        elif rc == 2 and "harness:" not in out:
            # the oracle itself tripped over what the library returned
            self.violate(f"monitor could not digest the library's result: {out.strip()[-1000:]}", how)
        else:
            self.problems.append(f"{what}; not reproduced alone ({rc_name(rc)}) {out.strip()[-500:]}")
            return False
        return True

    def workers(self, binary, ms, part="w", props=None, extra=None, san=None, n=None):
        """Seeded workers. props: the property each worker runs (default: ours)."""
        d = os.path.join(self.dir, part)
        os.makedirs(d, exist_ok=True)
        n = n or NCPU
        props = props or [self.prop] * n
        ps = []
        for w, pr in enumerate(props):
            cmd = [binary, "run", "--prop", pr, "--seed", str(self.seed), "--worker", str(w), "--workers",
                   str(len(props)), "--ms", str(ms), "--out", d, "--dict", self.dict]
            err = open(os.path.join(d, f"w{w}.err"), "wb")
            ps.append((w, pr, subprocess.Popen(cmd, stdout=err, stderr=err, env=env(extra), cwd=d)))
        end = time.time() + ms / 1000 + 100
        before = self.cases
        for w, pr, p in ps:
            try:
                p.wait(max(1, end - time.time()))
                hung = False
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung = True
            rc = p.returncode
            errs = open(os.path.join(d, f"w{w}.err"), "rb").read().decode(errors="replace")
            j = None if hung else self.absorb(f"w{w}", part)
            saved, self.prop = self.prop, pr
            try:
                self.judge_worker(binary, w, d, rc, hung, errs, j, part, extra, san, saved)
            finally:
                self.prop = saved
        self.parts.append({"engine": san or "seeded workers", "processes": len(ps), "ms": ms,
                           "cases": self.cases - before})

    def judge_worker(self, binary, w, d, rc, hung, errs, j, part, extra, san, own):
        def put(message, how, report=None):
            how = dict(how, run_property=self.prop)
            run_prop, self.prop = self.prop, own
            self.violate(message, how, report)
            self.prop = run_prop
        if rc == 0 and j:
            return
        if san and rc == 66:
            # the report is the observation; a race need not happen twice
            put(f"{san} report while running {self.prop}", {"kind": "sanitizer", "build": san}, errs)
            return
        if san and self.prop != own:
            # only the sanitizer speaks here: what these monitors judge belongs to other checks
            if rc is not None and rc < 0 and rc != -signal.SIGKILL:
                put(f"{self.prop} workload under {san} ended with {rc_name(rc)}", {"kind": "sanitizer", "build": san}, errs)
            elif rc == 2 or hung:
                self.problems.append(f"{san} worker {w} ({self.prop}): {rc_name(rc)} {errs[-300:]}")
            return
        if j and j["outcome"]["kind"] == "violation":
            o = j["outcome"]
            put(o["message"], {"kind": "case", "case": o["case"], "build": san or "fz"})
            return
        cs = None
        if j and j["outcome"]["kind"] == "harness":
            cs = j["outcome"]["case"]
            what = "monitor error: " + j["outcome"]["message"]
        else:
            try:
                b = open(os.path.join(d, f"w{w}.progress"), "rb").read()
                v = int.from_bytes(b, "little")
                cs = f"{v:#x}" if v else None
            except OSError:
                pass
            what = "worker hung" if hung else f"worker ended with {rc_name(rc)}"
        if rc == -signal.SIGKILL and not hung:
            self.problems.append(f"worker {w} was killed (memory?)")
            return
        if cs is None:
            self.problems.append(f"{what} outside a case: {errs[-500:]}")
            return
        self.suspect(binary, what, ["--case", cs], {"kind": "case", "case": cs, "build": san or "fz"}, extra, bool(san))

    def fuzz(self, binary, secs, part="f"):
        d = os.path.join(self.dir, part)
        os.makedirs(d, exist_ok=True)
        ps = []
        corpus = os.path.join(d, "corpus")
        os.makedirs(corpus, exist_ok=True)
        for w in range(NCPU):
            art = os.path.join(d, f"art{w}-")
            cmd = [binary, "fuzz", "--prop", self.prop, "--out", d, "--tag", f"f{w}", "--dict", self.dict, "--",
                   f"-seed={self.seed * 1000 + w + 1}", f"-max_total_time={secs}", "-max_len=1600",
                   f"-len_control={[0, 20, 60, 100][w % 4]}", "-timeout=60", "-rss_limit_mb=0", "-detect_leaks=0",
                   f"-use_value_profile={w % 2}", f"-artifact_prefix={art}", "-verbosity=0", "-reload=2", corpus]
            err = open(os.path.join(d, f"f{w}.err"), "wb")
            ps.append((w, art, subprocess.Popen(cmd, stdout=err, stderr=err, env=env(), cwd=d)))
        end = time.time() + secs + 100
        before = self.cases
        for w, art, p in ps:
            try:
                p.wait(max(1, end - time.time()))
                hung = False
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung = True
            j = self.absorb(f"f{w}", part)
            if j and j["outcome"]["kind"] == "violation":
                self.violate(j["outcome"]["message"], {"kind": "bytes", "bytes": j["outcome"]["bytes"], "build": "fz"})
                continue
            if p.returncode == 0:
                continue
            inputs = sorted(glob.glob(art + "*"))
            if j and j["outcome"]["kind"] == "harness":
                inputs = [os.path.join(d, f"f{w}.input")]
            done = False
            for f in inputs:
                b = open(f, "rb").read()
                done |= self.suspect(binary, f"fuzz worker ended with {rc_name(p.returncode)}", ["--bytes", f],
                                     {"kind": "bytes", "bytes": b.hex(), "build": "fz"})
            if not done and not inputs:
                errs = open(os.path.join(d, f"f{w}.err"), "rb").read().decode(errors="replace")
                self.problems.append(f"fuzz worker {w}: {'hung' if hung else rc_name(p.returncode)} {errs[-300:]}")
        units = len(os.listdir(corpus))
        self.parts.append({"engine": "coverage-guided workers", "processes": NCPU, "s": secs,
                           "cases": self.cases - before, "inputs_kept_for_new_coverage": units})
        shutil.rmtree(corpus, ignore_errors=True)

    def finish(self):
        p = PROPS[self.prop]
        cov = {
            "evaluations": self.cases,
            "distinct_nontrivial": len(self.hashes),
            "rule": RULES[self.prop] + " Two cases are distinct if a hash of all their inputs differs; at most "
                    "60000 hashes per process are kept, so the count is a lower bound.",
            "samples": self.samples or ["(none)"],
            "events_observed": dict(sorted(self.events.items())),
            "engines": self.parts,
        }
        if self.problems:
            cov["inconclusive"] = self.problems
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": cov, "assumptions": ASSUME + ASSUME_OF.get(self.prop, []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{self.prop}.json"))
        log(f"{self.prop} {p['title']}: {self.cases} cases, {len(self.hashes)}+ distinct, {ev['wall_s']} s")
        log("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(self.events.items())))
        for k in self.known:
            log(f"KNOWN-FINDING: property={self.prop} {k}")
        for m in self.problems:
            log("inconclusive: " + m)
        for m, path in self.violations[:5]:
            log("what: " + m[:1500])
            log(f"VIOLATION property={self.prop} replay={path}")
        if self.violations:
            return 1
        if not self.cases:
            raise NoAnswer("no worker finished: " + "; ".join(self.problems)[-2000:])
        if len(self.hashes) < 50:
            raise NoAnswer("too little was observed")
        shutil.rmtree(self.dir, ignore_errors=True)
        return 0


ASSUME = [
    "the oracles (harness/src/model.rs, oracle.rs, tx.rs, json.rs), written from the Stacks specifications, are right",
    "the toolchain, secp256k1, sha2/ripemd and the operating system behave as documented",
]
ASSUME_OF = {
    "C17": ["the loopback interface delivers what is sent"],
    "C18": ["the loopback interface delivers what is sent"],
    "C21": ["the loopback interface delivers what is sent"],
    "C22": ["the loopback interface delivers what is sent"],
    "C20": ["the C and assembly parts of secp256k1 and ring are not instrumented by the sanitizers"],
}

RULES = json.load(open(os.path.join(HERE, "rules.json")))

SAN_ENV = {
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 second_deadlock_stack=1"},
    "asan": {"ASAN_OPTIONS": "exitcode=66 detect_leaks=0 allocator_may_return_null=1 handle_abort=0"},
}


def check(prop, tier, seed):
    r = Run(prop, tier, seed)
    ms, fz = BUDGET[tier]
    names = ["fz"]
    if prop == "C20":
        names += ["tsan", "asan"]
    elif tier == "thorough":
        names += ["asan"]
    bins = build(names)
    vh = bins["fz"]
    if prop in NO_FUZZ and prop != "C20":
        ms += fz * 1000
    r.workers(vh, ms)
    if prop not in NO_FUZZ and not r.violations:
        r.fuzz(vh, fz)
    if prop == "C20" and not r.violations:
        r.workers(bins["tsan"], ms, part="tsan", extra=SAN_ENV["tsan"], san="tsan")
        r.workers(bins["asan"], ms, part="asan", extra=SAN_ENV["asan"], san="asan",
                  props=["C20", "C01", "C02", "C04", "C07", "C08", "C10", "C14", "C15", "C16", "C19", "C12"])
    elif tier == "thorough" and not r.violations:
        r.workers(bins["asan"], 60000, part="asan", extra=SAN_ENV["asan"], san="asan")
    if prop == "C02":
        # decoding recurses once per level of nesting: known-findings.txt
        p = subprocess.run([vh, "deep", "--levels", "1000000", "--stack", "8"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env(), cwd=r.dir)
        r.events["deep_nesting_probe"] = 1
        if p.returncode < 0:
            r.known.append(f"decoding a value nested 1000000 levels deep (0x0a repeated) overflows an 8 MiB stack ({rc_name(p.returncode)})")
    if r.events.get("known_finding_text_cut_in_chunks"):
        r.known.append("a broadcast or fee-estimation text reply cut inside chunked framing is handed out as far as it came")
    return r.finish()


def replay(path):
    rec = json.load(open(path))
    prop = rec.get("run_property", rec["property"])
    os.makedirs(SCRATCH, exist_ok=True)
    d = os.path.join(SCRATCH, "replay-dict.json")
    json.dump(rec["dict"], open(d, "w"))
    b = rec.get("build", "fz")
    if rec["kind"] == "sanitizer":
        log(rec.get("report", ""))
        return check(rec["property"], rec["tier"], rec["seed"])
    vh = build([b])[b]
    args = [vh, "one", "--prop", prop, "--dict", d]
    if rec["kind"] == "case":
        args += ["--case", rec["case"]]
    else:
        f = os.path.join(SCRATCH, "replay.input")
        open(f, "wb").write(bytes.fromhex(rec["bytes"]))
        args += ["--bytes", f]
    p = subprocess.run(args, env=env(SAN_ENV.get(b)))
    log(rc_name(p.returncode))
    if p.returncode != 0:
        log(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--build":
            build(list(BUILDS))
            return 0
        if not a or a[0] not in PROPS:
            log(__doc__)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in BUDGET:
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return check(a[0], tier, abs(seed))
    except NoAnswer as e:
        log(f"no answer: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
