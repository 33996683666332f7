#!/usr/bin/env python3
"""Supervisor of the monitors: builds what a check needs from /repo's working tree, runs the
workers, watches them, judges, writes evidence and replays.

check.py C07            one check (VERIF_SEED, VERIF_TIER from the environment)
check.py setup          builds every flavour
check.py replay FILE    runs a recorded violation again
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
OUT = os.environ.get("VERIF_OUT", HERE)  # evidence/, replays/ and work/ go here
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
WORKERS = 8
NIGHTLY_TARGET = "x86_64-unknown-linux-gnu"
sys.path.insert(0, HERE)
from plan import PLAN, RULES, ASSUMPTIONS  # noqa: E402


class Inconclusive(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


# ------------------------------------------------------------------------------- builds

FLAVOURS = {
    # name: (crate, cargo arguments, environment, binary)
    "cov": ("harness", ["+stable", "build"], {"RUSTC_WRAPPER": HERE + "/rustc-wrap.sh"}, "debug/monitor"),
    "release": ("harness", ["+stable", "build", "--release"], {"RUSTC_WRAPPER": ""}, "release/monitor"),
    # core and alloc instrumented as well: every loop counts
    "full": ("harness", ["+nightly", "build", "--target", NIGHTLY_TARGET, "-Zbuild-std"],
             {"RUSTC_WRAPPER": HERE + "/rustc-wrap-full.sh"}, NIGHTLY_TARGET + "/debug/monitor"),
    "asan": ("harness", ["+nightly", "build", "--target", NIGHTLY_TARGET, "--features", "asan"],
             {"RUSTC_WRAPPER": "", "RUSTFLAGS": "-Zsanitizer=address"}, NIGHTLY_TARGET + "/debug/monitor"),
    "tsan": ("harness", ["+nightly", "build", "--target", NIGHTLY_TARGET, "-Zbuild-std", "--features", "tsan"],
             {"RUSTC_WRAPPER": "", "RUSTFLAGS": "-Zsanitizer=thread"}, NIGHTLY_TARGET + "/debug/monitor"),
    "miri": ("harness", ["+nightly", "miri", "run"], {"RUSTC_WRAPPER": ""}, None),
    "cli": ("cli", ["+stable", "build"], {"RUSTC_WRAPPER": ""}, "debug/decoder"),
}


def source_hash():
    h = hashlib.sha256()
    for top in ("rx509", "decoder"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def literals():
    """Literals of the sources under test: a dictionary for the workload, as a fuzzer would have
    it. Nothing is judged by it."""
    arrays, words, ints = [], [], []

    def number(t):
        t = re.sub(r"(?:_?[ui](?:8|16|32|64|128|size))$", "", t.replace(" ", ""))
        m = re.fullmatch(r"(\w+)<<(\w+)", t)
        try:
            if m:
                return int(m[1].replace("_", ""), 0) << int(m[2].replace("_", ""), 0)
            return int(t.replace("_", ""), 0)
        except ValueError:
            return None

    num = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?"
    for top in ("rx509", "decoder"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "examples", "benches"))
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(d, f), "rb") as fh:
                    text = fh.read().decode("utf-8", "replace").split("#[cfg(test)]")[0]
                for m in re.finditer(r"\[\s*(%s(?:\s*,\s*%s)*)\s*,?\s*\]" % (num, num), text):
                    a = [number(x) for x in m[1].split(",")]
                    if 1 < len(a) <= 64 and None not in a:
                        arrays.append(",".join(map(str, a)))
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
                    try:
                        w = m[1].encode("latin-1", "backslashreplace").decode("unicode_escape").encode("latin-1")
                    except (UnicodeError, ValueError):
                        continue
                    if 0 < len(w) <= 48:
                        words.append(w.hex())
                for m in re.finditer(r"b'([^'\\])'", text):
                    words.append(m[1].encode("utf-8", "replace").hex())
                for m in re.finditer(r"(?<![\w.])(%s(?:\s*<<\s*\d+)?)(?![\w.])" % num, text):
                    v = number(m[1])
                    if v is not None and 12 < v < 1 << 62:
                        ints.append(str(v))
    lines = []
    for k, vals, most in (("a", arrays, 500), ("w", words, 500), ("n", ints, 500)):
        lines += ["%s %s" % (k, v) for v in list(dict.fromkeys(vals))[:most]]
    return "\n".join(lines) + "\n"


def crate_dir(crate):
    """the crate to build; for another tree than /repo, a copy that points there"""
    src = os.path.join(HERE, crate)
    if REPO == "/repo":
        return src
    dst = os.path.join(TARGET, "src", crate)
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(src, dst, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(dst, "Cargo.toml")
    with open(p) as f:
        s = f.read().replace('"/repo/', '"%s/' % REPO)
    with open(p, "w") as f:
        f.write(s)
    return dst


def cargo_env(flavour):
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, flavour)
    env.update(FLAVOURS[flavour][2])
    return env


def build(flavour):
    """the binary of a flavour, built from the current sources"""
    crate, args, _, binary = FLAVOURS[flavour]
    tdir = os.path.join(TARGET, flavour)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cdir = crate_dir(crate)
        stamp = os.path.join(tdir, "sources.sha256")
        now = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            # cargo goes by modification times: a file put back with an old time must count too
            for d, dirs, _ in os.walk(tdir):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith(("rx509-", "monitor-", "decoder-")):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    dirs[:] = []
        if flavour == "miri":
            # built by the run itself
            with open(stamp, "w") as f:
                f.write(now)
            return None
        r = subprocess.run(["cargo"] + args + ["--offline"], cwd=cdir, env=cargo_env(flavour),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-4000:])
            raise Inconclusive("build of flavour %s failed" % flavour)
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(tdir, binary)


def command(flavour, args):
    if flavour == "miri":
        return (["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"] + args,
                crate_dir("harness"),
                dict(cargo_env("miri"), MIRIFLAGS="-Zmiri-disable-isolation"))
    env = base_env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:exitcode=97"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    return ([os.path.join(TARGET, flavour, FLAVOURS[flavour][3])] + args, None, env)


# -------------------------------------------------------------------------------- running

class Worker:
    def __init__(self, flavour, prop, worker, workers, secs, ops, work):
        base = os.path.join(work, "%s-%d" % (flavour, worker))
        self.flavour, self.worker = flavour, worker
        self.out, self.witness, self.log = base + ".json", base + ".witness", base + ".log"
        self.seen = base + ".seen"
        args = ["run", "--prop", str(prop), "--seed", str(SEED), "--worker", str(worker), "--workers", str(workers),
                "--tier", TIER, "--secs", str(secs), "--ops", str(ops), "--flavour", flavour,
                "--witness", self.witness, "--out", self.out, "--seen", self.seen,
                "--literals", os.path.join(work, "literals")]
        cmd, cwd, env = command(flavour, args)
        self.log_file = open(self.log, "wb")
        self.proc = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=self.log_file, stderr=self.log_file)
        self.hung = False

    def wait(self, deadline):
        try:
            self.proc.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            # the signal handler leaves the input it was busy with
            self.hung = True
            self.proc.send_signal(signal.SIGABRT)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.log_file.close()

    def text(self):
        with open(self.log, "rb") as f:
            return f.read()[-6000:].decode("utf-8", "replace")


EVALS = ["der", "cert", "name", "ext", "typed", "pure", "work", "ident", "clock", "history", "huge", "memo", "equal", "built", "often"]


def read_witness(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        b = f.read()
    head, _, data = b.partition(b"\n")
    try:
        kind, value, ev = head.decode().split(" ")
        return kind, int(value), EVALS[int(ev)], data
    except (ValueError, IndexError):
        return None


def replay_run(flavour, prop, ev, data, work, timeout=120):
    """(refuted, explanation)"""
    p = os.path.join(work, "replay-%d.hex" % threading.get_ident())
    with open(p, "w") as f:
        f.write(data.hex())
    w = p + ".witness"
    if os.path.exists(w):
        os.remove(w)
    cmd, cwd, env = command(flavour, ["replay", "--prop", str(prop), "--eval", ev, "--input", p, "--witness", w])
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "no end within %d s" % timeout
    text = r.stdout.decode("utf-8", "replace")[-3000:]
    if r.returncode == 0:
        return False, ""
    if r.returncode == 2:
        raise Inconclusive("replay failed: " + text)
    x = read_witness(w)
    if r.returncode == 1:
        return True, text.strip()
    if r.returncode == 77 and x:
        return True, "budget of %s exceeded (%d)" % (x[0], x[1])
    if r.returncode == 99 and x:
        return True, "killed by signal %d" % x[1]
    if r.returncode in (66, 97):
        return True, text.strip()
    if r.returncode < 0:
        return True, "killed by signal %d" % -r.returncode
    return True, "exit status %d: %s" % (r.returncode, text.strip())


class Check:
    def __init__(self, pid):
        self.pid, self.prop = pid, int(pid[1:])
        self.start = time.time()
        self.violations = []  # (what, replay dict)
        self.cov = {}
        self.samples = []
        self.evals = self.distinct = 0
        self.flavours = {}
        self.seen = []
        self.work = os.path.join(OUT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        with open(os.path.join(self.work, "literals"), "w") as f:
            f.write(literals())

    def violation(self, what, **replay):
        replay.update(property=self.pid, what=what, repo_sources=source_hash())
        key = (replay.get("flavour"), replay.get("input"), replay.get("case"))
        if key not in [(r.get("flavour"), r.get("input"), r.get("case")) for _, r in self.violations]:
            self.violations.append((what, replay))

    def stage(self, flavour, workers, secs, ops):
        """one flavour of the monitors"""
        build(flavour)
        ws = [Worker(flavour, self.prop, i, workers, secs, ops, self.work) for i in range(workers)]
        slack = 400 if flavour == "miri" else 120
        deadline = time.time() + secs + slack
        for w in ws:
            w.wait(deadline)
        total = {"workers": workers, "evaluations": 0}
        digests = {}
        for w in ws:
            code = w.proc.returncode
            if code == 0 and os.path.exists(w.out):
                self.collect(w, total, digests)
                continue
            if code == 2:
                raise Inconclusive("worker %d of %s: %s" % (w.worker, flavour, w.text()))
            self.died(w, code)
        for key, answers in digests.items():
            if len(answers) > 1:
                self.violation("processes disagree about the same octets", flavour=flavour, eval="pure", input=key)
        if digests:
            total["inputs compared across processes"] = len(digests)
        self.flavours[flavour] = total

    def collect(self, w, total, digests):
        with open(w.out) as f:
            j = json.load(f)
        total["evaluations"] += j["evals"]
        self.seen.append(w.seen)
        for k in ("shapes", "features", "corpus", "edges"):
            total["max " + k] = max(total.get("max " + k, 0), j[k])
        total["stopped by time"] = total.get("stopped by time", 0) + bool(j["timed_out"])
        for k, v in j["counts"].items():
            if k.startswith(("max", "deepest")):
                total[k] = max(total.get(k, 0), v)
            else:
                total[k] = total.get(k, 0) + v
        self.evals += j["evals"]
        if len(self.samples) < 8:
            self.samples += j["samples"][:2]
        for d, x in j["digests"]:
            digests.setdefault(x, set()).add(d)
        for f in j["found"]:
            ok, what = replay_run(w.flavour, self.prop, f["eval"], bytes.fromhex(f["input"]), self.work)
            note = "" if ok else " (not reproduced alone: depends on what ran before)"
            if not ok and self.prop != 24:
                # nothing in a single-threaded worker may depend on history; keep the recorded run
                note += " seed %d worker %d" % (SEED, w.worker)
            self.violation((what if ok else f["what"]) + note, flavour=w.flavour, eval=f["eval"], input=f["input"])

    def died(self, w, code):
        x = read_witness(w.witness)
        text = w.text()
        if w.flavour == "tsan" and code == 66:
            self.violation("ThreadSanitizer: " + text, flavour="tsan", report=text)
            return
        if w.flavour == "miri":
            if "Undefined Behavior" in text or "Data race" in text:
                self.violation("Miri: " + text, flavour="miri", report=text)
                return
            raise Inconclusive("miri worker ended with %s: %s" % (code, text))
        if x is None:
            raise Inconclusive("worker %d of %s ended with %s and no witness: %s" % (w.worker, w.flavour, code, text))
        kind, value, ev, data = x
        ok, what = replay_run(w.flavour, self.prop, ev, data, self.work)
        if ok:
            self.violation(what, flavour=w.flavour, eval=ev, input=data.hex())
        elif w.hung:
            raise Inconclusive("worker %d of %s did not finish in time: %s" % (w.worker, w.flavour, text))
        else:
            raise Inconclusive("worker %d of %s died (%s %d) and the input alone does not show it" %
                               (w.worker, w.flavour, kind, value))

    def finish(self):
        known = known_findings(self.pid)
        new = []
        for what, rep in self.violations:
            hit = [k for k in known if k["input"] == rep.get("input") and k["eval"] == rep.get("eval")]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0]["what"]))
            else:
                new.append((what, rep))
        if self.seen:
            # whichever flavour came last can count
            r = subprocess.run([build("cov"), "union"] + self.seen, stdout=subprocess.PIPE, check=True)
            self.distinct = int(r.stdout)
        need = PLAN[self.prop].get("need", 1000)
        coverage = {
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct,
            "rule": RULES[self.prop],
            "samples": [s[:1500] for s in self.samples] or ["none"],
            "by_flavour": self.flavours,
        }
        coverage.update(self.cov)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": coverage, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.start, 2),
            "violations": len(new),
        }
        path = os.path.join(OUT, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        print("%s: %d evaluations, %d distinct and non-trivial, %.0f s" %
              (self.pid, self.evals, self.distinct, time.time() - self.start))
        if new:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            for i, (what, rep) in enumerate(new[:8]):
                p = os.path.join(OUT, "replays", "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(rep, f, indent=1)
                    f.write("\n")
                print("  " + what[:600].replace("\n", "\n  "))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if self.distinct < need:
            raise Inconclusive("only %d distinct non-trivial observations (%d needed)" % (self.distinct, need))
        return 0


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) eval=(\S+) input=(\S*) (.*)", line)
                if m and m.group(1) == pid:
                    out.append({"eval": m.group(2), "input": m.group(3), "what": m.group(4)})
    return out


def run(pid):
    c = Check(pid)
    plan = PLAN[c.prop]
    try:
        for flavour, workers, secs, ops in plan["thorough" if THOROUGH else "quick"]:
            if flavour == "cli":
                import cli_check
                cli_check.run(c, build, secs, ops)
            else:
                c.stage(flavour, workers, secs, ops)
            if c.violations:
                break
        code = c.finish()
    except Inconclusive as e:
        if c.violations:
            code = c.finish()
        else:
            print("INCONCLUSIVE property=%s %s" % (pid, e))
            code = 2
    if code != 2:
        shutil.rmtree(c.work, ignore_errors=True)
    return code


def replay(path):
    with open(path) as f:
        j = json.load(f)
    if "case" in j:
        import cli_check
        return cli_check.replay(j, build)
    if "input" not in j:
        print(j.get("report", j["what"]))
        return 2
    build(j["flavour"])
    work = tempfile.mkdtemp()
    try:
        ok, what = replay_run(j["flavour"], int(j["property"][1:]), j["eval"], bytes.fromhex(j["input"]), work)
    finally:
        shutil.rmtree(work)
    print(what if ok else "holds on this input")
    return 1 if ok else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        try:
            for flavour in sys.argv[2:] or ["cov", "release", "full", "cli", "asan", "tsan"]:
                t = time.time()
                build(flavour)
                print("built %s in %.0f s" % (flavour, time.time() - t))
        except Inconclusive as e:
            print(e)
            return 2
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    try:
        return run(sys.argv[1])
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (sys.argv[1], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
