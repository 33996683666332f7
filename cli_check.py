"""C23: the decoder binary against what it must print."""
import hashlib, json, os, pty, random, shutil, subprocess, tempfile, termios, threading, time
from concurrent.futures import ThreadPoolExecutor

TIMEOUT = 60
FAILURES = (101, 134, 139)  # a panic, an abort, a segmentation fault


def runit(binary, args, cwd, stdin=None, chunks=None):
    """(status, stdout, stderr); a file arrives through a pipe in chunks when asked"""
    if chunks is None:
        r = subprocess.run([binary] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=TIMEOUT)
        return r.returncode, r.stdout, r.stderr
    p = subprocess.Popen([binary] + args, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def feed():
        try:
            for c in chunks:
                p.stdin.write(c)
                p.stdin.flush()
                time.sleep(0.002)
            p.stdin.close()
        except OSError:
            pass
    t = threading.Thread(target=feed)
    t.start()
    out, err = [], []
    e = threading.Thread(target=lambda: err.append(p.stderr.read()))
    e.start()
    out.append(p.stdout.read())
    p.wait(TIMEOUT)
    t.join()
    e.join()
    return p.returncode, out[0], err[0]


# a terminal, a locale, a user: none of it may show in the output
ENVIRONMENTS = [
    {"TERM": "xterm-256color", "COLUMNS": "40", "LINES": "10", "LANG": "de_DE.UTF-8", "COLORTERM": "truecolor", "CLICOLOR_FORCE": "1", "FORCE_COLOR": "1"},
    {"LC_ALL": "C", "LANG": "C", "TZ": "Asia/Tokyo", "NO_COLOR": "1", "DEBUG": "1", "VERBOSE": "1", "RUST_LOG": "trace"},
    {"LC_ALL": "tr_TR.UTF-8", "TZ": "America/New_York", "RUST_BACKTRACE": "1", "POSIXLY_CORRECT": "1", "HOME": "/nonexistent", "SOURCE_DATE_EPOCH": "0"},
    {},
]


def in_terminal(binary, args, cwd, env):
    """the same with a terminal as standard output"""
    up, down = pty.openpty()
    a = termios.tcgetattr(down)
    a[1] &= ~termios.OPOST
    termios.tcsetattr(down, termios.TCSANOW, a)
    p = subprocess.Popen([binary] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=down, stderr=subprocess.PIPE)
    os.close(down)
    err = []
    e = threading.Thread(target=lambda: err.append(p.stderr.read()))
    e.start()
    out = b""
    while True:
        try:
            b = os.read(up, 65536)
        except OSError:
            break
        if not b:
            break
        out += b
    os.close(up)
    p.wait(TIMEOUT)
    e.join()
    return p.returncode, out, err[0]


def to_file(binary, args, cwd, env):
    """the same with a file as standard output"""
    with tempfile.TemporaryFile() as f:
        r = subprocess.run([binary] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, timeout=TIMEOUT)
        f.seek(0)
        return r.returncode, f.read(), r.stderr


def again(way, env, binary, args, cwd):
    if way == "terminal":
        return in_terminal(binary, args, cwd, env)
    if way == "file":
        return to_file(binary, args, cwd, env)
    r = subprocess.run([binary] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TIMEOUT)
    return r.returncode, r.stdout, r.stderr


def crashed(status, err):
    return status < 0 or status in FAILURES or b"panicked at" in err or b"overflowed its stack" in err


def same(a, b):
    # the generalized time label is misspelt in the code; either spelling is fine
    fix = lambda s: s.replace(b"GeneratlizedTime", b"GeneralizedTime")
    return fix(a) == fix(b)


def starts(a, b):
    fix = lambda s: s.replace(b"GeneratlizedTime", b"GeneralizedTime")
    a, b = fix(a), fix(b)
    return a[:len(b)] == b, a[len(b):]


def first_difference(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r instead of %r" % (i + 1, x[:200], y[:200])
    return "%d lines instead of %d" % (len(la), len(lb))


def judge_der(case, got):
    status, out, err = got
    if crashed(status, err):
        return "crash, status %d: %r" % (status, err[-300:])
    want, text = bytes.fromhex(case["der"]), bytes.fromhex(case["der_error"])
    if case["der_ok"]:
        if not same(out, want):
            return "standard output: " + first_difference(out, want)
        if err or status != 0:
            return "status %d, standard error %r for an accepted file" % (status, err[-300:])
        return None
    ok, rest = starts(out, want)
    if not ok:
        return "standard output: " + first_difference(out, want)
    if rest and not (rest.startswith(b"Error") and rest.count(b"\n") <= 1):
        return "standard output goes on after the fault: %r" % rest[:200]
    if not text or text not in err:
        return "standard error %r lacks %r" % (err[-300:], text)
    return None


def judge_cert(case, got):
    status, out, err = got
    if crashed(status, err):
        return "crash, status %d: %r" % (status, err[-300:])
    if not case["cert_sure"]:
        return None
    want, text = bytes.fromhex(case["cert"]), bytes.fromhex(case["cert_error"])
    if case["cert_ok"]:
        if out != want:
            return "standard output: " + first_difference(out, want)
        if err or status != 0:
            return "status %d, standard error %r for an accepted certificate" % (status, err[-300:])
        return None
    if out:
        return "standard output %r for a refused certificate" % out[:200]
    if not text or text not in err:
        return "standard error %r lacks %r" % (err[-300:], text)
    return None


def usage_cases(work):
    """(arguments, must it fail)"""
    good = os.path.join(work, "0.bin")
    d = os.path.join(work, "a directory")
    os.makedirs(d, exist_ok=True)
    dangling = os.path.join(work, "dangling")
    if not os.path.islink(dangling):
        os.symlink(os.path.join(work, "nowhere"), dangling)
    out = [[], [good], ["--der"], ["--certs"], ["--der", good, good], ["--certs", good, "x"], ["--der", "--certs", good],
           [good, "--der"], [good, good], ["", good], ["-der", good], ["der", good], ["--DER", good], ["--cert", good],
           ["--certss", good], ["--der ", good], [" --der", good], ["--der=", good], ["--help", good], ["-", good],
           ["--d\u00e9r", good], [b"--der\xff", good], [b"\xff", b"\xfe"], ["--der\n", good], ["--x", "/nonexistent"]]
    for flag in ("--der", "--certs"):
        for name in (os.path.join(work, "missing"), "", d, dangling, work + "/0.bin/x", "x" * 300, "y" * 5000,
                     os.fsencode(work) + b"/\xff\xfe", work + "/0.bin "):
            out.append([flag, name])
    return out


def judge_usage(got):
    status, out, err = got
    if crashed(status, err):
        return "crash, status %d: %r" % (status, err[-300:])
    if status == 0:
        return "status 0"
    if not err.strip():
        return "nothing on standard error"
    if out:
        return "output on standard output: %r" % out[:100]
    return None


def show(args):
    return [a if isinstance(a, str) else a.decode("latin-1") for a in args]


def run(c, build, secs, ops):
    binary, monitor = build("cli"), build("cov")
    work = os.path.join(c.work, "files")
    os.makedirs(work)
    r = subprocess.run([monitor, "cli-cases", "--dir", work, "--seed", str(c_seed()), "--ops", str(ops)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        from check import Inconclusive
        raise Inconclusive("no cases: " + r.stdout.decode("utf-8", "replace")[-2000:])
    with open(os.path.join(work, "cases.jsonl")) as f:
        cases = [json.loads(l) for l in f]
    rng = random.Random(c_seed())
    jobs = []
    for case in cases:
        path = os.path.join(work, case["file"])
        for flag in ("--der", "--certs"):
            jobs.append((case, flag, path, None))
    # the same octets under other names, and in small reads
    for case in rng.sample(cases, min(len(cases), 60)):
        path = os.path.join(work, case["file"])
        other = os.fsencode(work) + b"/odd \xff\xc3 " + os.fsencode(case["file"])
        shutil.copyfile(path, other)
        with open(path, "rb") as f:
            data = f.read()
        n = max(1, len(data) // rng.choice([1, 2, 3, 7]))
        parts = [data[i:i + n] for i in range(0, len(data), n)][:200]
        if sum(map(len, parts)) < len(data):
            parts = [data]
        for flag in ("--der", "--certs"):
            jobs.append((case, flag, other, None))
            jobs.append((case, flag, "/dev/stdin", parts))
        jobs.append((case, "--der", case["file"], None))
    # under names that mean something elsewhere
    for name in ("-", "--", "--der", "--certs", "--help", "-h", "a.pem", "a.crt", "a.DER", "a.b64", "a.gz", ".hidden", "con", "@file", "~", "*", "$HOME",
                 "%s%n", "a\nb", "n" * 255, "file:x", "\u00e9\u4e16", "a b", "'", '"', "\\", "0"):
        case = rng.choice([x for x in cases if len(x["der"]) < 20000])
        shutil.copyfile(os.path.join(work, case["file"]), os.path.join(work, name))
        jobs.append((case, "--der", name, None))
        jobs.append((case, "--certs", name, None))
        jobs.append((case, "--der", "./" + name, None))
    ways = [(case, flag, way, env) for case in cases[:4] + rng.sample(cases, min(len(cases), 40)) for flag in ("--der", "--certs")
            for way, env in [("terminal", dict(os.environ, **rng.choice(ENVIRONMENTS))), ("file", dict(rng.choice(ENVIRONMENTS))),
                             ("pipe", dict(rng.choice(ENVIRONMENTS)))]
            if len(case["der"]) < 2_000_000]
    listing = None
    end = time.time() + secs
    counts = {"files": len(cases), "runs": 0, "accepted": 0, "refused": 0, "through a pipe": 0, "wrong command lines": 0,
              "output lines compared": 0, "skipped for time": 0}
    seen = set()
    lock = threading.Lock()

    def one(job):
        case, flag, path, parts = job
        if time.time() > end:
            with lock:
                counts["skipped for time"] += 1
            return
        try:
            got = runit(binary, [flag, path], work, chunks=parts)
            bad = (judge_der if flag == "--der" else judge_cert)(case, got)
        except subprocess.TimeoutExpired:
            got, bad = (0, b"", b""), "no end within %d s" % TIMEOUT
        with lock:
            counts["runs"] += 1
            ok = case["der_ok" if flag == "--der" else "cert_ok"]
            counts["accepted" if ok else "refused"] += 1
            counts["through a pipe"] += parts is not None
            counts["output lines compared"] += got[1].count(b"\n")
            seen.add(hashlib.sha256(repr((flag, got)).encode()).digest()[:8])
            if len(c.samples) < 6 and len(case["der"]) < 2000 and got[1]:
                with open(os.path.join(work, case["file"]), "rb") as f:
                    c.samples.append("%s %s -> status %d, %d lines" % (flag, f.read().hex(), got[0], got[1].count(b"\n")))
            if bad and len(c.violations) < 8:
                with open(os.path.join(work, case["file"]), "rb") as f:
                    data = f.read().hex()
                c.violation("%s: %s" % (flag, bad), case="file", flag=flag, input=data, expected=case, piped=parts is not None)

    def other(job):
        case, flag, way, env = job
        if time.time() > end + 20:
            with lock:
                counts["skipped for time"] += 1
            return
        got = again(way, env, binary, [flag, os.path.join(work, case["file"])], work)
        bad = (judge_der if flag == "--der" else judge_cert)(case, got)
        with lock:
            counts["runs"] += 1
            counts["in other surroundings"] = counts.get("in other surroundings", 0) + 1
            if bad and len(c.violations) < 8:
                with open(os.path.join(work, case["file"]), "rb") as f:
                    data = f.read().hex()
                c.violation("%s, %s as output, %s: %s" % (flag, way, {k: env[k] for k in env if os.environ.get(k) != env[k]}, bad), case="file",
                            flag=flag, input=data, expected=case, piped=False, way=way, env=env)

    listing = sorted(os.listdir(os.fsencode(work)))
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, jobs))
        list(pool.map(other, ways))
    if sorted(os.listdir(os.fsencode(work))) != listing:
        c.violation("files appeared or vanished where the decoder ran: %s" % [x for x in os.listdir(work) if os.fsencode(x) not in listing][:5],
                    case="files", input="")
    for args in usage_cases(work):
        try:
            got = runit(binary, args, work)
            bad = judge_usage(got)
        except subprocess.TimeoutExpired:
            bad = "no end"
        counts["wrong command lines"] += 1
        seen.add(hashlib.sha256(repr(("usage", got)).encode()).digest()[:8])
        if bad:
            c.violation("arguments %s: %s" % (show(args), bad), case="usage", args=show(args), input=json.dumps(show(args)))
    # deep files: no crash, whatever is printed (the reference text would be gigabytes)
    for deep in (b"\x30\x80" * 100_000, nested(20_000)):
        p = os.path.join(work, "deep.bin")
        with open(p, "wb") as f:
            f.write(deep)
        got = runit(binary, ["--certs", p], work)
        counts["runs"] += 1
        if crashed(got[0], got[2]) or got[1] or not got[2]:
            c.violation("--certs on a deeply nested file: status %d, %r" % (got[0], got[2][-200:]), case="deep",
                        input=hashlib.sha256(deep).hexdigest())
    c.evals += counts["runs"] + counts["wrong command lines"]
    c.distinct += len(seen)
    c.flavours["cli"] = counts


def nested(depth):
    b = b"\x05\x00"
    parts = []
    n = 2
    heads = []
    for _ in range(depth):
        h = b"\x30" + (bytes([n]) if n < 128 else (lambda x: bytes([0x80 | len(x)]) + x)(n.to_bytes((n.bit_length() + 7) // 8, "big")))
        heads.append(h)
        n += len(h)
    return b"".join(reversed(heads)) + b


def c_seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def replay(j, build):
    binary = build("cli")
    work = tempfile.mkdtemp()
    try:
        if j["case"] == "usage":
            with open(os.path.join(work, "0.bin"), "wb") as f:
                f.write(b"\x05\x00")
            usage_cases(work)
            args = [a.encode("latin-1") if any(ord(x) > 127 for x in a) else a for a in j["args"]]
            bad = judge_usage(runit(binary, args, work))
        elif j["case"] in ("deep", "files"):
            bad = j["what"]
        else:
            p = os.path.join(work, "input")
            with open(p, "wb") as f:
                f.write(bytes.fromhex(j["input"]))
            if j.get("way"):
                got = again(j["way"], j["env"], binary, [j["flag"], p], work)
            else:
                got = runit(binary, [j["flag"], p], work)
            bad = (judge_der if j["flag"] == "--der" else judge_cert)(j["expected"], got)
    finally:
        shutil.rmtree(work)
    print(bad or "holds on this input")
    return 1 if bad else 0
