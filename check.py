#!/usr/bin/env python3
"""Driver of the checks: builds /repo's working tree with the harness, runs the workloads of one
property under their monitors, writes evidence and replays.

  check.py setup | run <id> [--tier quick|thorough] [--seed n] | replay <file>
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
THREADS = min(8, os.cpu_count() or 8)
TRIPLE = "x86_64-unknown-linux-gnu"


class Inconclusive(Exception):
    """The check can say nothing: exit 2."""


def say(*a):
    print(*a, flush=True)


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not re.match(r"(RUSTFLAGS|CARGO_|RUSTC|MIRIFLAGS|.*SAN_OPTIONS)", k)
         or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if extra:
        e.update(extra)
    return e


def sh(cmd, timeout, extra=None, cwd=None):
    """Run a command in its own process group; returns (rc, stdout, stderr), rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=env(extra), cwd=cwd or HARNESS, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = None
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


# ---------------------------------------------------------------- builds

def tree_hash():
    h = hashlib.sha256()
    files = ["Cargo.toml", "build.rs"]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs)]
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


# name: (toolchain, profile, codec, rustflags, extra args)
BUILDS = {
    "dev-s": (None, "dev", "s", None, []),
    "checked-s": (None, "checked", "s", None, []),
    "release-s": (None, "release", "s", None, []),
    "checked-b": (None, "checked", "b", None, []),
    "release-b": (None, "release", "b", None, []),
    "alloc-s": (None, "checked", "s,alloc", None, []),
    "tsan-s": ("+nightly", "release", "s", "-Zsanitizer=thread", ["-Zbuild-std", "--target", TRIPLE]),
    "asan-s": ("+nightly", "checked", "s", "-Zsanitizer=address", ["--target", TRIPLE]),
    "msan-s": ("+nightly", "checked", "s", "-Zsanitizer=memory -Zsanitizer-memory-track-origins",
               ["-Zbuild-std", "--target", TRIPLE]),
    "asan-b": ("+nightly", "checked", "b", "-Zsanitizer=address", ["--target", TRIPLE]),
    "allocr-s": (None, "release", "s,alloc", None, []),
    "allocr-b": (None, "release", "b,alloc", None, []),
    "cov-s": ("+nightly", "release", "s", "-Cinstrument-coverage", []),
}


def cargo(name):
    tc, prof, feat, flags, extra = BUILDS[name]
    c = ["cargo"] + ([tc] if tc else [])
    args = ["--offline", "--locked", "--no-default-features", "--features", feat,
            "--target-dir", os.path.join(TARGET, name)] + (["--profile", prof]) + extra
    return c, args, ({"RUSTFLAGS": flags} if flags else None)


def fresh(tdir, clean, extra, cwd=None):
    """Whatever cargo makes of time stamps, the library is compiled from the files as they are."""
    stamp = os.path.join(tdir, "rabe-bn.sha256")
    now = tree_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
        if old != now:
            os.remove(stamp)
    if old != now and os.path.isdir(tdir):
        sh(clean, 120, extra, cwd)
    return stamp, now


def build(name):
    c, args, extra = cargo(name)
    tc, prof, feat, flags, xargs = BUILDS[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    clean = c + ["clean", "--offline", "-p", "rabe-bn", "--target-dir", tdir]
    clean += ["--profile", prof] + (["--target", TRIPLE] if TRIPLE in xargs else [])
    stamp, now = fresh(tdir, clean, extra)
    rc, o, e = sh(c + ["build"] + args, 800, extra)
    if rc != 0:
        raise Inconclusive("building %s failed (%s)\n%s" % (name, rc, e[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)
    d = "debug" if prof == "dev" else prof
    sub = [TRIPLE, d] if TRIPLE in xargs else [d]
    return os.path.join(tdir, *sub, "vh")


WASM = {"wasm32-s": "s", "wasm32-b": "b"}


def build_wasm(name):
    """The module for node; None where the library is not to be had for that target."""
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    wdir = os.path.join(HARNESS, "wasm")
    triple = "wasm32-unknown-emscripten"
    c = ["cargo", "+nightly"]
    args = ["--offline", "--locked", "--release", "--no-default-features", "--features", WASM[name],
            "-Zbuild-std=std,panic_abort", "--target", triple, "--target-dir", tdir]
    extra = {"RUSTFLAGS": "-Cpanic=abort -Clinker=" + os.path.join(wdir, "ld.py")}
    stamp, now = fresh(tdir, c + ["clean", "--offline", "-p", "rabe-bn", "--release", "--target", triple, "--target-dir", tdir],
                       extra, wdir)
    rc, o, e = sh(c + ["build"] + args, 800, extra, wdir)
    if rc != 0:
        raise Inconclusive("building %s failed (%s)\n%s" % (name, rc, e[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(tdir, triple, "release", "vw.wasm")


def program(name):
    """How a build is started."""
    if name in WASM:
        return ["node", os.path.join(HARNESS, "wasm", "run.js"), build_wasm(name)]
    return [build(name)]


def build_all(names):
    bins = {}
    with cf.ThreadPoolExecutor(len(names)) as ex:
        futs = {n: ex.submit(build, n) for n in names}
        for n, f in futs.items():
            bins[n] = f.result()
    return bins


# ---------------------------------------------------------------- state of one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []  # dict(msg, how)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "monitors": {}, "steps": []}
        self.assumptions = []
        self.sigfiles = []
        self.tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violate(self, msg, **how):
        self.violations.append({"msg": msg, "how": how})

    def count(self, k, n):
        m = self.cov["monitors"]
        m[k] = m.get(k, 0) + n


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


def one_cmd(binary, prop, seed, family, idx):
    return [binary, "one", "--prop", prop, "--seed", str(seed), "--family", family, "--idx", str(idx)]


def step(ck, name, binary, prop=None, scale=1.0, seed=None, time_cap=None, family=None, extra=None, tag="", judge=None, threads=THREADS):
    """One workload in one build. Returns the harness's report, or None if it crashed."""
    prop = prop or ck.prop
    seed = ck.seed if seed is None else seed
    cap = time_cap or (600 if ck.thorough else 240)
    out = os.path.join(ck.tmp, "o.json")
    sig = os.path.join(ck.tmp, "sig-%d" % len(ck.sigfiles))
    cmd = [binary, "run", "--prop", prop, "--tier", ck.tier, "--seed", str(seed), "--scale", repr(scale),
           "--threads", str(threads), "--time", str(cap), "--out", out, "--sigs", sig]
    if family:
        cmd += ["--family", family]
    if os.path.exists(out):
        os.remove(out)
    t = time.time()
    rc, o, e = sh(cmd, cap + 330, extra)
    how = dict(kind="family", build=name, prop=prop, seed=seed)
    if rc is not None and rc < 0 and -rc in CRASHES:
        crashed(ck, name, binary, cmd, prop, seed, -rc, e, extra)
        return None
    if rc is None:
        raise Inconclusive("%s did not finish within %d s" % (" ".join(cmd), cap + 330))
    if rc != 0 or not os.path.exists(out):
        raise Inconclusive("%s ended with %s\n%s" % (" ".join(cmd), rc, (o + e)[-3000:]))
    with open(out) as f:
        d = json.load(f)
    if d["harness_errors"] and not d["violations"]:
        raise Inconclusive("harness error: %s" % d["harness_errors"][0])
    for v in d["violations"]:
        if judge and not judge(name, prop, seed, v):
            ck.count("not-of-this-property", 1)
            continue
        ck.violate("[%s] %s case %d: %s: %s" % (name, v["family"], v["idx"], v["kind"], v["msg"]),
                   family=v["family"], idx=v["idx"], **how)
    if d["evaluations"] == 0:
        raise Inconclusive("%s: nothing was run" % name)
    if os.path.exists(sig):
        ck.sigfiles.append(sig)
    ck.cov["evaluations"] += d["evaluations"]
    for k, n in d["counts"].items():
        ck.count(k, n)
    if len(ck.cov["samples"]) < 40:
        ck.cov["samples"] += d["samples"][:40 - len(ck.cov["samples"])]
    ck.cov["steps"].append({"build": name, "what": tag or ("workload of " + prop), "seed": seed, "cases": d["evaluations"],
                            "nontrivial": d["nontrivial"], "violations": len(d["violations"]),
                            "cut_by_time": d["truncated"], "wall_s": round(time.time() - t, 1)})
    return d


def crashed(ck, name, binary, cmd, prop, seed, sig, err, extra):
    """A crash is reported if it happens again."""
    rc, o, e = sh(cmd + ["--trace"], 900, extra)
    if rc is None or rc >= 0 or -rc not in CRASHES:
        raise Inconclusive("%s crashed with signal %d once, then ended with %s\n%s" % (" ".join(cmd), sig, rc, err[-2000:]))
    cases = re.findall(r"^CASE (\S+) (\d+)$", e, re.M)[-4 * THREADS:]
    for fam, idx in reversed(cases):
        rc2, o2, e2 = sh(one_cmd(binary, prop, seed, fam, idx), 300, extra)
        if rc2 is not None and rc2 < 0 and -rc2 in CRASHES:
            ck.violate("[%s] %s case %s: the process dies of signal %d: %s" % (name, fam, idx, -rc2, tail(e2)),
                       kind="family", build=name, prop=prop, seed=seed, family=fam, idx=int(idx))
            return
    ck.violate("[%s] the process dies of signal %d, twice: %s" % (name, -rc, tail(re.sub(r"(?m)^CASE.*\n", "", e))),
               kind="command", build=name, cmd=cmd[1:])


def tail(s):
    return " ".join(s.split())[-900:]


# ---------------------------------------------------------------- properties

RULES = {
    "C01": "operand pairs drawn by residue and by value (extreme words, relations such as equal, negative, inverse, sums and products at the limits), operation chains, powers; each result compared with schoolbook integer arithmetic modulo r. Non-trivial: both operands nonzero.",
    "C02": "byte slices, 64-byte strings, numerals and non-numerals of all lengths and near multiples of r; the result compared with the integer reduced modulo r, refusals with the exact error. Every case is non-trivial.",
    "C03": "pairs of values, equal by different routes or differing in as little as one bit; equality, byte form, text and encoding compared with the integers'. Non-trivial: the value is nonzero.",
    "C04": "pairs of points in related positions and representations (injected Jacobian coordinates); sums, differences, negatives and chains compared with textbook affine-formula arithmetic. Non-trivial: not both at infinity.",
    "C05": "as C04, in the twist over the quadratic extension. Non-trivial: not both at infinity.",
    "C06": "points in all representations times structured scalars; compared with reference double-and-add and, for small scalars, with repeated addition. Non-trivial: point finite and scalar above 1.",
    "C07": "pairs of representations of equal, opposite and different points; ==, normalize, bytes and encodings compared with the points'. Non-trivial: not both at infinity.",
    "C08": "pairs of points; pairing compared with an independent textbook optimal ate pairing (affine Miller loop, plain final power), with the published vectors and with the bilinear laws. Non-trivial: both points finite.",
    "C09": "elements of the degree-12 field injected by decoding, and pairing values; product, inverse, power compared with a flat reference representation. Non-trivial: not both one.",
    "C10": "values in all representations encoded and decoded in every format of the build and compared with the wire format written down independently. Every case is non-trivial.",
    "C11": "valid encodings, mutations with a known verdict, random bytes and documents; acceptance compared with an independent membership test, and accepted values used. Non-trivial: the input is well-formed enough to reach a verdict, or is refused for its shape.",
    "C12": "recorded byte streams (uniform, constant, counting, sparse, multiples of the moduli) as generators; validity, determinism, chi-square statistics at 7 standard deviations, single-bit influence. Every case is non-trivial.",
    "C13": "integers and moduli of structured words; compared with schoolbook integer arithmetic. Non-trivial: operands for which the operation is not the identity.",
    "C14": "random programs over all operations with operands reused, each comparison and final value compared with arithmetic on exponents; protocol runs with honest and altered values. Every case is non-trivial.",
    "C15": "histories of calls repeated in shuffled order and from 2 to 8 threads, results compared with the exponents' prediction and bit for bit with each other; the same under ThreadSanitizer. Every case is non-trivial.",
    "C16": "the workloads of C01-C14 at lower volume in builds with and without checks and with either codec, panics being violations; transcripts of a common workload compared between the builds, and with 32-bit and big-endian targets under Miri, case by case. Non-trivial as in those properties.",
    "C18": "calls of every operation on structured inputs, on data of growing length, on hostile generators and in long histories; CPU time of the thread, peak heap, stack and bytes drawn compared with the same calls on ordinary inputs in the same process. Every case is non-trivial.",
    "C17": "workloads of C01-C15 under AddressSanitizer and MemorySanitizer, a mixed workload under memcheck (with leak check) and under Miri, and the same with every case repeated under an allocation counter. Non-trivial as in those properties.",
}
ASSUME = [
    "the reference arithmetic in /verif/harness/src/ref*.rs, written independently of the library and cross-checked by the curve equations, group orders and published pairing vectors",
    "held on the executions counted here, which are a sample of the inputs",
]

# volume in quick and thorough, per build; thorough counts are already about 50 times the quick
VOLUME = {
    "C01": (4, 2), "C02": (6, 6), "C03": (2, 2), "C04": (5, 4), "C05": (1.5, 1.5), "C06": (0.7, 1), "C07": (1.2, 1.5),
    "C08": (0.7, 1), "C09": (0.7, 1), "C10": (1, 1), "C11": (0.7, 1), "C12": (0.7, 1), "C13": (8, 4), "C14": (0.6, 1),
    "C15": (0.5, 1),
}
BORSH_TOO = {"C03": 0.5, "C07": 0.3, "C10": 1.0, "C11": 0.7}


def check_standard(ck):
    v = VOLUME[ck.prop][1 if ck.thorough else 0]
    names = ["checked-s", "release-s"]
    if ck.prop in BORSH_TOO:
        names.append("checked-b")
    bins = build_all(names)
    step(ck, "checked-s", bins["checked-s"], scale=v)
    step(ck, "release-s", bins["release-s"], scale=v * 0.7, seed=ck.seed + 1_000_003)
    if "checked-b" in names:
        step(ck, "checked-b", bins["checked-b"], scale=v * BORSH_TOO[ck.prop], seed=ck.seed + 2_000_003)
    return bins


def check_c18(ck):
    """Costs, in builds with the counting allocator."""
    bins = build_all(["alloc-s", "allocr-s", "allocr-b"])

    def judge(name, prop, seed, w):
        return w["kind"] == "hang" or w["msg"].startswith("cost:")

    # time is compared with time: fewer threads than processors
    few = max(2, THREADS - 2)
    step(ck, "allocr-s", bins["allocr-s"], judge=judge, threads=few)
    step(ck, "alloc-s", bins["alloc-s"], scale=0.5, seed=ck.seed + 1_000_003, judge=judge, threads=few)
    step(ck, "allocr-b", bins["allocr-b"], scale=0.5, seed=ck.seed + 2_000_003, judge=judge, threads=few)


def san_reports(prefix, word):
    n, texts = 0, []
    for f in glob.glob(prefix + "*"):
        with open(f, errors="replace") as fh:
            t = fh.read()
        blocks = re.split(r"(?m)^=+$", t)
        for b in blocks:
            if word in b:
                n += 1
                texts.append(b.strip())
    return n, texts


def check_c15(ck):
    with cf.ThreadPoolExecutor(2) as ex:
        ts = ex.submit(build, "tsan-s")
        bins = build_all(["checked-s", "release-s"])
        tsan = ts.result()
    v = VOLUME["C15"][1 if ck.thorough else 0]

    def judge(name, prop, seed, w):
        # a call that runs on alone is no matter of history or threads; a deadlock is
        return w["kind"] != "hang" or "deadlock" in w["msg"]

    step(ck, "checked-s", bins["checked-s"], scale=v, judge=judge)
    step(ck, "release-s", bins["release-s"], scale=v * 0.7, seed=ck.seed + 1_000_003, judge=judge)
    # the race detector
    log = os.path.join(ck.tmp, "tsan")
    opts = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=0 report_thread_leaks=0 history_size=4 log_path=" + log}
    d = step(ck, "tsan-s", tsan, scale=(0.1 if not ck.thorough else 0.25), seed=ck.seed + 3_000_003, family="threads,moving,cold,interruptions",
             extra=opts, tag="ThreadSanitizer", judge=judge)
    n, texts = san_reports(log, "WARNING: ThreadSanitizer")
    ck.count("tsan:reports", n)
    seen = set()
    for t in texts:
        key = tuple(re.findall(r"#\d+ (\S+)", re.sub(r"0x[0-9a-f]+", "", t))[:3])
        if key in seen:
            continue
        seen.add(key)
        ck.violate("[tsan-s] " + tail(t[:1500]), kind="family", build="tsan-s", prop="C15", seed=ck.seed + 3_000_003,
                   family="threads", idx=0, report=t[:4000])
    if d:
        ck.count("tsan:cases", d["evaluations"])


def transcripts(ck, bins, scales):
    """The same workload in every build: any two builds agree on every case they both ran."""
    got = {}
    seed = ck.seed
    for name, b in bins.items():
        out = os.path.join(ck.tmp, "tr-" + name)
        t = time.time()
        cmd = b + ["transcript", "--seed", str(seed), "--scale", repr(scales[name]), "--threads", str(THREADS), "--out", out,
               "--time", "900" if ck.thorough else "200"]
        rc, o, e = sh(cmd, 1300 if ck.thorough else 330)
        if rc is not None and rc < 0 and -rc in CRASHES:
            rc, o, e = sh(cmd, 600)
            if rc is not None and rc < 0 and -rc in CRASHES:
                ck.violate("[%s] the transcript workload dies of signal %d: %s" % (name, -rc, tail(e)),
                           kind="command", build=name, cmd=cmd[len(b):])
                continue
            raise Inconclusive("transcript in %s crashed once" % name)
        if rc != 0:
            raise Inconclusive("transcript in %s ended with %s\n%s" % (name, rc, e[-2000:]))
        rows = {}
        with open(out) as f:
            for line in f:
                p = line.rstrip("\n").split(" ", 3)
                if " ended: unsupported: " in line:
                    ck.count("transcript:unsupported", 1)
                    continue
                rows[(p[0], int(p[1]))] = (p[2], p[3])
        got[name] = rows
        ck.cov["steps"].append({"build": name, "what": "transcript", "seed": seed, "cases": len(rows),
                                "results": sum(int(r[0]) for r in rows.values()), "wall_s": round(time.time() - t, 1)})
        ck.cov["evaluations"] += len(rows)
        ck.count("transcript:results:" + name, sum(int(r[0]) for r in rows.values()))
    base = "release-s"
    compared = 0

    def end(h):
        return h.split(" ")[0], " ended: " in h

    for name, rows in got.items():
        bad = 0
        for k, (n, h) in sorted(rows.items()):
            # a panic is this property's on valid input; so is any end that only some builds come to
            if " ended: panic" in h and bad < 3 and (k[0] != "decoding" or re.search("overflow|assert", h)):
                bad += 1
                ck.violate("[%s] transcript %s %d: %s" % (name, k[0], k[1], h.split(" ended: ", 1)[1]),
                           kind="transcript", build=name, other=name, seed=seed, part=k[0], idx=k[1])
                continue
            if name == base or base not in got:
                continue
            o = got[base].get(k)
            if o is None:
                continue
            compared += 1
            if end(h)[1] and end(o[1])[1] and name in WASM:
                # what went before is lost there
                continue
            if (n, end(h)) != (o[0], end(o[1])) and bad < 3:
                bad += 1
                ck.violate("%s and %s differ on case %s %d of the transcript: %s" % (
                    name, base, k[0], k[1], first_difference(bins[name], bins[base], seed, k)),
                    kind="transcript", build=name, other=base, seed=seed, part=k[0], idx=k[1])
    ck.count("transcript:cases-compared", compared)
    if compared == 0 and not ck.violations:
        raise Inconclusive("no transcripts were compared")


def case_log(b, seed, k):
    rc, o, e = sh(b + ["transcript", "--seed", str(seed), "--part", k[0], "--idx", str(k[1])], 120)
    return o.splitlines() if rc == 0 else ["ended: %s %s" % (rc, tail(e))]


def first_difference(b1, b2, seed, k):
    x, y = case_log(b1, seed, k), case_log(b2, seed, k)
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else "(nothing)"
        q = y[i] if i < len(y) else "(nothing)"
        if p != q:
            return "%s against %s" % (p[:400], q[:400])
    return "not reproduced alone"


# targets of other word size and byte order, under the interpreter
I686, S390X = "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
FOREIGN = [(I686, "s"), (S390X, "s"), (S390X, "b")]
# monitored families for the big-endian target, shared out by cost
FEW = ["trip-int:60,int-bytes:60,int-text:40,from-str:10", "from-slice:60,interpret:60,int-compose:60,int-bits:20",
       "trip-fr:30,canon-fr:20,fr-binop:40,int-order:40,int-modular:30"]


def digests(o):
    return {(p, int(i)): (h, e) for p, i, h, e in re.findall(r"(?m)^DIGEST (\S+) (\d+) (\w+)( ended)?$", o)}


def foreign_part(ck, base, target, native, part, scale, cap):
    """A part of the transcript workload on a target of another kind: the same results."""
    args = ["mini", "--digests", "--part", part, "--scale", repr(scale), "--seed", str(ck.seed), "--time", str(cap)]
    rc, o, e = mini(ck, "miri %s %s" % target, base + args, cap + 300, miri_env())
    got = digests(o)
    if rc is None:
        ck.cov["steps"][-1]["cut_by_time"] = True
    elif rc != 0:
        if MIRI_UB.search(e):
            # memory is for C17 to judge
            ck.count("foreign:stopped", 1)
        else:
            raise Inconclusive("Miri for %s ended with %s\n%s" % (target[0], rc, e[-3000:]))
    rc2, o2, e2 = sh([native] + args, 300)
    want = digests(o2)
    if rc2 != 0 or not want:
        raise Inconclusive("native transcript ended with %s\n%s" % (rc2, e2[-2000:]))
    both = sorted(set(got) & set(want))
    ck.count("foreign:cases-compared", len(both))
    bad = [k for k in both if got[k] != want[k]]
    for k in bad[:2]:
        ck.violate("[%s] case %s %d of the transcript has other results than on this machine" % (target[0], k[0], k[1]),
                   kind="foreign", target=list(target), args=args)
    return len(both)


def foreign(ck, native, judge):
    plan = {(I686, "s"): {"arith": 1, "scalars": 1, "g1": 1, "gt": 1, "decoding": 2},
            (S390X, "s"): {"arith": 1, "scalars": 1, "g1": 1, "gt": 1, "decoding": 2},
            (S390X, "b"): {"arith": 1, "scalars": 1, "decoding": 1}}
    if ck.thorough:
        plan = {t: {"arith": 10, "scalars": 10, "g1": 6, "g2": 6, "gt": 10, "decoding": 20} for t in FOREIGN}
    with cf.ThreadPoolExecutor(3) as ex:
        bases = dict(zip(FOREIGN, ex.map(lambda t: miri_prepare(*t), FOREIGN)))
    with cf.ThreadPoolExecutor(THREADS) as ex:
        futs = [ex.submit(foreign_part, ck, bases[t], t, native, p, s, 1200 if ck.thorough else 90)
                for t in FOREIGN for p, s in plan[t].items()]
        few = [ex.submit(foreign_few, ck, bases[t], t, f, 900 if ck.thorough else 40) for t in FOREIGN[1:] for f in FEW]
        n = sum(f.result() for f in futs)
        for f in few:
            t, args, o = f.result()
            judged(ck, "miri %s %s" % t, ck.seed, re.findall(r"(?m)^FEW (\S+ \d+ \d+ .*)$", o), judge,
                   lambda fam, idx: dict(kind="few", target=list(t), seed=ck.seed, family=fam, idx=idx))
    if n == 0 and not ck.violations:
        raise Inconclusive("no transcripts of other targets were compared")


def foreign_few(ck, base, t, plan, cap):
    args = ["few", "--plan", plan, "--seed", str(ck.seed), "--time", str(cap)]
    rc, o, e = sh(base + args, cap + 300, miri_env())
    if rc is None:
        ck.count("foreign:few-cut", 1)
    elif rc != 0:
        if MIRI_UB.search(e):
            ck.count("foreign:stopped", 1)
        else:
            raise Inconclusive("Miri for %s ended with %s\n%s" % (t[0], rc, e[-3000:]))
    return t, args, o


def judged(ck, name, seed, lines, judge, how):
    """Outcomes of single cases elsewhere, "family index events held|kind: message" each."""
    cases = events = bad = 0
    for line in lines:
        fam, idx, n, what = line.rstrip("\n").split(" ", 3)
        if what.startswith("unsupported"):
            ck.count("narrow:unsupported", 1)
            continue
        cases += 1
        events += int(n)
        if what == "held":
            continue
        m = re.match(r"(mismatch|panic|hang|trap)(: panic)?( at ([^:]*):)?", what)
        if not m or (m.group(4) or "").startswith("src/") and "SUT:" not in what:
            raise Inconclusive("harness error in %s: %s" % (name, line[:2000]))
        v = dict(family=fam, idx=int(idx), kind=m.group(1), msg=what)
        if bad < 3 and judge(name, "C16", seed, v):
            bad += 1
            ck.violate("[%s] %s case %s: %s" % (name, fam, idx, v["msg"]), **how(fam, int(idx)))
        else:
            ck.count("not-of-this-property", 1)
    ck.cov["evaluations"] += cases
    ck.count("elsewhere:cases:" + name, cases)
    ck.count("elsewhere:monitored-events:" + name, events)
    return cases, events


def check_c16(ck):
    names = ["dev-s", "checked-s", "release-s", "checked-b", "release-b"]
    with cf.ThreadPoolExecutor(2) as ex:
        futs = {n: ex.submit(program, n) for n in WASM}
        bins = build_all(names)
        progs = dict({n: [b] for n, b in bins.items()}, **{n: f.result() for n, f in futs.items()})
    big = 10.0 if not ck.thorough else 400.0
    slow = {"dev-s": 1.0, "wasm32-s": 5.0, "wasm32-b": 2.0}
    transcripts(ck, progs, {n: slow[n] * (40.0 if ck.thorough else 1.0) if n in slow else big for n in progs})
    if ck.violations:
        # nothing more is needed, and a build that hangs would take long
        return
    asked = {}

    def outcome(n, prop, seed, v):
        rc, o, e = sh(one_cmd(bins[n], prop, seed, v["family"], v["idx"]), 150)
        if rc is None:
            return "no return"
        if rc == 0:
            return "held"
        m = re.search(r": (mismatch|panic): ", o)
        return m.group(1) if m else "ended with %s" % rc

    def judge(name, prop, seed, v):
        """A failed check is this property's when it panics on valid input, or in some builds only."""
        if v["kind"] == "panic" and (not v["family"].startswith("decode-") or re.search("overflow|assert", v["msg"])):
            return True
        if len(asked) >= 12:
            return False
        k = (seed, v["family"], v["idx"])
        asked[k] = {n: outcome(n, prop, seed, v) for n in names}
        if name not in names:
            asked[k][name] = v["kind"] if v["kind"] in ("mismatch", "panic") else v["msg"]
        if len(set(asked[k].values())) > 1:
            v["msg"] += " -- by build: %s" % asked[k]
            return True
        return False

    foreign(ck, bins["release-s"], judge)
    f = 0.5 if ck.thorough else 1.0
    plan = {"dev-s": 0.004, "checked-s": 0.04, "release-s": 0.04, "checked-b": 0.04, "release-b": 0.04}
    for i, n in enumerate(names):
        step(ck, n, bins[n], prop="C16", scale=plan[n] * f, seed=ck.seed + 10_007 * i, tag="workloads of C01-C14", judge=judge)
    for i, n in enumerate(WASM):
        narrow(ck, n, progs[n], (0.6 if ck.thorough else 0.03), ck.seed + 10_007 * (len(names) + i), judge)


def narrow(ck, name, prog, scale, seed, judge):
    """The other properties' workloads, with their monitors, where a word is 32 bits."""
    out = os.path.join(ck.tmp, "nw-" + name)
    t = time.time()
    cap = 900 if ck.thorough else 120
    cmd = prog + ["workloads", "--seed", str(seed), "--scale", repr(scale), "--threads", str(THREADS), "--time", str(cap), "--out", out]
    rc, o, e = sh(cmd, cap + 300)
    if rc != 0:
        raise Inconclusive("%s ended with %s\n%s" % (" ".join(cmd), rc, e[-2000:]))
    with open(out) as f:
        cases, events = judged(ck, name, seed, f, judge,
                               lambda fam, idx: dict(kind="narrow", build=name, seed=seed, family=fam, idx=idx))
    ck.cov["steps"].append({"build": name, "what": "workloads of C01-C14", "seed": seed, "cases": cases, "events": events,
                            "wall_s": round(time.time() - t, 1)})
    if cases == 0:
        raise Inconclusive("nothing was run in " + name)


def mini(ck, label, cmd, timeout, extra=None, cwd=None):
    t = time.time()
    rc, o, e = sh(cmd, timeout, extra, cwd)
    m = re.search(r"MINI cases (\d+) results (\d+) bad (\d+)", o)
    if m:
        ck.cov["evaluations"] += int(m.group(1))
        ck.count(label + ":cases", int(m.group(1)))
        ck.count(label + ":results", int(m.group(2)))
    m2 = re.search(r"MINI allocations (\d+)", o)
    if m2:
        ck.count(label + ":allocations", int(m2.group(1)))
    ck.cov["steps"].append({"build": label, "what": "mixed workload", "cases": int(m.group(1)) if m else 0,
                            "cut_by_time": "MINI truncated" in o, "wall_s": round(time.time() - t, 1)})
    return rc, o, e


def mini_bad(ck, label, o, cmd):
    bad = re.findall(r"(?m)^MINI-LEAK (.*)$", o)
    for b in bad[:3]:
        ck.violate("[%s] %s" % (label, b), kind="command", build=label, cmd=cmd)
    return bool(bad)


def miri_env():
    return {"XDG_CACHE_HOME": os.path.join(TARGET, "xdg"), "MIRIFLAGS": "-Zmiri-disable-isolation"}


def miri_prepare(target=None, feat="s"):
    """Build the workload for the interpreter, so that the parts can then run side by side."""
    os.makedirs(os.path.join(TARGET, "xdg"), exist_ok=True)
    tdir = os.path.join(TARGET, "miri" + ("-" + target if target else "") + ("-b" if feat == "b" else ""))
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "rabe-bn.sha256")
    now = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() != now:
        for d in {"miri", target} - {None}:
            shutil.rmtree(os.path.join(tdir, d), ignore_errors=True)
        os.remove(stamp)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--release", "--no-default-features",
           "--features", feat, "--target-dir", tdir]
    cmd += (["--target", target] if target else []) + ["--", "list"]
    rc, o, e = sh(cmd, 700, miri_env())
    if rc != 0:
        raise Inconclusive("building for Miri failed (%s)\n%s" % (rc, e[-4000:]))
    with open(stamp, "w") as f:
        f.write(now)
    return cmd[:-1]


MIRI_UB = re.compile(r"error: (Undefined Behavior|memory leaked|abnormal termination|the evaluated program (deadlocked|leaked))|unsafe precondition")


def miri_part(ck, base, part, scale, cap, frm=0, flags="", timeout=None):
    args = ["mini", "--trace", "--part", part, "--scale", repr(scale), "--seed", str(ck.seed), "--time", str(cap), "--from", str(frm)]
    ex = miri_env()
    ex["MIRIFLAGS"] += flags
    rc, o, e = mini(ck, "miri", base + args, timeout or cap + 400, ex)
    how = dict(kind="miri", args=args, flags=flags)
    if mini_bad(ck, "miri", o, args):
        return
    if rc is None:
        # one case may take longer than its share: what ran is counted, nothing was seen
        ck.cov["steps"][-1]["cut_by_time"] = True
        ck.count("miri:parts-cut", 1)
        return
    if rc != 0:
        m = MIRI_UB.search(e)
        if m:
            at = re.findall(r"(?m)^CASE (.*)$", o)
            i = max(0, m.start() - 100)
            ck.violate("[miri] %s case %s: %s" % (part, at[-1] if at else "?", tail(e[i:i + 1500])), **how)
        else:
            raise Inconclusive("Miri ended with %s\n%s" % (rc, e[-3000:]))


def check_c17(ck):
    bins = {}
    with cf.ThreadPoolExecutor(5) as ex:
        futs = {n: ex.submit(build, n) for n in ["asan-s", "msan-s", "alloc-s"] + (["asan-b"] if ck.thorough else [])}
        base = ex.submit(miri_prepare)
        for n, f in futs.items():
            bins[n] = f.result()
        base = base.result()
    # the interpreter: parts side by side, in the background of the others
    if ck.thorough:
        parts = [("arith", 12, 0, ""), ("scalars", 12, 0, ""), ("g1", 12, 0, ""), ("g2", 12, 0, ""), ("gt", 20, 0, ""),
                 ("decoding", 40, 0, ""), ("pair", 1, 1, ""), ("pair", 1, 2, " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")]
        cap = 1200
    else:
        parts = [("arith", 0.8, 0, ""), ("scalars", 0.8, 0, ""), ("g1", 1, 0, ""), ("g2", 1, 0, ""), ("gt", 1, 0, ""), ("decoding", 5, 0, "")]
        cap = 50
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        futs = [ex.submit(miri_part, ck, base, p, s, cap, frm, fl, 2400 if ck.thorough else 240) for p, s, frm, fl in parts]
        # leaks are counted by the allocator and memcheck: LeakSanitizer needs ptrace
        asan = ("AddressSanitizer", "ASAN_OPTIONS", "halt_on_error=1 abort_on_error=0 detect_leaks=0 detect_stack_use_after_return=1")
        msan = ("MemorySanitizer", "MSAN_OPTIONS", "halt_on_error=1")
        for n, (tool, var, opts), props in [("asan-s", asan, ["C16", "C15"]), ("msan-s", msan, ["C16", "C15"]), ("asan-b", asan, ["C16"])]:
            for p in props if n in bins else []:
                if not san_step(ck, n, bins[n], tool, var, opts, p):
                    break
        # memcheck, with leaks
        memcheck(ck, bins["alloc-s"])
        # allocation balance of every case
        args = ["mini", "--size", "native", "--scale", "2" if not ck.thorough else "20", "--seed", str(ck.seed),
                "--time", "120" if not ck.thorough else "900"]
        rc, o, e = mini(ck, "alloc", [bins["alloc-s"]] + args, 1500)
        if not mini_bad(ck, "alloc-s", o, args):
            if rc is not None and rc < 0 and -rc in CRASHES:
                rc2, o, e = sh([bins["alloc-s"]] + args, 1500)
                if rc2 == rc:
                    ck.violate("[alloc-s] the workload dies of signal %d: %s" % (-rc, tail(e)), kind="command", build="alloc-s", cmd=args)
                    rc = 0
            if rc != 0:
                raise Inconclusive("allocation run ended with %s\n%s" % (rc, e[-2000:]))
        for f in futs:
            f.result()


def san_step(ck, n, binary, tool, var, opts, prop):
    """The workloads of other properties under a sanitizer. False if it reported something."""
    scale = {"C15": 0.05, "C16": 0.02}[prop] if not ck.thorough else {"C15": 0.1, "C16": 0.05}[prop]
    out = os.path.join(ck.tmp, "san.json")
    log = os.path.join(ck.tmp, n)
    extra = {var: opts + " exitcode=97 log_path=" + log}
    cmd = [binary, "run", "--prop", prop, "--tier", ck.tier, "--seed", str(ck.seed + {"AddressSanitizer": 77, "MemorySanitizer": 78}[tool]),
           "--scale", repr(scale), "--threads", str(THREADS), "--time", "1200" if ck.thorough else "150", "--out", out]
    t = time.time()
    for f in glob.glob(log + ".*") + glob.glob(out):
        os.remove(f)
    rc, o, e = sh(cmd, 1700 if ck.thorough else 330, extra)
    reports = [open(f, errors="replace").read() for f in glob.glob(log + ".*")]
    reports = [r for r in reports if tool in r and ("ERROR: " in r or "WARNING: " in r)]
    key = n[:4]
    ck.count(key + ":reports", len(reports))
    if reports and not any(x in reports[0] for x in ("out-of-memory", "allocation-size-too-big")):
        ck.violate("[%s] %s" % (n, tail(reports[0][:1500])), kind="san", build=n, cmd=cmd[1:], env=extra, report=reports[0][:6000])
        return False
    if rc is not None and rc < 0 and -rc in CRASHES:
        rc2, o2, e2 = sh(cmd, 1700, extra)
        if rc2 is not None and rc2 < 0 and -rc2 in CRASHES:
            ck.violate("[%s] the workload dies of signal %d: %s" % (n, -rc, tail(e2)), kind="san", build=n, cmd=cmd[1:], env=extra)
            return False
    if rc != 0 or not os.path.exists(out):
        raise Inconclusive("%s run ended with %s\n%s" % (tool, rc, (o + e + "".join(reports))[-3000:]))
    d = json.load(open(out))
    # wrong results are for the other checks to report; here they only cut the workload short
    ck.cov["evaluations"] += d["evaluations"]
    ck.cov["distinct_nontrivial"] += d["distinct_nontrivial"]
    ck.cov["samples"] += d["samples"][:20]
    ck.count(key + ":cases", d["evaluations"])
    ck.cov["steps"].append({"build": n, "what": "workloads of %s under %s" % ("C01-C14" if prop == "C16" else prop, tool),
                            "cases": d["evaluations"], "other_properties_violated": len(d["violations"]),
                            "cut_by_time": d["truncated"], "wall_s": round(time.time() - t, 1)})
    return True


def memcheck(ck, binary):
    log = os.path.join(ck.tmp, "memcheck.log")
    args = ["mini", "--size", "native", "--scale", "0.05" if not ck.thorough else "0.5", "--seed", str(ck.seed + 5),
            "--time", "60" if not ck.thorough else "900"]
    vg = ["valgrind", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
          "--child-silent-after-fork=yes", "--log-file=" + log]
    rc, o, e = mini(ck, "memcheck", vg + [binary] + args, 1500)
    text = open(log, errors="replace").read() if os.path.exists(log) else ""
    m = re.search(r"ERROR SUMMARY: (\d+) errors", text)
    if not m:
        if rc is not None and rc < 0 and -rc in CRASHES or "Process terminating with default action of signal" in text:
            ck.violate("[memcheck] " + tail(text[:3000]), kind="memcheck", args=args, report=text[:6000])
            return
        raise Inconclusive("memcheck ended with %s\n%s" % (rc, (text + e)[-2000:]))
    ck.count("memcheck:errors", int(m.group(1)))
    if int(m.group(1)) > 0:
        body = re.sub(r"(?m)^==\d+== ?", "", text)
        i = re.search(r"Invalid|uninitialised|Uninitialised|definitely lost|Syscall|Mismatched|overlap", body)
        ck.violate("[memcheck] " + tail(body[i.start() if i else 0:][:1500]), kind="memcheck", args=args, report=body[:6000])


CHECKS = {p: check_standard for p in VOLUME}
CHECKS["C15"] = check_c15
CHECKS["C16"] = check_c16
CHECKS["C17"] = check_c17
CHECKS["C18"] = check_c18


# ---------------------------------------------------------------- known findings, evidence

def known():
    """Lines "open: property=<id> match=<text of the witness> what=<...>"; "fixed:" lines suppress nothing."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\S+) match=(.*?) what=(.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def distinct(ck, binary):
    if not ck.sigfiles:
        return
    rc, o, e = sh([binary, "union"] + ck.sigfiles, 600)
    m = re.match(r"(\d+)", o)
    if rc == 0 and m:
        ck.cov["distinct_nontrivial"] += int(m.group(1))


def evidence(ck):
    os.makedirs(EVID, exist_ok=True)
    ck.cov["rule"] = RULES[ck.prop]
    ck.cov["source"] = tree_hash()
    d = {"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": "exploration", "coverage": ck.cov,
         "assumptions": ASSUME, "wall_s": round(time.time() - ck.t0, 2), "violations": len(ck.violations)}
    p = os.path.join(EVID, ck.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def cmd_run(prop, tier, seed):
    ck = Check(prop, tier, seed)
    try:
        try:
            CHECKS[prop](ck)
            b = next((p for p in (os.path.join(TARGET, "checked-s", "checked", "vh"),
                                  os.path.join(TARGET, "alloc-s", "checked", "vh")) if os.path.exists(p)), None)
            if b:
                distinct(ck, b)
        except Inconclusive as e:
            if not ck.violations:
                say("INCONCLUSIVE property=%s: %s" % (prop, e))
                return 2
            say("inconclusive in part: %s" % e)
        evidence(ck)
        fresh_violations = []
        hit = {}
        ks = [k for k in known() if k[0] == prop]
        for v in ck.violations:
            k = next((k for k in ks if k[1] in v["msg"]), None)
            if k:
                hit[k] = v
            else:
                fresh_violations.append(v)
        for k in ks:
            say("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh_violations[:10]):
            p = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, tier, seed, i))
            with open(p, "w") as f:
                json.dump(dict(property=prop, tier=tier, **v), f, indent=1)
            say("VIOLATION property=%s replay=%s" % (prop, p))
            say("  " + v["msg"][:1500])
        c = ck.cov
        say("%s %s: %d cases, %d distinct non-trivial, %d violations, %.0f s" % (
            prop, tier, c["evaluations"], c["distinct_nontrivial"], len(fresh_violations), time.time() - ck.t0))
        if not fresh_violations and c["distinct_nontrivial"] < 10:
            say("INCONCLUSIVE property=%s: too little was observed" % prop)
            return 2
        return 1 if fresh_violations else 0
    finally:
        shutil.rmtree(ck.tmp, ignore_errors=True)


def cmd_replay(path):
    with open(path) as f:
        d = json.load(f)
    how = d["how"]
    say("%s: %s" % (d["property"], d["msg"]))
    k = how["kind"]
    if k == "family":
        cmd = one_cmd(build(how["build"]), how["prop"], how["seed"], how["family"], how["idx"])
    elif k in ("command", "san"):
        cmd = program(how["build"]) + how["cmd"]
    elif k == "memcheck":
        cmd = ["valgrind", "--error-exitcode=99", "--leak-check=full", build("alloc-s")] + how["args"]
    elif k == "miri":
        cmd = miri_prepare() + how["args"]
    elif k == "foreign":
        a = sh(miri_prepare(*how["target"]) + how["args"], 1500, miri_env())
        b = sh([build("release-s")] + how["args"], 300)
        x, y = digests(a[1]), digests(b[1])
        for key in sorted(set(x) & set(y)):
            say("%s %d: %s here, %s on %s" % (key[0], key[1], y[key], x[key], how["target"]))
        return 1 if any(x[key] != y[key] for key in set(x) & set(y)) else 0
    elif k == "transcript":
        key = (how["part"], how["idx"])
        say("replayed: " + first_difference(program(how["build"]), program(how["other"]), how["seed"], key))
        say("\n".join(x[:300] for x in case_log(program(how["build"]), how["seed"], key)[-5:]))
        return 0
    elif k == "few":
        rc, o, e = sh(miri_prepare(*how["target"]) + ["few", "--plan", how["family"] + ":1", "--from", str(how["idx"]), "--seed",
                                                      str(how["seed"])], 1500, miri_env())
        say("replayed: " + o)
        return 0 if o.rstrip().endswith(" held") else 1
    elif k == "narrow":
        cmd = program(how["build"]) + ["workloads", "--seed", str(how["seed"]), "--part", how["family"], "--idx", str(how["idx"])]
        rc, o, e = sh(cmd, 300)
        say("replayed: %s -> %s" % (" ".join(cmd), o))
        return 0 if o.rstrip().endswith(" held") else 1
    else:
        return 2
    extra = miri_env() if k == "miri" else None
    if k == "san":
        extra = {v: re.sub(r" log_path=\S*", "", x) for v, x in how["env"].items()}
    rc, o, e = sh(cmd, 1500, extra)
    say("replayed: %s -> %s" % (" ".join(cmd), rc))
    say(o[-3000:] + e[-3000:])
    return 1 if rc else 0


def cmd_setup():
    names = ["checked-s", "release-s", "checked-b", "release-b", "dev-s", "tsan-s", "asan-s", "alloc-s", "msan-s",
             "allocr-s", "allocr-b"]
    for i in range(0, len(names), 3):
        build_all(names[i:i + 3])
    for t in [(None, "s")] + FOREIGN:
        miri_prepare(*t)
    for n in WASM:
        program(n)
    return 0


def main(a):
    if a[:1] == ["setup"]:
        return cmd_setup()
    if a[:1] == ["replay"] and len(a) == 2:
        return cmd_replay(a[1])
    if a[:1] == ["run"] and len(a) >= 2 and a[1] in CHECKS:
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        for k, v in zip(a[2::2], a[3::2]):
            if k == "--tier":
                tier = v
            elif k == "--seed":
                seed = int(v)
        return cmd_run(a[1], "thorough" if tier == "thorough" else "quick", seed)
    say(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Inconclusive as e:
        say("INCONCLUSIVE: %s" % e)
        sys.exit(2)
