#!/usr/bin/env python3
"""Author's tool: small syntactic changes of the library, those that pass its tests kept as diffs.

  mutate.py gen OUTDIR n seed          make n candidates (JSON)
  mutate.py filter OUTDIR part of      build and test each (in the current /repo), keep survivors
  mutate.py judge OUTDIR part of       run the checks on each survivor until one reports it
"""
import glob
import json
import os
import random
import re
import subprocess
import sys

REPO = "/repo"
FILES = ["src/arith.rs", "src/lib.rs", "src/fields/fp.rs", "src/fields/fq2.rs", "src/fields/fq6.rs",
         "src/fields/fq12.rs", "src/fields/mod.rs", "src/groups/mod.rs"]
RULES = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<\-=])<=?(?=\s)", ["<", "<=", ">="]), (r"(?<![>\-=])\s>=?(?=\s)", [" >", " >=", " <="]),
         (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\s\+\s", [" - "]), (r"\s-\s", [" + "]), (r"\s\*\s", [" + "]),
         (r"<<", [">>"]), (r">>", ["<<"]), (r"\s&\s", [" | "]), (r"\s\|\s", [" & "]), (r"\+=", ["-="]), (r"-=", ["+="]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[\(\s=])!(?=[\w(])", [""]), (r"(?<=[\(\s=])-(?=[\w(])", [""]),
         (r"\bif (?!let)[^{]+\{", ["if true {", "if false {"]), (r"\.c0\b", [".c1"]), (r"\.c1\b", [".c0", ".c2"]), (r"\.c2\b", [".c1"]),
         (r"\bself\b(?=\.)", ["other"]), (r"\bother\b(?=\.)", ["self"]), (r"\ba\b", ["b"]), (r"\bb\b", ["a"]),
         (r"\.squared\(\)", [""]), (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.z\b", [".x"]), (r"::zero\(\)", ["::one()"]), (r"::one\(\)", ["::zero()"]),
         (r"\bNone\b", ["Some(Default::default())"]), (r"\.double\(\)", [""]), (r"\.unitary_inverse\(\)", [""]),
         (r"\.mul_by_nonresidue\(\)", [""]), (r"\b(\d+)\b", ["+1", "-1"]), (r"\b0x([0-9a-fA-F]+)\b", ["hex"]),
         (r"\bfrobenius_map\((\d)\)", ["+1"]), (r"\bBigEndian\b", ["LittleEndian"]), (r"\.skip_while\([^)]*\)", [""]), (r"\.rev\(\)", [""]),
         (r"(?m)^\s+[a-z_\.\*]+[^;{}]*;$", ["DEL"])]


def code(text):
    """Offsets of lines that are not tests, comments, attributes or imports."""
    keep, skip, depth, pos = [], False, 0, 0
    for line in text.splitlines(True):
        s = line.strip()
        if s.startswith("#[test]") or s.startswith("#[cfg(test)]"):
            skip, depth = True, 0
        if skip:
            depth += line.count("{") - line.count("}")
            if (depth == 0 and ("}" in line or s.startswith("mod tests;"))):
                skip = False
        elif s and not s.startswith(("//", "#", "use ", "extern", "pub mod", "mod ")):
            keep.append((pos, pos + len(line)))
        pos += len(line)
    return keep


def candidates():
    out = []
    for f in FILES:
        t = open(os.path.join(REPO, f)).read()
        spans = code(t)
        for rule, subs in RULES:
            for m in re.finditer(rule, t):
                if not any(a <= m.start() < b for a, b in spans):
                    continue
                for s in subs:
                    g = m.group(0)
                    if s in ("+1", "-1") and m.groups():
                        n = int(m.group(1)) + int(s)
                        if n < 0:
                            continue
                        new = g.replace(m.group(1), str(n))
                    elif s == "hex":
                        new = hex(int(m.group(1), 16) ^ (1 << random.randrange(4 * len(m.group(1)))))
                    elif s == "DEL":
                        if re.match(r"\s*(let|return|use|pub|type|const)\b", g):
                            continue
                        new = re.match(r"\s*", g).group(0) + ";"
                    else:
                        new = s
                    if new != g:
                        out.append({"file": f, "at": m.start(), "old": g, "new": new, "line": t.count("\n", 0, m.start()) + 1})
    return out


def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO, start_new_session=True,
                         env=dict(os.environ, CARGO_PROFILE_TEST_OPT_LEVEL="1", CARGO_NET_OFFLINE="true"))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""


def main(a):
    d = a[1]
    if a[0] == "gen":
        random.seed(int(a[3]))
        c = candidates()
        print(len(c), "in all")
        random.shuffle(c)
        json.dump(c[:int(a[2])], open(os.path.join(d, "all.json"), "w"))
        return
    part, of = int(a[2]), int(a[3])
    if a[0] == "filter":
        for i, m in enumerate(json.load(open(os.path.join(d, "all.json")))):
            log = os.path.join(d, "%04d.res" % i)
            if i % of != part or os.path.exists(log):
                continue
            p = os.path.join(REPO, m["file"])
            t = open(p).read()
            assert t[m["at"]:m["at"] + len(m["old"])] == m["old"]
            open(p, "w").write(t[:m["at"]] + m["new"] + t[m["at"] + len(m["old"]):])
            rc, o = run(["cargo", "build", "--offline"], 200)
            if rc != 0:
                res = "nocompile"
            else:
                rc, o = run(["cargo", "test", "--offline", "--lib", "--", "--test-threads", "3"], 60)
                res = "survived" if rc == 0 else "killed"
            if res == "survived":
                diff = subprocess.run(["git", "diff"], cwd=REPO, capture_output=True, text=True).stdout
                open(os.path.join(d, "%04d.diff" % i), "w").write(diff)
            open(p, "w").write(t)
            open(log, "w").write(res)
            print(i, res, m["file"], m["line"], repr(m["old"]), repr(m["new"]), flush=True)
    if a[0] == "judge":
        order = a[4].split(",") if len(a) > 4 else ["C13", "C01", "C02", "C04", "C07", "C11", "C09", "C08", "C10", "C03", "C06", "C12", "C05", "C14", "C16", "C15", "C17"]
        for p in sorted(glob.glob(os.path.join(d, "*.diff"))):
            i = int(os.path.basename(p)[:4])
            log = p[:-5] + ".judged"
            if i % of != part or os.path.exists(log):
                continue
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO)
            if subprocess.run(["git", "apply", p], cwd=REPO).returncode:
                continue
            got = "MISSED"
            for q in order:
                r = subprocess.run(["python3", "/verif/check.py", "run", q, "--tier", "quick"], capture_output=True, text=True)
                if r.returncode:
                    got = "%s rc=%d %s" % (q, r.returncode, (r.stdout.splitlines() or ["", ""])[1 if r.returncode == 1 else 0][:300])
                    if r.returncode == 1:
                        break
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO)
            open(log, "w").write(got)
            print(i, got, flush=True)


main(sys.argv[1:])
