#!/usr/bin/env python3
"""Sensitivity measurement (development aid, no registered check): plants generic one-line
mutations in scratch copies of the repository and runs the checks against them.
usage: mutate.py SEED COUNT RUNS JOBS LOGFILE [file substring]"""
import os, random, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = "include/libflatarray"
CHECKS_FOR = [
    (r"cuda|staging|init_kernel|launch", ["C11", "C04"]),
    (r"testbed", ["C12"]),
    (r"aligned_allocator", ["C08", "C04"]),
    (r"loop_peeler|short_vec", ["C03"]),
    (r"soa_vector", ["C06", "C13", "C09", "C02", "C01"]),
    (r"soa_array", ["C07", "C13", "C09", "C11", "C02", "C01"]),
    (r"soa_grid\.hpp", ["C04", "C05", "C10", "C11", "C09", "C13", "C08", "C02", "C01", "C03"]),
    (r"api_traits", ["C04", "C09", "C05", "C06", "C11"]),
    (r"macros", ["C04", "C10", "C05", "C06", "C07", "C03", "C11", "C13", "C02", "C09", "C01"]),
    (r".", ["C04", "C10", "C05", "C13", "C11", "C03", "C02", "C01", "C09"]),
]
VEC = r"short_vec(_(sse|avx|avx512|scalar)_|_base|\.hpp)"
VEC_OPS = [
    (r"_add_", "_sub_"), (r"_sub_", "_add_"), (r"_mul_", "_add_"), (r"_cmplt_", "_cmple_"), (r"_cmpge_", "_cmpgt_"), (r"_LT_OS", "_LE_OS"), (r"_GT_OS", "_GE_OS"), (r"_GE_OS", "_GT_OS"), (r"_LE_OS", "_LT_OS"),
    (r"\[ ?1\]", "[ 0]"), (r"\[ ?2\]", "[ 1]"), (r"\[ ?3\]", "[ 2]"), (r"\[ ?5\]", "[ 4]"), (r"\[ ?7\]", "[ 6]"), (r"\[1(\d)\]", "[ 9]"), (r"\[2(\d)\]", "[ 8]"), (r"\[3(\d)\]", "[20]"),
    (r"data \+\s+(\d+)", "data + 1"), (r"data \+\s+(\d+)", "data + 0"), (r"cvttps", "cvtps"), (r"_loadu_", "_load_"), (r"_storeu_", "_store_"), (r"\bmask\b", "(mask)"), (r"\b1\)", "0)"), (r"andnot", "and"),
    (r" \+ ", " - "), (r" < ", " <= "), (r" >= ", " > "), (r"other\.val", "val"), (r"\bv1\b", "v2"), (r"\b4\b", "3"), (r"\b8\b", "7"),
]
SKIP = r"streaming_short_vec_switch|short_vec|ilp_to|estimate_|preprocessor|flat_array.hpp|config|math_functors|simd|dump|number"
OPS = [
    (r"(?<![<\-=\(,>])\s<\s(?![<=])", " <= "), (r"\s<=\s", " < "), (r"(?<![>\-=])\s>\s(?![>=])", " >= "), (r"\s>=\s", " > "),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\*\s", " + "), (r"\s/\s", " * "),
    (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"\+=", "-="),
    (r"dim_x", "dim_y"), (r"dim_y", "dim_z"), (r"dim_z", "dim_x"), (r"DIM_X", "DIM_Y"), (r"DIM_Y", "DIM_Z"), (r"DIM_Z", "DIM_X"), (r"extent_x", "dim_x"),
    (r"\bcount\b", "(count + 1)"), (r"\bcount\b", "(count - 1)"), (r"\boffset\b", "0"), (r"\bstride\b", "(stride + 1)"),
    (r"\bmy_size\b", "(my_size + 0 * 1 + 1)"), (r"\bcapacity\b", "size"), (r"throw [^;]*;", ";"), (r"\bconst_cast", "const_cast"),
]


def candidates(only):
    res = []
    base = os.path.join(REPO, INC)
    for d, _, files in os.walk(base):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), base)
            vec = only == "VEC"
            if (not re.search(VEC, rel) if vec else re.search(SKIP, rel) or (only and only not in rel)):
                continue
            lines = open(os.path.join(d, f)).read().split("\n")
            comment = False
            for n, l in enumerate(lines):
                s = l.strip()
                if comment:
                    comment = "*/" not in s
                    continue
                if s.startswith("/*"):
                    comment = "*/" not in s
                    continue
                if not s or s.startswith(("//", "#", "typedef", "using", "template", "namespace", "class", "*")):
                    continue
                code = l.split("//")[0]
                for pat, rep in (VEC_OPS if vec else OPS):
                    for m in re.finditer(pat, code):
                        new = l[:m.start()] + rep + l[m.end():]
                        if new != l:
                            res.append((rel, n, l, new))
                t = s.rstrip("\\").strip()
                if re.match(r"^[\w:\.\->\[\]\*]+(<[^<>]*>)?\s*(\(.*\)|[\+\-]?= .*);$", t) or t in ("break;", "continue;"):
                    indent = l[:len(l) - len(l.lstrip())]
                    res.append((rel, n, l, indent + ";" + (" \\" if s.endswith("\\") else "")))
    return res


def main():
    seed, count, runs, jobs, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
    only = sys.argv[6] if len(sys.argv) > 6 else None
    rnd = random.Random(seed)
    c = candidates(only)
    by = {}
    for x in c:
        by.setdefault(x[0], []).append(x)
    picks = []
    names = sorted(by)
    while len(picks) < count and names:
        f = rnd.choices(names, [len(by[n]) ** 0.6 for n in names])[0]
        picks.append(by[f].pop(rnd.randrange(len(by[f]))))
        if not by[f]:
            names.remove(f)
    d = "/tmp/mut.%d" % os.getpid()
    for i, (rel, n, old, new) in enumerate(picks):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "include"), os.path.join(d, "repo", "include"))
        p = os.path.join(d, "repo", INC, rel)
        lines = open(p).read().split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        ids = next(v for k, v in CHECKS_FOR if re.search(k, rel))
        verdict = "SURVIVED"
        for cid in ids:
            env = dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_BUILD=os.path.join(d, "build"))
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), cid, "--runs", runs, "--jobs", jobs], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                verdict = "caught by %s" % cid
                break
            if r.returncode != 0:
                verdict = "no build (%s)" % cid if "building" in r.stdout else "ERROR %s %s" % (cid, r.stdout[-200:].replace("\n", " "))
                break
        with open(log, "a") as f:
            f.write("%s | %s:%d | %s -> %s\n" % (verdict, rel, n + 1, old.strip(), new.strip()))
    shutil.rmtree(d, ignore_errors=True)


main()
