"""Makes the device code of the library compile with an ordinary C++ compiler:
copies the headers and rewrites kernel launches K<...><<<grid, block>>>(args)
into calls of the simulated device. Nothing else is touched."""
import os, shutil


def _back_over_name(s, i):
    """i: index just behind the kernel expression, returns index of its start"""
    def skip_ws(j):
        while j > 0 and s[j - 1].isspace():
            j -= 1
        return j
    i = skip_ws(i)
    while True:
        if i > 0 and s[i - 1] == ">":
            depth, par = 0, 0
            while i > 0:
                c = s[i - 1]
                if c in ")]":
                    par += 1
                elif c in "([":
                    par -= 1
                elif par == 0 and c == ">":
                    depth += 1
                elif par == 0 and c == "<":
                    depth -= 1
                i -= 1
                if depth == 0:
                    break
            i = skip_ws(i)
        start = i
        while i > 0 and (s[i - 1].isalnum() or s[i - 1] == "_"):
            i -= 1
        if i == start:
            return None
        j = skip_ws(i)
        if s[j - 2:j] == "::":
            i = skip_ws(j - 2)
            if i > 0 and (s[i - 1].isalnum() or s[i - 1] in "_>"):
                continue
            return i
        if s[max(0, j - 8):j] == "template":
            i = skip_ws(j - 8)
            continue
        return i


def _forward(s, i, stop):
    """index of the first occurrence of stop at bracket depth 0, starting at i"""
    depth = 0
    while i < len(s):
        if depth == 0 and s.startswith(stop, i):
            return i
        if s[i] in "([{":
            depth += 1
        elif s[i] in ")]}":
            depth -= 1
        i += 1
    return -1


def rewrite(s):
    pos, launches = 0, 0
    while True:
        i = s.find("<<<", pos)
        if i < 0:
            return s, launches
        k = _back_over_name(s, i)
        j = _forward(s, i + 3, ">>>")
        if k is None or j < 0:
            pos = i + 3
            continue
        a = j + 3
        while a < len(s) and s[a].isspace():
            a += 1
        if a >= len(s) or s[a] != "(":
            pos = i + 3
            continue
        e = _forward(s, a + 1, ")")
        args = s[a + 1:e]
        kernel = s[k:i].strip()
        new = "::simcuda::launch(%s).run([](auto... simcuda_args) { %s(simcuda_args...); }%s)" % (
            s[i + 3:j], kernel, ("," + args) if args.strip() else "")
        s = s[:k] + new + s[e + 1:]
        pos = k + len(new)
        launches += 1


def prepare(repo, bdir):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = os.path.join(repo, "include", "libflatarray")
    dst = os.path.join(bdir, "cuda", "libflatarray")
    shutil.copytree(src, dst)
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            s = open(p, errors="surrogateescape").read()
            if "<<<" not in s:
                continue
            new, n = rewrite(s)
            if n:
                open(p, "w", errors="surrogateescape").write(new)
    return [os.path.join(bdir, "cuda"), os.path.join(here, "workloads", "cuda")]
