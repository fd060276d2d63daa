"""C prototypes of the library, read from the real headers with clang."""
import json
import os
import re
import subprocess

CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "long long": (64, True), "unsigned long long": (64, False), "_Bool": (8, False),
        "bool": (8, False)}


def headers(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src/ska-sdp-func")):
        for f in sorted(fs):
            if f.startswith("sdp_") and f.endswith(".h") and f not in ("sdp_cuda_atomics.h", "sdp_timer.h", "sdp_thread_support.h"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(repo, "src")))
    return sorted(out)


def kind(q):
    """Parameter kind of a C type spelling (sugar removed)."""
    q = re.sub(r"\b(const|struct|volatile|restrict)\b", " ", q)
    q = " ".join(q.split())
    if q in INTS:
        return ("i",) + INTS[q]
    if q == "double":
        return ("d",)
    if q == "float":
        return ("f",)
    if q == "void":
        return ("v",)
    m = re.match(r"^(.*?)\s*(\*|\[\d*\])$", q)
    if m:
        b = m.group(1).strip()
        if b == "enum sdp_Error":
            return ("e",)
        if b == "char":
            return ("s",)
        if b.startswith("sdp_"):
            return ("h", b)
        return ("p", b)
    if q.startswith("enum "):
        return ("i", 32, True)
    return ("?", q)


def load(repo, tmp):
    src = os.path.join(tmp, "protos.c")
    hs = headers(repo)
    with open(src, "w") as f:
        f.write("#include <stdint.h>\n#include <stddef.h>\n")
        for h in hs:
            f.write('#include "%s"\n' % h)
    cmd = [CLANG, "-x", "c++", "-fsyntax-only", "-I", os.path.join(repo, "src"), "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=sdp_", src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("headers do not compile: " + p.stderr[-2000:])
    dec = json.JSONDecoder()
    s, i, protos = p.stdout, 0, {}
    while i < len(s):
        if s[i] != "{":
            i += 1
            continue
        d, i = dec.raw_decode(s, i)
        if d.get("kind") != "FunctionDecl" or d.get("mangledName") != d.get("name"):
            continue
        q = d["type"].get("desugaredQualType", d["type"]["qualType"])
        ps = []
        for c in d.get("inner", []):
            if c["kind"] == "ParmVarDecl":
                t = c["type"].get("desugaredQualType", c["type"]["qualType"])
                ps.append((c.get("name", "arg%d" % len(ps)), t))
        protos[d["name"]] = {"ret": q[:q.index("(")].strip(), "params": ps}
    # Resolve typedefs of enums and of fixed-width integers by asking the compiler.
    types = sorted({t for v in protos.values() for t in [v["ret"]] + [x[1] for x in v["params"]]})
    res = {}
    for t in types:
        b = t
        for a, r in (("int64_t", "long"), ("int32_t", "int"), ("uint64_t", "unsigned long"), ("uint32_t", "unsigned int"), ("size_t", "unsigned long"),
                     ("int8_t", "signed char")):
            b = re.sub(r"\b%s\b" % a, r, b)
        for e in ("sdp_Error", "sdp_MemType", "sdp_MemLocation", "sdp_CudaError"):
            b = re.sub(r"\b(enum )?%s\b" % e, "enum %s" % e, b)
        res[t] = kind(b)
    out = {}
    for n, v in protos.items():
        out[n] = {"ret": res[v["ret"]], "params": [(a, res[t]) for a, t in v["params"]]}
    return out


def enums(repo, tmp, names):
    src = os.path.join(tmp, "enums.c")
    with open(src, "w") as f:
        f.write('#include <stdio.h>\n#include "ska-sdp-func/utility/sdp_mem.h"\nint main(void){\n')
        for n in names:
            f.write('printf("%%d\\n", (int)%s);\n' % n)
        f.write("return 0;}\n")
    exe = os.path.join(tmp, "enums")
    subprocess.check_call([CLANG, "-I", os.path.join(repo, "src"), src, "-o", exe])
    return dict(zip(names, map(int, subprocess.check_output([exe], text=True).split())))


if __name__ == "__main__":
    import sys, tempfile
    p = load(sys.argv[1], tempfile.mkdtemp())
    for n in sorted(p):
        print(n, p[n]["ret"], p[n]["params"])
