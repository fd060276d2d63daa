"""Builds a stand-in for the compiled library which records every call."""
import os
import subprocess
from protos import CLANG

HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static FILE* L; static char names[64][80]; static double vals[64]; static int nv;
static void open_(void) { if (!L) L = fopen(getenv("RECORD_LOG"), "a"); }
void rec_set(const char* n, double v) { int i; for (i = 0; i < nv; ++i) if (!strcmp(names[i], n)) { vals[i] = v; return; } strcpy(names[nv], n); vals[nv++] = v; }
void rec_clear(void) { nv = 0; }
static int look(const char* p, const char* n, double* v) { char b[160]; int i; snprintf(b, 160, "%s%s", p, n);
  for (i = 0; i < nv; ++i) if (!strcmp(names[i], b)) { *v = vals[i]; return 1; } return 0; }
static char* id_next = (char*)0x700000000000; static char* sky[4096]; static struct { char t[64]; double c[3]; double e; } skyv[4096]; static int nsky;
static int sky_of(void* h) { int i; for (i = 0; i < nsky; ++i) if (sky[i] == (char*)h) return i; return -1; }
static void b(const char* n) { open_(); fprintf(L, "%s", n); }
static void i_(long long v) { fprintf(L, "|i%lld", v); }
static void d_(double v) { fprintf(L, "|d%a", v); }
static void p_(const void* v) { fprintf(L, "|p%lld", (long long)(intptr_t)v); }
static void s_(const char* v) { fprintf(L, "|s%s", v ? v : ""); }
static void e_(void) { fflush(L); }
'''


def ctype(k):
    if k[0] == "i":
        return ("" if k[2] else "u") + "int%d_t" % k[1]
    return {"d": "double", "f": "float", "s": "const char*", "v": "void"}.get(k[0], "void*")


def generate(protos):
    o = [HEAD]
    for n, p in sorted(protos.items()):
        ps = ", ".join("%s p%d" % (ctype(k), i) for i, (_, k) in enumerate(p["params"])) or "void"
        rk = p["ret"]
        if rk[0] == "?" or any(k[0] == "?" for _, k in p["params"]):
            continue
        o.append("%s %s(%s) {" % (ctype(rk), n, ps))
        o.append('double v = 0; (void)v; b("%s");' % n)
        for i, (pn, k) in enumerate(p["params"]):
            o.append({"i": "i_((long long)p%d);", "d": "d_(p%d);", "f": "d_((double)p%d);", "s": "s_(p%d);"}.get(k[0], "p_(p%d);") % i)
        if n == "sdp_mem_create_wrapper":
            o.append("{ int q; fprintf(L, \"|[\"); for (q = 0; q < p3; ++q) fprintf(L, \"%lld,\", (long long)((int64_t*)p4)[q]);"
                     " fprintf(L, \"|[\"); for (q = 0; q < p3; ++q) fprintf(L, \"%lld,\", (long long)((int64_t*)p5)[q]); }")
        if n == "sdp_gridder_uvw_bounds_all":
            for a, w in ((5, "min"), (6, "max")):
                for j in range(3):
                    o.append('if (look("ret.", "uvw_%s_%d", &v)) ((double*)p%d)[%d] = v;' % (w, j, a, j))
        for i, (pn, k) in enumerate(p["params"]):
            if k[0] == "e":
                o.append('if (p%d && look("err.", "%s", &v)) *(int*)p%d = (int)v;' % (i, n, i))
        if n == "sdp_sky_coord_create":
            o.append("strncpy(skyv[nsky].t, p0, 63); skyv[nsky].c[0] = p1; skyv[nsky].c[1] = p2; skyv[nsky].c[2] = p3; skyv[nsky].e = 2000; sky[nsky++] = id_next + 0x100000;")
        if n == "sdp_sky_coord_set_epoch":
            o.append("if (sky_of(p0) >= 0) skyv[sky_of(p0)].e = p1;")
        if rk[0] == "v":
            o.append("e_(); }")
            continue
        if n == "sdp_sky_coord_value":
            o.append("double r = sky_of(p0) >= 0 && p1 >= 0 && p1 < 3 ? skyv[sky_of(p0)].c[p1] : 0;")
        elif n == "sdp_sky_coord_epoch":
            o.append("double r = sky_of(p0) >= 0 ? skyv[sky_of(p0)].e : 0;")
        elif n == "sdp_sky_coord_type":
            o.append('const char* r = sky_of(p0) >= 0 ? skyv[sky_of(p0)].t : "";')
        elif rk[0] == "h":
            o.append('void* r = 0; if (!(look("null.", "%s", &v) && v != 0)) { id_next += 0x100000; r = id_next; }' % n)
        elif rk[0] in "idf":
            o.append('%s r = look("ret.", "%s", &v) ? (%s)v : (%s)7.5;' % (ctype(rk), n, ctype(rk), ctype(rk)))
        else:
            o.append("%s r = 0;" % ctype(rk))
        o.append({"i": 'fprintf(L, "|=i%lld", (long long)r);', "d": 'fprintf(L, "|=d%a", r);', "s": 'fprintf(L, "|=s%s", r);'}.get(
            rk[0], 'fprintf(L, "|=p%lld", (long long)(intptr_t)r);'))
        o.append("fprintf(L, \"\\n\"); e_(); return r; }")
    return "\n".join(o).replace("e_(); }", 'fprintf(L, "\\n"); e_(); }')


def build(protos, d):
    c = os.path.join(d, "recorder.c")
    open(c, "w").write(generate(protos))
    so = os.path.join(d, "libska_sdp_func.so")
    subprocess.check_call([CLANG, "-w", "-shared", "-fPIC", "-O0", "-o", so, c])
    return so


if __name__ == "__main__":
    import json, sys
    print(build(json.load(open(os.path.join(sys.argv[1], "protos.json")))["protos"], sys.argv[1]))
