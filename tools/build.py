#!/usr/bin/env python3
"""Builds a simulation harness from /repo's working tree.

The set of repository sources is the include closure of the harness: for every
header "cartographer/x/y.h" reached, "cartographer/x/y.cc" is compiled too, and
for every "x.pb.h" the proto is generated and compiled. If that does not link
(code moved to differently named files), every non-test source is taken.
"""
import os, re, subprocess, sys, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
INC = re.compile(r'^\s*#\s*include\s*[<"](cartographer/[^">]+|harness/[^">]+|async_grpc/[^">]+)[">]', re.M)
IMP = re.compile(r'^\s*import\s+(?:public\s+)?"(cartographer/[^"]+)"', re.M)
CXX = os.environ.get("SIM_CXX", "g++")

def read(p):
    with open(p, errors="replace") as f:
        return f.read()

def directives(text):
    d = {}
    for m in re.finditer(r'^//\s*(SOURCES|FLAVOR|INSTRUMENT|DEFINES|OPT):\s*(.*)$', text, re.M):
        d.setdefault(m.group(1), []).extend(m.group(2).split())
    return d

class Closure:
    def __init__(self):
        self.seen = set(); self.cc = set(); self.protos = set(); self.hcc = set()
    def scan(self, path):
        for inc in INC.findall(read(path)):
            self.header(inc)
    def proto(self, rel):
        if rel in self.protos: return
        p = os.path.join(REPO, rel)
        if not os.path.exists(p): return
        self.protos.add(rel)
        for i in IMP.findall(read(p)): self.proto(i)
    def header(self, inc):
        if inc in self.seen: return
        self.seen.add(inc)
        if inc.startswith("harness/"):
            p = os.path.join(VERIF, inc)
            if os.path.exists(p): self.scan(p)
            c = p[:-2] + ".cc"
            if os.path.exists(c) and c not in self.hcc:
                self.hcc.add(c); self.scan(c)
            return
        if inc.startswith("async_grpc/"):
            p = os.path.join(VERIF, "sim/include", inc)
            if os.path.exists(p): self.scan(p)
            return
        if inc.endswith(".pb.h"):
            self.proto(inc[:-5] + ".proto"); return
        p = os.path.join(REPO, inc)
        if os.path.exists(p): self.scan(p)
        elif os.path.exists(os.path.join(VERIF, "sim/include", inc)):
            self.scan(os.path.join(VERIF, "sim/include", inc))
        if inc.endswith(".h"): self.source(inc[:-2] + ".cc")
    def source(self, rel):
        if rel in self.cc: return
        p = os.path.join(REPO, rel)
        if os.path.exists(p):
            self.cc.add(rel); self.scan(p)

def all_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "cartographer")):
        for f in files:
            if not f.endswith(".cc") or f.endswith("_test.cc") or f.endswith("_main.cc"): continue
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if "/testing/" in rel or "fake_" in f or "mock_" in f or "test_helpers" in f: continue
            if rel.startswith("cartographer/cloud") and "metrics/prometheus" not in rel: continue
            if rel.startswith("cartographer/ground_truth"): continue
            out.append(rel)
    return out

def write_ninja(name, htext, full=False):
    d = directives(htext)
    flavor = (d.get("FLAVOR") or ["tsan"])[0]
    c = Closure()
    hpath = os.path.join(VERIF, "harness", name + ".cc")
    c.scan(hpath)
    for s in d.get("SOURCES", []): c.source(s)
    if full:
        for s in all_sources(): c.source(s)
    out = os.path.join(BUILD, flavor)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True); os.makedirs(gen, exist_ok=True)
    cfg_in = os.path.join(REPO, "cartographer/common/config.h.cmake")
    if os.path.exists(cfg_in):
        t = read(cfg_in).replace("@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@", REPO + "/configuration_files").replace("@PROJECT_SOURCE_DIR@", REPO)
        cfg = os.path.join(gen, "cartographer/common/config.h")
        os.makedirs(os.path.dirname(cfg), exist_ok=True)
        if not os.path.exists(cfg) or read(cfg) != t:
            with open(cfg, "w") as f: f.write(t)
    absl = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
    opt = (d.get("OPT") or ["-O1"])[0]
    base = f"-std=gnu++17 -g1 -DNDEBUG -fno-pie -pthread -w -I{VERIF}/sim/include -I{VERIF} -I{gen} -isystem /usr/include/eigen3 -I{REPO} -isystem /usr/include/lua5.2 -DBOOST_IOSTREAMS_DYN_LINK -DGFLAGS_IS_A_DLL=0 -DGLOG_CUSTOM_PREFIX_SUPPORT -DUSE_PROMETHEUS=1 -DGOOGLE_PROTOBUF_NO_RDTSC"
    tsan = "-fsanitize=thread -U__SANITIZE_THREAD__" if flavor == "tsan" else ""
    L = []
    L.append("ninja_required_version = 1.5\n")
    L.append(f"builddir = {BUILD}\n")
    L.append(f"rule repo\n command = {CXX} {base} {opt} {tsan} $pch -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    # The flags are part of the name: a precompiled header only serves its own.
    pch = os.path.join(out, "pch" + opt + ".h")
    with open(pch, "w") as f: f.write(f'#include "{VERIF}/sim/pch.h"\n')
    L.append(f"rule pch\n command = {CXX} {base} {opt} {tsan} -x c++-header -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = PCH\n")
    L.append(f"rule plain\n command = {CXX} {base} -O1 -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    L.append(f"rule rt\n command = {CXX} {base} -O2 -fno-builtin-malloc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    L.append(f"rule pb\n command = {CXX} {base} -g0 -O0 -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in\n")
    L.append(f"rule protoc\n command = protoc -I{REPO} --cpp_out={gen} $in\n description = PROTO $in\n")
    L.append(f"rule link\n command = {CXX} -no-pie -pthread -o $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in $libs\n description = LINK $out\n")
    L.append(f"build {pch}.gch: pch {VERIF}/sim/pch.h\n")
    use = f" pch = -include {pch}\n"
    objs = []; pbh = []
    for p in sorted(c.protos):
        b = os.path.join(gen, p[:-6])
        L.append(f"build {b}.pb.cc {b}.pb.h: protoc {REPO}/{p}\n")
        pbh.append(b + ".pb.h")
    L.append("build protos: phony " + " ".join(pbh) + "\n")
    for s in sorted(c.cc):
        o = os.path.join(out, s[:-3] + ".o")
        L.append(f"build {o}: repo {REPO}/{s} | {pch}.gch || protos\n" + use); objs.append(o)
    for p in sorted(c.protos):
        o = os.path.join(BUILD, "pb", p[:-6] + ".pb.o")
        L.append(f"build {o}: pb {gen}/{p[:-6]}.pb.cc || protos\n"); objs.append(o)
    for h in [hpath] + sorted(c.hcc):
        instr_h = (directives(read(h)).get("INSTRUMENT") or d.get("INSTRUMENT") or ["no"])[0] == "yes"
        o = os.path.join(out, "h_" + ("i_" if instr_h else "") + os.path.basename(h)[:-3] + ".o")
        L.append(f"build {o}: {'repo' if instr_h else 'plain'} {h} | {pch}.gch || protos\n" + (use if instr_h else "")); objs.append(o)
    for r in ["rt", "interpose", "disk", "driver"]:
        o = os.path.join(BUILD, "rt", r + ".o")
        L.append(f"build {o}: rt {VERIF}/sim/{r}.cc\n"); objs.append(o)
    libs = "-Wl,--start-group " + " ".join(absl) + " -Wl,--end-group -lceres -lprotobuf -lboost_iostreams -lz -llua5.2 -lcairo -lprometheus-cpp-core -lglog -lgflags -ldl -lm"
    exe = os.path.join(out, name)
    L.append(f"build {exe}: link {' '.join(objs)}\n libs = {libs}\n")
    L.append(f"default {exe}\n")
    nf = os.path.join(BUILD, f"build.{name}.ninja")
    with open(nf, "w") as f: f.write("\n".join(L))
    return nf, exe, len(c.cc), len(c.protos)

def build(name, quiet=True):
    """Returns (exe, info). Raises RuntimeError on failure."""
    os.makedirs(BUILD, exist_ok=True)
    htext = read(os.path.join(VERIF, "harness", name + ".cc"))
    msg = ""
    for full in (False, True):
        nf, exe, ncc, nproto = write_ninja(name, htext, full)
        r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)], cwd=BUILD,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            return exe, {"repo_sources": ncc, "protos": nproto, "full": full}
        msg = r.stdout[-6000:]
    raise RuntimeError("build of harness %s failed:\n%s" % (name, msg))

if __name__ == "__main__":
    import time
    for n in sys.argv[1:]:
        t = time.time()
        try:
            exe, info = build(n)
        except RuntimeError as e:
            print(e); sys.exit(2)
        print(exe, info, "%.1fs" % (time.time() - t))
