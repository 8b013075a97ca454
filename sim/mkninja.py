#!/usr/bin/env python3
"""Writes the build file that compiles the code under test (from REPO's working tree) and the simulator.

The sources are mirrored into OUT/src first, writing only what differs, so that a checkout that merely renews timestamps
does not compile everything again."""
import glob, os, sys
origin, out = sys.argv[1], sys.argv[2]
repo = out + "/src"
def mirror():
    want = {}
    for top in ["lib/src", "lib/include"] + [os.path.relpath(d, origin) for d in glob.glob(origin + "/app/*/src")]:
        for d, _, fs in os.walk(origin + "/" + top):
            for f in fs:
                p = d + "/" + f
                if os.path.isfile(p): want[os.path.relpath(p, origin)] = p
    for d, _, fs in os.walk(repo):
        for f in fs:
            if os.path.relpath(d + "/" + f, repo) not in want: os.remove(d + "/" + f)
    for rel, p in want.items():
        data = open(p, "rb").read()
        t = repo + "/" + rel
        if os.path.exists(t) and open(t, "rb").read() == data: continue
        os.makedirs(os.path.dirname(t), exist_ok=True)
        open(t, "wb").write(data)
mirror()
here = os.path.dirname(os.path.abspath(__file__))
cxx = "g++"
inc = f"-I/usr/include/libxml2 -I{repo}/lib/include -I{repo}/lib/src/parse -I{repo}/lib/src/gen -I{repo}/lib/src"
# Code under test: assertions and library checks on, one callback per basic block (the simulator's step clock).
sut = "-std=c++17 -w -O1 -fno-omit-frame-pointer -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS"
simf = "-std=c++17 -O2 -Wall -Wextra -fno-omit-frame-pointer -D_GNU_SOURCE -fno-builtin"
os.makedirs(out, exist_ok=True)
L = ["ninja_required_version = 1.5", "builddir = " + out]
L.append(f"rule pch\n  command = {cxx} {sut} {inc} -MMD -MF $out.d -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc")
L.append(f"rule cc\n  command = {cxx} {sut} {inc} $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
L.append(f"rule sim\n  command = {cxx} {simf} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
L.append(f"rule link\n  command = {cxx} -no-pie -rdynamic @$out.rsp -o $out -lxml2 -ldl -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in")
def write_if(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
write_if(out + "/pch.h", open(here + "/pch.h").read())
L.append(f"build {out}/pch.h.gch: pch {out}/pch.h")
objs = []
srcs = sorted(glob.glob(repo + "/lib/src/**/*.cpp", recursive=True) + glob.glob(repo + "/app/*/src/**/*.cpp", recursive=True))
# the big ones first
srcs.sort(key=lambda f: -os.path.getsize(f))
for s in sorted(glob.glob(here + "/*.cpp")):
    o = f"{out}/sim_{os.path.basename(s)}.o"
    L.append(f"build {o}: sim {s}")
    if not os.path.basename(s).startswith("mark_"): objs.append(o)
objs.append(f"{out}/sim_mark_a.cpp.o")
for f in srcs:
    o = out + "/" + os.path.relpath(f, repo).replace("/", "_") + ".o"
    if os.path.basename(f) == "main.cpp":
        # main() renamed so that all generators fit in one program; assertions off in this file only, so that
        # the top-level handler reports and returns -1 as the shipped (release) program does.
        extra = "-DNDEBUG -Dmain=" + f.split("/app/")[1].split("/")[0] + "_main"
        L.append(f"build {o}: cc {f}\n  extra = {extra}")
    else:
        L.append(f"build {o}: cc {f} | {out}/pch.h.gch\n  extra = -include {out}/pch.h")
    objs.append(o)
objs.append(f"{out}/sim_mark_z.cpp.o")
L.append(f"build {out}/simrun: link " + " ".join(objs))
L.append(f"default {out}/simrun")
write_if(out + "/build.ninja", "\n".join(L) + "\n")
