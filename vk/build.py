"""Out-of-tree builds of golems/amino from /repo's working tree.

Flavours:
  asan   gcc -fsanitize=address,undefined (reports fatal), stack pattern-init
  tsan   gcc -fsanitize=thread
  pyasan position independent shared libraries with ASan+UBSan for the ctypes bindings

Every generated source (maxima, f2c, flex, cpp) is regenerated here, in the
build directory, from the files in /repo: stale generated files in /repo's
tree are never used.
"""
import os, re, subprocess, sys, shutil

REPO = os.environ.get("VK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VK_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-g1", "-O1", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H"]
FLAVOURS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
    "pyasan": ["-fPIC", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
               "-ftrivial-auto-var-init=pattern"],
}
LIBS = ("-lnlopt -lglpk -llpsolve55_pic -lm -llapack -lblas -lcolamd -loctomap -loctomath "
        "-lClp -lCoinUtils -lgfortran -lpthread -ldl -lstdc++")
FCL_LIBS = "-lfcl -lccd -lm -loctomap -loctomath"
OMPL_LIBS = "-lompl -lboost_serialization -lboost_filesystem -lboost_system"

CORE_FALLBACK = """src/mem.c src/refcount.c src/mat.c src/la.c src/la2.c src/opt/opt.c src/tf.c
src/tf/tfmatrix.c src/tf/quat.c src/tf/tfp.c src/diffeq.c src/tf/conv.c src/mac/euler_f2c.c
src/rx/rxerr.c src/rx/errstr.c src/rx/scenegraph.cpp src/rx/sg_api.cpp src/rx/sg_capi.c
src/rx/scene_geom.c src/rx/geom_opt.c src/rx/scene_kin.c src/rx/scene_sub.cpp src/rx/ik_opt.c
src/rx/scene_ik.c src/rx/plugin.c src/rx/rx_ct.c src/rx/scene_wk.c src/rx/lc3.c src/rx/mp_seq.cpp
src/ct/traj.cpp src/ct/state.c src/math.c src/plot.c src/debug.c src/kin.c src/validate.c
src/time.c src/io.c src/are.c src/sigsys.c src/heap.c src/cv.c src/wavefront/wf_obj.c
src/wavefront/wf_mtl.c src/rx/octree_geom.cpp src/rx/sg_octree.cpp src/opt/opt_lpsolve.c
src/opt/opt_glpk.c src/opt/opt_clp.cpp""".split()


def am_sources(var, fallback):
    """Sources listed for VAR in Makefile.am (all conditionals taken)."""
    try:
        txt = open(os.path.join(REPO, "Makefile.am")).read()
    except OSError:
        return fallback
    txt = re.sub(r"\\\n", " ", txt)
    out = []
    for m in re.finditer(r"^\s*%s\s*\+?=\s*(.*)$" % re.escape(var), txt, re.M):
        out += m.group(1).split()
    out = [s for s in out if s not in ("euler.c", "src/mac/euler.f")]
    return out if out else fallback


def generate(flavour, harnesses):
    """Write build.ninja for FLAVOUR with the given harness list; return dir."""
    d = os.path.join(BUILD, flavour)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(gen, "include/amino"), exist_ok=True)
    os.makedirs(os.path.join(gen, "mac"), exist_ok=True)
    for name, src in (("include/config.h", "config.h"),
                      ("include/amino/cblas_order.h", "include/amino/cblas_order.h")):
        dst = os.path.join(gen, name)
        s = os.path.join(REPO, src)
        if not os.path.exists(s):
            s = os.path.join(VERIF, "vk/fallback", os.path.basename(src))
        data = open(s, "rb").read()
        if not os.path.exists(dst) or open(dst, "rb").read() != data:
            open(dst, "wb").write(data)
    fl = FLAVOURS[flavour]
    inc = ["-I%s/include" % REPO, "-I%s/include" % gen, "-I%s" % gen, 
           "-I%s/mac" % gen, "-I%s/src/mac" % REPO, "-I%s/src" % REPO]
    w = []
    shared = flavour == "pyasan"
    w.append("cflags = %s -w" % " ".join(COMMON + fl + inc))
    w.append("cxxflags = %s -w" % " ".join(COMMON + fl + inc))
    w.append("fflags = -g1 -O1 -ffree-line-length-none %s" % ("-fPIC" if shared else ""))
    w.append("""
rule cc
  command = gcc -MMD -MF $out.d $cflags $xflags -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cxx
  command = g++ -MMD -MF $out.d $cxxflags $xflags -c $in -o $out
  depfile = $out.d
  deps = gcc
rule fc
  command = gfortran $fflags -J$moddir -I$moddir -c $in -o $out
rule ar
  command = rm -f $out && ar crs $out $in
rule link
  command = g++ $cxxflags -o $out $in $libs
rule shlib
  command = g++ $cxxflags -shared -o $out $in $libs
rule plug
  command = gcc -MMD -MF $out.d -w -O1 -fPIC -shared -DPLUG_ID=$plug -I{repo}/include -I{gen}/include $in -o $out
  depfile = $out.d
  deps = gcc
rule cpp
  command = cpp -I{repo}/include -I{gen}/include -x c $in -o $out -MMD -MF $out.d -MT $out
  depfile = $out.d
rule copy
  command = cp $in $out
rule flex
  command = flex -t $in > $out
rule maxima
  command = mkdir -p {gen}/mac/$leaf.d && cd {gen}/mac/$leaf.d && cp {repo}/src/mac/*.mac . && rm -f $leaf && MAXIMA_USERDIR={gen}/mac/$leaf.d MAXIMA_TEMPDIR={gen}/mac/$leaf.d maxima --very-quiet -b $macfile > maxima.log 2>&1 && test -s $leaf && cp $leaf ../$leaf
rule f2c
  command = cd {gen} && cp mac/euler.f ./euler.f && f2c euler.f > f2c.log 2>&1
""".format(repo=REPO, gen=gen))
    # ---- generated sources (shared between flavours)
    w.append("build %s/mac/euler.f: maxima | %s/src/mac/amino.mac %s/src/mac/euler77.mac\n"
             "  macfile = euler77.mac\n  leaf = euler.f" % (gen, REPO, REPO))
    w.append("build %s/mac/aa_ls_se3.f90: maxima | %s/src/mac/amino.mac %s/src/mac/ls.mac\n"
             "  macfile = ls.mac\n  leaf = aa_ls_se3.f90" % (gen, REPO, REPO))
    for l in ("wavefront", "mtl"):
        w.append("build %s/%s.c: flex %s/src/wavefront/%s.l" % (gen, l, REPO, l))
    # Fortran sources are preprocessed from copies, so that "mac/..." finds the generated file
    fcopies = []
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".F90"):
            w.append("build %s/fsrc/%s: copy %s/src/%s" % (gen, f, REPO, f))
            fcopies.append("%s/fsrc/%s" % (gen, f))
    os.makedirs(os.path.join(gen, "fsrc"), exist_ok=True)
    if not os.path.islink(os.path.join(gen, "fsrc/mac")):
        os.symlink("../mac", os.path.join(gen, "fsrc/mac"))
    for o, s, extra in (("mem_mod", "mem_mod", ""), ("la_mod", "la_mod", "%s/mac/aa_ls_se3.f90" % gen),
                        ("tf_mod", "tff", "")):
        w.append("build %s/%s.f90: cpp %s/fsrc/%s.F90 | %s %s" % (gen, o, gen, s, " ".join(fcopies), extra))
    moddir = d
    objs = []
    # ---- fortran
    prev = ""
    for m in ("mem_mod", "la_mod", "tf_mod"):
        o = "%s/%s.o" % (d, m)
        w.append("build %s: fc %s/%s.f90 %s\n  moddir = %s" % (o, gen, m, "| " + prev if prev else "", moddir))
        prev = o
        objs.append(o)
    o = "%s/euler_f.o" % d
    w.append("build %s: fc %s/mac/euler.f\n  moddir = %s" % (o, gen, moddir))
    objs.append(o)

    def obj(src, xflags="", order=""):
        base = src
        for pre in (REPO + "/", gen + "/", VERIF + "/"):
            if base.startswith(pre):
                base = base[len(pre):]
        o = "%s/%s.o" % (d, base.replace("/", "_"))
        rule = "cxx" if src.endswith(".cpp") else "cc"
        w.append("build %s: %s %s %s\n  xflags = %s" % (o, rule, src, "|| " + order if order else "", xflags))
        return o

    for s in am_sources("libamino_la_SOURCES", CORE_FALLBACK):
        objs.append(obj(os.path.join(REPO, s)))
    for l in ("wavefront", "mtl"):
        objs.append(obj("%s/%s.c" % (gen, l), "-I%s/src/wavefront" % REPO))
    core = "%s/libamino.%s" % (d, "so" if shared else "a")
    if shared:
        w.append("build %s: shlib %s\n  libs = %s" % (core, " ".join(objs), LIBS))
    else:
        w.append("build %s: ar %s" % (core, " ".join(objs)))
    # ---- collision, planning (built only if a harness asks for them)
    col = "%s/libamino-collision.%s" % (d, "so" if shared else "a")
    fclf = "-std=gnu++14 -I/usr/include/eigen3"
    cobjs = [obj(os.path.join(REPO, s), fclf) for s in am_sources(
        "libamino_collision_la_SOURCES", ["src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp"])]
    if shared:
        w.append("build %s: shlib %s | %s\n  libs = -L%s -lamino %s" % (col, " ".join(cobjs), core, d, FCL_LIBS))
    else:
        w.append("build %s: ar %s" % (col, " ".join(cobjs)))
    pln = "%s/libamino-planning.%s" % (d, "so" if shared else "a")
    omf = "-std=gnu++14 -I/usr/include/ompl-1.5 -I/usr/include/eigen3"
    pobjs = [obj(os.path.join(REPO, s), omf) for s in am_sources(
        "libamino_planning_la_SOURCES",
        ["src/rx/mp/%s.cpp" % x for x in ("scene_ompl", "scene_state_validity_checker", "scene_state_space",
                                          "workspace_goal", "ompl_rrt", "ompl_sbl", "ompl_kpiece")])]
    if shared:
        w.append("build %s: shlib %s | %s %s\n  libs = -L%s -lamino-collision -lamino %s"
                 % (pln, " ".join(pobjs), core, col, d, OMPL_LIBS))
    else:
        w.append("build %s: ar %s" % (pln, " ".join(pobjs)))
    # ---- viewer (OpenGL, SDL and libspnav are stood in for by the harness)
    gl = "%s/libamino-gl.%s" % (d, "so" if shared else "a")
    glf = "-I/usr/include/SDL2 -D_REENTRANT"
    if not shared:
        gobjs = [obj(os.path.join(REPO, s), glf) for s in am_sources(
            "libamino_gl_la_SOURCES", ["src/amino_gl.c", "src/octree_gl.cpp", "src/amino_sdl.c",
                                       "src/sdl_handler.c", "src/sdl_ui.c", "src/rx/sdl_win.c"])]
        w.append("build %s: ar %s" % (gl, " ".join(gobjs)))
    # ---- harnesses
    targets = []
    for h in harnesses:
        src = os.path.join(VERIF, "h", h["src"])
        libs, deps = "", ""
        xf = "-I%s/h" % VERIF
        if h.get("planning"):
            libs += " %s %s %s" % (pln, col, core) ; deps = "%s %s" % (pln, col)
            ext = OMPL_LIBS + " " + FCL_LIBS
            xf += " " + omf
        elif h.get("collision"):
            libs += " %s %s" % (col, core) ; deps = col
            ext = FCL_LIBS
            xf += " " + fclf
        elif h.get("gl"):
            libs += " %s %s" % (gl, core) ; deps = gl
            ext = "-Wl,--wrap=clock_gettime"
            xf += " " + glf
        else:
            libs += " %s" % core
            ext = ""
        if h.get("eigen"):
            xf += " -I/usr/include/eigen3"
        for k in h.get("plugins", []):
            so = "%s/plug%d.so" % (d, k)
            w.append("build %s: plug %s/h/plug.c\n  plug = %d" % (so, VERIF, k))
            deps += " " + so
        if h.get("plugins"):
            xf += " -DPLUG_DIR='\"%s\"'" % d
            ext += " -rdynamic"
        extra_objs = []
        if h.get("fortran"):
            fo = "%s/h_%s.o" % (d, h["fortran"].replace(".", "_"))
            w.append("build %s: fc %s/h/%s | %s\n  moddir = %s" % (fo, VERIF, h["fortran"], core, moddir))
            extra_objs.append(fo)
        o = obj(src, xf)
        exe = "%s/%s" % (d, h["exe"])
        w.append("build %s: link %s %s | %s %s\n  libs = %s %s %s" %
                 (exe, o, " ".join(extra_objs), core, deps, libs, ext, LIBS))
        targets.append(exe)
    if shared:
        targets += [core, col, pln]
    txt = "\n".join(w) + "\n"
    f = os.path.join(d, "build.ninja")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    return d, targets


def build(flavour, harnesses, extra_targets=None, log=None):
    d, targets = generate(flavour, harnesses)
    if extra_targets is not None:
        targets = [os.path.join(d, t) for t in extra_targets]
    cmd = ["ninja", "-C", d, "-k", "0"] + targets
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        tail = "\n".join(l for l in p.stdout.splitlines() if "FAILED" in l or "error" in l.lower())[-6000:]
        raise RuntimeError("build failed (%s):\n%s\n%s" % (flavour, tail, p.stdout[-3000:]))
    return d


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        import shutil
        for t in ("gcc", "g++", "gfortran", "ninja", "flex", "f2c", "maxima"):
            print("%-10s %s" % (t, shutil.which(t)))
        build("asan", [], extra_targets=["libamino.a"])
        print("setup ok")
        sys.exit(0)
    print(build(sys.argv[1], [], extra_targets=sys.argv[2:] or ["libamino.a"]))
