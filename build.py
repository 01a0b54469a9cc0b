#!/usr/bin/env python3
"""Builds the simulator executable `simhex` from /repo's current working tree plus /verif/sim.

Every compilation is keyed by the hash of its preprocessed text and its flags, so a build directory can be reused
safely: anything that changes what the code does changes the key."""
import hashlib, os, subprocess, sys, time, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HEXED_REPO", "/repo")
LIB = "/usr/lib/x86_64-linux-gnu"
DEFS = "-DHAVE_FREEIMAGE -DHAVE_FREETYPE -DHAVE_OPENGL_EXT -DHAVE_RAPIDJSON -DHAVE_TBB -DHAVE_TK -DHAVE_XLIB -DOCC_CONVERT_SIGNALS -DHEXED_VERIF_SIM".split()
MAX_ROW_SIZE = 4
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}

class Build_error(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode: raise Build_error("%s\n%s" % (" ".join(cmd)[:600], p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout

def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)

def generate(gen):
    os.makedirs(gen, exist_ok=True)
    key = hashlib.sha256(str(MAX_ROW_SIZE).encode())
    for f in ("script/auto_generate.py", "script/Basis.py", "script/translate.py", "include/constants.hpp"): key.update(open(os.path.join(REPO, f), "rb").read())
    stamp = os.path.join(gen, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == key.hexdigest()):
        src = os.path.join(gen, "script")
        shutil.rmtree(src, ignore_errors=True); os.makedirs(src)
        for f in ("auto_generate.py", "Basis.py", "translate.py"): shutil.copy(os.path.join(REPO, "script", f), src)
        a = subprocess.Popen(["python3", os.path.join(src, "auto_generate.py"), gen, str(MAX_ROW_SIZE)], env=ENV, cwd=gen, stdout=subprocess.DEVNULL)
        run(["python3", os.path.join(src, "translate.py"), os.path.join(REPO, "include/constants.hpp")], cwd=gen)
        if a.wait(): raise Build_error("auto_generate.py failed")
        open(stamp, "w").write(key.hexdigest())
    t = open(os.path.join(REPO, "hexed_config.hpp.in")).read()
    ver = re.search(r"project\(hexed VERSION (\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    sub = {"CMAKE_SOURCE_DIR": REPO, "CMAKE_BINARY_DIR": gen, "CMAKE_PROJECT_VERSION_MAJOR": ver.group(1), "CMAKE_PROJECT_VERSION_MINOR": ver.group(2), "CMAKE_PROJECT_VERSION_PATCH": ver.group(3),
           "MAX_BASIS_ROW_SIZE": str(MAX_ROW_SIZE), "threaded": "ON", "n_threads": "8", "use_xdmf": "ON", "use_tecplot": "OFF", "use_nlopt": "ON", "use_occt": "ON", "obsessive_timing": "OFF", "COMMIT": "simulated"}
    rep = lambda m: sub[m.group(1)]
    write_if_changed(os.path.join(gen, "hexed_config.hpp"), re.sub(r"@(\w+)@", rep, t.replace("wrapped in `@`s", "")))
    write_if_changed(os.path.join(gen, "config.cpp"), re.sub(r"@(\w+)@", rep, open(os.path.join(REPO, "config.cpp.in")).read()))
    link = os.path.join(gen, "hexed")
    if os.path.islink(link) and os.readlink(link) != os.path.join(REPO, "include"): os.remove(link)
    if not os.path.islink(link): os.symlink(os.path.join(REPO, "include"), link)

def build(bdir, log=lambda s: None, jobs=None):
    jobs = jobs or os.cpu_count() or 4
    t0 = time.time()
    gen = os.path.join(bdir, "gen"); obj = os.path.join(bdir, "obj")
    os.makedirs(obj, exist_ok=True)
    generate(gen)
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim"), "-isystem", "/usr/include/libxml2", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/opencascade"]
    common = ["-std=c++20", "-w", "-fPIC", "-DNDEBUG"] + DEFS
    inst = common + ["-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer"]
    cm = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    srcs = re.findall(r"^([\w]+\.cpp)\s*$", cm[:cm.index(")")], re.M)
    if len(srcs) < 20: raise Build_error("could not read the list of sources")
    units = [(os.path.join(REPO, "src", s), inst + inc) for s in srcs]
    units += [(os.path.join(gen, s), inst + inc) for s in ("Gauss_legendre.cpp", "Gauss_lobatto.cpp", "config.cpp")]
    mains = {os.path.join(REPO, "src", "hexecute.cpp"): "hexecute_main", os.path.join(REPO, "src", "hil.cpp"): "hil_main"}
    units += [(m, inst + inc) for m in mains]
    sim = os.path.join(VERIF, "sim")
    for s in sorted(os.listdir(sim)):
        if not s.endswith(".cpp"): continue
        if s in ("sched.cpp", "io.cpp"): fl = common + ["-O2", "-g1", "-fno-threadsafe-statics", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
        elif s.startswith("scen_"): fl = common + ["-O1", "-g1", "-fopenmp", "-fsanitize=thread"] if s == "scen_par.cpp" else common + ["-O1", "-g1", "-fopenmp"]
        else: fl = common + ["-O1", "-g1"]
        units.append((os.path.join(sim, s), fl + inc))
    weight = {"kernels_diffusive.cpp": 9, "kernels_convective.cpp": 8, "scen_mesh.cpp": 7.5, "Case.cpp": 7, "Boundary_condition.cpp": 6, "Accessible_mesh.cpp": 5.5, "Solver.cpp": 5, "kernels_max_dt.cpp": 4}
    units.sort(key=lambda u: -weight.get(os.path.basename(u[0]), 1))
    def one(u):
        src, flags = u
        pre = run(["g++"] + flags + ["-E", "-P", src])
        key = hashlib.sha256(pre + (" ".join(flags) + mains.get(src, "")).encode()).hexdigest()[:24]
        o = os.path.join(obj, os.path.basename(src)[:-4] + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            run(["g++"] + flags + ["-c", src, "-o", tmp])
            if src in mains: run(["objcopy", "--redefine-sym", "main=" + mains[src], tmp])
            os.replace(tmp, o)
        return o
    with ThreadPoolExecutor(jobs) as ex: objs = list(ex.map(one, units))
    exe = os.path.join(bdir, "simhex")
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()
    stamp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        L = ["-L" + LIB + "/hdf5/serial", "-L" + LIB + "/xdmf/serial"]
        run(["g++", "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + objs + L + ["-lhdf5_cpp", "-lhdf5", "-lnlopt", "-lTKBRep", "-lTKOpenGl", "-lTKV3d", "-lTKIGES", "-lTKSTEP", "-lTKSTL", "-lTKSTEPBase", "-lTKMath", "-lTKernel", "-lTKG2d", "-lTKG3d", "-lTKGeomBase", "-lTKGeomAlgo", "-lTKTopAlgo", "-lTKXSBase", "-lTKMesh", "-lTKService", "-lXdmf", "-lXdmfCore", "-l:libxml2.so.2", "-ldl"])
        os.replace(exe + ".tmp", exe)
        open(stamp, "w").write(key)
        used = set(objs)
        for f in os.listdir(obj): # keep the cache small
            p = os.path.join(obj, f)
            if p not in used and time.time() - os.path.getmtime(p) > 6*3600: os.remove(p)
    log("build: %.1f s" % (time.time() - t0))
    return exe

if __name__ == "__main__":
    try: print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "_build"), log=lambda s: print(s)))
    except Build_error as e: print("BUILD FAILED\n" + str(e)); sys.exit(2)
