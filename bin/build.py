"""Builds the engine (pass, runtime, models) and, from /repo's current working
tree, the two variants of scaleupROM the checks link against:
  sym    clang, every floating-point operation replaced by SxPass (symbolic)
  replay plain g++, real libmfem (counterexample replay, encoding validation)
Objects are cached under /verif/build by content hash."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = VERIF + "/build"
ENG = VERIF + "/engine"
GEN = BUILD + "/gen"
CLANG, GXX = "clang++-18", "g++"
TRIMMED = ("include/linalg_utils.hpp", "src/linalg_utils.cpp")
LIBROM = re.compile(r"(librom\.h|linalg/\w+\.h|utils/\w+\.h|mfem/Utilities\.hpp|algo/.*\.h)$")
INCLUDE = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
MPI = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
INC = ["-I" + GEN + "/include", "-I" + ENG, "-I" + VERIF + "/harness", "-I/usr/include/mfem", "-I/usr/include/hypre", "-I/usr/include/hdf5/serial"] + MPI
# the modules that use libROM are compiled against the stand-in in engine/librom (rom=True)
ROMINC = ["-I" + ENG + "/librom", "-I" + REPO + "/include", "-I" + ENG] + INC[2:]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmfem", "-lHYPRE", "-lmetis", "-lyaml-cpp", "-lhdf5", "-llapack", "-lblas", "-lmpi_cxx", "-lmpi", "-ldl", "-lpthread"]
SYMFLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-DMFEM_DEBUG", "-DSX_SYMBOLIC", "-fpass-plugin=" + BUILD + "/SxPass.so", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize"]
REPFLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-DMFEM_DEBUG"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, errors="surrogateescape") as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and read(path) == text:
        return
    with open(path, "w", errors="surrogateescape") as f:
        f.write(text)


def trim(rel):
    """drop the libROM parts of a file (same rule as the reference build)"""
    lines = read(os.path.join(REPO, rel)).split("\n")
    out = list(lines)

    def blank(a, b):
        out[a:b + 1] = [""] * (b + 1 - a)
    i, n, start = 0, len(lines), None
    while i < n:
        line = lines[i]
        m = INCLUDE.match(line)
        if m and LIBROM.match(m.group(1)):
            out[i] = ""
        elif re.match(r"namespace CAROM\b", line):
            j = i + 1
            while j < n:
                if lines[j].rstrip() == "}":
                    k = j + 1
                    while k < n and not lines[k].strip():
                        k += 1
                    if k == n or re.match(r"(namespace|using|#endif)\b", lines[k]):
                        break
                j += 1
            if j == n:
                raise BuildError("no end of namespace CAROM in " + rel)
            blank(i, j)
            i, start = j, None
        elif re.match(r"namespace\b|#", line) or (line.startswith("{") and start is None):
            start = None
        elif re.match(r"[A-Za-z]", line) and start is None:
            start = i
            if line.rstrip().endswith(";"):
                start = None
        elif start is not None and line.startswith("}"):
            if any("CAROM::" in x for x in lines[start:i + 1]):
                blank(start, i)
            start = None
        elif start is not None and not any(x.startswith("{") for x in lines[start:i]) and line.rstrip().endswith(";") and not any("{" in x for x in lines[start:i]):
            start = None
        i += 1
    return '#line 1 "%s/%s"\n' % (REPO, rel) + "\n".join(out)


def needs_librom(rel, seen):
    if rel in seen or rel in TRIMMED:
        return False
    seen.add(rel)
    for inc in INCLUDE.findall(read(os.path.join(REPO, rel))):
        for base in (os.path.dirname(rel), "include"):
            cand = os.path.normpath(os.path.join(base, inc))
            if os.path.isfile(os.path.join(REPO, cand)):
                if needs_librom(cand, seen):
                    return True
                break
        else:
            if LIBROM.match(inc):
                return True
    return False


def prepare():
    inc = GEN + "/include"
    os.makedirs(inc, exist_ok=True)
    headers = set(os.listdir(REPO + "/include"))
    for old in set(os.listdir(inc)) - headers:
        os.remove(os.path.join(inc, old))
    for h in sorted(headers):
        rel, path = "include/" + h, os.path.join(inc, h)
        if rel in TRIMMED:
            write(path, trim(rel))
        elif not os.path.islink(path):
            if os.path.exists(path):
                os.remove(path)
            os.symlink(os.path.join(REPO, rel), path)
    write(GEN + "/src/linalg_utils.cpp", trim("src/linalg_utils.cpp"))
    text = re.sub(r"#.*", "", read(REPO + "/CMakeLists.txt"))
    body = re.search(r"set\(\s*scaleupROMObj_SOURCES(.*?)\)", text, re.S).group(1)
    srcs, rom = [], []
    for rel in re.findall(r"\S+\.cpp", body):
        if rel in TRIMMED or needs_librom(rel, set()):
            rom.append(REPO + "/" + rel)
        if not needs_librom(rel, set()):
            srcs.append(GEN + "/" + rel if rel in TRIMMED else REPO + "/" + rel)
    hh = hashlib.sha256()
    for h in sorted(headers):
        hh.update(h.encode() + b"\0" + read(os.path.join(inc, h)).encode(errors="surrogateescape"))
    # headers in src or anywhere else reachable
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if not f.endswith(".cpp"):
                hh.update(read(os.path.join(d, f)).encode(errors="surrogateescape"))
    return srcs, rom, hh.hexdigest()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode(errors="surrogateescape") + b"\0")
    return h.hexdigest()[:24]


def run(cmd, what, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    if r.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def obj(src, flags, extra_key, cc, env=None, inc=INC):
    key = sha(read(src), " ".join(flags), extra_key, cc, str(env), "" if inc is INC else "rom")
    out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".cpp", ""), key)
    if not os.path.exists(out):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        run([cc] + flags + inc + ["-c", src, "-o", tmp], src, env)
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def engine(pool):
    os.makedirs(BUILD, exist_ok=True)
    so = BUILD + "/SxPass.so"
    key = sha(read(ENG + "/SxPass.cpp"))
    if not (os.path.exists(so) and os.path.exists(so + ".key") and read(so + ".key") == key):
        flags = run(["llvm-config-18", "--cxxflags"], "llvm-config").split()
        run([CLANG, "-shared", "-fPIC", "-O1"] + flags + ["-w", "-o", so + ".tmp", ENG + "/SxPass.cpp"], "SxPass")
        os.rename(so + ".tmp", so)
        write(so + ".key", key)
    hpp = read(ENG + "/sx.hpp")
    native = ["-std=c++17", "-O2", "-w"]
    jobs = {
        "rt": pool.submit(obj, ENG + "/rt.cpp", native, hpp, CLANG),
        "models": pool.submit(obj, ENG + "/mfem_models.cpp", [f for f in SYMFLAGS if "DEBUG" not in f], key, CLANG),
        "integ": pool.submit(obj, ENG + "/mfem_integ.cpp", [f for f in SYMFLAGS if "DEBUG" not in f], key, CLANG),
        "stream": pool.submit(obj, ENG + "/stream_models.cpp", native, "", CLANG),
        "detour": pool.submit(obj, ENG + "/detour.cpp", native, "", CLANG),
        "salloc": pool.submit(obj, ENG + "/alloc_model.cpp", native + ["-DSX_SYMBOLIC"], "", CLANG),
        "ralloc": pool.submit(obj, ENG + "/alloc_model.cpp", native, "", CLANG),
        "mpi": pool.submit(obj, ENG + "/mpi_stub.cpp", native, "", CLANG),
        "rrt": pool.submit(obj, ENG + "/replay_rt.cpp", native, hpp, GXX),
    }
    o = {k: v.result() for k, v in jobs.items()}
    for name, objs in (("table", ["models"]), ("itable", ["models", "integ"])):
        syms = [l.split()[2] for k in objs for l in run(["nm", o[k]], "nm").splitlines() if len(l.split()) == 3 and l.split()[1] == "T"]
        t = ['struct SxDetour { const char *name; void (*fn)(); };']
        for i, s in enumerate(syms):
            t.append('extern "C" void m%d() asm("%s");' % (i, s))
        t.append("SxDetour sx_detour_table[] = {%s};" % ",".join('{"%s",m%d}' % (s, i) for i, s in enumerate(syms)))
        t.append("int sx_detour_count = %d;" % len(syms))
        write(GEN + "/detour_%s.cpp" % name, "\n".join(t) + "\n")
        o[name] = obj(GEN + "/detour_%s.cpp" % name, ["-O0"], "", CLANG)
    return key, o


def prune():
    d = BUILD + "/obj"
    fs = [(os.path.getmtime(d + "/" + f), d + "/" + f) for f in os.listdir(d)]
    fs.sort(reverse=True)
    for _, f in fs[600:]:
        os.remove(f)


def build(harness, ints=False, wrap=(), rom=False, integ=False):
    """-> (symbolic executable, replay executable, list of repo sources)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as pool:
            key, eo = engine(pool)
            srcs, romsrcs, hh = prepare()
            inc = ROMINC if rom else INC
            th = ""
            if rom:
                th = "".join(read(REPO + "/" + t) for t in TRIMMED) + "".join(read(os.path.join(d, f)) for d, _, fs in sorted(os.walk(ENG + "/librom")) for f in sorted(fs))
                srcs = [s for s in srcs if not s.startswith(GEN)]
            senv = {"SX_TRACE": "1"}
            if ints:
                senv["SX_INTS"] = "1"
            hp = "".join(read(VERIF + "/harness/" + f) for f in sorted(os.listdir(VERIF + "/harness")) if f.endswith(".hpp"))
            hk = hh + th + read(ENG + "/sx.hpp") + hp
            sj = [pool.submit(obj, s, SYMFLAGS, hh + key, CLANG, senv) for s in srcs]
            rj = [pool.submit(obj, s, REPFLAGS, hh, GXX) for s in srcs]
            if rom:
                sj += [pool.submit(obj, s, SYMFLAGS, hh + th + key, CLANG, senv, inc) for s in romsrcs]
                rj += [pool.submit(obj, s, REPFLAGS, hh + th, GXX, None, inc) for s in romsrcs]
                srcs = srcs + romsrcs
            henv = {"SX_INTS": "1"} if ints else {}
            hs = [pool.submit(obj, VERIF + "/harness/" + h, SYMFLAGS, hk + key, CLANG, henv, inc) for h in harness]
            hr = [pool.submit(obj, VERIF + "/harness/" + h, REPFLAGS, hk, GXX, None, inc) for h in harness]
            so, ro = [x.result() for x in sj + hs], [x.result() for x in rj + hr]
            so = [eo["models"]] + ([eo["integ"]] if integ else []) + [eo["rt"], eo["stream"], eo["detour"], eo["itable" if integ else "table"], eo["mpi"], eo["salloc"]] + so
            ro = [eo["rrt"], eo["mpi"], eo["ralloc"]] + ro
            sexe = "%s/exe/sym-%s" % (BUILD, sha(*so, *wrap))
            rexe = "%s/exe/rep-%s" % (BUILD, sha(*ro, *wrap))
            wl = ["-Wl,--wrap=" + w for w in wrap]
            os.makedirs(BUILD + "/exe", exist_ok=True)
            if not os.path.exists(sexe):
                run([CLANG, "-rdynamic", "-o", sexe] + so + wl + LIBS + ["-lz3", "-lgmpxx", "-lgmp"], "link sym")
            if not os.path.exists(rexe):
                run([GXX, "-rdynamic", "-o", rexe] + ro + wl + LIBS, "link replay")
            es = sorted((os.path.getmtime(BUILD + "/exe/" + f), f) for f in os.listdir(BUILD + "/exe"))
            for _, f in es[:-60]:
                os.remove(BUILD + "/exe/" + f)
            prune()
    return sexe, rexe, srcs
