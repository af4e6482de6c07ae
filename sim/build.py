#!/usr/bin/env python3
"""Builds simjom from /repo's working tree. Prints the path of the binary.

Objects and binaries are cached by content in /verif/build (ignored by git)."""
import concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMJOM_REPO", "/repo")
BUILD = os.environ.get("SIMJOM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
QT = "/usr/include/x86_64-linux-gnu/qt5"

WINDEFS = ["-DWINE_UNICODE_NATIVE", "-D_REENTRANT"] + ["-D" + d for d in (
    "WIN64", "_WIN64", "__WIN64", "__WIN64__", "WIN32", "_WIN32", "__WIN32", "__WIN32__", "__WINNT", "__WINNT__")] + [
    "-D__stdcall=__attribute__((ms_abi))", "-D__cdecl=__stdcall", "-D__fastcall=__stdcall", "-D_stdcall=__stdcall",
    "-D_cdecl=__cdecl", "-D_fastcall=__fastcall", "-D__declspec(x)=__declspec_##x",
    "-D__declspec_align(x)=__attribute__((aligned(x)))", "-D__declspec_allocate(x)=__attribute__((section(x)))",
    "-D__declspec_deprecated=__attribute__((deprecated))", "-D__declspec_dllimport=", "-D__declspec_dllexport=",
    "-D__declspec_naked=__attribute__((naked))", "-D__declspec_noinline=__attribute__((noinline))",
    "-D__declspec_noreturn=__attribute__((noreturn))", "-D__declspec_nothrow=__attribute__((nothrow))",
    "-D__declspec_novtable=__attribute__(())", "-D__declspec_selectany=__attribute__((weak))",
    "-D__declspec_thread=__thread", "-D__int8=char", "-D__int16=short", "-D__int32=int", "-D__int64=long", "-D__WINE__"]
WININC = ["-isystem", "/usr/include/wine/wine/windows", "-idirafter", "/usr/include/wine"]
QTINC = ["-isystem", QT, "-isystem", QT + "/QtCore", "-isystem", "/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++"]
BASE = ["-std=gnu++17", "-w", "-g1", "-fPIC", "-fshort-wchar", "-DQT_CORE_LIB", "-DQT_NO_DEBUG", "-DUNICODE", "-D_UNICODE",
        "-fno-sanitize-recover=all"]
FLAVOURS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-DQT_FORCE_ASSERTS"],
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("FAILED: ... %s\n%s\n" % (" ".join(cmd[-4:]), r.stdout.decode("utf-8", "replace")[-1500:]))
        raise SystemExit(3)
    return r.stdout

def read(p):
    with open(p, "rb") as f:
        return f.read()

def jom_sources():
    cm = read(os.path.join(REPO, "src/jomlib/CMakeLists.txt")).decode("utf-8", "replace")
    names = [n for n in re.findall(r"[\w./-]+\.cpp", cm.split("add_library", 1)[1].split(")", 1)[0])]
    have = set(names)
    # jobserver.h is not listed in the CMake file's headers, but moc must see every header
    return [os.path.join(REPO, "src/jomlib", n) for n in names if os.path.exists(os.path.join(REPO, "src/jomlib", n))]

def build(flavour="plain"):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + flavour), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    tree = sorted(glob.glob(REPO + "/src/**/*", recursive=True))
    own = sorted(glob.glob(HERE + "/*.[ch]*") + [os.path.abspath(__file__)])
    h = hashlib.sha256(flavour.encode())
    for p in tree + own:
        if os.path.isfile(p):
            h.update(os.path.relpath(p, "/").encode() + b"\0" + read(p) + b"\0")
    key = h.hexdigest()[:20]
    out = os.path.join(BUILD, "simjom-%s-%s" % (flavour, key))
    if os.path.exists(out):
        return out
    # One directory of objects per content key of the headers; objects keyed by their own source.
    hh = hashlib.sha256(flavour.encode())
    for p in tree + own:
        if os.path.isfile(p) and not p.endswith(".cpp"):
            hh.update(os.path.basename(p).encode() + b"\0" + read(p) + b"\0")
    odir = os.path.join(BUILD, "obj-%s-%s" % (flavour, hh.hexdigest()[:20]))
    os.makedirs(odir, exist_ok=True)
    cxx = os.environ.get("SIMJOM_CXX", "g++")
    fl = FLAVOURS[flavour]
    inc = ["-I" + REPO + "/src/jomlib", "-I" + REPO + "/src/app", "-I" + HERE + "/include", "-I" + HERE, "-I" + odir]
    ver = read(REPO + "/src/app/version.txt").decode().strip().split(".")
    verdef = ["-DJOM_VERSION_MAJOR=" + ver[0], "-DJOM_VERSION_MINOR=" + ver[1], "-DJOM_VERSION_PATCH=" + ver[2]]
    win = BASE + fl + WINDEFS + WININC
    # precompiled shim header (identical flags for every unit that uses it)
    pch = os.path.join(odir, "pch")
    os.makedirs(pch, exist_ok=True)
    shutil.copy(HERE + "/shim.h", pch + "/shim.h")
    shim = ["-include", pch + "/shim.h"]
    def make_pch():
        if not os.path.exists(pch + "/shim.h.gch"):
            tmp = pch + "/shim.h.gch.%d.tmp" % os.getpid()
            sh([cxx] + win + QTINC + ["-x", "c++-header", HERE + "/shim.h", "-o", tmp])
            os.replace(tmp, pch + "/shim.h.gch")
    pool = cf.ThreadPoolExecutor(max_workers=8)
    pch_done = pool.submit(make_pch)
    jobs = []   # (src, args, obj)
    def add(src, args, tag):
        k = hashlib.sha256((tag + src).encode() + read(src)).hexdigest()[:20]
        jobs.append((src, args, os.path.join(odir, tag + "-" + os.path.basename(src) + "-" + k + ".o")))
    # moc for headers
    for hdr in sorted(glob.glob(REPO + "/src/jomlib/*.h") + glob.glob(REPO + "/src/app/*.h")):
        if b"Q_OBJECT" in read(hdr):
            mo = os.path.join(odir, "moc_" + os.path.basename(hdr)[:-2] + ".cpp")
            sh(["moc", "-o", mo + ".tmp"] + ["-I" + REPO + "/src/jomlib", "-f" + hdr, hdr])
            os.replace(mo + ".tmp", mo)
            add(mo, win + verdef + shim + inc + QTINC, "moc")
    for src in jom_sources() + sorted(glob.glob(REPO + "/src/app/*.cpp")):
        m = re.search(rb'#include\s+"(\w+)\.moc"', read(src))
        if m:
            mo = os.path.join(odir, m.group(1).decode() + ".moc")
            sh(["moc", "-o", mo, "-I" + REPO + "/src/jomlib", src])
        d = [] if "/jomlib/" in src else verdef
        if src.endswith("/app/main.cpp"):
            d = d + ["-Dmain=jom_main"]
        add(src, win + d + shim + inc + QTINC, "jom")
    mw = os.path.join(odir, "moc_qwineventnotifier.cpp")
    sh(["moc", "-DQ_OS_WIN", "-o", mw + ".tmp", QT + "/QtCore/qwineventnotifier.h", "-f" + QT + "/QtCore/qwineventnotifier.h"])
    os.replace(mw + ".tmp", mw)
    add(mw, win + inc + QTINC + shim, "moc")
    add(HERE + "/win32.cpp", win + shim + inc + QTINC, "sim")
    add(HERE + "/core.cpp", BASE + fl + ["-I" + HERE] + QTINC, "sim")
    jobs.sort(key=lambda j: not j[0].endswith("core.cpp"))
    def comp(j):
        src, args, obj = j
        if not src.endswith("core.cpp"):
            pch_done.result()
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            sh([cxx] + args + ["-c", src, "-o", tmp])
            os.replace(tmp, obj)
        return obj
    objs = list(pool.map(comp, jobs))
    tmp = out + ".%d.tmp" % os.getpid()
    sh([cxx] + fl + objs + ["-o", tmp, "-Wl,--unresolved-symbols=ignore-all", "-lQt5Core", "-lpthread"])
    os.replace(tmp, out)
    # keep the cache small
    olds = sorted(glob.glob(BUILD + "/simjom-%s-*" % flavour), key=os.path.getmtime)[:-6]
    for o in olds:
        if re.match(r".*/simjom-\w+-[0-9a-f]{20}$", o): os.unlink(o)
    olds = sorted(glob.glob(BUILD + "/obj-%s-*" % flavour), key=os.path.getmtime)[:-6]
    for o in olds:
        shutil.rmtree(o, ignore_errors=True)
    return out

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
