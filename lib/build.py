"""Rebuilds, from /repo's current working tree, everything a check needs.

  engine   the symbolic executor (engine/)
  ir       LLVM IR of the program, its dependencies, the standard library, the
           harness (harness/sym) and of the SQLite amalgamation it links
  native   the replay binary: the same harness around the same sources as an
           ordinary program (harness/native)
"""
import fcntl, glob, os, shutil, subprocess, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HOME = os.path.expanduser("~")
TC = "stable-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
RLIB = f"{HOME}/.rustup/toolchains/{TC}/lib/rustlib/{TARGET}"
LLVM = RLIB + "/bin"
SQ_FLAGS = ("-DSQLITE_THREADSAFE=1 -DSQLITE_OMIT_LOAD_EXTENSION -DLONGDOUBLE_TYPE=double "
            "-DSQLITE_DEFAULT_MMAP_SIZE=0 -DSQLITE_MAX_MMAP_SIZE=0 -DSQLITE_DEFAULT_LOOKASIDE=0,0 "
            "-DUSE_PREAD=1 -w").split()


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": TC, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        out = r.stdout.decode(errors="replace")
        raise BuildError(f"{' '.join(cmd)[:300]}\n{out[-4000:]}")
    return r.stdout.decode(errors="replace")


def newer(out, *ins):
    try:
        t = os.path.getmtime(out)
    except OSError:
        return False
    return all(os.path.getmtime(i) <= t for i in ins)


def sqlite_src():
    d = glob.glob(f"{HOME}/.cargo/registry/src/*/libsqlite3-sys-0.17.1/sqlite3/sqlite3.c")
    if not d:
        raise BuildError("the SQLite amalgamation is not in the cargo registry")
    return d[0]


def engine():
    sh(["cargo", "build", "--release", "--offline"], {"CARGO_TARGET_DIR": f"{BUILD}/engine"}, f"{VERIF}/engine")


def sqlite_ir():
    out = f"{BUILD}/ir/sqlite3.ll"
    src = sqlite_src()
    if newer(out, src):
        return
    os.makedirs(f"{BUILD}/ir", exist_ok=True)
    sh(["clang-18", "-S", "-emit-llvm", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
        *SQ_FLAGS, src, "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)


def sqlite_lib():
    d = f"{BUILD}/sqlite"
    out = d + "/libsqlite3.a"
    src = sqlite_src()
    if newer(out, src):
        return
    os.makedirs(d, exist_ok=True)
    sh(["clang-18", "-c", "-O0", *SQ_FLAGS, src, "-o", d + "/sqlite3.o"])
    sh(["ar", "rcs", out, d + "/sqlite3.o"])


def std_ir():
    out = f"{BUILD}/ir/std.ll"
    if newer(out, RLIB):
        return
    d = f"{BUILD}/std"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.makedirs(f"{BUILD}/ir", exist_ok=True)
    skip = ("panic_unwind", "libtest", "proc_macro", "getopts", "compiler_builtins", "profiler_builtins", "rustc-std-workspace", "rustc_std_workspace")
    bcs, procs = [], []
    for r in glob.glob(RLIB + "/lib/*.rlib"):
        b = os.path.basename(r)
        if any(s in b for s in skip):
            continue
        x = f"{d}/{b}"
        os.mkdir(x)
        sh([LLVM + "/llvm-ar", "x", r], cwd=x)
        for o in sorted(glob.glob(x + "/*.o")):
            bc = o[:-2] + ".bc"
            sh([LLVM + "/llvm-objcopy", f"--dump-section=.llvmbc={bc}", o, o + ".tmp"])
            bcs.append(bc)
    sh([LLVM + "/llvm-link", *bcs, "-o", d + "/std.bc"])
    sh([LLVM + "/llvm-dis", d + "/std.bc", "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    shutil.rmtree(d, ignore_errors=True)


def prog_ir():
    t = f"{BUILD}/sym"
    sh(["cargo", "rustc", "--offline", "--release", "--target", TARGET, "--", "-C", "no-vectorize-loops", "-C",
        "no-vectorize-slp"],
       {"CARGO_TARGET_DIR": t, "RUSTC_WRAPPER": f"{VERIF}/lib/wrap.sh", "RUSTFLAGS": "-Clinker-plugin-lto",
        "CARGO_PROFILE_RELEASE_LTO": "off"}, f"{VERIF}/harness/sym")
    deps = f"{t}/{TARGET}/release/deps"
    ir = f"{BUILD}/ir/prog"
    os.makedirs(ir, exist_ok=True)
    procs, keep = [], set()
    jobs = []
    for r in sorted(glob.glob(deps + "/*.rlib")):
        b = os.path.basename(r)[:-5]
        x = f"{BUILD}/obj/{b}"
        stamp = x + "/stamp"
        if not newer(stamp, r):
            shutil.rmtree(x, ignore_errors=True)
            os.makedirs(x)
            sh([LLVM + "/llvm-ar", "x", r], cwd=x)
            for o in glob.glob(x + "/*.o"):
                jobs.append((o, f"{ir}/{b}.{os.path.basename(o)}.ll"))
            open(stamp, "w").close()
        for o in glob.glob(x + "/*.o"):
            keep.add(f"{b}.{os.path.basename(o)}.ll")
    jobs.append((f"{deps}/hsym.bc", f"{ir}/hsym.ll"))
    keep.add("hsym.ll")
    for f in os.listdir(ir):
        if f not in keep:
            os.unlink(f"{ir}/{f}")
    run = []
    for i, o in jobs:
        run.append(subprocess.Popen([LLVM + "/llvm-dis", i, "-o", o], stderr=subprocess.PIPE))
    for p in run:
        e = p.communicate()[1]
        if p.returncode != 0:
            raise BuildError("llvm-dis: " + e.decode(errors="replace")[-500:])


def native():
    """with the system's SQLite, as the program itself is linked"""
    sh(["cargo", "build", "--offline"], {"CARGO_TARGET_DIR": f"{BUILD}/native", "CARGO_PROFILE_DEV_DEBUG": "0"},
       f"{VERIF}/harness/native")


def native_same():
    """with the SQLite the engine executes"""
    sqlite_lib()
    sh(["cargo", "build", "--offline"],
       {"CARGO_TARGET_DIR": f"{BUILD}/native_same", "SQLITE3_LIB_DIR": f"{BUILD}/sqlite",
        "SQLITE3_STATIC": "1", "SQLITE3_INCLUDE_DIR": os.path.dirname(sqlite_src()), "PKG_CONFIG": "/bin/false",
        "CARGO_PROFILE_DEV_DEBUG": "0"}, f"{VERIF}/harness/native")


def build():
    """returns (modules, symx, replay, seconds)"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["bash", f"{VERIF}/harness/gen.sh", f"{VERIF}/harness/gen"])
        errs = []

        def go(f):
            try:
                f()
            except BuildError as e:
                errs.append(f"{f.__name__}: {e}")
            except Exception as e:
                errs.append(f"{f.__name__}: {e!r}")
        ts = [threading.Thread(target=go, args=(f,)) for f in (prog_ir, native, native_same, engine, sqlite_ir, std_ir)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise BuildError("\n".join(errs))
    mods = sorted(glob.glob(f"{BUILD}/ir/prog/*.ll")) + [f"{BUILD}/ir/std.ll", f"{BUILD}/ir/sqlite3.ll"]
    return mods, f"{BUILD}/engine/release/symx", f"{BUILD}/native/debug/replay", time.time() - t0


if __name__ == "__main__":
    m, s, r, t = build()
    print(f"built in {t:.1f} s: {len(m)} modules, {s}, {r}")
