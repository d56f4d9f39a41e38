"""Builds the compiler under test out of tree, from the current working tree of /repo.

Everything is keyed by a hash over the bytes of all compiler sources, so a stale build is never used.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")

FLAVORS = {
    "plain": ["-g0"],
    "asan": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}
BASE = ["-std=c18", "-w", "-I.", "-fPIC", "-D_GNU_SOURCE", "-DSKULL_VERSION=\"verif\"", "-DRELEASE=1"]


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "skull")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h", ".ll")) and f != "shim.h":
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def tree_hash():
    h = hashlib.sha256()
    for rel in sources():
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for rel in sorted(glob.glob(os.path.join(VERIF, "native", "*"))) + [os.path.abspath(__file__)]:
        with open(rel, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def llvm(*args):
    return subprocess.run(["llvm-config-19", *args], check=True, capture_output=True, text=True).stdout.split()


class BuildError(Exception):
    pass


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


def prepare(flavors=("plain",)):
    """Returns a directory with, for each flavor: skull-<flavor> (the compiler) and server-<flavor> (the fork server
    around it); and obs.o, bin/cc (the fast link step) and the Skull.h header."""
    h = tree_hash()
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        top = os.path.join(OUT, h)
        olds = sorted((d for d in glob.glob(os.path.join(OUT, "????????????????")) if d != top), key=os.path.getmtime)
        for d in olds[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        src = os.path.join(top, "src")
        if not os.path.exists(os.path.join(top, "common.ok")):
            shutil.rmtree(top, ignore_errors=True)
            for rel in sources():
                dst = os.path.join(src, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), dst)
            data = open(os.path.join(src, "skull/shim.ll"), "rb").read()
            with open(os.path.join(src, "skull/shim.h"), "w") as f:
                f.write("char LL_SHIM[] = {\n")
                for i in range(0, len(data), 12):
                    f.write("  " + ", ".join("0x%02x" % b for b in data[i:i + 12]) + ",\n")
                f.write("};\nunsigned int LL_SHIM_len = %d;\n" % len(data))
            os.makedirs(os.path.join(top, "bin"))
            nat = os.path.join(VERIF, "native")
            run(["gcc", "-O1", "-c", os.path.join(nat, "obs.c"), "-o", os.path.join(top, "obs.o"), "-fno-stack-protector", "-fno-pie"], top)
            run(["gcc", "-O1", "-c", os.path.join(nat, "start.c"), "-o", os.path.join(top, "start.o"), "-fno-stack-protector", "-fno-pie"], top)
            # link time stand-ins for libc and libm: tiny, so linking is fast; the real ones are loaded at run time
            stubs = {"c": ["exit", "_exit", "write", "memcpy", "memset", "memmove", "strlen", "abort", "puts", "putchar", "abs", "labs"],
                     "m": ["pow", "fmod"]}
            os.makedirs(os.path.join(top, "stub"))
            for lib, names in stubs.items():
                c = os.path.join(top, "stub", lib + ".c")
                with open(c, "w") as f:
                    f.write("".join("void %s(void) {}\n" % n for n in names))
                run(["gcc", "-w", "-fno-builtin", "-shared", "-nostdlib", "-Wl,-soname,lib%s.so.6" % lib, c, "-o",
                     os.path.join(top, "stub", "lib%s.so" % lib)], top)
            linker = next((l for l in ("/usr/bin/ld.bfd", "/usr/bin/ld.gold", "/usr/bin/ld") if os.path.exists(l)))
            run(["gcc", "-O1", "-DLINKER=\"%s\"" % linker, "-DSTUBS=\"-L%s\"" % os.path.join(top, "stub"),
                 os.path.join(nat, "fakecc.c"), "-o", os.path.join(top, "bin", "cc")], top)
            open(os.path.join(top, "common.ok"), "w").close()
        for flavor in flavors:
            if os.path.exists(os.path.join(top, flavor + ".ok")):
                continue
            build_flavor(top, src, flavor)
            open(os.path.join(top, flavor + ".ok"), "w").close()
        os.utime(top)
        return top


def build_flavor(top, src, flavor):
    obj = os.path.join(top, "obj-" + flavor)
    shutil.rmtree(obj, ignore_errors=True)
    os.makedirs(obj)
    cflags = BASE + FLAVORS[flavor] + llvm("--cflags")
    jobs = []
    objs = []
    for rel in sources():
        if not rel.endswith(".c"):
            continue
        o = os.path.join(obj, rel.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append(["gcc", *cflags, "-Dmain=skull_main", "-c", rel, "-o", o])
    server = os.path.join(obj, "server.o")
    stub = os.path.join(obj, "stub.c")
    with open(stub, "w") as f:
        f.write("int skull_main(int, char **); int main(int c, char **v) { return skull_main(c, v); }\n")
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda c: run(c, src), jobs))
    # the harness resets the options between the compiles of a history: it needs to know how big they are
    size = 0
    for line in subprocess.run(["nm", "-S", *objs], capture_output=True, text=True).stdout.splitlines():
        f = line.split()
        if len(f) == 4 and f[3] == "BUILD_DATA" and f[2] in "BDbd":
            size = int(f[1], 16)
    run(["gcc", *cflags, "-DOPTIONS_SIZE=%d" % size, "-c", os.path.join(VERIF, "native", "harness.c"), "-o", server], src)
    ld = llvm("--ldflags", "--libs")
    if flavor == "asan":
        wrap = os.path.join(obj, "wrap.o")
        run(["gcc", *FLAVORS[flavor], "-c", os.path.join(VERIF, "native", "wrap.c"), "-o", wrap], src)
        ld = [wrap, "-Wl,--wrap=c32rtomb", "-Wl,--wrap=mbrtoc32", *ld]
    run(["gcc", *FLAVORS[flavor], *objs, stub, "-o", os.path.join(top, "skull-" + flavor), *ld], src)
    run(["gcc", *FLAVORS[flavor], *objs, server, "-o", os.path.join(top, "server-" + flavor), *ld], src)
    shutil.rmtree(obj, ignore_errors=True)


if __name__ == "__main__":
    print(prepare(tuple(sys.argv[1:]) or ("plain", "asan")))
