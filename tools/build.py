#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree and /verif/sim into /verif/build (content-addressed objects)."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-O1", "-g1", "-w", "-fno-pie", "-pthread", "-ffp-contract=off", "-fno-strict-aliasing",
          f"-I{VERIF}/sim/stub", f"-I{VERIF}/sim", f"-I{REPO}/include"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    h = hashlib.sha256()
    files = []
    for root in (f"{REPO}/include/psdd", f"{REPO}/include/sdd", f"{REPO}/include/kahypar", f"{REPO}/src", f"{REPO}/include/nlohmann", f"{VERIF}/sim"):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".hh", ".inc"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + read(f))
    return h.hexdigest()


def strip_comments(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)


def has_main(path):
    return re.search(r"\bint\s+main\s*\(", strip_comments(read(path).decode("latin-1"))) is not None


def jobs(blocks=False):
    """blocks: the library calls the scheduler in every basic block"""
    """(source, compiler, extra flags)"""
    out = []
    for s in sorted(glob.glob(f"{REPO}/src/*.cpp") + glob.glob(f"{REPO}/src/*.cc") + glob.glob(f"{REPO}/src/*.c")):
        if has_main(s):
            continue
        out.append((s, "gcc" if s.endswith(".c") else "g++", ["-fsanitize-coverage=trace-pc"] if blocks else []))
    out.append((f"{REPO}/psdd_inference_main.cpp", "g++", ["@main=psdd_inference_tool_main"]))
    out.append((f"{REPO}/uai_compiler.cpp", "g++", ["@main=uai_compiler_tool_main"]))
    for s in sorted(glob.glob(f"{VERIF}/sim/*.cpp")):
        out.append((s, "g++", []))
    return out


def build(verbose=False, blocks=False):
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    lock = open(f"{BUILD}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hh = headers_hash()
    js = jobs(blocks)
    objs, todo = [], []
    for s, cc, extra in js:
        entry = [e[6:] for e in extra if e.startswith("@main=")]      # a program: its real main, under another name
        extra = [e for e in extra if not e.startswith("@")]
        flags = COMMON + extra + (["-std=gnu99"] if cc == "gcc" else ["-std=c++17"])
        o = f"{BUILD}/obj/{sha(hh, s, cc, ' '.join(flags + entry), read(s))}.o"
        objs.append(o)
        if not os.path.exists(o):
            todo.append((os.path.getsize(s), [cc, "-c"] + flags + [s, "-o", o + ".tmp"], o, entry))

    def one(j):
        p = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and j[3]:
            p = subprocess.run(["objcopy", "--redefine-sym", "main=" + j[3][0], j[2] + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.rename(j[2] + ".tmp", j[2])
            return None
        return " ".join(j[1]) + "\n" + p.stdout
    todo.sort(key=lambda j: -j[0])
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        sys.stderr.write("\n".join(errs)[:8000] + "\nbuild failed\n")
        return None
    libsdd = f"{REPO}/lib/linux/libsdd.a"
    key = sha(*objs, read(libsdd))
    exe = f"{BUILD}/sim-{key}"
    if not os.path.exists(exe):
        cmd = ["g++", "-no-pie", "-pthread", "-o", exe + ".tmp"] + objs + [libsdd, "-lgmpxx", "-lgmp", "-ldl", "-lm"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write(p.stdout[:8000] + "\nlink failed\n")
            return None
        os.rename(exe + ".tmp", exe)
    if verbose:
        print(exe)
    # keep only what the current tree uses (in both variants)
    old = {f for f in glob.glob(f"{BUILD}/obj/*") + glob.glob(f"{BUILD}/sim-*") if time.time() - os.path.getmtime(f) < 600}
    for f in objs + [exe]:
        os.utime(f)
    keep = set(objs) | {exe} | old
    for f in glob.glob(f"{BUILD}/obj/*") + glob.glob(f"{BUILD}/sim-*"):
        if f not in keep and not os.environ.get("SIM_KEEP"):
            try:
                os.unlink(f)
            except OSError:
                pass
    return exe


if __name__ == "__main__":
    b = len(sys.argv) > 1 and sys.argv[1] == "blocks"
    sys.exit(0 if build(True, b) else 2)
