#!/usr/bin/env python3
"""Builds a check's harness from /repo's current working tree.

Objects are cached under build/obj by the hash of everything that goes into
them (flags, source text, text of every quoted include, transitively), never by
time stamps, so a stale object cannot stand in for a changed source.
usage: build.py ID... | all        prints nothing on success
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, subprocess, sys

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
COMMON = ["-std=c++20", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
# -O1 with the address and undefined-behaviour sanitizers; any report is fatal.
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       # a variable read before it is written holds a pattern; element access in
       # the standard containers is bounded
       "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
       "-fno-omit-frame-pointer"]
# harness names can be made local only without the unique binding
HAR = SAN + ["-fno-gnu-unique"]
inc_re = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)

_text = {}
def text(p):
    if p not in _text:
        with open(p, "rb") as f:
            _text[p] = f.read().decode("latin-1")
    return _text[p]

_clos = {}
def closure(path):
    """Every file quoted-included from path, transitively (path included)."""
    seen, todo = {}, [path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen[p] = 1
        for name in inc_re.findall(text(p)):
            for d in (os.path.dirname(p), REPO, os.path.join(VERIF, "harness")):
                q = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(q):
                    todo.append(q)
                    break
    return sorted(seen)

def key(path, flags):
    h = hashlib.sha256()
    h.update(" ".join([CXX] + flags + COMMON).encode())
    for p in closure(path):
        h.update(p.encode() + b"\0" + text(p).encode("latin-1") + b"\0")
    return h.hexdigest()[:32]

def obj(path, flags):
    o = os.path.join(OUT, "obj", os.path.basename(path) + "." + key(path, flags) + ".o")
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + flags + COMMON + ["-c", path, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("compile failed: %s\n%s\n" % (path, r.stdout.decode(errors="replace")[:4000]))
            raise SystemExit(2)
        os.rename(tmp, o)
    return o

def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "spffl", "**", "*.cpp"), recursive=True))

def spiff_sources():
    return sorted(glob.glob(os.path.join(REPO, "cli", "spiff", "*.cpp")))

def compile_all(paths_flags):
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(obj, p, f) for p, f in paths_flags]
        return [f.result() for f in futs]

def link(objs, flags, name):
    h = hashlib.sha256("\n".join([CXX] + flags + objs).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "bin", name + "." + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + flags + objs + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("link failed: %s\n%s\n" % (name, r.stdout.decode(errors="replace")[:4000]))
            raise SystemExit(2)
        os.rename(tmp, exe)
    cur = os.path.join(OUT, name)
    if not (os.path.islink(cur) and os.readlink(cur) == exe):
        tmp = cur + ".tmp%d" % os.getpid()
        os.symlink(exe, tmp)
        os.rename(tmp, cur)
    return exe

def prune():
    """Keep the cache bounded: drop the oldest entries beyond a cap."""
    for d, cap in (("obj", 700), ("bin", 90)):
        fs = [os.path.join(OUT, d, f) for f in os.listdir(os.path.join(OUT, d))]
        if len(fs) > cap:
            fs.sort(key=lambda f: os.stat(f).st_atime)
            for f in fs[:len(fs) - cap]:
                try: os.unlink(f)
                except OSError: pass

def needs_cli(pid):
    return "// NEEDS-SPIFF" in text(os.path.join(VERIF, "harness", pid.lower() + ".cpp"))

def includes_cli(pid):
    return '#include "clix.h"' in text(os.path.join(VERIF, "harness", pid.lower() + ".cpp"))

def wants_pure(pid):
    return '#include "pure.h"' in text(os.path.join(VERIF, "harness", pid.lower() + ".cpp"))

def parts(pid):
    """The other harnesses linked into this one."""
    m = re.search(r"^// WITH (.*)$", text(os.path.join(VERIF, "harness", pid.lower() + ".cpp")), re.M)
    return m.group(1).split() if m else []

def local(name, o):
    """The object o of harness name with main() as main_<name> and no other name visible."""
    out = o[:-2] + ".local.o"
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        for cmd in (["ld", "-r", "--force-group-allocation", o, "-o", tmp],
                    ["objcopy", "--redefine-sym", "main=main_" + name, tmp],
                    ["objcopy", "--keep-global-symbol=main_" + name, tmp]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write("%s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[:4000]))
                raise SystemExit(2)
        os.rename(tmp, out)
    return out

def main(argv):
    ids = argv or ["all"]
    if ids == ["all"]:
        ids = sorted(os.path.basename(p)[:-4].upper()
                     for p in glob.glob(os.path.join(VERIF, "harness", "[a-z][0-9][0-9].cpp")))
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prune()
        lib = lib_sources()
        eng = os.path.join(VERIF, "harness", "engine.cpp")
        har = [os.path.join(VERIF, "harness", i.lower() + ".cpp") for i in ids]
        pur = [os.path.join(VERIF, "harness", "pure.cpp")] if any(wants_pure(i) for i in ids) else []
        cli = spiff_sources() if any(needs_cli(i) for i in ids) else []
        more = [os.path.join(VERIF, "harness", n + ".cpp") for n in sorted(set(sum((parts(i) for i in ids), [])))]
        # biggest translation units first
        # the CLI as a library: its main() is spiff_main()
        wants = [i for i in ids if includes_cli(i)]
        mains = [p for p in spiff_sources() if p.endswith("/spiff_main.cpp")] if wants else []
        cli_all = spiff_sources() if (wants or cli) else []
        renamed = ["-Dmain=spiff_main"]
        work = [(p, SAN) for p in cli_all] + [(p, HAR) for p in pur + har + [p for p in more if p not in har]] + [(p, SAN) for p in lib] + [(eng, SAN)]
        objs = dict(zip([p for p, _ in work], compile_all(work)))
        libo = [objs[p] for p in lib]
        clio = [objs[p] for p in cli_all if p not in mains] + compile_all([(p, SAN + renamed) for p in mains])
        extra = {i: [local(n, objs[os.path.join(VERIF, "harness", n + ".cpp")]) for n in parts(i)] for i in ids}
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            if cli:
                fs.append(ex.submit(link, [objs[p] for p in cli] + libo, SAN, "spiff"))
            for i, h in zip(ids, har):
                fs.append(ex.submit(link, [objs[h], objs[eng]] + ([objs[p] for p in pur] if wants_pure(i) else []) + extra[i] + (clio if i in wants else []) + libo, SAN, i))
            for f in fs:
                f.result()

if __name__ == "__main__":
    main(sys.argv[1:])
