#!/usr/bin/env python3
"""Run one check: run.py ID [--tier quick|thorough] [--replay FILE] [--build-only] [engine options]

Compiles checks/ID.cpp against the headers of /repo's working tree (cached in
build/ by the contents of everything that is included), then runs it."""
import hashlib, json, os, subprocess, sys, threading
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("ODES_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from checks_table import CHECKS, part_flags


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_one(src, out_kind, flags, libs, cxx="g++"):
    """compile (and link) src; returns path of the cached product"""
    inc = ["-I" + os.path.join(V, "harness")]
    cmd = [cxx] + flags + inc
    d = sh(cmd + ["-M", "-MT", "x", src])
    if d.returncode:
        sys.stderr.write(d.stdout[:3000])
        print("cannot preprocess %s against %s" % (src, R))
        sys.exit(2)
    deps = d.stdout.replace("\\\n", " ").split()[1:]
    h = hashlib.sha256()
    h.update(json.dumps([cmd, libs, out_kind]).replace(R + "/", "REPO/").encode())
    for f in sorted(set(deps)):
        rf = os.path.realpath(f)
        if rf.startswith("/usr/"):
            continue
        h.update(open(f, "rb").read())
        h.update(b"\0")
    for extra in libs:
        if extra.startswith("/"):
            h.update(open(extra, "rb").read())
    key = h.hexdigest()[:24]
    out = os.path.join(B, os.path.basename(src).replace(".cpp", "") + "-" + key + (".o" if out_kind == "obj" else ".so" if out_kind == "so" else ""))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident() % 100000)
    mode = {"obj": ["-c"], "so": ["-shared", "-fPIC"], "exe": []}[out_kind]
    r = sh(cmd + mode + ["-o", tmp, src] + libs)
    if r.returncode:
        sys.stderr.write(r.stdout[:3000])
        print("cannot compile %s against %s" % (src, R))
        sys.stdout.flush()
        os._exit(2)
    os.replace(tmp, out)
    return out


def engine(extra, cxx="g++"):
    return build_one(os.path.join(V, "harness", "pbt.cpp"), "obj", ["-std=c++17", "-O2"] + extra, [], cxx)


def build(pid):
    os.makedirs(B, exist_ok=True)
    c = CHECKS[pid]
    san = c.get("san", [])
    flags = ["-std=c++17"] + c.get("opt", ["-O1"]) + ["-DGCC", "-w"] + san
    for p in c["parts"]:
        flags += part_flags(R, p)
    flags += c.get("flags", [])
    libs = [engine([])] + c.get("libs", ["-llapack"])
    cxx = c.get("cxx", "g++")
    exe = build_one(os.path.join(V, "checks", c.get("src", pid + ".cpp")), "exe", flags, libs, cxx)
    env = {}
    if "plugins" in c:  # shared objects built from /repo under several sets of flags
        from concurrent.futures import ThreadPoolExecutor

        def plugin(item):
            name, pl = item
            pl = (list(pl) + [cxx])[:4]
            src, parts, fl, pcxx = pl
            f = ["-std=c++17", "-O1", "-DGCC", "-w", "-fvisibility=hidden", "-fPIC"] + (["-fno-gnu-unique"] if pcxx == "g++" else [])
            for p in parts:
                f += part_flags(R, p)
            return "PLUGIN_" + name, build_one(os.path.join(V, "checks", src), "so", f + fl, c.get("libs", ["-llapack"]), pcxx)

        with ThreadPoolExecutor(os.cpu_count()) as ex:
            for k, v in ex.map(plugin, c["plugins"].items()):
                env[k] = v
    return exe, env


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    if pid == "--all":
        from concurrent.futures import ThreadPoolExecutor
        rc = []
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            rc = list(ex.map(lambda i: subprocess.call([sys.executable, os.path.abspath(__file__), i, "--build-only"]), list(CHECKS)))
        sys.exit(max(rc))
    exe, env = build(pid)
    if "--build-only" in rest:
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    args = [exe]
    if "--tier" in rest:
        i = rest.index("--tier")
        tier = rest[i + 1]
        del rest[i : i + 2]
    if "--seed" in rest:
        i = rest.index("--seed")
        seed = rest[i + 1]
        del rest[i : i + 2]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    e.update(CHECKS[pid].get("env", {}))
    if "OMP_NUM_THREADS" not in CHECKS[pid].get("env", {}):
        e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0:exitcode=78"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=79"
    args += ["--tier", tier, "--seed", seed, "--known", os.path.join(V, "known_findings.txt"), "--replaydir", os.path.join(V, "replays")]
    if "--replay" not in rest:
        ev = os.path.join(V, "evidence", pid + ".json")
        if os.path.exists(ev):
            os.remove(ev)
        args += ["--evidence", ev]
    if tier == "quick":
        args += ["--budget", str(CHECKS[pid].get("budget", 60))]
    args += rest
    p = subprocess.Popen(args, env=e, cwd=V)
    try:
        rc = p.wait()
    except KeyboardInterrupt:
        p.kill()
        raise
    sys.exit(rc if rc in (0, 1) else 2)


main()
