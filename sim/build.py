#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/.build.

usage: build.py [variant...]   variants: epoll (default), select, prefork
Objects are cached by the hash of (source, all headers, flags); nothing is
written outside /verif/.build.
"""
import concurrent.futures, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("VSIM_REPO", "/repo")
OUT = os.environ.get("VSIM_BUILD", os.path.join(VERIF, ".build"))
CACHE = os.path.join(OUT, "cache")
MODULES = ["diag", "gif", "lua"]
LUA = "/usr/lib/x86_64-linux-gnu/liblua5.1.a"
CC, CXX = "gcc", "g++"
SUT_FLAGS = ["-g", "-O1", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fsanitize=address,bounds",
             "-fno-sanitize-recover=all", "-DHAVE_CONFIG_H", "-fno-common"]
SIM_FLAGS = ["-g", "-O1", "-std=c++17", "-Wall", "-Wno-unused-parameter"]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout)
        raise SystemExit(2)
    return p.stdout


def am_sources(path, var):
    text = open(path, encoding="utf-8").read()
    m = re.search(r"^%s\s*=((?:.*\\\n)*.*\n)" % re.escape(var), text, re.M)
    return [s for s in m.group(1).replace("\\", " ").split() if s.endswith(".c")]


def hash_files(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:32]


def headers(*dirs):
    out = []
    for d in dirs:
        for base, _, files in os.walk(d):
            if "_build" in base:
                continue
            out += [os.path.join(base, f) for f in files if f.endswith((".h", ".def", ".inc"))]
    return sorted(out)


def wrapped():
    text = "".join(open(os.path.join(SIM, f)).read() for f in ("seams.cpp", "scn_pool.cpp"))
    return sorted(set(re.findall(r"__wrap_(\w+)", text)) - {"X"})


def build(variants):
    os.makedirs(CACHE, exist_ok=True)
    conf = open(os.path.join(SIM, "config", "config.h")).read()
    repo_h = headers(REPO + "/src", REPO + "/modules")
    repo_hash = hash_files(repo_h, "")
    sim_hash = hash_files(headers(SIM), "")
    wraps = wrapped()
    redef = os.path.join(OUT, "redefine.txt")
    open(redef, "w").write("".join("%s __wrap_%s\n" % (w, w) for w in wraps))
    unreal = os.path.join(OUT, "unreal.txt")
    open(unreal, "w").write("".join("__real_%s %s\n" % (w, w) for w in wraps))
    jobs = {}   # object -> (cmd list of lists)

    def job(src, compiler, flags, hdr_hash, post=None):
        key = hash_files([src], repr((compiler, flags, hdr_hash, post and (post, open(post).read()))))
        obj = os.path.join(CACHE, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        if not os.path.exists(obj):
            jobs[obj] = (src, compiler, flags, post)
        return obj

    plans = {}
    for v in variants:
        cdir = os.path.join(OUT, "config-" + v)
        os.makedirs(cdir, exist_ok=True)
        text = conf
        if v == "select":
            text += "\n#undef HAVE_EPOLL\n#undef HAVE_SYS_EPOLL_H\n"
        if v == "prefork":
            text += "\n#define HAVE_PREFORK 1\n"
        cpath = os.path.join(cdir, "config.h")
        if not os.path.exists(cpath) or open(cpath).read() != text:
            open(cpath, "w").write(text)
        hh = repo_hash + hashlib.sha256(text.encode()).hexdigest()
        sut, mods = [], {}
        for d, var, mk in (("viriatum", "viriatum_SOURCES", "src/viriatum"), ("viriatum_commons", "libviriatum_a_SOURCES", "src/viriatum_commons")):
            base = os.path.join(REPO, mk)
            for s in am_sources(os.path.join(base, "Makefile.am"), var):
                fl = SUT_FLAGS + ["-I" + cdir, "-I" + base]
                if s in ("thread/thread_pool.c", "structures/linked_list.c"):
                    fl = fl + ["-fsanitize-coverage=trace-pc"]   # every basic block is a possible preemption (H26)
                if s == "viriatum.c":
                    fl = fl + ["-Dmain=viriatum_main"]
                sut.append(job(os.path.join(base, s), CC, fl, hh, redef))
        for m in MODULES:
            base = os.path.join(REPO, "modules", "mod_" + m, "src", "viriatum_mod_" + m)
            srcs = am_sources(os.path.join(base, "Makefile.am"), "libviriatum_mod_%s_a_SOURCES" % m)
            mods[m] = [job(os.path.join(base, s), CC, SUT_FLAGS + ["-I" + cdir, "-I" + base, "-I/usr/include/lua5.1", "-I" + REPO + "/src"], hh, redef) for s in srcs]
        simo = []
        for f in sorted(os.listdir(SIM)):
            if f.endswith(".cpp") and not f.startswith("alt_"):
                fl = SIM_FLAGS + ["-I" + SIM, "-DVSIM_VARIANT=\"%s\"" % v]
                if f.startswith("ffi_"):
                    fl += ["-I" + cdir, "-I" + REPO + "/src/viriatum_commons"]
                simo.append(job(os.path.join(SIM, f), CXX, fl, sim_hash, unreal if f == "seams.cpp" else None))
            elif f.endswith(".c"):
                simo.append(job(os.path.join(SIM, f), CC, SUT_FLAGS + ["-I" + SIM, "-I" + cdir, "-I" + REPO + "/src/viriatum", "-DVSIM_VARIANT=\"%s\"" % v], hh + sim_hash, redef))
        plans[v] = (sut, mods, simo)

    def do(item):
        obj, (src, compiler, flags, post) = item
        tmp = obj + ".%d.tmp.o" % os.getpid()
        run([compiler] + flags + ["-c", src, "-o", tmp])
        if post:
            run(["objcopy", "--redefine-syms=" + post, tmp])
        os.rename(tmp, obj)

    # big files first
    todo = sorted(jobs.items(), key=lambda i: -os.path.getsize(i[1][0]) * (4 if i[1][1] == CXX else 1))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(do, todo))
    for v, (sut, mods, simo) in plans.items():
        exe = os.path.join(OUT, "vsim-" + v)
        stamp = exe + ".stamp"
        ident = "\n".join(sut + simo + sum(mods.values(), []))
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == ident:
            continue
        modo = []
        for m, objs in mods.items():
            o = os.path.join(OUT, "mod-%s-%s.o" % (m, v))
            run(["ld", "-r", "-o", o] + objs)
            run(["objcopy", "--keep-global-symbol=info_module_" + m, o])
            modo.append(o)
        # the Lua interpreter of mod_lua, with its files, clock and memory behind the same seams
        o = os.path.join(OUT, "lua-%s.o" % v)
        run(["ld", "-r", "--whole-archive", "-o", o, LUA])
        run(["objcopy", "--redefine-syms=" + redef, o])
        modo.append(o)
        run([CXX, "-g", "-fsanitize=address,bounds", "-no-pie", "-o", exe + ".tmp"] + sut + modo + simo + ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"])
        os.rename(exe + ".tmp", exe)
        open(stamp, "w").write(ident)
    # drop stale cache entries
    keep = set(sum([s + o + sum(m.values(), []) for s, m, o in plans.values()], []))
    if len(os.listdir(CACHE)) > 1500:
        for f in os.listdir(CACHE):
            p = os.path.join(CACHE, f)
            if p not in keep:
                os.unlink(p)


if __name__ == "__main__":
    build(sys.argv[1:] or ["epoll"])
