"""Builds, from /repo's current working tree, the instrumented and the native objects of the library and of harnesses.
Objects are cached under /verif/build by the hash of the preprocessed source and the command line, so a changed tree
is always recompiled; nothing is taken from /repo/_build."""
import os, sys, hashlib, subprocess, shutil, time, glob, re, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
GRAMMARS = [("CommentTextLexer.g", None), ("TextLexer.g", None), ("OperatorLexer.g", "TextLexer.g"), ("KeywordLexer.g", "OperatorLexer.g;TextLexer.g"), ("srcMLParser.g", "OperatorLexer.g;KeywordLexer.g;TextLexer.g")]
LLC = shutil.which("llc-18") or "/usr/lib/llvm-18/bin/llc"
POOL = ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def atomically(path, fn):
    if os.path.exists(path): return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t = "%s.tmp%d_%d" % (path, os.getpid(), threading.get_ident())
    fn(t); os.replace(t, path)
    return path

def generate():
    """runs the parser generator on the current grammars"""
    src = os.path.join(REPO, "src/parser")
    data = {f: open(os.path.join(src, f), "rb").read() for f in sorted(os.listdir(src)) if f.endswith(".g")}
    d = os.path.join(B, "gen-" + h(*[x for f in sorted(data) for x in (f, data[f])]))
    if os.path.isdir(d): return d
    t = d + ".tmp%d" % os.getpid(); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    for f, c in data.items(): open(os.path.join(t, f), "wb").write(c)
    for f, g in GRAMMARS:
        sh(["runantlr", "-o", t] + (["-glib", g] if g else []) + [f], cwd=t)
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

def plugin():
    src = os.path.join(VERIF, "engine/SymPass.cpp")
    out = os.path.join(B, "SymPass-%s.so" % h(open(src, "rb").read()))
    def mk(t):
        fl = [x for x in sh(["llvm-config-18", "--cxxflags"]).decode().split() if not x.startswith("-std=")]
        sh([CXX, "-std=c++17", "-O1", "-fPIC", "-shared", "-w"] + fl + ["-fno-rtti", src, "-o", t])
    return atomically(out, mk)

def obj(src, flags, kind, name=None):
    """compile one translation unit; kind: inst | native | plain"""
    name = name or os.path.basename(src).rsplit(".", 1)[0]
    if kind == "inst":
        pl = plugin()
        # the front end runs once (preprocess for the key)
        pre = sh([CXX, "-E", "-P"] + flags + [src])
        fl = flags + ["-fno-vectorize", "-fno-slp-vectorize", "-femulated-tls", "-fno-unroll-loops"]
        key = h(pre, " ".join(fl), pl)
        out = os.path.join(B, "o", "i-%s-%s.o" % (name, key))
        def mk(t):
            sh([CXX] + fl + ["-O1", "-w", "-fPIC", "-fpass-plugin=" + pl, "-c", src, "-o", t])
        def mkbig(t):
            bc = t + ".bc"
            sh([CXX] + fl + ["-O1", "-w", "-fPIC", "-fpass-plugin=" + pl, "-emit-llvm", "-c", src, "-o", bc])
            n = 6
            sh(["llvm-split-18" if shutil.which("llvm-split-18") else "/usr/lib/llvm-18/bin/llvm-split", "-j%d" % n, bc, "-o", t + ".p"])
            def one(i): sh([LLC, "-O1", "-filetype=obj", "-relocation-model=pic", "-emulated-tls", "%s.p%d" % (t, i), "-o", "%s.p%d.o" % (t, i)])
            ths = []; errs = []
            def run(i):
                try: one(i)
                except Exception as e: errs.append(e)
            for i in range(n): th = threading.Thread(target=run, args=(i,)); th.start(); ths.append(th)
            for th in ths: th.join()
            if errs: raise errs[0]
            sh(["ar", "rcs", t] + ["%s.p%d.o" % (t, i) for i in range(n)])
            if os.environ.get("KEEP"): return
            for f in [bc] + glob.glob(t + ".p*"): os.unlink(f)
        return atomically(out, mkbig if name == "srcMLParser" else mk)
    fl = flags + ["-O1" if kind == "native" else "-O2", "-w", "-fPIC"] + (["-g1"] if False else [])
    pre = sh([CXX, "-E", "-P"] + flags + [src])
    out = os.path.join(B, "o", "%s-%s-%s.o" % (kind[0], name, h(pre, " ".join(fl))))
    return atomically(out, lambda t: sh([CXX] + fl + ["-c", src, "-o", t]))

def base_flags(gen, inst):
    f = ["-std=gnu++11", "-include", "algorithm", "-DWITH_LIBXSLT", "-D_GLIBCXX_ASSERTIONS"]
    if inst: f += ["-I" + os.path.join(VERIF, "models")]
    return f + ["-I" + os.path.join(REPO, "src/parser"), "-I" + gen, "-I" + os.path.join(REPO, "src/libsrcml"), "-I" + os.path.join(REPO, "src/client"), "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]

def build(harness, lib=True, client=(), parser=True, coro_native=False, inst_extra=(), native_extra=(), defs=()):
    """returns (instrumented executable, native executable)"""
    os.makedirs(os.path.join(B, "o"), exist_ok=True)
    t0 = time.time()
    gen = generate() if lib else B
    plugin()
    I = base_flags(gen, True); Nf = base_flags(gen, False)
    jobs_i, jobs_n = [], []
    def both(src, more=()):
        jobs_i.append(POOL.submit(obj, src, I + list(more), "inst")); jobs_n.append(POOL.submit(obj, src, Nf + list(more), "native"))
    # the client does not compile with the installed Boost: it gets a stand-in for boost::optional (under another name, the library has the real one)
    cl = ["-I" + os.path.join(VERIF, "harness/shim")] if client else []
    if lib:
        for n in ("srcMLParser", "KeywordLexer", "CommentTextLexer"): both(os.path.join(gen, n + ".cpp"))
        for f in sorted(glob.glob(os.path.join(REPO, "src/libsrcml/*.cpp")) + glob.glob(os.path.join(REPO, "src/parser/*.cpp"))): both(f)
    for c in client: both(os.path.join(REPO, "src/client", c + ".cpp"), cl)
    both(os.path.join(VERIF, "harness", harness + ".cpp"), cl + list(defs))
    mf = ["-std=gnu++17" , "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(VERIF, "models"), "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "engine")]
    models = ["iconv_sha", "mini_xml", "xml_tree"] + (["antlr_runtime"] if lib else []) + list(inst_extra)
    for m in models: jobs_i.append(POOL.submit(obj, os.path.join(VERIF, "models", m + ".cpp"), mf if m != "antlr_runtime" else ["-std=gnu++11"] + mf[1:], "inst"))
    ef = ["-std=c++17", "-I" + os.path.join(VERIF, "engine")]
    jobs_i.append(POOL.submit(obj, os.path.join(VERIF, "engine/runtime.cpp"), ef, "plain"))
    jobs_i.append(POOL.submit(obj, os.path.join(VERIF, "engine/coro.cpp"), ef + ["-DCORO_EMUTLS"], "plain", "coro_emu"))
    jobs_n.append(POOL.submit(obj, os.path.join(VERIF, "engine/native.cpp"), ef, "plain"))
    if coro_native: jobs_n.append(POOL.submit(obj, os.path.join(VERIF, "engine/coro.cpp"), ef, "plain"))
    else: jobs_n.append(POOL.submit(obj, os.path.join(VERIF, "engine/coro_off.cpp"), ef, "plain"))
    for m in native_extra: jobs_n.append(POOL.submit(obj, os.path.join(VERIF, "models", m + ".cpp"), mf, "native"))
    oi = [j.result() for j in jobs_i]; on = [j.result() for j in jobs_n]
    ei = os.path.join(B, "bin", "%s-%s.sym" % (harness, h(*oi))); en = os.path.join(B, "bin", "%s-%s.replay" % (harness, h(*on)))
    li = POOL.submit(atomically, ei, lambda t: sh([CXX, "-rdynamic", "-o", t, "-Wl,--whole-archive"] + oi + ["-Wl,--no-whole-archive"] + ["-lz3", "-ldl", "-lpthread"]))
    atomically(en, lambda t: sh([CXX, "-rdynamic", "-o", t] + on + (["-l:libantlr-pic.a"] if lib else []) + ["-lxml2", "-lcrypto", "-ldl", "-lpthread"]))
    li.result()
    return ei, en, time.time() - t0

if __name__ == "__main__":
    ei, en, t = build(sys.argv[1], client=[a for a in sys.argv[2:]])
    print(ei); print(en); print("%.1fs" % t)
