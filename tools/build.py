"""Builds everything a check needs: vendored sources, LLVM IR of the production target, the
symbolic executor, and the native replay binary.  Everything goes under /verif/build."""
import glob, hashlib, json, os, subprocess, sys, tarfile, time, tomllib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
REPO = "/repo"
HARN = os.path.join(V, "harness")
GITDEPS = "/opt/vp/git-deps/config.toml"
SKIP = ("proc_macro", "panic_unwind", "build_script", "gimli", "addr2line", "object", "miniz", "rustc_demangle_x")


def sh(cmd, env=None, cwd=None, quiet=True, timeout=1500):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_TERM_COLOR"] = "never"
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit(f"build step failed: {' '.join(cmd)}")
    return p.stdout


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).strip()


def vendor():
    """A directory source holding the cached crates of harness/Cargo.lock and std's own."""
    out = os.path.join(B, "vendor")
    os.makedirs(out, exist_ok=True)
    lib = sysroot() + "/lib/rustlib/src/rust/library"
    for d in sorted(os.listdir(lib + "/vendor")):
        dst = f"{out}/{d}"
        if not os.path.lexists(dst):
            os.symlink(f"{lib}/vendor/{d}", dst)
    cache = glob.glob(os.path.expanduser("~/.cargo/registry/cache/*/"))
    missing = []
    for lock in (os.path.join(HARN, "Cargo.lock"),):
        for p in tomllib.load(open(lock, "rb"))["package"]:
            if not p.get("source", "").startswith("registry+"):
                continue
            nv = f"{p['name']}-{p['version']}"
            dst = f"{out}/{nv}"
            if os.path.exists(dst + "/.cargo-checksum.json"):
                continue
            for c in cache:
                f = f"{c}/{nv}.crate"
                if os.path.exists(f):
                    tarfile.open(f).extractall(out, filter="data")
                    json.dump({"files": {}, "package": p["checksum"]}, open(dst + "/.cargo-checksum.json", "w"))
                    break
            else:
                missing.append(nv)
    cfg = os.path.join(B, "cargo-cfg.toml")
    txt = f'[source.crates-io]\nreplace-with="merged"\n[source.merged]\ndirectory="{out}"\n'
    if not os.path.exists(cfg) or open(cfg).read() != txt:
        open(cfg, "w").write(txt)
    return cfg, missing


def symex():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/symex"], env={"RUSTUP_TOOLCHAIN": "stable"}, cwd=f"{V}/symex")
    return f"{B}/symex/release/symex"


# the sources of crates/wasm-shim, and what its build script tells them
MODULE = {"WASM_SHIM_SOURCE": f"{REPO}/crates/wasm-shim/src", "WASM_SHIM_PROFILE": "release", "WASM_SHIM_FEATURES": "[]", "WASM_SHIM_GIT_HASH": "0"}


def native(module=False):
    """The same harness against the same sources, as an ordinary program."""
    b = "replay-module" if module else "replay"
    sh(["cargo", "--config", GITDEPS, "build", "--release", "--offline", "--bin", b, *(["--features", "module"] if module else []), "--target-dir", f"{B}/native"],
       env={"RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": HOOK, **MODULE}, cwd=HARN)
    return f"{B}/native/release/{b}"


HOOK = "--cfg kuadrant_verif"


def bitcode(module=False):
    cfg, _ = vendor()
    out = sh(["cargo", "--config", GITDEPS, "--config", cfg, "build", "--offline", "--lib", *(["--features", "module"] if module else []), "-Zbuild-std=std,panic_abort",
              "--target", "wasm32-wasip1", "--target-dir", f"{B}/wasm", "--message-format", "json"],
             env={"RUSTUP_TOOLCHAIN": "nightly",
                  "CARGO_INCREMENTAL": "0", **MODULE,
                  "RUSTFLAGS": f"--emit=llvm-bc,link -Cembed-bitcode=no -Clto=off -Cno-prepopulate-passes {HOOK}"}, cwd=HARN)
    bcs = []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and "wasm32-wasip1" in f:
                d, b = os.path.split(f)
                stem = b[3:-5]
                c = f"{d}/{stem}.bc"
                if not os.path.exists(c):
                    c2 = glob.glob(os.path.dirname(d) + f"/**/{stem}.bc", recursive=True) + glob.glob(f"{d}/deps/{stem}*.bc")
                    c = c2[0] if c2 else None
                if c:
                    bcs.append(c)
    return bcs


def lower(bc, tools):
    """opt + llvm-dis one module (cached by content)."""
    h = hashlib.sha256(open(bc, "rb").read() + b"v3").hexdigest()[:24]
    name = os.path.basename(bc).split("-")[0].removesuffix(".bc")
    ll = f"{B}/ll/{name}-{h}.ll"
    if os.path.exists(ll):
        os.utime(ll)
        return ll
    nm = sh([f"{tools}/llvm-nm", "--defined-only", bc])
    force = []
    for l in nm.splitlines():
        s = l.split()[-1]
        if ("4core4hash3sip" in s and "6Hasher" in s and s.count("5write") and "5write_" not in s) or "9panic_fmt" in s:
            force.append(f"-force-attribute={s}:noinline")
    tmp = ll + f".{os.getpid()}.tmp"
    sh([f"{tools}/opt", "-passes=forceattrs,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", *force, "-S", bc, "-o", tmp])
    os.rename(tmp, ll)
    for old in sorted(glob.glob(f"{B}/ll/{name}-*.ll"), key=os.path.getmtime)[:-3]:
        os.unlink(old)
    return ll


def ir(module=False):
    os.makedirs(f"{B}/ll", exist_ok=True)
    tools = sysroot() + "/lib/rustlib/x86_64-unknown-linux-gnu/bin"
    bcs = [b for b in bitcode(module) if not os.path.basename(b).startswith(SKIP)]
    bcs.sort(key=os.path.getsize, reverse=True)
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda b: lower(b, tools), bcs))
    return lls


if __name__ == "__main__":
    t = time.time()
    with ThreadPoolExecutor(3) as ex:
        a, c = ex.submit(symex), ex.submit(native)
        l = ir()
        a.result()
        c.result()
        if "module" in sys.argv[1:]:
            # checks over the library do not depend on this
            try:
                c = ex.submit(native, True)
                l = ir(True)
                c.result()
            except SystemExit as e:
                print(e)
    print(f"built {len(l)} modules in {time.time()-t:.1f} s")
