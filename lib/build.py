"""Builds the monitor binaries from /repo's current working tree.

Freshness is decided by content, not by file times: the hash of everything a variant is made from is kept beside the
build, and when it differs the crates concerned are rebuilt."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AOB_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"


def toolenv():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin",
        RUSTUP_TOOLCHAIN="1.76.0",  # later compilers align u128 to 16 bytes, which the code does not survive
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_BOOTSTRAP", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            h.update(b"\0")
            try:
                with open(f, "rb") as fh:
                    b = fh.read()
            except OSError:
                b = b"?"
            h.update(str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()


PROGRAM = ["program/src", "program/Cargo.toml", "Cargo.toml", "Cargo.lock", "program/Cargo.lock"]
PROGRAM = [os.path.join(REPO, p) for p in PROGRAM]
WASM = [os.path.join(REPO, p) for p in ("js/wasm/src", "js/wasm/Cargo.toml")]

COV_O = os.path.join(TARGET, "cov", "cov.o")

# name: (crate dir, cargo arguments, extra environment, path of the binary below the target dir, sources, crates to rebuild)
def variants():
    h = os.path.join(VERIF, "harness")
    return {
        "chk": (h, ["--release"], {}, "release/aobmon", PROGRAM, ["asset-agnostic-orderbook", "aobmon"]),
        "rel": (h, ["--profile", "prod"], {}, "prod/aobmon", PROGRAM, ["asset-agnostic-orderbook", "aobmon"]),
        "sol": (h, ["--release"], {"RUSTC_WRAPPER": os.path.join(VERIF, "lib/solana_rustc.sh")}, "release/aobmon", PROGRAM, ["asset-agnostic-orderbook", "aobmon"]),
        "asan": (
            h,
            ["--release", "--target", TRIPLE],
            {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address --cfg aob_asan"},
            TRIPLE + "/release/aobmon",
            PROGRAM,
            ["asset-agnostic-orderbook", "aobmon"],
        ),
        "cov": (h, ["--release", "--target", TRIPLE], {"RUSTC_WRAPPER": os.path.join(VERIF, "lib/cov_rustc.sh"), "AOB_COV_O": COV_O}, TRIPLE + "/release/aobmon", PROGRAM, ["asset-agnostic-orderbook", "aobmon"]),
        "wasm": (os.path.join(VERIF, "wasmchk"), ["--release"], {}, "release/wasmchk", WASM, ["dex-wasm", "wasmchk"]),
        "wasm_asan": (
            os.path.join(VERIF, "wasmchk"),
            ["--release", "--target", TRIPLE],
            {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address"},
            TRIPLE + "/release/wasmchk",
            WASM,
            ["dex-wasm", "wasmchk"],
        ),
        "e2e": (os.path.join(VERIF, "e2e"), ["--release"], {}, "release/e2e", PROGRAM, ["asset-agnostic-orderbook", "e2e"]),
    }


class BuildError(Exception):
    pass


def build_one(name):
    crate, args, extra, out, srcs, pkgs = variants()[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        own = [os.path.join(crate, x) for x in ("src", "Cargo.toml", "Cargo.lock")]
        if name == "e2e":
            own.append(os.path.join(VERIF, "harness/src"))
        want = tree_hash(srcs + own)
        stamp = os.path.join(tdir, ".stamp")
        binary = os.path.join(tdir, out)
        if name == "cov":
            own += [os.path.join(VERIF, "lib/cov.c"), os.path.join(VERIF, "lib/cov_rustc.sh")]
            want = tree_hash(srcs + own)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(binary):
            return binary
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in pkgs:
            for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", p + "-*"), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
        env = toolenv()
        env.update(extra)
        if name == "cov":
            r = subprocess.run(["gcc", "-O2", "-fno-builtin", "-c", os.path.join(VERIF, "lib/cov.c"), "-o", COV_O],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("building cov.o failed:\n" + r.stdout)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", tdir] + args,
            cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode != 0:
            raise BuildError("building %s failed:\n%s" % (name, r.stdout[-6000:]))
        if not os.path.exists(binary):
            raise BuildError("building %s left no %s" % (name, binary))
        with open(stamp, "w") as f:
            f.write(want)
        return binary


def build(names):
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(build_one, names)))
