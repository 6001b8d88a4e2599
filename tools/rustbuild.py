"""Builds /repo's crates from the current working tree and the harness binaries.

One harness source file is compiled into one executable; the LLVM IR of that
very executable (fat LTO, so it contains every function it uses, including
bitvec and the reachable part of std) is what the symbolic executor reads, and
the executable itself is what replays models.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


class BuildError(Exception):
    pass


class CompileError(Exception):
    def __init__(self, stderr):
        self.stderr = stderr


MANIFEST = """[package]
name = "vp-deps-{variant}"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[dependencies]
packed_struct = {{ path = "{repo}/packed_struct", {features} }}
{extra}
[profile.release]
opt-level = 2
lto = "fat"
panic = "abort"
codegen-units = 1
overflow-checks = true
debug-assertions = true
[profile.plain]
inherits = "release"
opt-level = 3
overflow-checks = false
debug-assertions = false
[profile.dev]
panic = "abort"
"""

# the macro crate's own sources, built as an ordinary library so that the code that runs in the compiler can be executed
CODEGEN = """[package]
name = "vp-codegen"
version = "0.1.0"
edition = "2018"
[workspace]
[lib]
path = "src/lib.rs"
[features]
default = ["std"]
std = []
alloc = []
[dependencies]
syn = {{ version = "2.0", default-features = false, features = ["full", "parsing", "printing", "derive", "clone-impls"] }}
quote = {{ version = "1.0", default-features = false }}
proc-macro2 = {{ version = "1.0", default-features = false }}
""" + MANIFEST[MANIFEST.index("[profile.release]"):]


def codegen_sources(d):
    """packed_struct_codegen/src as a library: proc_macro2 tokens instead of the compiler's"""
    import re
    src = os.path.join(REPO, "packed_struct_codegen", "src")
    out = os.path.join(d, "src")
    want = {}
    for b, ds, fs in os.walk(src):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(b, f)
                want[os.path.relpath(p, src)] = open(p).read()
    t = want["lib.rs"]
    t = re.sub(r"(?m)^extern crate proc_macro;", "extern crate proc_macro2 as proc_macro;", t)
    t = re.sub(r"(?m)^use proc_macro::TokenStream;", "use proc_macro2::TokenStream;", t)
    t = re.sub(r"(?m)^#\[proc_macro_derive\(.*\)\]\n", "", t)
    t = re.sub(r"(?m)^mod ", "pub mod ", t)
    t = re.sub(r"(?m)^(use syn::.*)parse_macro_input, *", r"\1", t)
    t = re.sub(r"(?m)^(use syn::.*), *parse_macro_input", r"\1", t)
    t = t.replace("parse_macro_input!", "vp_parse_input!")
    m = ("macro_rules! vp_parse_input { ($t:ident as $ty:ty) => { match syn::parse2::<$ty>($t) { Ok(x) => x, "
         "Err(e) => return e.to_compile_error().into() } } }\n")
    i = t.index("extern crate")
    want["lib.rs"] = t[:i] + re.sub(r"(?m)^extern crate", "pub extern crate", t[i:].replace("\nuse ", "\n" + m + "use ", 1))
    for n, t in want.items():
        p = os.path.join(out, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    for b, ds, fs in os.walk(out):
        for f in fs:
            if os.path.relpath(os.path.join(b, f), out) not in want:
                os.unlink(os.path.join(b, f))


VARIANTS = {
    "codegen": None,
    "std": ("", ""),
    "serde": ('features = ["use_serde"]', 'serde = { version = "1", features = ["derive"] }'),
    "nostd": ("default-features = false", ""),
    "alloc": ('default-features = false, features = ["alloc"]', ""),
    "wide": ('features = ["byte_types_64"]', ""),
    "wide256": ('features = ["byte_types_256"]', ""),
}

PROFILES = {
    # the encoded build: what the symbolic executor reads
    "release": ["-Copt-level=2", "-Clto=fat", "-Ccodegen-units=1", "-Cpanic=abort",
                "-Coverflow-checks=on", "-Cdebug-assertions=on",
                "-Cno-vectorize-loops", "-Cno-vectorize-slp"],
    # what users run; only used to confirm counterexamples
    "plain": ["-Copt-level=3", "-Clto=fat", "-Ccodegen-units=1", "-Cpanic=abort"],
    "dev": ["-Copt-level=0", "-Cpanic=abort"],
}


def tree_hash():
    h = hashlib.sha256()
    for top in ("packed_struct", "packed_struct_codegen"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def deps(variant, profile="release"):
    """-> {crate: rlib path}, dependency dir"""
    d = os.path.join(BUILD, "deps-" + variant)
    os.makedirs(d, exist_ok=True)
    if VARIANTS[variant] is None:
        codegen_sources(d)
        files = {"Cargo.toml": CODEGEN.format()}
    else:
        feats, extra = VARIANTS[variant]
        files = {"Cargo.toml": MANIFEST.format(variant=variant, repo=REPO, features=feats, extra=extra)
                 .replace(', }', ' }'),
                 "lib.rs": "pub use packed_struct;\n"}
    for n, t in files.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(os.path.join(ROOT, "rust", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    target = os.path.join(d, "target")
    stamp = os.path.join(d, "tree.sha256")
    cur = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() != cur:
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "packed_struct", "-p", "packed_struct_codegen",
                        "--target-dir", target], cwd=d, env=env(), capture_output=True)
        for prof in ("release", "plain", "debug"):
            dd = os.path.join(target, prof)
            for sub in ("deps", ".fingerprint", "build"):
                q = os.path.join(dd, sub)
                if os.path.isdir(q):
                    for f in os.listdir(q):
                        if "packed_struct" in f:
                            r = os.path.join(q, f)
                            shutil.rmtree(r) if os.path.isdir(r) else os.unlink(r)
    open(stamp, "w").write(cur)
    cmd = ["cargo", "build", "--offline", "--profile", "dev" if profile == "dev" else profile,
           "--target-dir", target, "--message-format=json"]
    p = subprocess.run(cmd, cwd=d, env=env(), capture_output=True, text=True)
    if p.returncode:
        raise BuildError("building /repo failed:\n" + p.stderr[-4000:])
    ext = {}
    for l in p.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                if f.endswith(".rlib"):
                    ext[j["target"]["name"]] = f
    sub = "debug" if profile == "dev" else profile
    return ext, os.path.join(target, sub, "deps")


def compile_bin(src, outdir, dep, profile="release", crates=("packed_struct",), emit_ir=True):
    """-> (executable, llvm ir or None)"""
    ext, ddir = dep
    os.makedirs(outdir, exist_ok=True)
    name = os.path.splitext(os.path.basename(src))[0]
    cmd = ["rustc", "--edition=2021", "--crate-name", name, "--crate-type=bin", src,
           "--out-dir", outdir, "--cap-lints", "allow", "-L", "dependency=" + ddir,
           "--emit=link" + (",llvm-ir" if emit_ir else "")] + PROFILES[profile]
    for c in crates:
        cmd += ["--extern", "%s=%s" % (c, ext[c])]
    p = subprocess.run(cmd, env=env(), capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr)
    return os.path.join(outdir, name), os.path.join(outdir, name + ".ll") if emit_ir else None
