# Prepares the driver crate: the dependency list is the one of /repo's Cargo.toml.
import os, re, sys, shutil
src, dst, repo = sys.argv[1:4]
def put(path, data):
    try:
        if open(path).read() == data: return
    except OSError: pass
    open(path, "w").write(data)
toml = open(repo + "/Cargo.toml").read()
m = re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", toml, re.S | re.M)
deps = m.group(1)
put(dst + "/Cargo.toml", """[package]
name = "simdriver"
version = "0.1.0"
edition = "2018"
resolver = "2"
build = "build.rs"

[lib]
crate-type = ["cdylib"]

[workspace]

[dependencies]
""" + deps + """
execgraph = { path = "%s" }

[profile.dev]
debug = 0
strip = "debuginfo"
""" % repo)
put(dst + "/build.rs", 'fn main() { println!("cargo:rustc-link-arg=-Wl,--no-as-needed"); println!("cargo:rustc-link-arg=-lpython3.12"); println!("cargo:rerun-if-changed=build.rs"); }\n')
put(dst + "/src/lib.rs", open(src + "/lib.rs.in").read().replace("@REPO@", repo))
put(dst + "/rustc-wrapper.sh", open(src + "/rustc-wrapper.sh").read()); os.chmod(dst + "/rustc-wrapper.sh", 0o755)
lock = open(repo + "/Cargo.lock").read()
if not os.path.exists(dst + "/Cargo.lock") or not os.path.exists(dst + "/.lockcopy") or open(dst + "/.lockcopy").read() != lock:
    put(dst + "/Cargo.lock", lock); put(dst + "/.lockcopy", lock)
