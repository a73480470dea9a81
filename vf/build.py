"""Builds the replay crate (path dependency on /repo's crate) and the afmt binary from
/repo's current working tree, into /verif/target."""
import os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
REPLAY = os.path.join(TARGET, "debug", "afmt-replay")
AFMT = os.path.join(TARGET, "debug", "afmt")

class BuildError(Exception): pass

def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"): e.pop(k, None)
    e.update(PATH=e.get("PATH", "/usr/local/bin:/usr/bin:/bin") + ":/root/.cargo/bin",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             CARGO_TARGET_DIR=TARGET)
    return e

def cargo(dir, *args):
    r = subprocess.run(["cargo", "build", "--offline", *args], cwd=dir, env=env(), capture_output=True, text=True)
    if r.returncode: raise BuildError("cargo build failed in %s:\n%s" % (dir, r.stderr[-4000:]))

_done = set()
def replay():
    if "replay" not in _done: cargo(os.path.join(VERIF, "replay")); _done.add("replay")
    return REPLAY
def afmt():
    if "afmt" not in _done: cargo(REPO, "--locked", "--bin", "afmt"); _done.add("afmt")
    return AFMT
def rsdump():
    if "rsdump" not in _done: cargo(os.path.join(VERIF, "rsdump")); _done.add("rsdump")
    return os.path.join(TARGET, "debug", "rsdump")
