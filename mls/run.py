"""Build the fact extractor, run it over /repo's current working tree, load the facts."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MLS_REPO", "/repo")

CRATES = {"base_db", "generate_ast", "ide", "ide_db", "ide_diagnostics", "move_language_server", "parser",
          "paths", "project_model", "stdx", "syntax", "test_utils", "vfs"}


class BuildError(Exception):
    pass


def _env(target, facts=None):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WORKSPACE_WRAPPER", None)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    if facts:
        e["MLS_FACTS"] = facts
        e["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(os.path.dirname(target), "mirfacts")
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                              env=dict(os.environ)).stdout.strip()
        e["LD_LIBRARY_PATH"] = os.path.join(root, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
    return e


def _sources_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "crates"), os.path.join(HERE, "driver")):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(work):
    """-> the directory with the facts of every workspace crate"""
    target = os.path.join(work, "target")
    facts = os.path.join(work, "facts")
    os.makedirs(facts)
    drv = subprocess.Popen(
        ["rustc", "+nightly", "--edition", "2021", "-O", "-o", os.path.join(work, "mirfacts"),
         os.path.join(HERE, "driver", "driver.rs")],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # the dependencies, meanwhile
    subprocess.run(["cargo", "check", "--workspace", "--offline"], cwd=REPO, env=_env(target),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out, _ = drv.communicate()
    if drv.returncode != 0:
        raise BuildError("the fact extractor does not compile:\n" + out[-3000:])
    p = subprocess.run(["cargo", "check", "--workspace", "--offline"], cwd=REPO, env=_env(target, facts),
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("cargo check failed:\n" + p.stderr[-3000:])
    have = {f.rsplit("-", 1)[0] for f in os.listdir(facts)}
    missing = CRATES - have
    if missing:
        raise BuildError("no facts for " + ", ".join(sorted(missing)))
    return facts


def at(F):
    F.repo = REPO
    return F


def load():
    """-> Facts.  MLS_CACHE=<dir> (development only) keeps them, by content hash."""
    from .facts import Facts
    cache = os.environ.get("MLS_CACHE")
    if cache:
        d = os.path.join(cache, _sources_hash())
        if not os.path.isdir(d):
            os.makedirs(cache, exist_ok=True)
            work = tempfile.mkdtemp(prefix="mls-")
            try:
                shutil.move(build(work), d)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        return at(Facts(d))
    work = tempfile.mkdtemp(prefix="mls-")
    try:
        return at(Facts(build(work)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
