"""Build the fact extractor and dump the type-checked program of /repo's current tree.

The library crate is compiled (checked) from /repo/src through a manifest of our own, which has
the dependencies of /repo/Cargo.toml but neither its build script nor its dev-dependencies: both
serve the tests only.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, ".build")


class BuildFailed(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(
            ["rustc", "+nightly", "--print", "sysroot"], text=True, env=env()
        ).strip()
    return _sysroot


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".rs"):
                out.append(os.path.join(d, f))
    return out


def digest():
    h = hashlib.sha256()
    for f in sources() + [
        os.path.join(REPO, "Cargo.toml"),
        os.path.join(REPO, "Cargo.lock"),
        os.path.join(VERIF, "driver/facts.rs"),
        os.path.abspath(__file__),
    ]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def manifest(lib=True):
    """/repo's manifest without what serves only the tests."""
    out, keep = [], True
    for line in open(os.path.join(REPO, "Cargo.toml")):
        m = re.match(r"^\[+([^\]]*)\]+", line)
        if m:
            s = m.group(1).strip()
            keep = s in ("package", "dependencies", "features") or s.startswith("dependencies.")
        if keep and not re.match(r"^(readme|build)\s*=", line):
            out.append(line)
            if line.strip() == "[package]":
                out.append("build = false\n")
    out.append('\n[lib]\npath = "%s/src/lib.rs"\n\n[workspace]\n' % REPO)
    return "".join(out)


def write_if(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def run(cmd, e, cwd=None):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    src = os.path.join(VERIF, "driver/facts.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "facts-" + h)
    if not os.path.exists(exe):
        rc, out = run(["rustc", "+nightly", "--edition", "2021", src, "-o", exe + ".tmp"], env())
        if rc:
            raise BuildFailed("fact extractor does not build:\n" + out[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


def facts():
    """Path to the facts of the current tree (extracted anew unless this very tree was seen)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = digest()
        out = os.path.join(BUILD, f"facts-{d}.json")
        if os.path.exists(out):
            return out
        exe = driver()
        sh = os.path.join(BUILD, "shadow")
        write_if(os.path.join(sh, "Cargo.toml"), manifest())
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(sh, "Cargo.lock"))
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the extractor
        for sub in ("debug/build/beancount-parser-lima", "debug/.fingerprint"):
            p = os.path.join(tgt, sub)
            if sub.endswith(".fingerprint"):
                if os.path.isdir(p):
                    for x in os.listdir(p):
                        if x.startswith("beancount-parser-lima"):
                            shutil.rmtree(os.path.join(p, x))
            elif os.path.isdir(p):
                shutil.rmtree(p)
        e = env()
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        e.update(
            FACTS_OUT=tmp,
            FACTS_CRATE="beancount_parser_lima",
            RUSTC_WORKSPACE_WRAPPER=exe,
            LD_LIBRARY_PATH=sysroot() + "/lib",
            CARGO_TARGET_DIR=tgt,
        )
        rc, o = run(["cargo", "+nightly", "check", "--lib", "--offline"], e, cwd=sh)
        if rc or not os.path.exists(tmp):
            raise BuildFailed("the library does not compile:\n" + o[-6000:])
        if digest() != d:
            raise BuildFailed("the sources changed while they were analysed")
        for x in os.listdir(BUILD):
            if x.startswith("facts-") and x.endswith(".json"):
                os.remove(os.path.join(BUILD, x))
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(facts())
