"""Builds the harness from /repo's current working tree.

/repo cannot be built in place (its git submodule factrs-typetag is absent), so a package mirror is made in
/verif/.build/pkg: symlinks to /repo, with Cargo.toml derived the same way as /opt/vp/lib/mkpkg.py does."""
import os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
PKG = os.path.join(BUILD, "pkg")
SKIP = {".git", "target", "Cargo.toml", "Cargo.lock", "factrs-typetag"}
TOOLCHAIN = "1.85.1-x86_64-unknown-linux-gnu"


def write(path, text):
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def mirror():
    """Copies /repo's files, touching only those whose content differs (so that cargo's mtime test sees every
    change of content, whatever the mtimes in /repo are)."""
    want = set()
    for top, dirs, files in os.walk(REPO):
        rel = os.path.relpath(top, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP and d not in (".github", "examples", "tests")]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in ("Cargo.toml", "Cargo.lock"):
                continue
            src, dst = os.path.join(top, f), os.path.join(PKG, r)
            if not os.path.isfile(src):
                continue
            want.add(dst)
            data = open(src, "rb").read()
            if os.path.islink(dst) or not os.path.exists(dst) or open(dst, "rb").read() != data:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, "wb") as o:
                    o.write(data)
    text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    text = re.sub(r"(?m)^typetag\s*=.*\n", "", text)
    text = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", text)
    text = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", text)
    text = re.sub(r"(?ms)^\[\[example\]\].*?(?=^\[|\Z)", "", text)
    write(os.path.join(PKG, "Cargo.toml"), text)
    want.add(os.path.join(PKG, "Cargo.toml"))
    for top, dirs, files in os.walk(PKG):
        for f in files:
            p = os.path.join(top, f)
            if p not in want and not p.endswith("Cargo.lock"):
                os.unlink(p)


def env(target):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=target, RUSTFLAGS=e.get("RUSTFLAGS", ""))
    return e


class BuildError(RuntimeError):
    pass


def cargo(features, target):
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    blocks = re.split(r"\n(?=error|warning)", "\n" + r.stdout)
    return r.returncode, "\n".join(b for b in blocks if b.lstrip().startswith("error"))[:3000] or r.stdout[-3000:]


def build(features=(), quiet=True):
    """Returns (path of binary, seconds, compiler errors of the fac! forms or None) or raises BuildError."""
    t0 = time.time()
    mirror()
    target = os.environ.get("VERIF_TARGET", "/repo/target")
    rc, text = cargo(list(features), target)
    forms = None
    if rc != 0:
        # does everything but the catalogue of fac! forms compile?
        rc2, _ = cargo(list(features) + ["nofac"], target)
        if rc2 != 0:
            sys.stdout.write(text)
            raise BuildError("harness build failed")
        forms = text
    tag = "-".join(sorted(features)) or "default"
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    dst = os.path.join(BUILD, "bin", "fharness-" + tag)
    shutil.copy2(os.path.join(target, "debug/fharness"), dst)
    return dst, time.time() - t0, forms


if __name__ == "__main__":
    print(build(sys.argv[1:]))
