"""Builds the harness against /repo's working tree, in /verif/.build (nothing outside it is written).

/repo's manifest names an optional git dependency (`may`) that cannot be resolved offline, so, as
/opt/vp/mkws.py does, a mirror of /repo is made with a manifest that leaves it out.  Files are copied when
their content differs, so that cargo sees every change whatever the times of the files are.  The mirror used
for the controlled build also depends on dam-verif-rt, the runtime that the `dam_verif` hooks name.
"""

import fcntl
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DAM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OWN = {"Cargo.toml", "Cargo.lock", "target", ".git"}


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "1"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def write(path, text):
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def derive(text, rt):
    text, n = re.subn(r"(?m)^may\s*=\s*\{[^}]*\bgit\b[^}]*\}[ \t]*\n", "", text)
    if n:
        text = re.sub(r'"dep:may"\s*,?\s*', "", text)
        text = re.sub(r"(?m)^(default\s*=\s*\[[^\]]*)\"coroutines\"", r'\1"os-threads"', text)
    if rt:
        dep = '\n[dependencies.dam-verif-rt]\npath = "%s"\n' % os.path.join(VERIF, "rt")
        text += dep
    return text


def copy_tree(src, dst, skip):
    """Makes dst the same as src, touching only what differs."""
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    want = {e for e in os.listdir(src) if e not in skip}
    for e in os.listdir(dst):
        if e not in skip and e not in want:
            p = os.path.join(dst, e)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for e in want:
        s, d = os.path.join(src, e), os.path.join(dst, e)
        if os.path.isdir(s):
            copy_tree(s, d, {"target", ".git"})
            continue
        if os.path.islink(d):
            os.unlink(d)
        with open(s, "rb") as f:
            data = f.read()
        if os.path.exists(d):
            with open(d, "rb") as f:
                if f.read() == data:
                    continue
        with open(d, "wb") as f:
            f.write(data)


def mirror(ws, rt):
    copy_tree(REPO, ws, OWN)
    with open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8") as f:
        write(os.path.join(ws, "Cargo.toml"), derive(f.read(), rt))


# kind -> (features of dam, features of the harness, controlled)
KINDS = {
    "base": (["os-threads"], [], True),
    "full": (["os-threads", "logging", "dot"], ["logging", "dot"], True),
    "plain": (["os-threads"], [], False),
    "plainfull": (["os-threads", "logging", "dot"], ["logging", "dot"], False),
}


class BuildError(Exception):
    pass


def build_one(kind, dram=True):
    feats, hfeats, ctl = KINDS[kind]
    ws = os.path.join(BUILD, "ws-" + ("ctl" if ctl else "plain"))
    mirror(ws, ctl)
    h = os.path.join(BUILD, "h-" + kind)
    os.makedirs(h, exist_ok=True)
    copy_tree(os.path.join(VERIF, "harness", "src"), os.path.join(h, "src"), set())
    with open(os.path.join(VERIF, "harness", "Cargo.toml.in"), encoding="utf-8") as f:
        t = f.read()
    t = t.replace("@DAM@", ws).replace("@VERIF@", VERIF)
    t = t.replace("@FEATURES@", ", ".join('"%s"' % x for x in feats))
    write(os.path.join(h, "Cargo.toml"), t)
    lock = os.path.join(h, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "harness", "lock.toml"), lock)
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + ("ctl" if ctl else "plain"))
    if ctl:
        e["RUSTFLAGS"] = "--cfg dam_verif" + ("" if dram else " --cfg dam_verif_no_dram")
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "dvh"]
    if hfeats:
        cmd += ["--features", ",".join(hfeats)]
    p = subprocess.run(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout[-6000:])
    out = os.path.join(h, "dvh")
    built = os.path.join(e["CARGO_TARGET_DIR"], "debug", "dvh")
    tmp = out + ".tmp"
    shutil.copy(built, tmp)
    os.replace(tmp, out)
    return out


def build(kind):
    """Returns (path of the harness, controlled?)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not KINDS[kind][2]:
            return build_one(kind), False
        try:
            return build_one(kind), True
        except BuildError as x:
            sys.stderr.write("controlled build failed, trying with fewer hooks:\n%s\n" % x)
        try:
            return build_one(kind, False), True
        except BuildError as x:
            sys.stderr.write("controlled build failed, trying without hooks:\n%s\n" % x)
        alt = {"base": "plain", "full": "plainfull"}[kind]
        return build_one(alt), False


if __name__ == "__main__":
    for k in sys.argv[1:] or ["base", "full"]:
        print(*build(k))
