"""Builds the fact base for /repo's current working tree.

A shim cargo workspace is kept in /verif/build/ws: a content-wise mirror of the workspace crates
(a file is rewritten only when its content differs, so cargo's freshness is exact), without
knaster_benchmarks (whose git dev-dependency cannot be resolved offline) and with the analysis
harness crate added. The kfacts driver is the rustc of the workspace crates; std is rebuilt from
rust-src with its MIR kept, so every callee down to foreign functions has a body to analyse.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WS = os.path.join(BUILD, "ws")
CRATES = ["knaster", "knaster_core", "knaster_primitives", "knaster_core_dsp", "knaster_graph",
          "knaster_airwindows", "knaster_macros"]
TARGET = "x86_64-unknown-linux-gnu"
RUSTFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"

# Feature configurations: name -> [(crate, features)]
CONFIGS = {
    "std": {
        "knaster": ["std", "cpal", "jack", "dot", "sound_files"],
        "knaster_graph": ["std", "cpal", "jack", "dot", "sound_files"],
        "knaster_core_dsp": ["std", "sound_files"],
        "knaster_core": ["std"],
        "knaster_primitives": ["std"],
        "knaster_airwindows": None,
    },
    "assert": {
        "knaster_graph": ["std", "assert_no_alloc", "no_denormals"],
        "knaster_core_dsp": ["std", "no_denormals"],
        "knaster_core": ["std"],
        "knaster_primitives": ["std"],
    },
    "alloc": {
        "knaster_graph": ["alloc"],
        "knaster_core_dsp": ["alloc"],
        "knaster_core": ["alloc"],
        "knaster_primitives": ["alloc"],
    },
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    home = e.setdefault("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _put(dst, data, log):
    try:
        if _read(dst) == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst + ".new", "wb") as f:
        f.write(data)
    os.replace(dst + ".new", dst)
    log.append(dst)


def sync(h):
    """Mirror the workspace crates of REPO into WS; feeds every byte to hash h."""
    log, keep = [], set()
    for c in CRATES:
        root = os.path.join(REPO, c)
        if not os.path.isdir(root):
            raise BuildError(f"workspace crate {c} missing in {REPO}")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("target", ".git", "tests", "examples", "benches") or dp != root)
            for f in sorted(fn):
                if f.startswith("."):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, REPO)
                data = _read(p)
                if rel.endswith("Cargo.toml") and os.path.dirname(rel) == c:
                    # explicit example/bench targets are not mirrored
                    data = strip_targets(data)
                h.update(rel.encode() + b"\0" + data + b"\0")
                _put(os.path.join(WS, rel), data, log)
                keep.add(os.path.join(WS, rel))
    lock = _read(os.path.join(REPO, "Cargo.lock"))
    h.update(lock)
    # Cargo.lock: cargo drops what this workspace does not use; rewrite only when the source changed
    try:
        same = _read(os.path.join(WS, ".lock.from")) == lock
    except OSError:
        same = False
    if not same or not os.path.exists(os.path.join(WS, "Cargo.lock")):
        os.makedirs(WS, exist_ok=True)
        for n in ("Cargo.lock", ".lock.from"):
            with open(os.path.join(WS, n), "wb") as f:
                f.write(lock)
    top = ["[workspace]", "resolver = \"2\"", "members = ["]
    top += [f'  "{c}",' for c in CRATES] + [f'  "vharness_{c}",' for c in CONFIGS] + ['  "vwit",', "]", ""]
    _put(os.path.join(WS, "Cargo.toml"), "\n".join(top).encode(), log)
    src = _read(os.path.join(VERIF, "harness", "lib.rs"))
    h.update(src)
    for c, feats in CONFIGS.items():
        d = os.path.join(WS, "vharness_" + c)
        t = [f'[package]\nname = "vharness_{c}"\nversion = "0.0.0"\nedition = "2024"\n[lib]\nname = "vharness"\n[features]']
        t.append("default = [" + ", ".join(f'"{x}"' for x in ["cfg_" + c]) + "]")
        t.append(f"cfg_{c} = []\n[dependencies]")
        for k, fs in feats.items():
            if fs is None:
                t.append(f'{k} = {{ path = "../{k}" }}')
            else:
                t.append(f'{k} = {{ path = "../{k}", default-features = false, features = {json.dumps(fs)} }}')
        _put(os.path.join(d, "Cargo.toml"), ("\n".join(t) + "\n").encode(), log)
        _put(os.path.join(d, "src", "lib.rs"), src, log)
    wd = os.path.join(WS, "vwit")
    t = ['[package]\nname = "vwit"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]']
    for k, fs in CONFIGS["std"].items():
        if fs is None:
            t.append(f'{k} = {{ path = "../{k}" }}')
        else:
            t.append(f'{k} = {{ path = "../{k}", default-features = false, features = {json.dumps(fs)} }}')
    _put(os.path.join(wd, "Cargo.toml"), ("\n".join(t) + "\n").encode(), log)
    _put(os.path.join(wd, "src", "lib.rs"), b"", log)
    for c in CRATES:
        for dp, dn, fn in os.walk(os.path.join(WS, c)):
            for f in fn:
                p = os.path.join(dp, f)
                if p not in keep:
                    os.remove(p)
                    log.append("-" + p)
    return log


def strip_targets(data):
    out, skip = [], False
    for line in data.decode().split("\n"):
        s = line.strip()
        if s.startswith("[["):
            skip = s in ("[[example]]", "[[bench]]", "[[test]]")
        elif s.startswith("["):
            skip = False
        if not skip:
            out.append(line)
    return "\n".join(out).encode()


def run(cmd, e, cwd, timeout=850):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def driver(e):
    src = hashlib.sha256()
    d = os.path.join(VERIF, "driver")
    for f in ("Cargo.toml", "src/main.rs", "src/collect.rs", "src/json.rs"):
        src.update(_read(os.path.join(d, f)))
    out = os.path.join(BUILD, "driver", src.hexdigest()[:16])
    exe = os.path.join(out, "kfacts")
    if os.path.exists(exe):
        return exe, src.hexdigest()
    td = os.path.join(BUILD, "driver-target")
    rc, o = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", td], e, d)
    if rc:
        raise BuildError("driver build failed:\n" + o[-3000:])
    os.makedirs(out, exist_ok=True)
    shutil.copy2(os.path.join(td, "debug", "kfacts"), exe + ".tmp")
    os.replace(exe + ".tmp", exe)
    return exe, src.hexdigest()


def facts(config="std"):
    """Path of the fact base for the current tree (built if needed)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        e = env()
        exe, dh = driver(e)
        h = hashlib.sha256()
        h.update((dh + config + RUSTFLAGS + json.dumps(CONFIGS[config])).encode())
        sync(h)
        key = h.hexdigest()
        out = os.path.join(BUILD, f"facts-{config}.json")
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and _read(kf).decode() == key:
            return out
        for p in (out, kf):
            if os.path.exists(p):
                os.remove(p)
        rc, sysroot = run(["rustc", "--print", "sysroot"], e, VERIF)
        e["LD_LIBRARY_PATH"] = sysroot.strip().splitlines()[-1] + "/lib"
        e["RUSTFLAGS"] = RUSTFLAGS
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["KFACTS_OUT"] = out
        e["CARGO_INCREMENTAL"] = "1"
        # force the harness itself to be compiled (and so the facts to be written)
        os.utime(os.path.join(WS, "vharness_" + config, "src", "lib.rs"))
        cmd = ["cargo", "check", "--offline", "-q", "-p", "vharness_" + config,
               "-Zbuild-std=std,panic_unwind", "--target", TARGET]
        rc, o = run(cmd, e, WS)
        if rc or not os.path.exists(out):
            raise BuildError("analysis build failed:\n" + o[-6000:])
        with open(kf, "w") as f:
            f.write(key)
        return out


def witness(name, src):
    """Type-checks src (never run) as a program that depends on the current tree's crates; returns the
    compiler's errors: [(code, message, first line, last line)] with lines of src, None for elsewhere."""
    facts("std")
    with open(os.path.join(BUILD, ".lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        e = env()
        exe, _ = driver(e)
        sync(hashlib.sha256())
        rc, sysroot = run(["rustc", "--print", "sysroot"], e, VERIF)
        e["LD_LIBRARY_PATH"] = sysroot.strip().splitlines()[-1] + "/lib"
        e["RUSTFLAGS"] = RUSTFLAGS
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e.pop("KFACTS_OUT", None)
        e["CARGO_INCREMENTAL"] = "1"
        path = os.path.join(WS, "vwit", "src", "bin", name + ".rs")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(src)
        cmd = ["cargo", "check", "--offline", "-q", "-p", "vwit", "--bin", name, "--message-format=json",
               "-Zbuild-std=std,panic_unwind", "--target", TARGET]
        p = subprocess.run(cmd, env=e, cwd=WS, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=850)
        os.remove(path)
        out = []
        for line in p.stdout.decode(errors="replace").splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message":
                continue
            mine = m.get("target", {}).get("name") == name
            m = m["message"]
            if m.get("level") != "error":
                continue
            sp = [s for s in m["spans"] if s["is_primary"] and s["file_name"].endswith(name + ".rs")] if mine else []
            if m["message"].startswith("aborting due to") or m["message"].startswith("could not compile"):
                continue
            out.append(((m.get("code") or {}).get("code"), m["message"],
                        sp[0]["line_start"] if sp else None, sp[0]["line_end"] if sp else None))
        if p.returncode and not out:
            raise BuildError("witness build failed:\n" + p.stderr.decode(errors="replace")[-3000:])
        if not p.returncode and out:
            raise BuildError("witness build passed with errors")
        return out


if __name__ == "__main__":
    for c in sys.argv[1:] or ["std"]:
        t = time.time()
        print(c, facts(c), round(time.time() - t, 1), "s")
