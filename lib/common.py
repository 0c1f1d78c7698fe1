import hashlib, os, shutil, subprocess, time, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
START = time.time()


def elapsed():
    return time.time() - START


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, timeout, cwd=None, extra_env=None, log=None):
    """Runs a command in its own process group; returns (exit status or None on timeout, stdout + stderr)."""
    e = env()
    e.update(extra_env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        status = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        status = None
    if log:
        os.makedirs(os.path.dirname(log), exist_ok=True)
        with open(log, "w") as f:
            f.write("$ %s\n%s\n[exit status %s]\n" % (" ".join(cmd), out, status))
    return status, out


def source_files():
    result = []
    for base in ("src", "speedy-derive"):
        for folder, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            result += [os.path.join(folder, f) for f in sorted(files) if f.endswith((".rs", ".toml"))]
    result += [os.path.join(REPO, "Cargo.toml")]
    return result


def source_hash():
    h = hashlib.sha256()
    for path in source_files():
        h.update(path.encode() + b"\0")
        with open(path, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()


def forget_builds(target):
    """
    Removes what cargo built from /repo and from the harness crate, but not the dependencies: cargo goes by the
    modification times of the sources, which tell nothing in a copied tree.
    """
    for folder, dirs, files in os.walk(target):
        for d in list(dirs):
            if d.startswith(("speedy-", "speedy_", "libspeedy")) or d in ("speedy", "incremental"):
                shutil.rmtree(os.path.join(folder, d), ignore_errors=True)
                dirs.remove(d)
        for f in files:
            if f.startswith(("speedy-", "speedy_", "libspeedy", "speedy.")):
                try:
                    os.unlink(os.path.join(folder, f))
                except OSError:
                    pass
