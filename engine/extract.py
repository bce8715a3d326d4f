"""Runs the MIR extraction on /repo's current working tree (static: the code is only compiled)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "mirdump")
LINT_RUSTFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0"


def run(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    stamp = os.path.join(BUILD, "mirdump.sha")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = DRIVER + ".new"
    rc, out = run(["rustc", "+nightly", "--edition", "2021", "-O", "-o", tmp, src])
    if rc != 0:
        raise RuntimeError("driver does not build:\n" + out[-4000:])
    os.replace(tmp, DRIVER)
    open(stamp, "w").write(h)


def tree_hash(subs, repo=None):
    """Hash of every input of the extraction: sources, manifests, driver and configuration."""
    repo = repo or REPO
    h = hashlib.sha256()
    files = [os.path.join(VERIF, "driver", "main.rs"), os.path.join(VERIF, "engine", "extract.conf"), os.path.abspath(__file__)]
    for sub in subs:
        for root, ds, fs in os.walk(os.path.join(repo, sub)):
            ds[:] = sorted(d for d in ds if d not in ("target", "node_modules", ".git", "tests"))
            files += [os.path.join(root, f) for f in sorted(fs)]
    files += [os.path.join(repo, f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in files:
        h.update(f.encode())
        try:
            h.update(open(f, "rb").read())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


def drop_fingerprints(target):
    # both layouts of cargo's build directory
    for pat in (".fingerprint/spl-token-wrap*", "build/spl-token-wrap*"):
        for p in glob.glob(os.path.join(target, "*", pat)):
            shutil.rmtree(p, ignore_errors=True)


def cargo(outdir, target, packages, variant, crates, extra_args):
    env = {
        "RUSTFLAGS": LINT_RUSTFLAGS,
        "CARGO_TARGET_DIR": target,
        "RUSTC_WORKSPACE_WRAPPER": DRIVER,
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "MIRDUMP_OUT": outdir,
        "MIRDUMP_CONF": os.path.join(VERIF, "engine", "extract.conf"),
        "MIRDUMP_CRATES": crates,
        "MIRDUMP_VARIANT": variant,
        "MIRDUMP_ARGS": "\x1f".join(extra_args),
        "CARGO_INCREMENTAL": "0",
    }
    for k in ("RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        os.environ.pop(k, None)
    cmd = ["cargo", "+nightly", "check", "--offline", "--locked"]
    for p in packages:
        cmd += ["-p", p]
    drop_fingerprints(target)
    return run(cmd, env=env, cwd=REPO)


# group -> (packages, variant suffix, crates dumped, extra rustc arguments, output files, sources)
GROUPS = {
    # the library as its users build it
    "lib": (["spl-token-wrap"], "", "spl_token_wrap", [], {"lib": "spl_token_wrap.json"}, ("program",)),
    # on-chain configuration of the library: cfg(target_os = "solana"), entry point included
    "libsbf": (["spl-token-wrap"], ".sbf", "spl_token_wrap",
               ["--cfg", 'target_os="solana"', "-Aexplicit_builtin_cfgs_in_flags", "--cap-lints", "allow"],
               {"libsbf": "spl_token_wrap.sbf.json"}, ("program",)),
    # the command line client, with the library it links
    "cli": (["spl-token-wrap", "spl-token-wrap-cli"], "", "spl_token_wrap,spl_token_wrap_cli", [],
            {"cli": "spl_token_wrap_cli.json", "clilib": "spl_token_wrap.json"}, ("program", "clients/cli")),
}


def extract(want=("lib",), force=False):
    """Extracts the wanted groups from the current tree; returns {name: path of the dumped program}."""
    os.makedirs(BUILD, exist_ok=True)
    res = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        for g in want:
            packages, variant, crates, args, outs, subs = GROUPS[g]
            th = tree_hash(subs)
            out = os.path.join(BUILD, "mir", g)
            stamp = os.path.join(out, "stamp")
            paths = {k: os.path.join(out, v) for k, v in outs.items()}
            res.update(paths)
            if not force and os.path.exists(stamp) and open(stamp).read() == th and all(os.path.exists(p) for p in paths.values()):
                continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            t0 = time.time()
            target = os.path.join(BUILD, "target")
            rc, o = cargo(out, target, packages, variant, crates, args)
            drop_fingerprints(target)
            if rc != 0:
                raise RuntimeError("analysis build failed:\n" + o[-6000:])
            missing = [p for p in paths.values() if not os.path.exists(p)]
            if missing:
                raise RuntimeError("extraction produced no output for " + ", ".join(missing) + "\n" + o[-2000:])
            open(stamp, "w").write(th)
            sys.stderr.write("extracted %s in %.1fs\n" % (g, time.time() - t0))
    return res


if __name__ == "__main__":
    print(json.dumps(extract([a for a in sys.argv[1:] if a in GROUPS] or ["lib"], "-f" in sys.argv)))
