#!/usr/bin/env python3
"""Run the check of one property: build the harness from /repo's working tree, explore, write evidence.

usage: check.py <property> <quick|thorough> [scenario]
exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; 3: no answer.
"""
import json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"]
BC = ["C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"]
GEN = ["C10", "C12", "C13", "C14", "C15", "C16", "C17"]
RELEASE = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09"]


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["RUST_BACKTRACE"] = "0"
    e["VERIF_DIR"] = VERIF
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


def build(crate, release=False, e=None, extra=()):
    cmd = ["cargo", "build", "--offline", "--locked", "-q"] + (["--release"] if release else []) + list(extra)
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", crate), env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\nHARNESS-ERROR: building %s failed\n" % crate)
        sys.exit(3)
    return os.path.join(VERIF, "target", "release" if release else "debug", crate)


def run_rt(prop, tier, scen):
    e = env()
    extra = ""
    if prop in RELEASE:
        exe = build("rt", True)
        e2 = dict(e)
        e2["MC_EVIDENCE_DIR"] = os.path.join(VERIF, "target", "evidence-release")
        r = subprocess.run([exe, "check", prop, tier] + scen, env=e2)
        if r.returncode != 0:
            finish(r.returncode, prop, e2["MC_EVIDENCE_DIR"])
        d = json.load(open(os.path.join(e2["MC_EVIDENCE_DIR"], prop + ".json")))
        c = d["coverage"]
        extra = '"also_without_debug_assertions": ' + json.dumps({k: c[k] for k in ("states", "transitions", "traces_validated_against_impl", "evaluations")})
    exe = build("rt")
    if extra:
        e["MC_EVIDENCE_EXTRA"] = extra
    r = subprocess.run([exe, "check", prop, tier] + scen, env=e)
    finish(r.returncode, prop, None)


def run_bc(prop, tier, scen):
    f = {"C18": ["--features", "ast"], "C19": ["--features", "ast"], "C23": ["--features", "rpc"]}.get(prop, [])
    exe = build("bc", extra=f)
    e = env()
    if prop == "C25":
        lib = os.path.join(VERIF, "target", "seed.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, os.path.join(VERIF, "harness", "bc", "seed.c")])
        if r.returncode:
            sys.stderr.write("HARNESS-ERROR: building seed.so failed\n")
            sys.exit(3)
        e["MC_SEEDLIB"] = lib
    r = subprocess.run([exe, "check", prop, tier] + scen, env=e)
    finish(r.returncode, prop, None)


def run_c27(prop, tier, scen):
    e = env()
    bc = build("bc")
    # the command-line compiler, from the repository's own workspace
    if not os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", "/repo/Cargo.lock")  # ignored by git, as build.sh does it
    e1 = dict(e)
    e1["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target", "cli")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", "/repo/butte-build/Cargo.toml", "--bins"], env=e1, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    cli = os.path.join(VERIF, "target", "cli", "debug", "butte")
    if p.returncode != 0 or not os.path.exists(cli):
        sys.stderr.write(p.stdout[-6000:] + "\nHARNESS-ERROR: building the command-line compiler failed\n")
        sys.exit(3)
    # a crate that uses the compiler the way a user does
    p = subprocess.run(["cargo", "run", "--offline", "--locked", "-q"], cwd=os.path.join(VERIF, "harness", "bs"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        import run
        run.violation(prop, tier, "a crate whose build script calls compile_fbs and which includes the result with include_fbs does not build and run:\n" + p.stdout[-3000:], {"crate": "harness/bs", "output": p.stdout[-3000:]})
    e["MC_CLI"] = cli
    e["MC_EVIDENCE_EXTRA"] = '"user_crate": "three schemas compiled by a build script, included with include_fbs and used"'
    r = subprocess.run([bc, "check", prop, tier] + scen, env=e)
    finish(r.returncode, prop, None)


def finish(rc, prop, evdir):
    if evdir:
        # a violation in the first stage: its evidence is the evidence
        src = os.path.join(evdir, prop + ".json")
        if os.path.exists(src):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            open(os.path.join(VERIF, "evidence", prop + ".json"), "w").write(open(src).read())
    sys.exit(rc if rc in (0, 1) else 3)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    scen = sys.argv[3:4]
    if prop in RT:
        run_rt(prop, tier, scen)
    if prop in GEN:
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        import run
        finish(run.run(prop, tier, scen, env(), build), prop, None)
    if prop == "C11":
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        import run11
        finish(run11.run11(prop, tier, env(), build), prop, None)
    if prop == "C27":
        run_c27(prop, tier, scen)
    if prop in ("C28", "C29"):
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import miri
        finish(miri.run_mi(prop, tier, scen, env(), build), prop, None)
    if prop in BC:
        run_bc(prop, tier, scen)
    sys.stderr.write("HARNESS-ERROR: unknown property %s\n" % prop)
    sys.exit(3)


try:
    main()
except Exception as e:
    import traceback
    traceback.print_exc()
    sys.stderr.write("HARNESS-ERROR: %s\n" % e)
    sys.exit(3)
