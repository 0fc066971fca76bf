"""C28 and C29: every execution of the scenarios of harness/mi under the Miri interpreter.

The same program is first run natively, where each execution is judged against the format's
specification and gives a digest of all that was written and read; every emulated host has to give
the same digest for the same execution, without undefined behaviour.
"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = {
    "x86_64-unknown-linux-gnu": "64-bit little-endian (x86-64)",
    "i686-unknown-linux-gnu": "32-bit little-endian (x86)",
    "s390x-unknown-linux-gnu": "64-bit big-endian (s390x)",
    "powerpc-unknown-linux-gnu": "32-bit big-endian (powerpc)",
}
X86_64, I686, S390X, PPC = NAMES
ALIAS = ["-Zmiri-disable-isolation"]
PLAIN = ["-Zmiri-disable-isolation", "-Zmiri-disable-stacked-borrows"]
TREE = ["-Zmiri-disable-isolation", "-Zmiri-tree-borrows"]
# (host, interpreter flags, depth of the scenarios)
RUNS = {
    ("C28", "quick"): [(X86_64, ALIAS, "quick")],
    ("C28", "thorough"): [(X86_64, ALIAS, "quick"), (X86_64, TREE, "quick"), (I686, ALIAS, "quick"), (X86_64, PLAIN, "thorough")],
    ("C29", "quick"): [(S390X, PLAIN, "quick"), (I686, PLAIN, "quick")],
    ("C29", "thorough"): [(S390X, PLAIN, "thorough"), (I686, PLAIN, "thorough"), (PPC, PLAIN, "quick")],
}
# scenarios about memory more than about the format: other hosts run them in the thorough tier only
MEMORY = ["reuse", "misuse", "bytes", "iter"]
SHARD = 120


def run_mi(prop, tier, scen, env, build):
    t0 = time.time()
    d = os.path.join(VERIF, "target", "mi")
    os.makedirs(d, exist_ok=True)
    # generated code, from the compiler of the current tree
    feats = []
    fbsc = build("fbsc")
    src = os.path.join(VERIF, "harness", "mi", "src", "h.fbs")
    open(os.path.join(d, "h.fbs"), "w").write(open(src).read())
    r = subprocess.run([fbsc, d], input="h\n", env=env, stdout=subprocess.PIPE, text=True)
    gen = os.path.join(d, "h.gen.rs")
    e = dict(env, MI_GEN=gen)
    if r.stdout.strip() == "ok h" and subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--features", "gen"], cwd=os.path.join(VERIF, "harness", "mi"), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        feats = ["--features", "gen"]
    exe = build("mi", e=e, extra=feats)
    blobs = os.path.join(d, "blobs.bin")
    subprocess.run([exe, "blobs", blobs], env=e, check=True)
    e["MI_BLOBS"] = blobs
    scens = [l.split(" ", 1) for l in subprocess.run([exe, "list"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    runs = RUNS[(prop, tier)]
    native, bad = {}, []

    def nat(x):
        s, depth = x
        tr = subprocess.run([exe, "trails", s, depth], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, check=True).stdout.splitlines()
        if prop == "C28":
            return x, tr, None
        r = subprocess.run([exe, "run", s, depth, "", "9999999"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        ls = r.stdout.splitlines()
        if not ls or not ls[-1].startswith("DONE"):
            raise RuntimeError("%s ended abnormally on the host itself (status %s)" % (s, r.returncode))
        return x, tr, ls[:-1]

    me = dict(e)
    me.pop("RUSTUP_TOOLCHAIN", None)
    me["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target", "miri")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q"] + feats

    def menv(flags):
        return dict(me, MIRIFLAGS=" ".join(flags))

    def miri(host, flags, args, limit=850):
        return subprocess.run(base + ["--target", host, "--"] + args, cwd=os.path.join(VERIF, "harness", "mi"), env=menv(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)

    def prep(host):
        return host, miri(host, PLAIN, ["list"])

    with ThreadPoolExecutor(8) as ex:
        hosts = list(dict.fromkeys(h for h, _, _ in runs))
        prepared = [ex.submit(prep, h) for h in hosts]
        for x, tr, ls in ex.map(nat, sorted({(s, dep) for s, _ in scens for _, _, dep in runs})):
            native[x] = (tr, ls)
        for p in prepared:
            h, r = p.result()
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-4000:] + "\nHARNESS-ERROR: building for %s failed\n" % h)
                sys.exit(3)
        tasks = []
        for h, fl, dep in runs:
            for s, _ in scens:
                if scen and s not in scen:
                    continue
                if prop == "C29" and tier == "quick" and s in MEMORY:
                    continue
                n = len(native[(s, dep)][0])
                k = max(1, -(-n // (SHARD if dep == "quick" else 4 * SHARD)))
                tasks += [(h, fl, dep, s, n * i // k, n * (i + 1) // k) for i in range(k)]
        digests = set()

        def go(t):
            h, fl, dep, s, lo, hi = t
            if bad:
                return t, 0, 0
            n = hi - lo
            tr, want = native[(s, dep)]
            want = want[lo:hi] if want else []
            r = miri(h, fl, ["run", s, dep, tr[lo], str(n)], 3600 if tier == "thorough" else 850)
            ls = r.stdout.splitlines()
            full = bool(ls) and ls[-1].startswith("DONE")
            got = ls[:-1] if full else ls
            for j, (a, b) in enumerate(zip(want, got)):
                # an execution that fails on the host itself is the business of other properties
                if a != b and not (a.startswith("V ") and b.startswith("V ")):
                    num = lo + j
                    bad.append((s, dep, num, b, "%s: execution %d of %s gives %s, on the host itself %s" % (NAMES[h], num, s, b, a), [h, fl]))
                    return t, j, 0
            if not full:
                # the interpreter stopped: find the execution
                r2 = miri(h, fl, ["run", s, dep, tr[lo], str(n), "announce"], 3600)
                k = sum(1 for l in r2.stdout.splitlines() if l.startswith("execution "))
                num = lo + k - 1 if k else None
                err = (r.stderr or "").strip()
                if num is None or not ("Undefined Behavior" in err or "abort" in err or "error" in err or "stack overflow" in err):
                    sys.stderr.write(err[-3000:] + "\n")
                    raise RuntimeError("no answer from the interpreter for %s on %s" % (s, h))
                bad.append((s, dep, num, None, "%s: execution %d of %s: %s" % (NAMES[h], num, s, err[:1500]), [h, fl]))
                return t, len(got), 0
            if len(got) != n:
                raise RuntimeError("%s on %s: %d executions, natively %d" % (s, h, len(got), n))
            digests.update(got)
            return t, len(got), int(ls[-1].split()[1])

        results = list(ex.map(go, tasks))
    if bad:
        return report(prop, tier, bad, exe, e, t0, d)
    per, execs, ops = {}, 0, 0
    for (h, fl, dep, s, lo, hi), n, o in results:
        execs += n
        ops += o
        key = "%s, %s bounds%s" % (NAMES[h], dep, {str(ALIAS): ", aliasing checked (stacked borrows)", str(TREE): ", aliasing checked (tree borrows)"}.get(str(fl), ""))
        per.setdefault(key, {}).setdefault(s, 0)
        per[key][s] += n
    samples = ["%s: execution %d with choices %s" % (s, n // 2, native[(s, dep)][0][n // 2]) for (s, dep), n in sorted((x, len(v[0])) for x, v in native.items())][:6]
    write(prop, tier, t0, {
        "states": len(digests), "transitions": ops, "traces_validated_against_impl": execs, "evaluations": execs, "exhaustive": True,
        "rule": "every execution of each scenario up to its bounds, interpreted; a state is a distinct outcome (all bytes written and all values read)",
        "samples": samples, "executions_per_host_and_scenario": per, "scenarios": {a: b for a, b in scens}, "generated_code": bool(feats)}, 0)
    print("%s: %d executions on %d emulated hosts, %d distinct outcomes, %d operations, %.0f s" % (prop, execs, len({t[0] for t in tasks}), len(digests), ops, time.time() - t0))
    return 0


def write(prop, tier, t0, cov, violations):
    p = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    json.dump({
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
        "assumptions": ["Miri's emulation of the hosts and its rules of undefined behaviour", "bounds of the scenarios"],
        "wall_s": round(time.time() - t0, 1), "violations": violations}, open(p, "w"), indent=1)


def report(prop, tier, bad, exe, e, t0, d):
    s, dep, num, got, msg, (host, fl) = sorted(bad, key=lambda b: (b[0], b[2]))[0]
    tr = subprocess.run([exe, "trails", s, dep], env=e, stdout=subprocess.PIPE, text=True).stdout.splitlines()
    rd = os.path.join(VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, prop + "-" + tier + ".json")
    json.dump({
        "property": prop, "scenario": s, "depth": dep, "execution": num, "choices": tr[num],
        "host": host, "interpreter_flags": fl, "message": msg,
        "again": "native: %s run %s %s %s 1; emulated: cd /verif/harness/mi && MIRIFLAGS='%s' cargo +nightly miri run --target %s -- run %s %s %s 1 (MI_BLOBS=/verif/target/mi/blobs.bin MI_GEN=/verif/target/mi/h.gen.rs)" % (exe, s, dep, tr[num], " ".join(fl), host, s, dep, tr[num]),
    }, open(p, "w"), indent=1)
    write(prop, tier, t0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 1, "exhaustive": False, "samples": [msg[:1000]]}, 1)
    print(msg)
    print("VIOLATION property=%s replay=%s" % (prop, p))
    return 1
