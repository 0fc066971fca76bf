"""C11: enumerate schemas, compile them with the schema compiler and what it accepts with rustc."""
import json, os, re, shutil, subprocess, sys, time
import names as nm
from run import *


def run11(prop, tier, env, build):
    t0 = time.time()
    fbsc = build("fbsc")
    base = os.path.join(VERIF, "target", "gen", prop)
    shutil.rmtree(base, ignore_errors=True)
    d = os.path.join(base, "gen")
    os.makedirs(d)
    all_ = list(nm.all_schemas(tier))
    by = {n: (t, p, m) for n, t, p, m in all_}
    assert len(by) == len(all_), "names"
    for n, t, p, m in all_:
        write("%s/%s.fbs" % (d, n), t)
    res = compile_schemas(fbsc, d, list(by))
    acc = []
    count = {"ok": 0, "refused": 0}
    for n in by:
        v, m = res.get(n, ("panic", "no answer"))
        if v == "panic":
            violation(prop, tier, "the schema compiler panics (%s): %s" % (m, by[n][0]), {"schema": by[n][0]})
        count[v] += 1
        if v == "refused" and by[n][2] and os.environ.get("C11_LIST"):
            print("REFUSED", m, by[n][0])
        elif v == "refused" and by[n][2]:
            violation(prop, tier, "a schema is refused because of a name (%s): %s" % (m, by[n][0]), {"schema": by[n][0]})
        if v == "ok":
            acc.append(n)
            write("%s/%s.ad.rs" % (d, n), by[n][1] or "")
            write("%s/%s.in.rs" % (d, n), "")
    low = prop.lower()
    members = []
    bins = [[0, []] for _ in range(max(SHARDS, -(-len(acc) // 700)))]
    for n in sorted(acc, key=lambda n: -os.path.getsize("%s/%s.gen.rs" % (d, n))):
        b = min(bins, key=lambda b: b[0])
        b[0] += os.path.getsize("%s/%s.gen.rs" % (d, n)) + 200
        b[1].append(n)
    for k, (_, ss) in enumerate(bins):
        c = "%s_s%d" % (low, k)
        members.append(c)
        mods = "".join(MOD % (s, d, s, d, s, d, s) for s in ss)
        write("%s/%s/lib.rs" % (base, c), "#![allow(warnings)]\nextern crate gd;\nextern crate butte;\n" + mods)
        write("%s/%s/Cargo.toml" % (base, c), CARGO % (c, VERIF))
    write("%s/Cargo.toml" % base, "[workspace]\nmembers = [%s]\nresolver = \"1\"\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 2\n" % ", ".join('"%s"' % m for m in members))
    t1 = time.time()
    ok, errs, tail = rustc(base, env, "check")
    t2 = time.time()
    bad = {}
    for files, m in errs:
        for f in files:
            g = re.search(r"/gen/%s/gen/(\w+)\.(gen|ad)\.rs$" % prop, f)
            if g:
                bad.setdefault(g.group(1), (g.group(2), m))
    if os.environ.get("C11_LIST"):
        for n, (k, m) in sorted(bad.items()):
            print("BAD", n, k, by[n][0][:160], "|", m.splitlines()[0])
    if bad:
        n = sorted(bad)[0]
        k, m = bad[n]
        violation(prop, tier, "the code generated for a schema %s (%d schemas affected):\n%s\n%s" % ("does not compile" if k == "gen" else "does not offer the documented names", len(bad), m, by[n][0]),
                  {"schema": by[n][0], "rustc": m, "also": [by[x][0] for x in sorted(bad)[1:20]]})
    if not ok:
        harness_error("checking the generated code failed\n" + "\n".join(m for _, m in errs)[-4000:] + tail)
    sizes = sum(os.path.getsize("%s/%s.gen.rs" % (d, n)) for n in acc)
    sys.stderr.write("%s: %d schemas, %d accepted, %d refused; generated in %.1f s, checked in %.1f s\n" % (prop, len(by), count["ok"], count["refused"], t1 - t0, t2 - t1))
    cov = {"states": len(by), "transitions": len(by) + count["ok"], "traces_validated_against_impl": count["ok"], "evaluations": count["ok"] + sum(1 for n in acc if by[n][1]),
           "executions": len(by), "exhausted": True, "accepted": count["ok"], "refused": count["refused"], "generated_bytes": sizes,
           "families": {"names x positions": "%d names in %d positions" % (len(nm.NAMES), len(nm.POS)), "collisions": "all ordered pairs of %d name forms and %d type names" % (len(nm.FORMS), len(nm.TYPES)),
                        "relations": "all pairs of namespaces up to three parts over two names x reference kinds x three type names", "shapes": "all field types x attributes, bases, statements", "edges": "numbers around the limits of all integer types and %s as defaults of every type, as values and alternatives" % "25 other literals", "used": "%d names the generated code could use, beside all field types" % len(nm.USED), "sizes": "names of 40 and 11 further lengths that differ in one character, namespaces up to 12, 20 and 30 deep leaving each other anywhere, vectors nested up to 8, up to 8 attributes, up to 600 fields, values, alternatives"}}
    cov["samples"] = [by[n][0] for n in (acc[:2] + acc[len(acc) // 2:len(acc) // 2 + 2] + acc[-2:])]
    put_evidence(evidence_doc(prop, tier, t2 - t0, cov))
    return 0
