"""Generate the schemas of a property, compile them with the real schema compiler, compile the
result with rustc and run the engine."""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families
from model import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8


def harness_error(m):
    sys.stderr.write("HARNESS-ERROR: %s\n" % m)
    sys.exit(3)


def violation(prop, tier, message, extra):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + "-schema.json")
    json.dump(dict({"property": prop, "tier": tier, "message": message}, **extra), open(p, "w"), indent=1)
    sys.stderr.write(message[:2000] + "\n")
    put_evidence(evidence_doc(prop, tier, 0.0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 1, "exhausted": False, "samples": [message[:1000]]}, 1))
    print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush()
    sys.exit(1)


RULE = "schemas are enumerated completely from the listed families; each goes through the real schema compiler and rustc"


def evidence_doc(prop, tier, wall, cov, violations=0):
    c = {"rule": RULE, "samples": []}
    c.update(cov)
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": c,
            "assumptions": ["x86_64 little-endian host", "bounds as listed; names and schemas outside the families are not covered", "rustc stable decides what compiles"],
            "wall_s": round(wall, 2), "violations": violations}


def put_evidence(doc):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(doc, open(os.path.join(VERIF, "evidence", doc["property"] + ".json"), "w"), indent=1)


def compile_schemas(fbsc, d, names):
    """name -> (verdict, message); a crash of the compiler process counts as a panic"""
    res = {}
    todo = list(names)
    procs = []
    for k in range(SHARDS):
        part = todo[k::SHARDS]
        if part:
            p = subprocess.Popen([fbsc, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            procs.append((p, part))
    for p, part in procs:
        out, _ = p.communicate("\n".join(part) + "\n")
        for l in out.splitlines():
            w = l.split(" ", 2)
            res[w[1]] = (w[0], w[2] if len(w) > 2 else "")
        for n in part:
            if n not in res:
                res[n] = ("panic", "the compiler process ended with %s" % p.returncode)
                break
    return res


LIB = """#![allow(warnings)]
extern crate gd;
extern crate butte;
%s
pub static TABLES: &[&[&gd::TableD]] = &[%s];
pub static ENUMS: &[&[&gd::EnumD]] = &[%s];
"""
MOD = """pub mod m_%s { pub mod g { include!("%s/%s.gen.rs"); include!("%s/%s.in.rs"); } include!("%s/%s.ad.rs"); }
"""
CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2018"
[lib]
path = "lib.rs"
doctest = false
[dependencies]
gd = { path = "%s/harness/gd" }
butte = { path = "/repo/butte" }
"""


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(s)


def prepare(prop, tier, base, parts=True):
    shutil.rmtree(base, ignore_errors=True)
    d = os.path.join(base, "gen")
    os.makedirs(d)
    schemas, pairs = families.family(prop, tier)
    if not parts:
        for s in schemas:
            s.parts = False
    names = [s.name for s in schemas]
    assert len(set(names)) == len(names), "schema names"
    for s in schemas:
        write("%s/%s.fbs" % (d, s.name), s.text())
        write("%s/%s.ad.rs" % (d, s.name), s.adapter())
        write("%s/%s.in.rs" % (d, s.name), "\n".join(s.inner))
    return d, schemas, pairs


def crates(prop, base, d, schemas, pairs):
    low = prop.lower()
    size = lambda s: os.path.getsize("%s/%s.gen.rs" % (d, s.name)) + os.path.getsize("%s/%s.ad.rs" % (d, s.name))
    bins = [[0, []] for _ in range(SHARDS)]
    for s in sorted(schemas, key=size, reverse=True):
        b = min(bins, key=lambda b: b[0])
        b[0] += size(s)
        b[1].append(s)
    where = {}
    members = []
    for k, (_, ss) in enumerate(bins):
        if not ss:
            continue
        c = "%s_s%d" % (low, k)
        members.append(c)
        for s in ss:
            where[s.name] = c
        mods = "".join(MOD % (s.name, d, s.name, d, s.name, d, s.name) for s in ss)
        write("%s/%s/lib.rs" % (base, c), LIB % (mods, ", ".join("m_%s::TABLES" % s.name for s in ss), ", ".join("m_%s::ENUMS" % s.name for s in ss)))
        write("%s/%s/Cargo.toml" % (base, c), CARGO % (c, VERIF))
    main = "fn main() {\n    let mut tables = vec![];\n    let mut enums = vec![];\n    let mut pairs: Vec<(&'static gd::TableD, &'static gd::TableD)> = vec![];\n"
    for c in members:
        main += "    for t in %s::TABLES { tables.extend_from_slice(t); }\n    for t in %s::ENUMS { enums.extend_from_slice(t); }\n" % (c, c)
    for so, a, sn, b in pairs:
        main += "    pairs.push((&%s::m_%s::T%d, &%s::m_%s::T%d));\n" % (where[so.name], so.name, so.n(a), where[sn.name], sn.name, sn.n(b))
    main += "    let _ = gd::SET.set(gd::Set { tables, enums, pairs });\n    gd::mc::main_with(&gd::scen::REG)\n}\n"
    write("%s/run/main.rs" % base, main)
    write("%s/run/Cargo.toml" % base, "[package]\nname = \"%s_run\"\nversion = \"0.1.0\"\nedition = \"2018\"\n[[bin]]\nname = \"%s_run\"\npath = \"main.rs\"\n[dependencies]\ngd = { path = \"%s/harness/gd\" }\n%s"
          % (low, low, VERIF, "".join("%s = { path = \"../%s\" }\n" % (c, c) for c in members)))
    write("%s/Cargo.toml" % base, "[workspace]\nmembers = [%s]\nresolver = \"1\"\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n[profile.dev.package.\"*\"]\nopt-level = 2\n"
          % ", ".join('"%s"' % m for m in members + ["run"]))
    shutil.copy(os.path.join(VERIF, "gen", "Cargo.lock"), os.path.join(base, "Cargo.lock")) if os.path.exists(os.path.join(VERIF, "gen", "Cargo.lock")) else None
    return members


def short(m):
    return "\n".join(l[:300] for l in m.splitlines()[:30])


def rustc(base, env, mode="build"):
    """(ok, [(file, message)], tail)"""
    log = os.path.join(base, "cargo.log")
    p = subprocess.Popen(["cargo", mode, "--offline", "--message-format", "json", "-q", "--keep-going"], cwd=base, env=env, stdout=subprocess.PIPE, stderr=open(log, "w"), text=True)
    errs = []
    for l in p.stdout:
        # many errors say nothing new
        if not l.startswith("{") or len(errs) > 20000:
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m["level"] != "error":
            continue
        files = [s["file_name"] for s in m["spans"]]
        # the file of a span or of what it expands from
        for s in m["spans"]:
            e = s
            while e and e.get("expansion"):
                e = e["expansion"]["span"]
                files.append(e["file_name"])
        errs.append((files, short(m.get("rendered") or m["message"])))
    p.wait()
    return p.returncode == 0, errs, open(log).read()[-3000:]


def run(prop, tier, scen, env, build, parts=True):
    t0 = time.time()
    fbsc = build("fbsc")
    base = os.path.join(VERIF, "target", "gen", prop)
    d, schemas, pairs = prepare(prop, tier, base, parts)
    by = {s.name: s for s in schemas}
    res = compile_schemas(fbsc, d, list(by))
    for s in schemas:
        v, m = res.get(s.name, ("panic", "no answer"))
        if v != "ok":
            violation(prop, tier, "a supported schema is not compiled (%s: %s):\n%s" % (v, m, s.text()), {"schema": s.text(), "verdict": v, "compiler": m})
    crates(prop, base, d, schemas, pairs)
    t1 = time.time()
    ok, errs, tail = rustc(base, env)
    if not ok:
        if parts and errs and all(any(f.endswith(".in.rs") for f in files) for files, m in errs if files):
            # the private methods of the builders are not as expected, which is nobody's business
            return run(prop, tier, scen, env, build, False)
        for files, m in errs:
            for f in files:
                g = re.search(r"/gen/%s/gen/(\w+)\.(gen|ad|in)\.rs$" % prop, f)
                if g:
                    s = by[g.group(1)]
                    violation(prop, tier, "the code generated for a supported schema %s:\n%s\n%s" % ("does not compile" if g.group(2) == "gen" else "does not offer what the schema declares", m, s.text()),
                              {"schema": s.text(), "rustc": m})
        harness_error("building the generated code failed\n" + "\n".join(m for _, m in errs)[-4000:] + tail)
    t2 = time.time()
    exe = os.path.join(env["CARGO_TARGET_DIR"], "debug", prop.lower() + "_run")
    e = dict(env)
    tables = sum(1 for s in schemas for i in s.items if isinstance(i, Table) and i.group != "help")
    e["MC_EVIDENCE_EXTRA"] = '"schemas": %d, "tables_under_test": %d, "schema_pairs": %d, "seconds_generate": %.1f, "seconds_rustc": %.1f' % (len(schemas), tables, len(pairs), t1 - t0, t2 - t1)
    sys.stderr.write("%s: %d schemas, %d tables, generated in %.1f s, compiled in %.1f s\n" % (prop, len(schemas), tables, t1 - t0, t2 - t1))
    r = subprocess.run([exe, "check", prop, tier] + scen, env=e)
    return r.returncode
