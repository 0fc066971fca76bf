//! C27: the command-line compiler and the build-script function.

use crate::c_io::{pretty, scratch};
use crate::comp::compile_bytes;
use mc::Ch;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::process::{Command, Stdio};

fn texts() -> Vec<(&'static str, Vec<u8>)> {
    let big: String = (0..120).map(|i| format!("/// d\u{e9}{}\ntable T{} {{ x : int = {} ; t : T{} ; }}\n", i, i, i, (i + 1) % 120)).collect();
    vec![
        ("small", b"table T { x : int ; }".to_vec()),
        ("names", "namespace a . b ;\r\n/// d\u{f6}c\r\nenum E : byte { A = -1 , B }\r\ntable T { e : E = B ; u : U ; }\nunion U { T }\nroot_type T ;\n".as_bytes().to_vec()),
        ("big", big.into_bytes()),
        ("empty", vec![]),
        ("comment", b"// nothing".to_vec()),
        ("service", b"table T { x : int ; }\nrpc_service S { M ( T ) : T ; }".to_vec()),
        ("cut", b"table T { x : int ; } table U { y".to_vec()),
        ("undefined", b"table T { x : U ; }".to_vec()),
        ("unsupported", b"table T { x : int ; } file_extension \"x\" ;".to_vec()),
        ("not-utf8", b"table T { x : int ; } // \xff".to_vec()),
    ]
}

const FORMATTERS: [&str; 3] = ["real", "fails", "missing"];

/// every text x way in x way out x flag x formatter
pub fn cli(ch: &mut Ch) -> Result<(), String> {
    let exe = std::env::var("MC_CLI").map_err(|_| "no MC_CLI".to_string())?;
    let ts = texts();
    let (tname, text) = &ts[ch.choose(ts.len())];
    let inp = *ch.pick(&["file", "stdin", "stdin-file", "missing", "directory"]);
    let outp = if inp.starts_with("stdin") {
        *ch.pick(&["stdout", "stdout-full", "stdout-closed"])
    } else {
        *ch.pick(&["stdout", "stdout-full", "stdout-closed", "file", "longer", "nowhere", "directory", "full"])
    };
    let flag = *ch.pick(&["", "-u", "--ugly"]);
    let last = if flag.is_empty() { false } else { ch.flag() };
    let fmt = if flag.is_empty() { *ch.pick(&FORMATTERS) } else { FORMATTERS[ch.choose(2) * 2] };
    let desc = format!("schema {}, input {}, output {}, flag {:?}{}, formatter {}", tname, inp, outp, flag, if last { " last" } else { "" }, fmt);
    ch.note(|| desc.clone());

    // what the library says
    let want = if flag.is_empty() { pretty(text)? } else { compile_bytes(text)?.map(|s| s.into_bytes()) };
    let readable = inp != "missing" && inp != "directory";
    let writable = !["stdout-full", "stdout-closed", "nowhere", "directory", "full"].contains(&outp);
    let formatted = !flag.is_empty() || fmt == "real";
    let code = if readable && formatted { want.clone().ok() } else { None };
    // with nothing to write, an output that takes nothing does no harm
    let nothing = code.as_ref().map_or(false, |c| c.is_empty()) && !["nowhere", "directory"].contains(&outp);

    let dir = scratch();
    let src = format!("{}/in.fbs", dir);
    let dst = format!("{}/out.rs", dir);
    match inp {
        "missing" => (),
        "directory" => std::fs::create_dir_all(&src).unwrap(),
        _ => std::fs::write(&src, text).unwrap(),
    }
    let dst = if outp == "nowhere" { format!("{}/nowhere/out.rs", dir) } else { dst };
    match outp {
        "longer" => std::fs::write(&dst, "x".repeat(2_000_000)).unwrap(),
        "directory" => std::fs::create_dir_all(&dst).unwrap(),
        "full" => std::os::unix::fs::symlink("/dev/full", &dst).unwrap(),
        _ => (),
    }
    let mut c = Command::new(&exe);
    if !flag.is_empty() && !last {
        c.arg(flag);
    }
    if !inp.starts_with("stdin") {
        c.arg(&src);
    }
    let to_file = !outp.starts_with("stdout");
    if to_file {
        c.arg(&dst);
    }
    if !flag.is_empty() && last {
        c.arg(flag);
    }
    match fmt {
        "real" => (),
        _ => {
            let tools = format!("{}/tools", dir);
            std::fs::create_dir_all(&tools).unwrap();
            if fmt == "fails" {
                let p = format!("{}/rustfmt", tools);
                std::fs::write(&p, format!("#!/bin/sh\n/bin/cat > {}/copy ; /bin/cat {}/copy ; exit 1\n", tools, tools)).unwrap();
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
            }
            c.env("PATH", &tools);
        }
    }
    c.env_remove("OUT_DIR").current_dir(&dir);
    c.stdin(match inp {
        "stdin" => Stdio::piped(),
        "stdin-file" => Stdio::from(std::fs::File::open(&src).unwrap()),
        _ => Stdio::null(),
    });
    c.stdout(match outp {
        "stdout-full" => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        "stdout-closed" => {
            // nobody reads from this pipe, from the start
            let (reader, writer) = std::io::pipe().unwrap();
            drop(reader);
            Stdio::from(writer)
        }
        _ => Stdio::piped(),
    });
    c.stderr(Stdio::piped());
    let mut child = c.spawn().map_err(|e| format!("cannot run {}: {}", exe, e))?;
    drop(c);
    let pipe = child.stdout.take();
    let mut errs = child.stderr.take().unwrap();
    let feeder = child.stdin.take().map(|mut s| {
        let t = text.clone();
        std::thread::spawn(move || {
            for piece in t.chunks(100) {
                let _ = s.write_all(piece);
            }
        })
    });
    let et = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = errs.read_to_end(&mut v);
        v
    });
    let mut printed = vec![];
    if let Some(mut p) = pipe {
        p.read_to_end(&mut printed).unwrap();
    }
    let stderr = et.join().unwrap();
    let status = child.wait().unwrap();
    if let Some(f) = feeder {
        f.join().unwrap();
    }
    let in_file = if to_file && writable { std::fs::read(&dst).ok() } else { None };
    let _ = std::fs::remove_dir_all(&dir);

    ch.step(1);
    ch.eval(1);
    ch.state(format!("{} {:?} {}", desc, status.code(), printed.len()));
    ch.sample(|| format!("{}: {:?}", desc, status));
    let must = code.is_some() && writable;
    if must && !status.success() {
        return Err(format!("failure ({}): {}: {}", status, desc, String::from_utf8_lossy(&stderr)));
    }
    if status.success() && !must && !nothing {
        return Err(format!("success: {}", desc));
    }
    if !status.success() {
        if stderr.is_empty() {
            return Err(format!("failure without a message: {}", desc));
        }
        if String::from_utf8_lossy(&stderr).contains("panicked") {
            return Err(format!("panic: {}: {}", desc, String::from_utf8_lossy(&stderr)));
        }
        return Ok(());
    }
    if !must {
        return Ok(());
    }
    let code = code.unwrap();
    let got = if to_file { in_file.ok_or(format!("no output file: {}", desc))? } else { printed.clone() };
    if got != code {
        return Err(format!("{} bytes of code instead of {}: {}", got.len(), code.len(), desc));
    }
    if to_file && !printed.is_empty() {
        return Err(format!("prints although the output goes to a file: {}", desc));
    }
    Ok(())
}

/// compile_fbs: every schema under every file name
pub fn script(ch: &mut Ch) -> Result<(), String> {
    let ts = texts();
    let (tname, text) = &ts[ch.choose(ts.len())];
    let name = *ch.pick(&["x.fbs", "x", "x.y.fbs", "a/x.fbs", "a.b/c/x.fbs", "./a/../x.fbs", "x.rs", "x.FBS", ".x.fbs", "\u{e4} x.fbs"]);
    let rel = ch.flag();
    let old = ch.flag();
    let dir = scratch();
    let out = format!("{}/out", dir);
    std::fs::create_dir_all(&out).unwrap();
    std::fs::create_dir_all(format!("{}/src/a.b/c", dir)).unwrap();
    std::fs::create_dir_all(format!("{}/src/a", dir)).unwrap();
    let f = format!("{}/src/{}", dir, name);
    std::fs::write(&f, text).unwrap();
    let file = std::path::Path::new(name).with_extension("rs").file_name().unwrap().to_str().unwrap().to_string();
    if old {
        std::fs::write(format!("{}/{}", out, file), "x".repeat(1_000_000)).unwrap();
    }
    let want = pretty(text)?;
    let cwd = std::env::current_dir().unwrap();
    std::env::set_var("OUT_DIR", &out);
    std::env::set_current_dir(format!("{}/src", dir)).unwrap();
    let p = if rel { name.to_string() } else { f.clone() };
    let res = mc::guard(move || butte_build::compile_fbs(&p).map_err(|e| e.to_string()));
    std::env::set_current_dir(cwd).unwrap();
    std::env::remove_var("OUT_DIR");
    let got = std::fs::read(format!("{}/{}", out, file)).ok();
    let others: Vec<String> = std::fs::read_dir(&out).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).filter(|n| *n != file).collect();
    let source = std::fs::read(&f).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let desc = format!("schema {}, file {}{}{}", tname, name, if rel { ", relative" } else { "" }, if old { ", over an older file" } else { "" });
    ch.note(|| desc.clone());
    ch.step(1);
    ch.eval(1);
    let res = res.map_err(|p| format!("panic ({}): {}", p, desc))?;
    ch.state(format!("{} {}", desc, res.is_ok()));
    if source != *text {
        return Err(format!("the schema file was changed: {}", desc));
    }
    if !others.is_empty() {
        return Err(format!("other files were written ({:?}): {}", others, desc));
    }
    match (res, want) {
        (Ok(()), Ok(w)) => {
            if got.as_ref() != Some(&w) {
                return Err(format!("success, but {} does not hold the code: {}", file, desc));
            }
            Ok(())
        }
        (Ok(()), Err(_)) => Err(format!("success: {}", desc)),
        (Err(e), Ok(_)) => Err(format!("failure ({}): {}", e, desc)),
        (Err(_), Err(_)) => Ok(()),
    }
}
