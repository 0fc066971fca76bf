//! Runs the real schema compiler on a list of files: `fbsc DIR NAME...`, reads DIR/NAME.fbs and
//! writes DIR/NAME.gen.rs; one line per name: `ok NAME`, `refused NAME message`, `panic NAME message`.

use std::cell::RefCell;
use std::io::{self, Read};
use std::rc::Rc;

#[derive(Clone, Default)]
struct Sink(Rc<RefCell<Vec<u8>>>);
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Breaks the code into lines where that changes nothing: after `{`, `}` and `;` outside of
/// strings and comments.  rustc quotes whole lines in its messages.
fn lines(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len() + b.len() / 20);
    let (mut string, mut esc) = (false, false);
    // with comments, raw strings or character literals about, leave it alone
    let text = String::from_utf8_lossy(b);
    if ["r#\"", "r\"", "\'{\'", "\'}\'", "\';\'", "\'\"\'", "//", "/*"].iter().any(|x| text.contains(x)) {
        return b.to_vec();
    }
    for c in b {
        out.push(*c);
        if string {
            if esc {
                esc = false;
            } else if *c == b'\\' {
                esc = true;
            } else if *c == b'"' {
                string = false;
            }
        } else if *c == b'"' {
            string = true;
        } else if matches!(c, b'{' | b'}' | b';') {
            out.push(b'\n');
        }
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let dir = std::env::args().nth(1).expect("dir");
    let mut names = String::new();
    io::stdin().read_to_string(&mut names).unwrap();
    for name in names.lines() {
        let text = std::fs::read(format!("{}/{}.fbs", dir, name)).unwrap();
        let sink = Sink::default();
        let s2 = sink.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            butte_build::compile_fbs_generic(true, None, Box::new(io::Cursor::new(text)), Box::new(s2)).map_err(|e| e.to_string())
        }));
        match r {
            Ok(Ok(())) => {
                std::fs::write(format!("{}/{}.gen.rs", dir, name), lines(&sink.0.borrow())).unwrap();
                println!("ok {}", name);
            }
            Ok(Err(e)) => println!("refused {} {}", name, e.replace('\n', " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("panic {} {}", name, m.replace('\n', " "));
            }
        }
    }
}
