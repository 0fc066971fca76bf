//! Runs the real compiler in this process.

use std::cell::RefCell;
use std::io;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<Vec<u8>>>);
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Err(outer): it panicked.
pub fn compile(text: &str) -> Result<Result<String, String>, String> {
    compile_bytes(text.as_bytes())
}
pub fn compile_bytes(text: &[u8]) -> Result<Result<String, String>, String> {
    let sink = Sink::default();
    let s2 = sink.clone();
    let input = io::Cursor::new(text.to_vec());
    let r = mc::guard(move || butte_build::compile_fbs_generic(true, None, Box::new(input), Box::new(s2)).map_err(|e| e.to_string()))?;
    Ok(match r {
        Ok(()) => Ok(String::from_utf8(sink.0.borrow().clone()).map_err(|_| "output is not UTF-8".to_string())?),
        Err(e) => Err(e),
    })
}
