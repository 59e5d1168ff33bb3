use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn serial(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| std::char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}

pub fn ints(v: &Value) -> Vec<isize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap() as isize).collect()).unwrap_or_default()
}

/// Runs code under test; a panic becomes a value.
pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            json!([["panic", m]])
        }
    }
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    prog: std::fs::File,
}

impl Out {
    pub fn new(path: &str) -> Out {
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            prog: std::fs::File::create(format!("{}.prog", path)).unwrap(),
        }
    }
    /// progress marker, so that a hang or abort can be attributed to a case
    pub fn begin(&mut self, i: usize) {
        use std::io::{Seek, SeekFrom};
        let _ = self.prog.seek(SeekFrom::Start(0));
        let _ = self.prog.write_all(format!("{:12}\n", i).as_bytes());
    }
    pub fn result(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
    }
    pub fn finish(&mut self) {
        self.w.flush().unwrap();
    }
}
