//! The spaces, and the entry points of the WebAssembly build.
pub mod spaces;

/// Records what an execution observes.
#[derive(Default)]
pub struct Out {
    pub toks: Vec<Tok>,
    pub ops: u64,
    pub marks: Vec<usize>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    /// Loudness in LUFS or LU.
    L(f64),
    /// Linear amplitude or energy.
    P(f64),
    /// Exact.
    N(i64),
}
impl Out {
    pub fn l(&mut self, v: f64) {
        self.toks.push(Tok::L(v));
    }
    pub fn p(&mut self, v: f64) {
        self.toks.push(Tok::P(v));
    }
    pub fn n(&mut self, v: i64) {
        self.toks.push(Tok::N(v));
    }
    /// One operation is over.
    pub fn op(&mut self) {
        self.ops += 1;
        self.marks.push(self.toks.len());
    }
}

pub fn print(t: &Tok) -> String {
    match t {
        Tok::L(v) => format!("l{:x}", v.to_bits()),
        Tok::P(v) => format!("p{:x}", v.to_bits()),
        Tok::N(v) => format!("n{}", v),
    }
}
pub fn parse(s: &str) -> Option<Tok> {
    let b = s.get(1..)?;
    Some(match s.as_bytes()[0] {
        b'l' => Tok::L(f64::from_bits(u64::from_str_radix(b, 16).ok()?)),
        b'p' => Tok::P(f64::from_bits(u64::from_str_radix(b, 16).ok()?)),
        b'n' => Tok::N(b.parse().ok()?),
        _ => return None,
    })
}


#[cfg(target_arch = "wasm32")]
pub mod wasm {
    use super::*;
    use std::sync::Mutex;
    static TEXT: Mutex<String> = Mutex::new(String::new());

    fn prop(p: u32) -> String {
        format!("C{:02}", p)
    }
    /// Text of the last call: a line for an execution, the message for a panic.
    #[no_mangle]
    pub extern "C" fn port_text() -> *const u8 {
        TEXT.lock().unwrap_or_else(|e| e.into_inner()).as_ptr()
    }
    #[no_mangle]
    pub extern "C" fn port_len() -> usize {
        TEXT.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    fn set(s: String) {
        *TEXT.lock().unwrap_or_else(|e| e.into_inner()) = s;
    }
    #[no_mangle]
    pub extern "C" fn port_start() {
        std::panic::set_hook(Box::new(|i| set(format!("{}", i))));
    }
    /// Names and sizes of the spaces.
    #[no_mangle]
    pub extern "C" fn port_list(p: u32, t: u32) {
        set(spaces::spaces(&prop(p), t != 0).iter().map(|s| format!("{} {} {}\n", s.name, s.class, s.count)).collect());
    }
    #[no_mangle]
    pub extern "C" fn port_leaf(p: u32, t: u32, space: usize, i: usize) {
        let mut o = Out::default();
        (spaces::spaces(&prop(p), t != 0)[space].run)(i, &mut o);
        set(line(&o));
    }
}

/// An execution as the processes report it.
pub fn line(o: &Out) -> String {
    let mut l = format!("V {}", o.ops);
    for t in &o.toks {
        l.push(' ');
        l.push_str(&print(t));
    }
    l
}
