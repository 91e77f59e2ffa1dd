//! The outer half of the checks inside a procedural macro: runs compilers that expand the macro of
//! `inside/`, which answers requests from within its expansion.
use crate::gram::V;
use crate::tok::Sp;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// locations of the leaves and groups of a value, in order
pub fn spans(v: &V) -> Vec<Sp> {
    let mut o = vec![];
    let mut st = vec![v];
    while let Some(v) = st.pop() {
        match v {
            V::Leaf(_, s) => o.extend(*s),
            V::Node(_, x) => st.extend(x.iter().rev()),
            V::Grp(_, s, i) => {
                o.extend(*s);
                st.push(i);
            }
        }
    }
    o
}

pub const POOL: usize = 1_500;

/// The program that is compiled: a pool of tokens on many lines, among characters of all lengths.
pub fn program() -> String {
    let mut s = String::from("vh_inside::serve! {\n");
    let mut x = 12345u32;
    for i in 0..POOL {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        s.push_str([" ", "\n", "\t", "  /* é漢😀 */ ", "\r\n   ", "\u{85}", " // ő\n"][(x >> 24) as usize % 7]);
        s.push_str(&["abc", "\"ű\"", "5", "é", "+"][(x >> 20) as usize % 5]);
        s.push_str(if i % 97 == 0 { &"   \n" } else { " " });
    }
    s.push_str("}\n");
    s
}

pub struct Server {
    child: Child,
    s: UnixStream,
    errors: std::fs::File,
    served: u32,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub enum Reply {
    Fields(Vec<String>),
    /// the compiler does not lex the text
    NoTokens,
    /// the process died, or does not answer
    Dead(String),
    /// the process could not be started
    NoServer(String),
}

impl Server {
    pub fn start(program: &str) -> Result<Server, String> {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let me = std::env::current_exe().map_err(|e| e.to_string())?;
        let lib = me.with_file_name("libvh_inside.so");
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vh-inside-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let dir = dir.to_str().unwrap().to_string();
        let (file, sock, log) = (format!("{dir}/m.rs"), format!("{dir}/s"), format!("{dir}/log"));
        std::fs::write(&file, program).map_err(|e| e.to_string())?;
        let l = UnixListener::bind(&sock).map_err(|e| e.to_string())?;
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        let err = std::fs::File::create(&log).map_err(|e| e.to_string())?;
        let mut errors = std::fs::File::open(&log).map_err(|e| e.to_string())?;
        let mut child = Command::new("rustc")
            .args(["--edition=2021", "--crate-type=lib", "--crate-name=m", "--emit=metadata", "--cap-lints=allow", "--out-dir", &dir, &file, "--extern"])
            .arg(format!("vh_inside={}", lib.display()))
            .env("VH_SOCK", &sock)
            .env("VH_FILE", &file)
            .env("RUST_MIN_STACK", (512u32 << 20).to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .map_err(|e| e.to_string())?;
        let t0 = Instant::now();
        loop {
            match l.accept() {
                Ok((s, _)) => {
                    s.set_nonblocking(false).map_err(|e| e.to_string())?;
                    s.set_read_timeout(Some(Duration::from_secs(60))).map_err(|e| e.to_string())?;
                    // everything that is needed has been read
                    let _ = std::fs::remove_dir_all(&dir);
                    return Ok(Server { child, s, errors, served: 0 });
                }
                Err(_) => {
                    let over = t0.elapsed().as_secs() > 100;
                    if over || !matches!(child.try_wait(), Ok(None)) {
                        let _ = child.kill();
                        let _ = child.wait();
                        let mut e = String::new();
                        let _ = errors.read_to_string(&mut e);
                        let _ = std::fs::remove_dir_all(&dir);
                        return Err(format!("the compiler does not expand the macro: {e}"));
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
            }
        }
    }

    /// what the compiler has said last
    pub fn log(&mut self) -> String {
        let mut b = vec![];
        let _ = self.errors.read_to_end(&mut b);
        String::from_utf8_lossy(&b[b.len().saturating_sub(600)..]).into_owned()
    }

    fn num(&mut self) -> std::io::Result<u32> {
        let mut b = [0; 4];
        self.s.read_exact(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }

    /// None: the compiler does not lex the text
    pub fn ask(&mut self, t: u32, how: u32, veils: &[u32], text: &str, lexed: &mut bool) -> std::io::Result<Option<Vec<String>>> {
        let mut q: Vec<u8> = vec![];
        for x in [t, how, veils.len() as u32].iter().chain(veils) {
            q.extend(x.to_le_bytes());
        }
        q.extend((text.len() as u32).to_le_bytes());
        q.extend(text.as_bytes());
        self.served += 1;
        self.s.write_all(&q)?;
        let mut b = [0];
        self.s.read_exact(&mut b)?;
        if b[0] == 0 {
            return Ok(None);
        }
        *lexed = true;
        let n = self.num()?;
        let mut o = vec![];
        for _ in 0..n {
            let mut v = vec![0; self.num()? as usize];
            self.s.read_exact(&mut v)?;
            o.push(String::from_utf8_lossy(&v).into_owned());
        }
        Ok(Some(o))
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

/// Asks this thread's compiler.
pub fn ask(t: u32, how: u32, veils: &[u32], text: &str) -> Reply {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        // compilers keep all texts
        if s.as_ref().map_or(false, |s| s.served >= 40_000) {
            *s = None;
        }
        if s.is_none() {
            match Server::start(&program()) {
                Ok(x) => *s = Some(x),
                Err(e) => return Reply::NoServer(e),
            }
        }
        let mut lexed = false;
        match s.as_mut().unwrap().ask(t, how, veils, text, &mut lexed) {
            Ok(Some(v)) => Reply::Fields(v),
            Ok(None) => Reply::NoTokens,
            Err(e) => {
                let log = s.as_mut().unwrap().log();
                *s = None;
                if lexed {
                    Reply::Dead(format!("{e}\n{log}"))
                } else {
                    Reply::NoTokens
                }
            }
        }
    })
}

/// `how` for texts that are part of the program
pub const OWN: u32 = 100;

/// A program with the given texts, and the number of the line on which each begins.
pub fn program_of(texts: &[&str]) -> (String, Vec<usize>) {
    let mut s = String::from("vh_inside::serve! {\n");
    let mut at = vec![];
    for t in texts {
        s.push_str("{\n");
        at.push(s.matches('\n').count() + 1);
        s.push_str(t);
        s.push_str("\n}\n");
    }
    s.push_str("}\n");
    (s, at)
}
