//! A process which holds one of the modules made from the library (Python or
//! WebAssembly) and calls its functions on request.
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

/// An argument
#[derive(Clone, Debug, PartialEq)]
pub enum A {
    B(Vec<u8>),
    S(String),
    N(i128),
    Null,
    /// of a type no function takes
    Odd(Value),
}

pub fn b(x: &[u8]) -> A {
    A::B(x.to_vec())
}
pub fn s(x: &str) -> A {
    A::S(x.into())
}
pub fn n(x: impl Into<i128>) -> A {
    A::N(x.into())
}

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    B(Vec<u8>),
    S(String),
    N(i128),
    L(Vec<R>),
    Null,
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// an ordinary exception: its type, its message
    Raised(String, String),
    /// a panic, a trap, a change of an argument
    Panic(String),
    /// the process ended, or does not answer
    Gone(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fail::Raised(t, m) => write!(f, "{t}: {m}"),
            Fail::Panic(m) => write!(f, "panic: {m}"),
            Fail::Gone(m) => write!(f, "process gone: {m}"),
        }
    }
}

pub struct Peer {
    child: Child,
    input: Option<ChildStdin>,
    output: ChildStdout,
    buf: Vec<u8>,
    pub functions: Vec<String>,
    pub calls: u64,
}

const PATIENCE: Duration = Duration::from_secs(140);

fn value(v: &Value) -> R {
    match v {
        Value::String(s) => R::S(s.clone()),
        Value::Array(l) => R::L(l.iter().map(value).collect()),
        Value::Object(o) => {
            if let Some(x) = o.get("b").and_then(Value::as_str) {
                R::B(hex::decode(x).expect("peer: hexadecimal"))
            } else if let Some(x) = o.get("n").and_then(Value::as_str) {
                R::N(x.parse().expect("peer: number"))
            } else {
                panic!("peer: {v}")
            }
        }
        Value::Null => R::Null,
        _ => panic!("peer: {v}"),
    }
}

impl Peer {
    /// `command` is the interpreter, its script and its arguments
    pub fn start(command: &[String]) -> Peer {
        let mut c = Command::new(&command[0]);
        if command[0] == "node" {
            // reserves more addresses than the checks may use
            unsafe {
                c.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                    Ok(())
                });
            }
        }
        let mut child = c
            .args(&command[1..])
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("peer: cannot start");
        let input = child.stdin.take();
        let output = child.stdout.take().expect("peer: output");
        let mut p = Peer { child, input, output, buf: vec![], functions: vec![], calls: 0 };
        let hello = p.line().unwrap_or_else(|e| panic!("peer: {command:?} does not start: {e:?}"));
        p.functions = serde_json::from_str(&hello).expect("peer: first line");
        p
    }

    fn line(&mut self) -> Result<String, Fail> {
        let end = Instant::now() + PATIENCE;
        loop {
            if let Some(i) = self.buf.iter().position(|c| *c == b'\n') {
                let rest = self.buf.split_off(i + 1);
                let mut l = std::mem::replace(&mut self.buf, rest);
                l.pop();
                return Ok(String::from_utf8(l).expect("peer: UTF-8"));
            }
            let left = end.saturating_duration_since(Instant::now());
            let mut p = libc::pollfd { fd: self.output.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
            if r > 0 {
                let mut chunk = vec![0u8; 1 << 16];
                let k = std::io::Read::read(&mut self.output, &mut chunk).unwrap_or(0);
                if k == 0 {
                    let st = self.child.wait().ok();
                    return Err(Fail::Gone(format!(
                        "exit {:?}, signal {:?}",
                        st.and_then(|s| s.code()),
                        st.and_then(|s| s.signal())
                    )));
                }
                self.buf.extend_from_slice(&chunk[..k]);
            } else if left.is_zero() {
                let _ = self.child.kill();
                return Err(Fail::Gone(format!("no answer after {PATIENCE:?}")));
            }
        }
    }

    /// Arguments as they are sent, bytes as what the kinds say
    fn sent(args: &[A], kind: impl Fn(&[u8]) -> &'static str) -> Vec<Value> {
        args.iter()
            .map(|x| match x {
                A::B(x) => json!({ kind(x): hex::encode(x) }),
                A::S(x) => json!(x),
                A::N(x) => json!({ "n": x.to_string() }),
                A::Null => Value::Null,
                A::Odd(v) => v.clone(),
            })
            .collect()
    }
    pub fn args(args: &[A]) -> Vec<Value> {
        Self::sent(args, |_| "b")
    }

    pub fn call(&mut self, f: &str, args: &[A]) -> Result<R, Fail> {
        let kinds = ["b", "b", "b", if f.starts_with("webassembly_") { "s" } else { "a" }];
        self.calls += 1;
        let turn = self.calls as usize;
        let a = Self::sent(args, |x| kinds[(turn + x.len()) % 4]);
        self.ask(&json!({"f": f, "a": a}))
    }

    /// Any request
    pub fn ask(&mut self, q: &Value) -> Result<R, Fail> {
        let mut q = q.to_string();
        q.push('\n');
        if let Some(i) = &mut self.input {
            if i.write_all(q.as_bytes()).and_then(|()| i.flush()).is_err() {
                return Err(self.line().err().unwrap_or(Fail::Gone("closed".into())));
            }
        }
        let l = self.line()?;
        let v: Value = serde_json::from_str(&l).expect("peer: answer");
        let t = |k: &str| v[k].as_str().unwrap_or_default().to_string();
        if let Some(r) = v.get("ok") {
            Ok(value(r))
        } else if v.get("err").is_some() {
            Err(Fail::Raised(t("err"), t("m")))
        } else {
            Err(Fail::Panic(format!("{}: {}", t("panic"), t("m"))))
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.input = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
