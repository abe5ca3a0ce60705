//! A persistent SMT solver process.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Answer { Sat(Vec<f64>), Unsat, Unknown }
impl Answer { pub fn kind(&self) -> &'static str { match self { Answer::Sat(_) => "sat", Answer::Unsat => "unsat", Answer::Unknown => "unknown" } } }

struct Proc { child: Child, stdin: ChildStdin, rx: Receiver<String> }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn spawn(cmd: &str) -> Option<Proc> {
    let mut child = Command::new(cmd).args(["-in", "pp.decimal=true", "pp.decimal_precision=24", "-memory:3000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let stdin = child.stdin.take()?;
    let out = child.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break; }, Err(_) => break } } });
    Some(Proc { child, stdin, rx })
}

pub struct Solver { procs: Vec<(&'static str, Option<Proc>)> }

impl Solver {
    pub fn new() -> Solver { Solver { procs: vec![("z3-new", None), ("z3", None)] } }
    /// Tries the portfolio in order until one decides.
    pub fn solve(&mut self, smt: &str, ms: u64, names: &[String]) -> Answer {
        let plan: [(usize, &str, u64); 4] = [(0, "(check-sat)", ms / 2), (0, "(check-sat-using qfnra-nlsat)", ms / 4), (1, "(check-sat)", ms / 4), (1, "(check-sat-using (then simplify solve-eqs qfnra-nlsat))", ms / 4)];
        for (i, how, t) in plan {
            if t == 0 { continue; }
            let r = self.one(i, smt, how, t, names);
            if !matches!(r, Answer::Unknown) { return r; }
        }
        Answer::Unknown
    }
    /// One attempt with a short limit.
    pub fn quick(&mut self, smt: &str, ms: u64, names: &[String]) -> Answer { self.one(0, smt, "(check-sat)", ms, names) }
    fn one(&mut self, i: usize, smt: &str, how: &str, ms: u64, names: &[String]) -> Answer {
        if self.procs[i].1.is_none() { self.procs[i].1 = spawn(self.procs[i].0); }
        let r = match self.procs[i].1.as_mut() { Some(p) => run(p, smt, how, ms, names), None => Err(()) };
        match r { Ok(a) => a, Err(()) => { self.procs[i].1 = None; Answer::Unknown } }
    }
}

fn run(p: &mut Proc, smt: &str, how: &str, ms: u64, names: &[String]) -> Result<Answer, ()> {
    let text = format!("(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n{}{}\n(echo \"--done--\")\n", ms, smt, how);
    p.stdin.write_all(text.as_bytes()).map_err(|_| ())?;
    p.stdin.flush().map_err(|_| ())?;
    let end = Instant::now() + Duration::from_millis(ms * 2 + 2000);
    let mut ans = None;
    let mut err = false;
    loop {
        let l = recv(p, end)?;
        let l = l.trim();
        if l == "--done--" || l == "\"--done--\"" { break; }
        if l.starts_with("(error") { err = true; }
        if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" { ans = Some(l.to_string()); }
    }
    if err { return Ok(Answer::Unknown); }
    match ans.as_deref() {
        Some("unsat") => Ok(Answer::Unsat),
        Some("sat") => {
            if names.is_empty() { return Ok(Answer::Sat(vec![])); }
            let text = format!("(get-value ({}))\n(echo \"--done--\")\n", names.join(" "));
            p.stdin.write_all(text.as_bytes()).map_err(|_| ())?;
            p.stdin.flush().map_err(|_| ())?;
            let end = Instant::now() + Duration::from_millis(10000);
            let mut buf = String::new();
            loop {
                let l = recv(p, end)?;
                if l.trim() == "--done--" || l.trim() == "\"--done--\"" { break; }
                buf.push_str(&l);
                buf.push('\n');
            }
            if buf.contains("(error") { return Ok(Answer::Unknown); }
            match parse_values(&buf, names) { Some(v) => Ok(Answer::Sat(v)), None => Ok(Answer::Unknown) }
        }
        _ => Ok(Answer::Unknown),
    }
}

fn recv(p: &Proc, end: Instant) -> Result<String, ()> {
    let left = end.saturating_duration_since(Instant::now());
    match p.rx.recv_timeout(left) { Ok(l) => Ok(l), Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => Err(()) }
}

#[derive(Debug)]
enum S { A(String), L(Vec<S>) }

fn parse(t: &[String], i: &mut usize) -> Option<S> {
    let x = t.get(*i)?;
    *i += 1;
    if x == "(" {
        let mut v = vec![];
        while t.get(*i)? != ")" { v.push(parse(t, i)?); }
        *i += 1;
        Some(S::L(v))
    } else { Some(S::A(x.clone())) }
}

fn num(s: &S) -> Option<f64> {
    match s {
        S::A(a) => a.trim_end_matches('?').parse::<f64>().ok(),
        S::L(v) => {
            let op = match v.first()? { S::A(a) => a.as_str(), _ => return None };
            match op {
                "-" if v.len() == 2 => Some(-num(&v[1])?),
                "-" => Some(num(&v[1])? - num(&v[2])?),
                "+" => Some(num(&v[1])? + num(&v[2])?),
                "*" => Some(num(&v[1])? * num(&v[2])?),
                "/" => Some(num(&v[1])? / num(&v[2])?),
                _ => None,
            }
        }
    }
}

fn parse_values(s: &str, names: &[String]) -> Option<Vec<f64>> {
    let spaced = s.replace('(', " ( ").replace(')', " ) ");
    let t: Vec<String> = spaced.split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    let l = match parse(&t, &mut i)? { S::L(v) => v, _ => return None };
    let mut m = std::collections::HashMap::new();
    for p in &l { if let S::L(kv) = p { if let S::A(k) = &kv[0] { m.insert(k.clone(), num(&kv[1])?); } } }
    names.iter().map(|n| m.get(n).cloned()).collect()
}
