//! E01: all parts of the system together, from a signature to a verdict. The library runs under node
//! (drive.mjs); what it has compiled for it elsewhere, the proof engine and the witness generators, is
//! served from here: the engine by the real entry points, the generators by interpreting the circuits.
#![allow(dead_code)]
#[path = "../../circom/src/build.rs"] mod build;
#[path = "../../circom/src/fd.rs"] mod fd;
#[path = "../../circom/src/lab.rs"] mod lab;
#[path = "../../circom/src/lang.rs"] mod lang;
#[path = "../../circom/src/solve.rs"] mod solve;
#[path = "../../circom/src/spec.rs"] mod spec;
#[path = "../../files/src/file.rs"] mod file;
mod compile;
use compile::Compiled;
use mccore::*;
use spartan_wasm::wasm;
use std::{io::{BufRead, BufReader, Write}, path::{Path, PathBuf}, process::{Command, Stdio}, sync::{atomic::{AtomicU64, Ordering::Relaxed}, Arc, Condvar, Mutex, OnceLock}};

const KINDS: [&str; 2] = ["pubkey", "addr"];
struct World { dir: PathBuf, made: [OnceLock<Result<Compiled, String>>; 2], big: (Mutex<usize>, Condvar), files: AtomicU64 }
impl World {
    /// Compiles an instance, and converts it with the real generator as the build scripts do.
    fn make(&self, c: &Check, k: usize) -> Result<Compiled, String> {
        let name = KINDS[k]; let f = Arc::new(fd::Fd::real());
        let r = guarded(|| compile::compile(&f, &format!("instances/{name}_membership.circom"))).and_then(|x| x)?;
        let (src, out) = (self.dir.join(format!("{name}.r1cs")), self.dir.join(format!("{name}.circuit"))); std::fs::write(&src, r.r1cs.bytes()).map_err(|e| e.to_string())?;
        let pubs = r.circ.public.len(); let gen = std::env::current_exe().unwrap().with_file_name("e2e_gen");
        let o = Command::new(gen).arg(&src).arg(&out).arg(pubs.to_string()).output().map_err(|e| e.to_string())?;
        if !o.status.success() { return Err(format!("the generator fails: {}", String::from_utf8_lossy(&o.stderr))) }
        std::fs::remove_file(&src).ok(); c.part(&format!("{name}: constraints after simplification"), r.r1cs.cons.len() as u64); c.part(&format!("{name}: wires"), r.r1cs.wires as u64); Ok(r)
    }
    /// Large proofs one at a time per slot.
    fn slot<T>(&self, big: bool, f: impl FnOnce() -> T) -> T {
        if !big { return f() } { let mut n = self.big.0.lock().unwrap(); while *n == 0 { n = self.big.1.wait(n).unwrap() } *n -= 1 }
        let r = f(); *self.big.0.lock().unwrap() += 1; self.big.1.notify_one(); r
    }
    fn new_file(&self, b: &[u8]) -> PathBuf { let p = self.dir.join(format!("made-{}", self.files.fetch_add(1, Relaxed))); std::fs::write(&p, b).unwrap(); p }
    fn made(&self, k: usize) -> Result<&Compiled, String> { self.made[k].wait().as_ref().map_err(|e| e.clone()) }
    fn serve(&self, c: &Check, q: &Value) -> Value {
        let s = |k: &str| q[k].as_str().unwrap_or(""); let unhex = |k: &str| -> Vec<u8> { let h = s(k).as_bytes(); h.chunks(2).map(|x| u8::from_str_radix(std::str::from_utf8(x).unwrap(), 16).unwrap()).collect() };
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>(); let out = |r: Result<Result<Vec<u8>, _>, String>| match r { Ok(Ok(b)) => json!({"hex": hex(&b)}), Ok(Err(_)) => json!({"error": "error"}), Err(e) => json!({"trap": e}) };
        match s("op") {
            "ready" => { let k = q["kind"].as_u64().unwrap() as usize; match self.made(k) { Ok(_) => json!({"path": self.dir.join(format!("{}.circuit", KINDS[k]))}), Err(e) => json!({"error": e}) } }
            "poseidon" => { c.steps(1); let b = unhex("hex"); out(guarded(|| wasm::poseidon(&b))) }
            "address" => json!({"hex": spec::address(&U::from_hex(s("x")), &U::from_hex(s("y"))).hex()}),
            "witness" => { c.steps(1); match self.witness(q) { Ok(b) => json!({"path": self.new_file(&b)}), Err(e) => json!({"error": e}) } }
            "prove" => { c.steps(1); let (a, b) = (std::fs::read(s("circuit")).unwrap(), std::fs::read(s("witness")).unwrap()); let p = unhex("public"); out(self.slot(a.len() > 20_000_000, || guarded(|| wasm::prove(&a, &b, &p)))) }
            "verify" => { c.steps(1); let a = std::fs::read(s("circuit")).unwrap(); let (p, i) = (unhex("proof"), unhex("public")); match self.slot(a.len() > 20_000_000, || guarded(|| wasm::verify(&a, &p, &i))) { Ok(Ok(b)) => json!({"ok": b}), Ok(Err(_)) => json!({"error": "error"}), Err(e) => json!({"trap": e}) } }
            "forget" => { for p in q["paths"].as_array().unwrap() { let p = Path::new(p.as_str().unwrap()); if p.parent() == Some(&self.dir) && p.extension().is_none() { std::fs::remove_file(p).ok(); } } json!({}) }
            "state" => { c.states(1); c.traces(1); c.part(s("what"), 1); json!({}) }
            "count" => { c.part(s("what"), 1); json!({}) }
            "bound" => { c.bound(s("text")); json!({}) }
            "fail" => { c.fail(s("key"), q["detail"].clone()); json!({}) }
            x => panic!("operation {x}"),
        }
    }
    /// What the witness program does with its input: every signal by name, the right number of values, values reduced.
    fn witness(&self, q: &Value) -> Result<Vec<u8>, String> {
        let file = q["file"].as_str().unwrap_or(""); let k = KINDS.iter().position(|k| file == self.dir.join(format!("{k}.wasm")).to_str().unwrap()).ok_or(format!("no such file: {file}"))?; let m = self.made(k)?;
        let mut inp = vec![]; for (n, v) in q["input"].as_object().ok_or("input")? { let v = v.as_array().unwrap().iter().map(|x| U::from_hex(x.as_str().unwrap())).collect::<Vec<_>>(); if !m.circ.ins.iter().any(|i| i.0 == *n) { return Err(format!("Signal not found: {n}")) } inp.push((n.as_str(), v)) }
        let w = m.circ.witness(&m.circ.place(&inp)?); if q["lax"] != json!(true) { if let Some(i) = m.circ.broken(&w) { return Err(format!("Assert Failed: constraint {i}")) } if !m.circ.asserts_hold(&w) { return Err("Assert Failed".into()) } }
        Ok(file::wtns(&m.values(&w)))
    }
}
fn e01(c: &Check) {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into()); let dir = PathBuf::from(&root).join(format!("target/scratch/e2e-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let w = World { dir, made: [OnceLock::new(), OnceLock::new()], big: (Mutex::new(3), Condvar::new()), files: 0.into() }; let n = 8;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| std::thread::scope(|s| {
        for k in 0..2 { let w = &w; std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || { let r = guarded(|| w.make(c, k)).and_then(|x| x); if let Err(e) = &r { c.fail(&format!("{}-circuit-cannot-be-built", KINDS[k]), json!(e)) } w.made[k].set(r).ok() }).unwrap(); }
        for i in 0..n { let (w, root) = (&w, &root); std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
            let mut ch = Command::new("node").arg(format!("{root}/mc/e2e/drive.mjs")).args([i.to_string(), n.to_string()]).env("E2E_DIR", &w.dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("node");
            let err = ch.stderr.take().unwrap(); let log = std::thread::spawn(move || { let mut s = String::new(); std::io::Read::read_to_string(&mut BufReader::new(err), &mut s).ok(); s });
            let (mut to, mut from) = (ch.stdin.take().unwrap(), BufReader::new(ch.stdout.take().unwrap())); let mut line = String::new();
            while from.read_line(&mut line).unwrap_or(0) > 0 { let q: Value = serde_json::from_str(&line).unwrap_or_else(|e| panic!("{e}: {line}")); line.clear(); let r = w.serve(c, &q); if writeln!(to, "{r}").is_err() { break } }
            let st = ch.wait().unwrap(); let log = log.join().unwrap(); if !st.success() { eprintln!("{log}"); c.fail("library-ended", json!({"shard": i, "status": st.to_string(), "error": log.chars().take(2000).collect::<String>()})) } }).unwrap(); }
    })));
    std::fs::remove_dir_all(&w.dir).ok(); if let Err(e) = r { std::panic::resume_unwind(e) }
}
fn main() { main_with(&[("E01", e01)]) }
