//! D05: the circuit generator as a program, under faults of the files it reads and writes, and the scripts around it.
use crate::file::*;
use libspartan::Instance;
use mccore::*;
use spartan_wasm::wasm;
use std::{os::unix::{fs::PermissionsExt, process::{CommandExt, ExitStatusExt}}, path::{Path, PathBuf}, process::{Command, Stdio}, sync::atomic::{AtomicU64, Ordering::Relaxed}};
const NOBODY: u32 = 65534;
/// A directory of its own for an unprivileged user, as whom the programs under test run.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc-d05-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap(); let d = Dir(d.canonicalize().unwrap()); d.own(); d
    }
    fn own(&self) { fn walk(p: &Path) { std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY)).ok(); if p.is_dir() && !p.is_symlink() { for e in std::fs::read_dir(p).unwrap().flatten() { walk(&e.path()) } } } walk(&self.0) }
    fn put(&self, n: &str, b: &[u8]) -> PathBuf { let p = self.0.join(n); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, b).unwrap(); p }
    fn get(&self, n: &str) -> Option<Vec<u8>> { std::fs::read(self.0.join(n)).ok() }
}
impl Drop for Dir { fn drop(&mut self) { if self.0.file_name().map_or(false, |n| n.to_string_lossy().starts_with("mc-d05-")) { std::fs::remove_dir_all(&self.0).ok(); } } }
struct Tools { dir: Dir, bin: PathBuf, shim: PathBuf, drop: bool }
impl Tools {
    fn new() -> Tools {
        let dir = Dir::new(); let root = std::env::var("VERIF_ROOT").unwrap_or(".".into());
        let bin = dir.0.join("gen_spartan_inst"); let me = std::env::current_exe().unwrap();
        std::fs::copy(me.with_file_name("gen_spartan_inst"), &bin).expect("the generator is built with the harness");
        let shim = dir.0.join("faults.so");
        let ok = Command::new("cc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&shim).arg(format!("{root}/mc/files/src/faults.c")).status().map_or(false, |s| s.success());
        assert!(ok, "the fault injector does not build");
        dir.own(); let drop = Command::new("/bin/true").uid(NOBODY).gid(NOBODY).status().map_or(false, |s| s.success()); Tools { dir, bin, shim, drop }
    }
    fn cmd(&self, prog: &Path, d: &Path) -> Command {
        let mut c = Command::new(prog);
        c.current_dir(d).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", d).env("TMPDIR", d).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()); if self.drop { c.uid(NOBODY).gid(NOBODY); } c
    }
    /// Runs the generator; whether it reported success, and the ways to tell.
    fn gen(&self, d: &Path, args: &[&str], fault: &str) -> (bool, String) {
        let mut c = self.cmd(&self.bin, d); c.args(args);
        if !fault.is_empty() { c.env("LD_PRELOAD", &self.shim).env("FAULT", fault).env("FAULT_DIR", d); }
        let o = c.output().expect("the generator starts");
        (o.status.success(), format!("exit {:?} signal {:?} {} {}", o.status.code(), o.status.signal(), String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()))
    }
}
/// What the readers of a circuit make of a file.
fn readable(b: &[u8]) -> bool { guarded(|| bincode::deserialize::<Instance>(b).is_ok()).unwrap_or(false) }
fn sample(n: u32) -> Circuit {
    // a chain of n wires; sizes differ so that a shorter file over a longer one shows
    let cons: Vec<Con> = (1..n - 1).map(|j| [vec![(j, U::ONE)], vec![(j, U::ONE), (0, U::from(j as u64))], vec![(j + 1, U::ONE)]]).collect();
    Circuit::new(n, 0, 1, cons)
}
fn expected(k: &Circuit, pubs: usize) -> Vec<u8> {
    let d = Dir::new(); let p = d.put("c.r1cs", &k.bytes()); bincode::serialize(&circuit_reader::load_as_spartan_inst(p, pubs)).unwrap()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Gen(usize), Bad(usize), Full(usize), Kill(usize), NoInput, NoArgs, BadNumber }
pub fn d05(c: &Check) {
    let th = c.thorough(); let t = Tools::new();
    let ks = [sample(3), sample(6), sample(14)]; let want: Vec<Vec<u8>> = ks.iter().map(|k| expected(k, 1)).collect();
    for (k, w) in ks.iter().zip(&want) { let _ = k; c.ensure(readable(w), "own-output-unreadable", || json!(w.len())); }
    let files: Vec<Vec<u8>> = ks.iter().map(|k| k.bytes()).collect();
    let bad: Vec<Vec<u8>> = vec![files[1][..files[1].len() - 1].to_vec(), { let mut b = files[1].clone(); b[0] ^= 1; b }, vec![]];
    let sizes: Vec<usize> = want.iter().map(|w| w.len()).collect();
    // histories of runs onto one output
    let ops: Vec<Op> = vec![Op::Gen(0), Op::Gen(1), Op::Gen(2), Op::Bad(0), Op::Full(2), Op::Kill(1), Op::NoInput, Op::NoArgs, Op::BadNumber, Op::Bad(1), Op::Full(0), Op::Kill(2), Op::Bad(2)];
    let depth = 3; let nops = if th { ops.len() } else { 9 };
    c.bound(&format!("all histories of {depth} runs over {nops} kinds (three circuits of {sizes:?} bytes; malformed, missing input; missing or bad arguments; disk full and kill half way) onto one output file, from no file and from a longer older one"));
    let all: Vec<Vec<usize>> = tuples(nops, depth).collect();
    par(all.len() * 2, |n| {
        let h = &all[n / 2]; let d = Dir::new();
        for (i, f) in files.iter().enumerate() { d.put(&format!("{i}.r1cs"), f); } for (i, f) in bad.iter().enumerate() { d.put(&format!("bad{i}.r1cs"), f); }
        let old: Vec<u8> = vec![7; 3 * sizes[2]]; if n % 2 == 1 { d.put("out", &old); } d.own();
        let mut before = d.get("out");
        for (i, o) in h.iter().enumerate() {
            let op = ops[*o]; let f = |k: usize| format!("{k}.r1cs");
            let (ok, how) = match op {
                Op::Gen(k) => t.gen(&d.0, &[&f(k), "out", "1"], ""), Op::Bad(k) => t.gen(&d.0, &[&format!("bad{k}.r1cs"), "out", "1"], ""),
                Op::Full(k) => t.gen(&d.0, &[&f(k), "out", "1"], &format!("wf:{}", sizes[k] / 2)), Op::Kill(k) => t.gen(&d.0, &[&f(k), "out", "1"], &format!("wk:{}", sizes[k] / 2)),
                Op::NoInput => t.gen(&d.0, &["none.r1cs", "out", "1"], ""), Op::NoArgs => t.gen(&d.0, &["0.r1cs", "out"], ""), Op::BadNumber => t.gen(&d.0, &["0.r1cs", "out", "one"], ""),
            };
            let after = d.get("out"); c.steps(1);
            judge(c, &t, if let Op::Gen(k) = op { Some(&want[k]) } else { None }, false, ok, &before, &after, None, || json!({"history": h[..=i].iter().map(|o| format!("{:?}", ops[*o])).collect::<Vec<_>>(), "older": n % 2 == 1, "run": how}));
            before = after;
        }
        c.states(1); c.traces(1);
    });
    // every fault point
    struct Case { k: usize, fault: String, must: Option<bool>, old: bool }
    let mut cases = vec![];
    for k in 0..ks.len() { if k == 2 && !th { continue } let (n, m) = (sizes[k], files[k].len());
        for b in 0..=n { for old in [false, true] { cases.push(Case { k, fault: format!("wf:{b}"), must: Some(b >= n), old }); cases.push(Case { k, fault: format!("wk:{b}"), must: None, old }) } }
        for s in (1..=n).filter(|s| *s <= 40 || th || s % 16 == 1 || n - s < 4) { cases.push(Case { k, fault: format!("ws:{s}"), must: Some(true), old: true }); cases.push(Case { k, fault: format!("ws:{s},wi:2"), must: Some(true), old: false }); cases.push(Case { k, fault: format!("ws:{s},wi:3"), must: Some(true), old: true }) }
        for b in 0..=m { cases.push(Case { k, fault: format!("rf:{b}"), must: None, old: b % 2 == 1 }) }
        for s in (1..=m).filter(|s| *s <= 40 || th || s % 16 == 1) { cases.push(Case { k, fault: format!("rs:{s}"), must: Some(true), old: false }); cases.push(Case { k, fault: format!("rs:{s},ri:2"), must: Some(true), old: true }) }
        for s in [1, 3, 8] { for q in [1, 2, 7] { cases.push(Case { k, fault: format!("rs:{s},ws:{q},ri:3,wi:2"), must: Some(true), old: true }) } }
    }
    c.bound(&format!("{} single runs: writes cut to every size up to 40 and on, interrupted writes and reads, disk full and kill after every number of bytes written, reading failing after every number of bytes read, reads cut to sizes; with and without an older output", cases.len()));
    par(cases.len(), |n| { let x = &cases[n]; let d = Dir::new(); d.put("in.r1cs", &files[x.k]); if x.old { d.put("out", &want[2]); } d.own();
        let before = d.get("out"); let (ok, how) = t.gen(&d.0, &["in.r1cs", "out", "1"], &x.fault); let after = d.get("out"); c.states(1); c.steps(1); c.traces(1);
        judge(c, &t, Some(&want[x.k]), true, ok, &before, &after, x.must, || json!({"circuit of": ks[x.k].wires, "fault": x.fault, "older": x.old, "run": how})); });
    // what a file cut short or longer means to its readers
    c.bound("every proper prefix of a circuit file is refused by the readers, by prove and by verify");
    { let k = &ks[0]; let f = Fp::fast(P); let mut w = vec![U::ONE, U::from(3)]; for j in 1..k.wires - 1 { let x = w[j as usize]; w.push(f.mul(&x, &f.add(&x, &U::from(j as u64)))) }
      let i = w[1].be().to_vec(); let wit = wtns(&w); let proof = guarded(|| wasm::prove(&want[0], &wit, &i).ok()).ok().flatten();
      c.ensure(proof.is_some(), "cannot-prove", || json!("the generated circuit"));
      if let Some(p) = proof { par(want[0].len(), |n| { let b = &want[0][..n]; c.states(1); c.steps(3);
        c.ensure(!readable(b), "prefix-readable", || json!(n)); c.ensure(!guarded(|| wasm::prove(b, &wit, &i).is_ok()).unwrap_or(false), "prefix-proves", || json!(n)); c.ensure(!guarded(|| matches!(wasm::verify(b, &p, &i), Ok(true))).unwrap_or(false), "prefix-verifies", || json!(n)); }) } }
    args(c, &t, &ks, &want, &files);
    // the scripts delete files: only as a user who owns nothing
    if t.drop { scripts(c, &t) } else { c.part("no unprivileged user to run the scripts as", 1) }
}
/// After a run: a reported success has written everything; otherwise nothing usable but what was there before, or all of it.
fn judge(c: &Check, t: &Tools, want: Option<&Vec<u8>>, faulty: bool, ok: bool, before: &Option<Vec<u8>>, after: &Option<Vec<u8>>, must: Option<bool>, how: impl Fn() -> Value) {
    let _ = t; let what = || json!({"run": how(), "size before": before.as_ref().map(|x| x.len()), "size after": after.as_ref().map(|x| x.len()), "size expected": want.map(|x| x.len())});
    let must = if faulty { must } else { Some(want.is_some()) };
    if must == Some(true) { c.ensure(ok, "generation-fails", what); }
    if must == Some(false) { c.ensure(!ok, "failure-not-reported", what); }
    if ok { if want.is_some() { c.ensure(after.as_ref() == want, "success-without-the-circuit", what); } }
    else if let Some(a) = after { c.ensure(Some(a) == before.as_ref() || Some(a) == want || !readable(a), "failure-leaves-another-circuit", what); }
}
fn args(c: &Check, t: &Tools, ks: &[Circuit], want: &[Vec<u8>], files: &[Vec<u8>]) {
    c.bound("input and output paths relative, nested, absolute, with spaces, through a link; other working directories; every number of public inputs and numbers that are none; unreadable input, output in no directory, in a directory that forbids it, over a file that forbids it, over a directory");
    let setup = || { let d = Dir::new(); for (i, f) in files.iter().enumerate() { d.put(&format!("in dir/{i}.r1cs"), f); d.put(&format!("{i}.r1cs"), f); } std::fs::create_dir_all(d.0.join("out dir/deep")).unwrap(); d.put("old", b"old"); std::os::unix::fs::symlink("old", d.0.join("link")).unwrap(); d.own(); d };
    for k in 0..ks.len() { for inp in ["K.r1cs", "in dir/K.r1cs", "./in dir/../K.r1cs", "/K.r1cs"] { for out in ["out", "out dir/deep/o", "./o.circuit", "/abs", "old", "link", "out dir/../old"] { for cwd in ["", "in dir"] {
        let d = setup(); let abs = |p: &str| { let p = p.replace('K', &k.to_string()); if p.starts_with('/') { format!("{}{p}", d.0.display()) } else if cwd.is_empty() { p } else { format!("../{p}") } };
        let (ok, how) = t.gen(&d.0.join(cwd), &[&abs(inp), &abs(out), "1"], ""); let got = d.get(out.trim_start_matches('/')); c.states(1); c.steps(1); c.traces(1);
        c.ensure(ok && got.as_ref() == Some(&want[k]), "path-not-honoured", || json!({"input": inp, "output": out, "cwd": cwd, "run": how})); } } } }
    for (k, circ) in ks.iter().enumerate() { for p in 0..=circ.wires as usize + 2 { let d = setup(); let (ok, how) = t.gen(&d.0, &[&format!("{k}.r1cs"), "o", &p.to_string()], ""); c.states(1); c.steps(1); c.traces(1);
        if p < circ.wires as usize { let w = expected(circ, p); c.ensure(ok && d.get("o") == Some(w), "number-of-inputs-not-honoured", || json!({"wires": circ.wires, "public": p, "run": how})); }
        else { c.ensure(!ok && d.get("o").map_or(true, |x| !readable(&x)), "more-inputs-than-wires", || json!({"wires": circ.wires, "public": p, "run": how})); } } }
    let fails = |key: &str, d: &Dir, a: &[&str], keep: &str| { let old = d.get(keep); let (ok, how) = t.gen(&d.0, a, ""); c.states(1); c.steps(1); c.traces(1); let new = d.get(keep);
        c.ensure(!ok, "failure-not-reported", || json!({"case": key, "args": a, "run": how})); if let Some(n) = &new { c.ensure(Some(n) == old.as_ref() || !readable(n), "failure-leaves-another-circuit", || json!({"case": key, "args": a})); } };
    for n in ["", "x", "-1", "1.0", "1x", "0x1", "99999999999999999999999"] { fails("number", &setup(), &["0.r1cs", "old", n], "old") }
    for a in [&[][..], &["0.r1cs"], &["0.r1cs", "old"]] { fails("arguments", &setup(), a, "old") }
    for (i, o) in [("none", "old"), ("in dir", "old"), ("", "old"), ("0.r1cs", "nodir/o"), ("0.r1cs", "out dir"), ("0.r1cs", "old/o"), ("none/0.r1cs", "old")] { fails("paths", &setup(), &[i, o, "1"], "old") }
    let chmod = |d: &Dir, p: &str, m: u32| std::fs::set_permissions(d.0.join(p), std::fs::Permissions::from_mode(m)).unwrap();
    if t.drop { let d = setup(); chmod(&d, "0.r1cs", 0); fails("unreadable input", &d, &["0.r1cs", "old", "1"], "old"); c.ensure(d.get("old") == Some(b"old".to_vec()), "output-touched-without-input", || json!("unreadable input")); }
    if t.drop { let d = setup(); chmod(&d, "out dir", 0o555); fails("directory forbids", &d, &["0.r1cs", "out dir/o", "1"], "old"); chmod(&d, "out dir", 0o755); }
    // every cut of the input: the output is never a circuit
    for n in 0..files[0].len() { let d = Dir::new(); d.put("cut.r1cs", &files[0][..n]); d.own(); let (ok, how) = t.gen(&d.0, &["cut.r1cs", "o", "1"], ""); c.states(1); c.steps(1); c.traces(1); c.ensure(!ok && d.get("o").map_or(true, |x| !readable(&x)), "cut-input-converted", || json!({"bytes": n, "run": how})); }
}
/// The scripts that compile the circuits and hand them to the library, with stand-ins for the tools they call.
fn scripts(c: &Check, t: &Tools) {
    let Ok(rd) = std::fs::read_dir("/repo/scripts") else { c.part("no build scripts", 1); return };
    let src: Vec<(String, Vec<u8>)> = rd.flatten().filter(|e| e.path().extension().map_or(false, |x| x == "sh")).map(|e| (e.file_name().to_string_lossy().into(), std::fs::read(e.path()).unwrap())).collect();
    let names = ["addr_membership", "pubkey_membership"]; let have = |n: &str| src.iter().any(|s| s.0 == n);
    if !names.iter().all(|n| have(&format!("{n}_circuit.sh"))) { c.part("no build scripts", 1); return }
    // the instances have one constant, five public inputs and no outputs
    let f = Fp::fast(P); let _ = f;
    let circ = |i: usize| { let n = 9 + 4 * i as u32; let mut k = sample(n); k.inp = 5; k.prv = n - 6; k };
    let want: Vec<Vec<u8>> = (0..2).map(|i| expected(&circ(i), 5)).collect();
    const CIRCOM: &str = "#!/bin/sh\n# stand-in: circom FILE --r1cs --wasm --prime secq256k1 -o DIR\nsrc= out=. r1cs= wasm= prime=\nwhile [ $# -gt 0 ]; do case $1 in -o|--output) out=$2; shift;; --r1cs) r1cs=1;; --wasm) wasm=1;; -p|--prime) prime=$2; shift;; -*) ;; *) src=$1;; esac; shift; done\n[ -f \"$src\" ] && [ -d \"$out\" ] && [ \"$prime\" = secq256k1 ] || exit 1\nn=$(basename \"$src\" .circom)\nfail=$(cat ../fail 2>/dev/null || cat fail 2>/dev/null)\n[ \"$fail\" = \"circom-early $n\" ] && exit 1\n[ -n \"$r1cs\" ] && cp \"$src\" \"$out/$n.r1cs\"\n[ \"$fail\" = \"circom-cut $n\" ] && { head -c 100 \"$src\" > \"$out/$n.r1cs\"; }\n[ \"$fail\" = \"circom-mid $n\" ] && exit 1\n[ -n \"$wasm\" ] && { mkdir -p \"$out/${n}_js\" && echo \"wasm of $n $(cksum < \"$src\")\" > \"$out/${n}_js/$n.wasm\"; }\nexit 0\n";
    const CARGO: &str = "#!/bin/sh\n# stand-in: cargo run ... --bin gen_spartan_inst ARGS\nbin=\n[ \"$1\" = run ] || exit 0\nshift\nwhile [ $# -gt 0 ]; do case $1 in --bin) bin=$2; shift; shift; break;; *) shift;; esac; done\n[ \"$1\" = -- ] && shift\n[ \"$bin\" = gen_spartan_inst ] || exit 1\nn=$(basename \"$1\" .r1cs)\nfail=$(cat fail 2>/dev/null)\n[ \"$fail\" = \"build $n\" ] && exit 101\n[ \"$fail\" = \"full $n\" ] && { LD_PRELOAD=$SHIM FAULT=wf:200 FAULT_DIR=$PWD exec $GEN \"$@\"; }\n[ \"$fail\" = \"kill $n\" ] && { LD_PRELOAD=$SHIM FAULT=wk:200 FAULT_DIR=$PWD $GEN \"$@\"; exit $?; }\n[ \"$fail\" = \"short $n\" ] && { LD_PRELOAD=$SHIM FAULT=ws:100 FAULT_DIR=$PWD exec $GEN \"$@\"; }\nexec $GEN \"$@\"\n";
    const PACK: &str = "#!/bin/sh\n# stand-in: wasm-pack build --target web --out-dir DIR\nout=pkg\nwhile [ $# -gt 0 ]; do case $1 in --out-dir|-d) out=$2; shift;; esac; shift; done\n[ \"$(cat ../../fail 2>/dev/null)\" = pack ] && exit 1\nmkdir -p \"$out\" && echo engine > \"$out/spartan_wasm_bg.wasm\"\n";
    let lay = |fail: &str, old: bool| { let d = Dir::new(); for (n, b) in &src { d.put(&format!("scripts/{n}"), b); }
        for (i, n) in names.iter().enumerate() { d.put(&format!("packages/circuits/instances/{n}.circom"), &circ(i).bytes()); if old { d.put(&format!("packages/lib/src/circuits/{n}.circuit"), b"older circuit"); d.put(&format!("packages/lib/src/circuits/{n}.wasm"), b"older wasm"); d.put(&format!("packages/circuits/build/{n}/{n}.circuit"), &[9; 9000]); } }
        std::fs::create_dir_all(d.0.join("packages/spartan_wasm/src")).unwrap(); if old { d.put("packages/spartan_wasm/build/stale", b"stale"); }
        std::fs::create_dir_all(d.0.join("packages/lib/src")).unwrap(); d.put("fail", fail.as_bytes());
        for (n, b) in [("circom", CIRCOM), ("cargo", CARGO), ("wasm-pack", PACK)] { let p = d.put(&format!("bin/{n}"), b.as_bytes()); std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap(); } d.own(); d };
    let run = |d: &Dir, s: &str| { let mut k = t.cmd(Path::new("/bin/sh"), &d.0); k.arg(format!("scripts/{s}")).env("PATH", format!("{}/bin:/usr/bin:/bin", d.0.display())).env("GEN", &t.bin).env("SHIM", &t.shim); let o = k.output().unwrap(); (o.status.success(), format!("{:?} {} {}", o.status.code(), String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))) };
    let circuit = |n: &str| format!("packages/lib/src/circuits/{n}.circuit"); let wasmf = |n: &str| format!("packages/lib/src/circuits/{n}.wasm");
    let mut fails = vec!["".to_string(), "pack".into()]; for n in names { for k in ["circom-early", "circom-mid", "circom-cut", "build", "full", "kill", "short"] { fails.push(format!("{k} {n}")) } }
    let mut jobs = vec![]; for s in ["addr_membership_circuit.sh", "pubkey_membership_circuit.sh", "build.sh"] { if have(s) { for f in &fails { for old in [false, true] { jobs.push((s, f.clone(), old)) } } } }
    c.bound(&format!("{} runs of the build scripts with stand-in compilers, each step failing in turn (and the generator's disk full, kill, short writes), on a fresh tree and over an older build: the library gets exactly the new circuit and witness generator with the five public inputs of the instances, or the script fails and the library's circuit stays", jobs.len()));
    par(jobs.len(), |j| { let (s, fail, old) = &jobs[j]; let d = lay(fail, *old); let (ok, how) = run(&d, s); c.states(1); c.steps(1); c.traces(1);
        let touched: Vec<usize> = match *s { "build.sh" => vec![0, 1], x if x.starts_with("addr") => vec![0], _ => vec![1] };
        let hit = !fail.starts_with("short") && match fail.as_str() { "" => false, "pack" => *s == "build.sh", f => touched.iter().any(|i| f.ends_with(&format!(" {}", names[*i]))) };
        let what = || json!({"script": s, "failing step": fail, "over an older build": old, "run": how});
        c.ensure(ok == !hit, if hit { "script-hides-failure" } else { "script-fails" }, what);
        for (i, n) in names.iter().enumerate() { let got = d.get(&circuit(n)); let prev = old.then(|| b"older circuit".to_vec()); let w = d.get(&wasmf(n)); let _ = w;
            if ok && !hit && touched.contains(&i) { c.ensure(got.as_ref() == Some(&want[i]) && d.get(&wasmf(n)).map_or(false, |x| x.starts_with(format!("wasm of {n}").as_bytes())), "library-without-the-circuit", || json!({"circuit": n, "case": what()})); }
            else { c.ensure(got == prev || got.as_ref() == Some(&want[i]), "library-gets-another-circuit", || json!({"circuit": n, "case": what()})); } } });
    let _ = &t.dir;
}
