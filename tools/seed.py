#!/usr/bin/env python3
"""seed.py ID...: writes /verif/seeded/ID from tools/seeds/ID.{py,rs|mjs} and validates it:
the patch applies, builds, passes the stable tests; the demo passes without it and fails with it;
the property's quick check reports it (or not: printed)."""
import sys, os, json, subprocess, shutil, tempfile, re
V = "/verif"; R = "/repo"
def sh(cmd, cwd=R, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout
RUST = {  # name -> dependency line
 "spartan": 'spartan = { path = "@REPO@/packages/Spartan-secq" }', "secq256k1": 'secq256k1 = { path = "@REPO@/packages/secq256k1" }',
 "circuit_reader": 'circuit_reader = { path = "@REPO@/packages/circuit_reader" }', "spartan_wasm": 'spartan_wasm = { path = "@REPO@/packages/spartan_wasm" }', "poseidon": 'poseidon = { path = "@REPO@/packages/poseidon" }' }
LIBS = {"merlin": "3.0.0", "bincode": "1.3", "serde": "1", "ff": "0.12", "group": "0.12", "subtle": "2", "rand_core": "0.6", "byteorder": "1.4", "itertools": "0.9", "getrandom": "0.2"}
PATCH = {"multiexp": "multiexp", "merlin": "merlin", "digest": "digest08", "sha3": "sha3_08", "rand": "rand07", "colored": "colored", "serdect": "serdect", "getrandom": "getrandom", "itertools": "itertools010", "rfc6979": "rfc6979", "criterion": "criterion", "num-bigint": "num-bigint", "serde-wasm-bindgen": "serde-wasm-bindgen", "console_error_panic_hook": "console_error_panic_hook", "wasm-bindgen": "wasm-bindgen", "web-sys": "web-sys"}
SCALAR_DEPS = 'num-bigint-dig = "0.7"\nserde = { version = "1.0.106", features = ["derive"] }\nbincode = "1.3"\nsubtle = { version = "2.4", default-features = false }\nrand_core = { version = "0.6", default-features = false }\nzeroize = { version = "1", default-features = false, features = ["alloc"] }\nthiserror = "1.0"\nnum-traits = "0.2.15"\nhex-literal = "0.3"\nbyteorder = "1"\nff = "0.12"\ngroup = "0.12"\nitertools = "0.9"\n'
RUST_SH = '''#!/bin/bash
# Builds a small program against the sources in the current directory and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/.cargo"
cp -r "$here/kit/." "$t/"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$t/Cargo.toml"
sed "s#@REPO@#$repo#g" "$here/main.rs.in" > "$t/src/main.rs"
[ -f "$t/config.in" ] && cp "$t/config.in" "$t/.cargo/config.toml"
cd "$t" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
cargo build --release --offline >"$t/log" 2>&1 || { tail -30 "$t/log"; echo "demo does not build"; exit 3; }
timeout 200 ./target/release/demo
'''
CIRCOM = '''#![allow(dead_code, unused_imports)]
mod fd; mod lang; mod build; mod solve; mod spec;
use {build::*, fd::Fd, lang::*, solve::*, spec::*, mccore::{ec::*, *}, std::sync::Arc, std::path::PathBuf};
fn g() -> Pt { Some((U::from_hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), U::from_hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))) }
fn circuit(file: &str, template: &str, params: &[u64]) -> Circuit {
    let p = Program::load(&PathBuf::from(format!("@REPO@/packages/circuits/{file}")), &PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/circomlib"))).map(Arc::new).expect("parse");
    let f = Arc::new(Fd::real()); if template.is_empty() { Builder::main(&f, &p).expect("instantiate").0 } else { Builder::circuit(&f, &p, template, params).expect("instantiate") }
}
type In<'a> = Vec<(&'a str, Vec<U>)>;
fn one(v: U) -> Vec<U> { vec![v] }
/// The honest witness satisfies the constraints.
fn honest(c: &Circuit, i: &In) -> Option<Vec<U>> { let p = c.place(i).expect("inputs"); let w = c.witness(&p); if c.broken(&w).is_none() && c.asserts_hold(&w) { Some(w) } else { None } }
/// An assignment with these inputs whose outputs are not `outs` (or any assignment at all if there are none).
fn cheat(c: &Circuit, i: &In, outs: &In, like: Option<&[U]>) -> Option<Vec<U>> {
    let p = c.place(i).expect("inputs"); let w = c.witness(&p); let mut want = vec![];
    for (n, v) in outs { let o = c.outs.iter().find(|o| o.0 == *n).expect("output"); for (k, x) in v.iter().enumerate() { want.push((o.1 + k as u32, *x)) } }
    let sys = Sys::new(c); let probes = [U::ZERO, U::ONE, U::from(2), P.sub(&U::ONE).0]; let goal = if outs.is_empty() { Goal::Any } else { Goal::Differ(&want) };
    if outs.is_empty() && c.broken(&w).is_none() { return Some(w) }
    if let (Some(v), _) = sys.single(&w, &goal, &probes) { return Some(v) }
    sys.explore(&p, &goal, Some(like.unwrap_or(&w)), &probes, 20_000).0
}
'''
TS_SH = '''#!/bin/bash
# Runs a small program against the TypeScript sources in the current directory: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_LIB="$PWD/packages/lib"
exec timeout 200 node "$here/demo.mjs"
'''
def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(s)
def make(id):
    g = {}; exec(open(f"{V}/tools/seeds/{id}.py").read(), g)
    d = f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh("git status --porcelain")[1].strip(), "dirty /repo"
    for f, old, new in g["edits"]:
        p = f"{R}/{f}"; s = open(p).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, "w").write(s.replace(old, new))
    diff = sh("git diff")[1]; sh("git checkout -- ."); write(f"{d}/patch.diff", diff)
    # The lines changed must be of the original repository.
    for f, old, new in g["edits"]:
        import difflib
        cur = open(f"{R}/{f}").read(); after = cur.replace(old, new)
        bl = sh(f"git blame -s 746435e..HEAD -- {f}")[1].splitlines()
        sm = difflib.SequenceMatcher(None, cur.splitlines(), after.splitlines(), autojunk=False)
        orig = any(tag != "equal" and any(bl[i].startswith("^") for i in range(i1, i2)) for tag, i1, i2, _, _ in sm.get_opcodes())
        print("  changes original lines of", f, ":", orig)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    kit = g["kit"]
    if kit == "ts":
        for f in ["engine.mjs", "standins.mjs", "curve.mjs", "poseidon.mjs"]: shutil.copy(f"{V}/mc/lib/{f}", d)
        shutil.copy(f"{V}/tools/seeds/{id}.mjs", f"{d}/demo.mjs"); write(f"{d}/demo.sh", TS_SH)
    elif kit == "sh":
        write(f"{d}/demo.sh", g["demo"]); [shutil.copytree(f"{V}/{x}", f"{d}/{os.path.basename(x)}") if os.path.isdir(f"{V}/{x}") else shutil.copy(f"{V}/{x}", d) for x in g.get("extra", [])]
    else:
        main = open(f"{V}/tools/seeds/{id}.rs").read()
        pre = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.release]\nopt-level = 2\n'
        if kit == "circom":
            write(f"{d}/Cargo.toml.in", pre + '[dependencies]\nmccore = { path = "core" }\n'); main = CIRCOM + main
            for x in ["fd", "lang", "build", "solve", "spec"]: write(f"{d}/kit/src/{x}.rs", open(f"{V}/mc/circom/src/{x}.rs").read())
            shutil.copytree(f"{V}/mc/core", f"{d}/kit/core", ignore=shutil.ignore_patterns("target")); shutil.copytree(f"{V}/mc/circom/circomlib", f"{d}/kit/circomlib")
            write(f"{d}/kit/Cargo.lock", open(f"{V}/mc/circom/Cargo.lock").read().replace('name = "mc-circom"', 'name = "demo"'))
        elif kit == "scalar":
            write(f"{d}/Cargo.toml.in", pre + "[dependencies]\n" + SCALAR_DEPS); main = '#![allow(dead_code)]\nmod sut { #[path = "@REPO@/packages/Spartan-secq/src/scalar/scalar.rs"] pub mod scalar; }\nuse sut::scalar::Scalar;\n' + main
            os.makedirs(f"{d}/kit"); write(f"{d}/kit/README", "scratch\n")
        else:
            deps = kit.split(); write(f"{d}/Cargo.toml.in", pre + g.get("toml", "") + "[dependencies]\n" + "".join((RUST[x] if x in RUST else f'{x} = "{LIBS[x]}"') + "\n" for x in deps) + "[patch.crates-io]\n" + "".join(f'{k} = {{ path = "shims/{v}" }}\n' for k, v in PATCH.items()))
            os.makedirs(f"{d}/kit"); shutil.copytree(f"{V}/shims", f"{d}/kit/shims", ignore=shutil.ignore_patterns("target")); shutil.copytree(f"{V}/vendor", f"{d}/kit/vendor", ignore=shutil.ignore_patterns("target"))
            write(f"{d}/kit/Cargo.lock", open(f"{V}/mc/files/Cargo.lock").read().replace('name = "mc-files"', 'name = "demo"'))
            c = open(f"{V}/.cargo/config.toml").read().replace('target-dir = "target"\n', ""); write(f"{d}/kit/config.in", c)
        write(f"{d}/main.rs.in", main); write(f"{d}/demo.sh", RUST_SH)
    os.chmod(f"{d}/demo.sh", 0o755); return g
def validate(id, g):
    d = f"{V}/seeded/{id}"; res = {}
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); shutil.copytree(d, f"{t}/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        rc, out = sh(f"bash {t}/x/demo.sh"); res["demo clean"] = rc
        if rc: print(out[-1500:])
        rc, out = sh(f"git apply {d}/patch.diff"); assert rc == 0, out
        try:
            rc, out = sh("bash /opt/vp/build.sh"); res["build"] = rc
            if rc: print(out[-1500:])
            rc, out = sh("bash /opt/vp/test.sh /tmp/seed-test.json"); r = json.load(open("/tmp/seed-test.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            res["tests"] = re.findall(r"test result.*", out)[:4]
            rc, out = sh(f"bash {t}/x/demo.sh"); res["demo patched"] = rc; print("   demo says:", out[-300:].strip())
            for pid in [g["prop"]] + g.get("also", []):
                m = [c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"] if c["property"] == pid]
                if not m: res["check " + pid] = "none"; continue
                rc, out = sh(m[0]["quick_cmd"], cwd=V); res["check " + pid] = (rc, [l[:200] for l in out.splitlines() if "VIOLATION" in l][:2] or out[-300:])
        finally: sh("git checkout -- .")
    finally: shutil.rmtree(t, ignore_errors=True)
    for k, v in res.items(): print("  ", k, ":", v)
    ok = res["demo clean"] == 0 and res["build"] == 0 and res["demo patched"] not in (0, 2, 3)
    print(id, "COUNTS" if ok else "*** DOES NOT COUNT", "CAUGHT" if isinstance(res.get("check " + g["prop"]), tuple) and res["check " + g["prop"]][0] == 1 else "*** MISSED")
for a in sys.argv[1:]:
    print("==", a); g = make(a); validate(a, g)
