use std::process::Command;
fn section(t: u32, b: &[u8]) -> Vec<u8> { let mut v = t.to_le_bytes().to_vec(); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); v }
fn main() {
    let p = { let mut p = [0xffu8; 32]; p[..8].copy_from_slice(&0xfffffffefffffc2fu64.to_le_bytes()); p };
    let n = 40u32; let mut one = [0u8; 32]; one[0] = 1;
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(p); for x in [n, 0, 1, n - 2] { h.extend(x.to_le_bytes()); } h.extend((n as u64).to_le_bytes()); h.extend((n - 2).to_le_bytes());
    // wire j + 1 is wire j squared
    let mut c = vec![]; for j in 1..n - 1 { for w in [j, j, j + 1] { c.extend(1u32.to_le_bytes()); c.extend(w.to_le_bytes()); c.extend(one); } }
    let m: Vec<u8> = (0..n as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(3u32.to_le_bytes()); f.extend(section(1, &h)); f.extend(section(2, &c)); f.extend(section(3, &m));
    let d = std::env::current_dir().unwrap(); std::fs::write(d.join("c.r1cs"), f).unwrap();
    let want = bincode::serialize(&circuit_reader::load_as_spartan_inst(d.join("c.r1cs"), 1)).unwrap();
    let gen = std::env::current_exe().unwrap().with_file_name("gen");
    assert!(gen.exists());
    for kb in 0..want.len() / 1024 + 3 {
        let _ = std::fs::remove_file(d.join("out"));
        // files may take no more than kb KiB; the write beyond fails
        let o = Command::new("bash").args(["-c", "trap '' XFSZ; ulimit -f $1; exec \"$2\" c.r1cs out 1 >/dev/null 2>&1", "x", &kb.to_string()]).arg(&gen).current_dir(&d).status().unwrap();
        let got = std::fs::read(d.join("out")).unwrap_or_default();
        assert_eq!(o.success(), got == want, "limit of {kb} KiB: reported success: {}, {} of {} bytes written", o.success(), got.len(), want.len());
    }
}
