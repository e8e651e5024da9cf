use libspartan::*;
use merlin::Transcript;
fn main() {
    let b = |v: u8| { let mut b = [0u8; 32]; b[0] = v; b };
    let one = b(1);
    let m: Vec<(usize, usize, [u8; 32])> = (0..16).map(|i| (i, i, one)).collect();
    let inst = Instance::new(16, 16, 0, &m, &(0..16).map(|i| (i, 16, one)).collect::<Vec<_>>(), &m).unwrap();
    let gens = NIZKGens::new(16, 16, 0);
    for v in [0u8, 1, 7] {
        let vars = Assignment::new(&vec![b(v); 16]).unwrap();
        let proof = NIZK::prove(&inst, vars, &Assignment::new(&[]).unwrap(), &gens, &mut Transcript::new(b"demo"));
        let x = bincode::serialize(&proof).unwrap();
        // 33-byte encodings of points
        let mut seen = std::collections::HashMap::new(); let mut i = 0;
        while i + 33 <= x.len() { if (x[i] == 2 || x[i] == 3) && x[i + 1..i + 33].iter().filter(|b| **b == 0).count() < 4 { *seen.entry(x[i..i + 33].to_vec()).or_insert(0) += 1; } i += 1; }
        // the four rows of the witness: the first four commitments
        let first = x.windows(33).position(|w| (w[0] == 2 || w[0] == 3) && w[1..].iter().filter(|b| **b == 0).count() < 4).unwrap();
        let p = x[first..first + 33].to_vec();
        if seen[&p] > 1 { eprintln!("equal rows of the witness have equal commitments"); std::process::exit(1) }
    }
}
