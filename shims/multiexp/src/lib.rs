//! Stand-in for multiexp 0.2: sum of scalar * point over the pairs, reading the
//! scalars through `PrimeFieldBits` as the real crate does.
use ff::PrimeFieldBits;
use group::Group;
pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G where G::Scalar: PrimeFieldBits {
    let mut nib: Vec<Vec<u8>> = Vec::with_capacity(pairs.len());
    let mut tab: Vec<Vec<G>> = Vec::with_capacity(pairs.len());
    let mut n = 0;
    for (s, p) in pairs {
        let bits = s.to_le_bits();
        let mut v = vec![0u8; (bits.len() + 3) / 4];
        for (i, b) in bits.iter().enumerate() { if *b { v[i / 4] |= 1 << (i % 4) } }
        while v.last() == Some(&0) { v.pop(); }
        n = n.max(v.len());
        let mut t = vec![G::identity(), *p];
        let hi = v.iter().copied().max().unwrap_or(0) as usize;
        for i in 2..=hi { let q = t[i - 1] + p; t.push(q) }
        nib.push(v); tab.push(t);
    }
    let mut acc = G::identity();
    for i in (0..n).rev() {
        if i + 1 != n { for _ in 0..4 { acc = acc.double() } }
        for k in 0..pairs.len() { if i < nib[k].len() && nib[k][i] != 0 { acc += tab[k][nib[k][i] as usize] } }
    }
    acc
}
pub fn multiexp_vartime<G: Group>(pairs: &[(G::Scalar, G)]) -> G where G::Scalar: PrimeFieldBits { multiexp(pairs) }
