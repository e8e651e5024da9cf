//! Exhaustive exploration of a field implementation against integers modulo a prime.
use crate::big::*;
use crate::*;

pub struct Field<T> {
    pub name: &'static str,
    pub m: U,
    /// build an element from its canonical value
    pub make: fn(&U) -> T,
    /// canonical value of an element
    pub val: fn(&T) -> U,
    pub eq: fn(&T, &T) -> bool,
    pub bin: Vec<(&'static str, fn(&T, &T) -> T, fn(&Fp, &U, &U) -> U)>,
    /// operations that may have no result (`None` on both sides must coincide)
    pub un: Vec<(&'static str, fn(&T) -> Option<T>, fn(&Fp, &U) -> Option<U>)>,
}

pub fn f_add(f: &Fp, a: &U, b: &U) -> U { f.add(a, b) }
pub fn f_sub(f: &Fp, a: &U, b: &U) -> U { f.sub(a, b) }
pub fn f_mul(f: &Fp, a: &U, b: &U) -> U { f.mul(a, b) }
pub fn f_id(_: &Fp, a: &U) -> Option<U> { Some(*a) }
pub fn f_neg(f: &Fp, a: &U) -> Option<U> { Some(f.neg(a)) }
pub fn f_dbl(f: &Fp, a: &U) -> Option<U> { Some(f.add(a, a)) }
pub fn f_sq(f: &Fp, a: &U) -> Option<U> { Some(f.sq(a)) }
pub fn f_inv(f: &Fp, a: &U) -> Option<U> { f.inv(a) }

impl<T: Send + Sync> Field<T> {
    fn check(&self, c: &Check, op: &str, args: &[&U], got: Result<Option<T>, String>, want: Option<U>) -> Option<T> {
        c.steps(1);
        let key = format!("{}:{}", self.name, op);
        let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
        match got {
            Err(p) => { c.fail(&format!("{key}:panic"), json!({"op": op, "args": args, "panic": p, "want": want.map(|w| w.to_string())})); None }
            Ok(g) => {
                let gv = g.as_ref().map(|g| (self.val)(g));
                if gv != want {
                    c.fail(&key, json!({"op": op, "args": args, "got": gv.map(|w| w.to_string()), "want": want.map(|w| w.to_string())})); return None
                }
                // the result must also compare equal to the same value built directly, and
                // unequal to its neighbour
                if let (Some(g), Some(w)) = (&g, &want) {
                    if !(self.eq)(g, &(self.make)(w)) { c.fail(&format!("{key}:eq"), json!({"op": op, "args": args, "value": w.to_string()})) }
                }
                g
            }
        }
    }
    fn unary(&self, c: &Check, f: &Fp, a: &U, ea: &T) {
        for (n, g, r) in &self.un { self.check(c, n, &[a], guarded(|| g(ea)), r(f, a)); }
    }
    fn binary(&self, c: &Check, f: &Fp, a: &U, b: &U, ea: &T, eb: &T) {
        for (n, g, r) in &self.bin { self.check(c, n, &[a, b], guarded(|| Some(g(ea, eb))), Some(r(f, a, b))); }
    }
    /// All pairs of corner values, every pair whose product is a corner value,
    /// every unary operation, and all operation histories to a depth.
    pub fn explore(&self, c: &Check, r: usize, pair_digits: &[u64], un_digits: &[u64], depth: usize) {
        let f = Fp::fast(self.m);
        let vs = corners(&self.m, r, pair_digits);
        let es: Vec<T> = vs.iter().map(|v| (self.make)(v)).collect();
        c.bound(&format!("{}: all ordered pairs of {} corner values (limb digits {:x?}, canonical and seen through the Montgomery factor 2^{}) under {} binary operations", self.name, vs.len(), pair_digits, r, self.bin.len()));
        c.states((vs.len() * vs.len()) as u64);
        c.traces((vs.len() * vs.len()) as u64);
        c.part(&format!("{} pairs", self.name), (vs.len() * vs.len()) as u64);
        c.sample(json!({"field": self.name, "pair": [vs[1].to_string(), vs[vs.len() / 2].to_string()]}));
        par(vs.len(), |i| {
            for j in 0..vs.len() {
                self.binary(c, &f, &vs[i], &vs[j], &es[i], &es[j]);
                let same = (self.eq)(&es[i], &es[j]);
                if same != (i == j) { c.fail(&format!("{}:equality", self.name), json!({"a": vs[i].to_string(), "b": vs[j].to_string(), "got": same})) }
            }
        });
        // products that land on corner values
        let small: Vec<U> = vs.iter().step_by((vs.len() / 120).max(1)).cloned().collect();
        c.part(&format!("{} quotient pairs", self.name), (small.len() * vs.len()) as u64);
        c.states((small.len() * vs.len()) as u64);
        par(small.len(), |i| {
            if let Some(inv) = f.inv(&small[i]) {
                let ei = (self.make)(&small[i]);
                for y in &vs { let z = f.mul(&inv, y); self.binary(c, &f, &small[i], &z, &ei, &(self.make)(&z)) }
            }
        });
        let us = corners(&self.m, r, un_digits);
        c.bound(&format!("{}: {} values (limb digits {:x?}) under {} unary operations", self.name, us.len(), un_digits, self.un.len()));
        c.states(us.len() as u64);
        c.part(&format!("{} unary values", self.name), us.len() as u64);
        par(us.len(), |i| self.unary(c, &f, &us[i], &(self.make)(&us[i])));
        self.histories(c, &f, depth);
    }
    /// Breadth-first over operation histories: the element produced by one
    /// operation is fed to the next without being rebuilt from its value.
    fn histories(&self, c: &Check, f: &Fp, depth: usize) {
        let seeds: Vec<U> = vec![U::ZERO, U::ONE, U::from(2), self.m.sub(&U::ONE).0, self.m.sub(&U::from(2)).0, U::ONE.shl(255).0.modulo(&self.m), self.m.shr(1)];
        let n_ops = self.bin.len() * seeds.len() + self.un.len();
        let hist = std::sync::atomic::AtomicU64::new(0);
        let seen = std::sync::Mutex::new(std::collections::HashSet::new());
        par(seeds.len() * n_ops, |k| {
            let (s, first) = (k / n_ops, k % n_ops);
            let mut frontier: Vec<(T, U)> = vec![((self.make)(&seeds[s]), seeds[s])];
            for d in 0..depth {
                let mut next = vec![];
                for (e, v) in &frontier {
                    for op in 0..n_ops {
                        if d == 0 && op != first { continue }
                        hist.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let r = if op < self.un.len() {
                            let (n, g, rf) = &self.un[op];
                            let w = rf(f, v);
                            self.check(c, n, &[v], guarded(|| g(e)), w).map(|t| (t, w.unwrap()))
                        } else {
                            let op = op - self.un.len();
                            let (n, g, rf) = &self.bin[op / seeds.len()];
                            let b = &seeds[op % seeds.len()];
                            let w = rf(f, v, b);
                            self.check(c, n, &[v, b], guarded(|| Some(g(e, &(self.make)(b)))), Some(w)).map(|t| (t, w))
                        };
                        if let Some(r) = r { if seen.lock().unwrap().insert((d, r.1)) { next.push(r) } }
                    }
                }
                frontier = next;
            }
        });
        let seen = seen.into_inner().unwrap();
        c.states(seen.len() as u64);
        c.part(&format!("{} history states", self.name), seen.len() as u64);
        c.traces(hist.into_inner());
        c.bound(&format!("{}: all operation histories of length {} from {} seed values ({} operations per step, states merged by value)", self.name, depth, seeds.len(), n_ops));
    }
}
