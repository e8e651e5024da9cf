//! Exploration of a cheating prover: every assignment of the hidden signals that satisfies the
//! constraints for given inputs. Signals that the constraints determine are propagated; where they
//! do not, all remaining values are tried (all roots, all bit decompositions, in a small field all
//! field elements; in the real field a set of probe values for a completely free signal).
use crate::build::*;
use crate::fd::Fd;
use mccore::U;
use std::{collections::{BTreeMap, BTreeSet, HashMap}, sync::OnceLock};
pub struct Sys<'a> { pub c: &'a Circuit, f: &'a Fd, occ: Vec<Vec<u32>>, distinct: Vec<u32>, boolean: Vec<bool>, cone: OnceLock<Cone> }
/// The order of computation: position of each signal, the signals computed from it, and the position after which a constraint is final.
pub struct Cone { pos: Vec<u32>, users: Vec<Vec<u32>>, last: Vec<u32> }
#[derive(Default, Debug, Clone)]
pub struct Stats { pub nodes: u64, pub assigned: u64, pub probes: u64, pub gave_up: u64, pub done: u64 }
pub enum Goal<'g> { /// a full assignment in which one of these signals differs from the given value
    Differ(&'g [(u32, U)]), /// any full assignment
    Any }
struct St<'a, 'g> { s: &'a Sys<'a>, v: Vec<Option<U>>, unk: Vec<u32>, trail: Vec<u32>, queue: Vec<u32>, st: Stats, goal: &'g Goal<'g>, honest: Option<&'g [U]>, budget: u64, probes: &'g [U], until: std::time::Instant }
enum Res { Conflict, Stuck(Vec<Vec<(u32, U)>>, bool), Full, GiveUp }
fn strip(f: &Fd, v: &[Option<U>], l: &Lc) -> Lc { let mut k = l.k; let mut t = vec![]; for (s, c) in &l.t { match &v[*s as usize] { Some(x) => if !x.is_zero() { k = f.add(&k, &f.mul(c, x)) }, None => t.push((*s, *c)) } } Lc { k, t } }
impl<'a> Sys<'a> {
    pub fn new(c: &'a Circuit) -> Sys<'a> {
        let mut occ = vec![vec![]; c.n]; let mut distinct = vec![]; let mut boolean = vec![false; c.n]; let f = &*c.f; let mut tmp = vec![];
        for (i, k) in c.cons.iter().enumerate() {
            tmp.clear(); for l in [&k.a, &k.b, &k.c] { tmp.extend(l.t.iter().map(|x| x.0)) } tmp.sort(); tmp.dedup(); distinct.push(tmp.len() as u32); for s in &tmp { occ[*s as usize].push(i as u32) }
            if tmp.len() == 1 { if let Some(r) = uni(f, k, tmp[0]) { if r == [U::ZERO, U::ONE] { boolean[tmp[0] as usize] = true } } }
        }
        Sys { c, f, occ, distinct, boolean, cone: OnceLock::new() }
    }
    fn cone(&self) -> &Cone { self.cone.get_or_init(|| {
        let c = self.c; let mut pos = vec![0; c.n]; for (i, s) in c.order.iter().enumerate() { pos[*s as usize] = i as u32 + 1 }
        let mut users = vec![vec![]; c.n]; let mut t = vec![]; for s in &c.order { t.clear(); c.assign[*s as usize].as_ref().unwrap().signals(&mut t); t.sort(); t.dedup(); for x in &t { users[*x as usize].push(*s) } }
        let mut last = vec![0; c.cons.len()]; for (s, o) in self.occ.iter().enumerate() { for k in o { last[*k as usize] = last[*k as usize].max(pos[s]) } }
        Cone { pos, users, last } }) }
    fn holds(&self, k: u32, v: &[U]) -> bool { let (f, c) = (self.f, &self.c.cons[k as usize]); (if c.a.is_k() && c.a.k.is_zero() { c.c.eval(f, v) } else { f.add(&f.mul(&c.a.eval(f, v), &c.b.eval(f, v)), &c.c.eval(f, v)) }).is_zero() }
    /// A prover who follows the witness generator but for one hint, which gets every other value of a
    /// bit, a probe value or its value in the witness `like`: all hints in turn. `base` is what the generator computes.
    pub fn single(&self, base: &[U], goal: &Goal, probes: &[U], like: Option<&[U]>) -> (Option<Vec<U>>, Stats) {
        let (c, f, cone) = (self.c, self.f, self.cone()); let mut st = Stats::default();
        let broken: Vec<u32> = (0..c.cons.len() as u32).filter(|k| !self.holds(*k, base)).collect();
        // a repair has to reach the first broken constraint
        let useful: Option<Vec<bool>> = broken.first().map(|k| { let mut r = vec![false; c.n]; let k = &c.cons[*k as usize]; let mut q: Vec<u32> = [&k.a, &k.b, &k.c].iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect(); let mut t = vec![]; while let Some(s) = q.pop() { if !std::mem::replace(&mut r[s as usize], true) { if let Some(e) = &c.assign[s as usize] { t.clear(); e.signals(&mut t); q.extend(&t) } } } r });
        let mut v = base.to_vec(); let mut alts = vec![];
        for h in c.order.iter().copied().filter(|s| c.hint[*s as usize] && useful.as_ref().map_or(true, |u| u[*s as usize])) {
            let old = base[h as usize]; alts.clear();
            if self.boolean[h as usize] { alts.push(f.sub(&U::ONE, &old)) } else { alts.extend([f.neg(&old), f.add(&old, &U::ONE), f.sub(&old, &U::ONE)]); alts.extend_from_slice(probes); if let Some(l) = like { alts.push(l[h as usize]) } }
            alts.sort(); alts.dedup(); alts.retain(|x| *x != old);
            for x in &alts {
                st.nodes += 1; let mut changed = vec![h]; v[h as usize] = *x; let mut todo: BTreeSet<(u32, u32)> = cone.users[h as usize].iter().map(|u| (cone.pos[*u as usize], *u)).collect(); let mut check: BTreeSet<(u32, u32)> = self.occ[h as usize].iter().map(|k| (cone.last[*k as usize], *k)).collect(); let mut ok = true;
                loop {
                    let next = todo.first().map_or(u32::MAX, |t| t.0);
                    while let Some((l, k)) = check.first().copied() { if l >= next { break } check.pop_first(); if !self.holds(k, &v) { ok = false; break } }
                    if !ok { break } let Some((_, s)) = todo.pop_first() else { break }; st.assigned += 1;
                    let y = c.assign[s as usize].as_ref().unwrap().eval(c, &v); if y != v[s as usize] { v[s as usize] = y; changed.push(s); todo.extend(cone.users[s as usize].iter().map(|u| (cone.pos[*u as usize], *u))); check.extend(self.occ[s as usize].iter().map(|k| (cone.last[*k as usize], *k))) }
                }
                let found = ok && broken.iter().all(|k| self.holds(*k, &v)) && match goal { Goal::Any => true, Goal::Differ(w) => w.iter().any(|(s, x)| v[*s as usize] != *x) };
                if found { return (Some(v), st) } for s in changed { v[s as usize] = base[s as usize] }
            }
        }
        (None, st)
    }
    pub fn explore(&self, inputs: &[(u32, U)], goal: &Goal, honest: Option<&[U]>, probes: &[U], budget: u64) -> (Option<Vec<U>>, Stats) {
        let mut s = St { s: self, v: vec![None; self.c.n], unk: self.distinct.clone(), trail: vec![], queue: (0..self.c.cons.len() as u32).filter(|i| self.distinct[*i as usize] <= 1).collect(), st: Stats::default(), goal, honest, budget, probes, until: std::time::Instant::now() + std::time::Duration::from_secs(if budget < 100 { 4 } else { 20 }) };
        for (i, x) in inputs { if !s.set(*i, *x) { return (None, s.st) } }
        let r = s.go(0); (r, s.st)
    }
}
/// Roots of a constraint in its single signal.
fn uni(f: &Fd, k: &Con, s: u32) -> Option<Vec<U>> { let g = |l: &Lc| l.t.iter().find(|x| x.0 == s).map_or(U::ZERO, |x| x.1); let (a1, b1, c1) = (g(&k.a), g(&k.b), g(&k.c));
    if c1.is_zero() && k.c.k.is_zero() && !a1.is_zero() && !b1.is_zero() { let mut v = vec![f.neg(&f.mul(&k.a.k, &f.inv(&a1).unwrap())), f.neg(&f.mul(&k.b.k, &f.inv(&b1).unwrap()))]; v.sort(); v.dedup(); return Some(v) }
    f.roots(&f.mul(&a1, &b1), &f.add(&f.add(&f.mul(&a1, &k.b.k), &f.mul(&b1, &k.a.k)), &c1), &f.add(&f.mul(&k.a.k, &k.b.k), &k.c.k)) }
impl<'a, 'g> St<'a, 'g> {
    fn set(&mut self, s: u32, x: U) -> bool {
        match &self.v[s as usize] { Some(y) => return *y == x, None => {} }
        self.v[s as usize] = Some(x); self.trail.push(s); self.st.assigned += 1; let sys = self.s;
        for c in &sys.occ[s as usize] { let u = &mut self.unk[*c as usize]; *u -= 1; if *u <= 2 || sys.distinct[*c as usize] <= 8 { self.queue.push(*c) } } true
    }
    fn undo(&mut self, to: usize) { while self.trail.len() > to { let s = self.trail.pop().unwrap(); self.v[s as usize] = None; for c in &self.s.occ[s as usize] { self.unk[*c as usize] += 1 } } self.queue.clear() }
    /// What is left of a constraint: `Ok(Some(linear))`, or a product.
    fn rest(&self, c: u32) -> Con { let k = &self.s.c.cons[c as usize]; let f = self.s.f; let (a, b) = (strip(f, &self.v, &k.a), strip(f, &self.v, &k.b)); let z = strip(f, &self.v, &k.c);
        if a.is_k() { Con { a: Lc::default(), b: Lc::default(), c: z.axpy(f, &a.k, &b) } } else if b.is_k() { Con { a: Lc::default(), b: Lc::default(), c: z.axpy(f, &b.k, &a) } } else { Con { a, b, c: z } } }
    fn lin(&mut self, l: &Lc) -> bool { let f = self.s.f; match l.t.len() { 0 => l.k.is_zero(), 1 => { let x = f.neg(&f.mul(&l.k, &f.inv(&l.t[0].1).unwrap())); self.set(l.t[0].0, x) } _ => true } }
    fn propagate(&mut self) -> bool {
        while let Some(c) = self.queue.pop() {
            let r = self.rest(c); let f = self.s.f;
            if r.a.is_k() { if !self.lin(&r.c) { return false } continue }
            let s = r.a.t[0].0; if r.a.t.len() == 1 && r.b.t.len() == 1 && r.b.t[0].0 == s && r.c.t.iter().all(|x| x.0 == s) { match uni(f, &r, s) { Some(v) if v.is_empty() => return false, Some(v) if v.len() == 1 => if !self.set(s, v[0]) { return false }, _ => {} } }
        }
        true
    }
    fn go(&mut self, depth: usize) -> Option<Vec<U>> {
        self.st.nodes += 1; if self.st.nodes > self.budget || depth > 4000 || self.st.nodes > 4 && std::time::Instant::now() > self.until { self.st.gave_up += 1; return None }
        loop {
            if !self.propagate() { self.queue.clear(); return None }
            if let Goal::Differ(want) = self.goal { if want.iter().all(|(s, x)| self.v[*s as usize] == Some(*x)) { self.st.done += 1; return None } }
            let at = self.trail.len();
            match self.look() {
                Res::Conflict => return None, Res::GiveUp => { self.st.gave_up += 1; return None }
                Res::Full => {
                    let mut v: Vec<U> = self.v.iter().map(|x| x.unwrap_or(U::ZERO)).collect();
                    if let Goal::Differ(want) = self.goal { if want.iter().all(|(s, x)| v[*s as usize] == *x) { let Some((s, _)) = want.iter().find(|(s, _)| self.v[*s as usize].is_none()) else { return None }; v[*s as usize] = self.s.f.add(&v[*s as usize], &U::ONE) } }
                    return if self.s.c.broken(&v).is_none() { Some(v) } else { self.st.gave_up += 1; None };
                }
                Res::Stuck(opts, forced) => {
                    if forced && opts.len() == 1 { let mut ok = true; for (s, x) in &opts[0] { ok &= self.set(*s, *x) } if !ok { return None } if self.trail.len() == at { self.st.gave_up += 1; return None } continue }
                    for o in opts { let mut ok = true; for (s, x) in &o { if !self.set(*s, *x) { ok = false; break } } if ok { if let Some(r) = self.go(depth + 1) { return Some(r) } } self.undo(at); if self.st.nodes > self.budget { return None } }
                    return None;
                }
            }
        }
    }
    /// All ways to satisfy a linear constraint over boolean signals, if they can be listed.
    fn bits(&self, l: &Lc, cap: usize) -> Option<Vec<Vec<(u32, U)>>> {
        let f = self.s.f; let n = l.t.len(); let small = |x: &U| -> Option<(usize, bool)> { for (y, s) in [(*x, false), (f.neg(x), true)] { if y.bits() > 0 && y == U::ONE.shl(y.bits() - 1).0 { return Some((y.bits() - 1, s)) } } None };
        // scale so that one coefficient is one
        for pivot in [None, Some(0), Some(n - 1)] {
            let c = match pivot { None => U::ONE, Some(i) => f.inv(&l.t[i].1).unwrap() };
            let m: Option<Vec<(u32, usize, bool)>> = l.t.iter().map(|(s, x)| small(&f.mul(x, &c)).map(|(e, g)| (*s, e, g))).collect(); let Some(mut m) = m else { continue };
            m.sort_by_key(|x| x.1); if m.windows(2).any(|w| w[0].1 == w[1].1) { continue }
            // sum of +-2^e b = t; with b = 1 - b' for the negative ones: sum of 2^e b = t + (sum of the negative ones), all over the integers plus multiples of the modulus
            let mut t = f.neg(&f.mul(&l.k, &c)); for x in &m { if x.2 { t = f.add(&t, &f.red(&U::ONE.shl(x.1).0)) } }
            let mask = m.iter().fold(U::ZERO, |a, x| a.add(&U::ONE.shl(x.1).0).0); let mut out = vec![]; let mut v = t;
            for _ in 0..=cap { if v > mask { break } let fits = (0..256).all(|i| !v.bit(i) || mask.bit(i)); if fits { out.push(m.iter().map(|x| (x.0, if v.bit(x.1) != x.2 { U::ONE } else { U::ZERO })).collect()); if out.len() > cap { return None } } let (s, over) = v.add(&f.m); if over { break } v = s }
            if f.m.bits() < 12 && mask.bits() > f.m.bits() + 3 { return None }
            return Some(out);
        }
        if n <= 12 { let mut out = vec![]; for x in 0..1usize << n { let s = l.t.iter().enumerate().fold(l.k, |a, (i, (_, c))| if x >> i & 1 == 1 { f.add(&a, c) } else { a }); if s.is_zero() { out.push(l.t.iter().enumerate().map(|(i, (s, _))| (*s, U::from((x >> i & 1) as u64))).collect()) } } return Some(out) }
        None
    }
    fn look(&mut self) -> Res {
        let sys = self.s; let f = sys.f; let mut lins: Vec<Lc> = vec![]; let mut prods: Vec<Con> = vec![]; let at = self.trail.len();
        for c in 0..sys.c.cons.len() as u32 { if self.unk[c as usize] == 0 { continue } let r = self.rest(c); if r.a.is_k() { if r.c.t.len() <= 1 { if !self.lin(&r.c) { return Res::Conflict } } else { lins.push(r.c) } } else { prods.push(r) } }
        if self.trail.len() > at { return Res::Stuck(vec![vec![]], false).again(self) }
        if lins.is_empty() && prods.is_empty() { return Res::Full }
        if prods.iter().all(|p| p.a.t.len() == 1 && sys.boolean[p.a.t[0].0 as usize] && p.b.t.len() == 1 && p.b.t[0].0 == p.a.t[0].0 && p.c.t.iter().all(|x| x.0 == p.a.t[0].0)) && lins.is_empty() { let s = prods[0].a.t[0].0; return Res::Stuck(vec![vec![(s, U::ZERO)], vec![(s, U::ONE)]], false) }
        let all_bool = |l: &Lc| l.t.iter().all(|x| sys.boolean[x.0 as usize]);
        let mut best: Option<Vec<Vec<(u32, U)>>> = None; let mut consider = |me: &Self, l: &Lc| -> Option<Res> { if let Some(o) = me.bits(l, 16) { if o.is_empty() { return Some(Res::Conflict) } if o.len() == 1 { return Some(Res::Stuck(o, true)) } if best.as_ref().map_or(true, |b| o.len() < b.len()) { best = Some(o) } } None };
        for l in &lins { if all_bool(l) { if let Some(r) = consider(self, l) { return r } } }
        // eliminate signals that are not bits from the linear rest
        if lins.len() <= 6000 {
            let mut rows: Vec<Option<Lc>> = lins.iter().cloned().map(Some).collect(); let mut where_: HashMap<u32, Vec<usize>> = HashMap::new(); for (i, r) in rows.iter().enumerate() { for (s, _) in &r.as_ref().unwrap().t { where_.entry(*s).or_default().push(i) } }
            let mut order: Vec<usize> = (0..rows.len()).collect(); order.sort_by_key(|i| rows[*i].as_ref().unwrap().t.len()); let mut work = 0usize;
            for i in order {
                let Some(r) = rows[i].take() else { continue };
                let piv = r.t.iter().filter(|x| !sys.boolean[x.0 as usize]).min_by_key(|x| where_.get(&x.0).map_or(0, |v| v.len())).copied();
                let Some((s, c)) = piv else {
                    if r.t.is_empty() { if !r.k.is_zero() { return Res::Conflict } continue }
                    if r.t.len() == 1 { if !self.lin(&r) { return Res::Conflict } continue }
                    if let Some(x) = consider(self, &r) { return x } rows[i] = Some(r); continue };
                let ic = f.inv(&c).unwrap(); let users = where_.remove(&s).unwrap_or_default();
                for j in users { if j == i { continue } if let Some(q) = rows[j].take() { let co = q.t.iter().find(|x| x.0 == s).map(|x| x.1); let Some(co) = co else { rows[j] = Some(q); continue }; let n = q.axpy(f, &f.neg(&f.mul(&co, &ic)), &r); work += n.t.len(); for (x, _) in &n.t { let w = where_.entry(*x).or_default(); if w.last() != Some(&j) { w.push(j) } } rows[j] = Some(n) } }
                if r.t.len() == 1 { if !self.lin(&r) { return Res::Conflict } }
                if work > 4_000_000 { break }
            }
            for r in rows.iter().flatten() { if r.t.is_empty() { if !r.k.is_zero() { return Res::Conflict } } else if r.t.len() == 1 { if !self.lin(r) { return Res::Conflict } } else if all_bool(r) { if let Some(x) = consider(self, r) { return x } } }
            if self.trail.len() > at { return Res::Stuck(vec![vec![]], false).again(self) }
        }
        if let Some(b) = best { return Res::Stuck(b, false) }
        // a constraint in one signal with few roots
        for p in &prods { let s = p.a.t[0].0; if p.a.t.len() == 1 && p.b.t.len() == 1 && p.b.t[0].0 == s && p.c.t.iter().all(|x| x.0 == s) && !sys.boolean[s as usize] { match uni(f, p, s) { None => {} Some(r) => return Res::Stuck(r.into_iter().map(|x| vec![(s, x)]).collect(), false) } } }
        let split = || -> Option<Res> { for p in &prods { if p.c.t.is_empty() && p.c.k.is_zero() && p.a.t.len() == 1 && p.b.t.len() == 1 && p.a.t[0].0 != p.b.t[0].0 { let root = |l: &Lc| f.neg(&f.mul(&l.k, &f.inv(&l.t[0].1).unwrap())); return Some(Res::Stuck(vec![vec![(p.a.t[0].0, root(&p.a))], vec![(p.b.t[0].0, root(&p.b))]], false)) } } None };
        if f.small.is_some() { if let Some(r) = split() { return r } }
        // free signals: those the prover supplies first
        let mut count: BTreeMap<u32, usize> = BTreeMap::new(); for l in lins.iter().chain(prods.iter().flat_map(|p| [&p.a, &p.b, &p.c])) { for (s, _) in &l.t { *count.entry(*s).or_default() += 1 } }
        let pick = |want_bool: bool| count.keys().filter(|s| sys.boolean[**s as usize] == want_bool).min_by_key(|s| (!sys.c.hint[**s as usize], **s)).copied();
        if let Some(m) = f.small { let s = pick(true).or(pick(false)).unwrap(); let d = if sys.boolean[s as usize] { 2 } else { m }; return Res::Stuck((0..d).map(|x| vec![(s, U::from(x))]).collect(), false) }
        // in the real field first what the witness generator would compute next, then (a signal - constant) * (another - constant) = 0
        let mut tmp = vec![]; let front = count.keys().copied().find(|s| sys.c.hint[*s as usize] && sys.c.assign[*s as usize].as_ref().map_or(false, |e| { tmp.clear(); e.signals(&mut tmp); tmp.iter().all(|x| self.v[*x as usize].is_some()) }));
        if front.is_none() { if let Some(r) = split() { return r } }
        if let Some(s) = front { if sys.boolean[s as usize] { return Res::Stuck(vec![vec![(s, U::ZERO)], vec![(s, U::ONE)]], false) } }
        let s = match (front.or(pick(false)), pick(true)) { (Some(s), Some(b)) => if front == Some(s) || sys.c.hint[s as usize] || !sys.c.hint[b as usize] { s } else { b }, (Some(s), None) => s, (None, Some(b)) => b, _ => return Res::GiveUp };
        if sys.boolean[s as usize] { return Res::Stuck(vec![vec![(s, U::ZERO)], vec![(s, U::ONE)]], false) }
        self.st.probes += 1; let mut vs: Vec<U> = self.probes.to_vec(); if let Some(h) = self.honest { let h = h[s as usize]; vs.splice(0..0, [f.add(&h, &U::ONE), f.sub(&h, &U::ONE), f.neg(&h)]); if let Goal::Any = self.goal { vs.insert(0, h) } else { vs.push(h) } }
        if front == Some(s) { let cur: Vec<U> = self.v.iter().map(|x| x.unwrap_or(U::ZERO)).collect(); let x = sys.c.assign[s as usize].as_ref().unwrap().eval(sys.c, &cur); vs.insert(if let Goal::Any = self.goal { 1.min(vs.len()) } else { vs.len().min(1) }, x) }
        let mut seen = vec![]; for v in vs { if !seen.contains(&v) { seen.push(v) } }
        Res::Stuck(seen.into_iter().map(|x| vec![(s, x)]).collect(), false)
    }
}
impl Res { fn again(self, _: &mut St) -> Res { Res::Stuck(vec![vec![]], true) } }
