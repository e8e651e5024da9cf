//! Instantiation: runs templates symbolically and collects signals, their assignments and the constraints.
use crate::{fd::Fd, lang::*};
use mccore::U;
use std::{collections::{BTreeMap, HashMap}, sync::Arc};
/// k + sum of coefficient * signal, sorted by signal, no zero coefficients.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lc { pub k: U, pub t: Vec<(u32, U)> }
impl Lc {
    pub fn k(k: U) -> Lc { Lc { k, t: vec![] } }
    pub fn sig(s: u32) -> Lc { Lc { k: U::ZERO, t: vec![(s, U::ONE)] } }
    pub fn is_k(&self) -> bool { self.t.is_empty() }
    pub fn add(&self, f: &Fd, o: &Lc) -> Lc { self.axpy(f, &U::ONE, o) }
    pub fn axpy(&self, f: &Fd, c: &U, o: &Lc) -> Lc {
        let k = f.add(&self.k, &f.mul(c, &o.k)); if c.is_zero() { return self.clone() }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len()); let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || i < self.t.len() && self.t[i].0 < o.t[j].0 { t.push(self.t[i]); i += 1 }
            else if i == self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, f.mul(c, &o.t[j].1))); j += 1 }
            else { let v = f.add(&self.t[i].1, &f.mul(c, &o.t[j].1)); if !v.is_zero() { t.push((self.t[i].0, v)) } i += 1; j += 1 }
        }
        Lc { k, t }
    }
    pub fn scale(&self, f: &Fd, c: &U) -> Lc { if c.is_zero() { return Lc::default() } Lc { k: f.mul(&self.k, c), t: self.t.iter().map(|(s, v)| (*s, f.mul(v, c))).collect() } }
    pub fn eval(&self, f: &Fd, v: &[U]) -> U { self.t.iter().fold(self.k, |a, (s, c)| { let x = &v[*s as usize]; if x.is_zero() { a } else { f.add(&a, &f.mul(c, x)) } }) }
}
#[derive(Clone, Debug)]
pub enum Ex { L(Lc), Q(Arc<(Lc, Lc, Lc)>), N(Arc<(Op, Vec<Ex>)>) }
#[derive(Clone, Debug)]
pub enum Op { Bin(&'static str), Un(&'static str), Tern, Fun(Arc<str>) }
pub enum V { X(Ex), A(Vec<V>) }
impl Clone for V { fn clone(&self) -> V { match self { V::X(x) => V::X(x.clone()), V::A(a) => V::A(a.clone()) } } }
impl Ex {
    pub fn konst(&self) -> Option<U> { if let Ex::L(l) = self { if l.is_k() { return Some(l.k) } } None }
    fn zero() -> Ex { Ex::L(Lc::default()) }
    pub fn signals(&self, out: &mut Vec<u32>) { match self { Ex::L(l) => out.extend(l.t.iter().map(|x| x.0)), Ex::Q(q) => for l in [&q.0, &q.1, &q.2] { out.extend(l.t.iter().map(|x| x.0)) }, Ex::N(n) => for a in &n.1 { a.signals(out) } } }
    pub fn eval(&self, c: &Circuit, v: &[U]) -> U {
        let f = &c.f;
        match self {
            Ex::L(l) => l.eval(f, v), Ex::Q(q) => f.add(&f.mul(&q.0.eval(f, v), &q.1.eval(f, v)), &q.2.eval(f, v)),
            Ex::N(n) => match &n.0 {
                Op::Bin(o) => f.op(o, &n.1[0].eval(c, v), &n.1[1].eval(c, v)), Op::Un(o) => f.un(o, &n.1[0].eval(c, v)),
                Op::Tern => if n.1[0].eval(c, v).is_zero() { n.1[2].eval(c, v) } else { n.1[1].eval(c, v) },
                Op::Fun(name) => { let mut b = Builder::new(&c.f, &c.prog); let a = n.1.iter().map(|x| V::X(Ex::L(Lc::k(x.eval(c, v))))).collect(); match b.call(name, a) { Ok(V::X(x)) => x.konst().unwrap_or(U::ZERO), _ => U::ZERO } }
            },
        }
    }
}
fn neg(f: &Fd, a: &Ex) -> Ex { let m = f.neg(&U::ONE); match a { Ex::L(l) => Ex::L(l.scale(f, &m)), Ex::Q(q) => Ex::Q(Arc::new((q.0.scale(f, &m), q.1.clone(), q.2.scale(f, &m)))), x => Ex::N(Arc::new((Op::Un("-"), vec![x.clone()]))) } }
fn bin(f: &Fd, o: &'static str, a: Ex, b: Ex) -> Ex {
    if let (Some(x), Some(y)) = (a.konst(), b.konst()) { return Ex::L(Lc::k(f.op(o, &x, &y))) }
    match (o, &a, &b) {
        ("+", Ex::L(x), Ex::L(y)) => Ex::L(x.add(f, y)),
        ("+", Ex::Q(q), Ex::L(y)) | ("+", Ex::L(y), Ex::Q(q)) => Ex::Q(Arc::new((q.0.clone(), q.1.clone(), q.2.add(f, y)))),
        ("-", Ex::L(x), Ex::L(y)) => Ex::L(x.axpy(f, &f.neg(&U::ONE), y)),
        ("-", Ex::Q(q), Ex::L(y)) => Ex::Q(Arc::new((q.0.clone(), q.1.clone(), q.2.axpy(f, &f.neg(&U::ONE), y)))),
        ("-", Ex::L(_), Ex::Q(_)) => bin(f, "+", a.clone(), neg(f, &b)),
        ("*", Ex::L(x), Ex::L(y)) => if x.is_k() { Ex::L(y.scale(f, &x.k)) } else if y.is_k() { Ex::L(x.scale(f, &y.k)) } else { Ex::Q(Arc::new((x.clone(), y.clone(), Lc::default()))) },
        ("*", Ex::L(x), Ex::Q(q)) | ("*", Ex::Q(q), Ex::L(x)) if x.is_k() => if x.k.is_zero() { Ex::zero() } else { Ex::Q(Arc::new((q.0.scale(f, &x.k), q.1.clone(), q.2.scale(f, &x.k)))) },
        ("/", _, Ex::L(y)) if y.is_k() && !y.k.is_zero() => bin(f, "*", a, Ex::L(Lc::k(f.inv(&y.k).unwrap()))),
        ("**", Ex::L(x), Ex::L(y)) if y.is_k() && y.k == U::ONE => Ex::L(x.clone()),
        ("**", Ex::L(x), Ex::L(y)) if y.is_k() && y.k == U::from(2) => Ex::Q(Arc::new((x.clone(), x.clone(), Lc::default()))),
        _ => Ex::N(Arc::new((Op::Bin(o), vec![a, b]))),
    }
}
/// a*b + c = 0.
#[derive(Clone, Debug)]
pub struct Con { pub a: Lc, pub b: Lc, pub c: Lc }
pub struct Circuit { pub f: Arc<Fd>, pub prog: Arc<Program>, pub n: usize, pub cons: Vec<Con>, pub assign: Vec<Option<Ex>>, pub hint: Vec<bool>, pub order: Vec<u32>, pub asserts: Vec<Ex>, pub ins: Vec<(String, u32, Vec<usize>)>, pub outs: Vec<(String, u32, Vec<usize>)>, pub public: Vec<u32>, pub big: bool, pub names: Vec<(u32, String)> }
#[derive(Clone)]
enum Slot { Val(V), Sig(u32, Vec<usize>), Comp(Vec<usize>, Vec<Option<usize>>) }
struct Inst { sigs: Vec<(Arc<str>, u32, Vec<usize>, Kind)>, path: String }
pub struct Builder<'a> { f: &'a Arc<Fd>, p: &'a Arc<Program>, n: u32, cons: Vec<Con>, assign: Vec<Option<Ex>>, hint: Vec<bool>, input: Vec<bool>, asserts: Vec<Ex>, insts: Vec<Inst>, scopes: Vec<(Arc<str>, Slot)>, floor: usize, cur: usize, cond: usize, anon: usize, big: bool, steps: u64, names: Vec<(u32, String)> }
enum Flow { Go, Ret(V) }
enum Lhs { Var(usize, Vec<usize>), Sig(u32, Vec<usize>), Comp(usize, usize) }
fn size(d: &[usize]) -> usize { d.iter().product() }
impl<'a> Builder<'a> {
    pub fn new(f: &'a Arc<Fd>, p: &'a Arc<Program>) -> Builder<'a> { Builder { f, p, n: 0, cons: vec![], assign: vec![], hint: vec![], input: vec![], asserts: vec![], insts: vec![], scopes: vec![], floor: 0, cur: usize::MAX, cond: 0, anon: 0, big: false, steps: 0, names: vec![] } }
    fn find(&self, n: &str) -> R<usize> { (self.floor..self.scopes.len()).rev().find(|&i| &*self.scopes[i].0 == n).ok_or(format!("{n} is not defined")) }
    fn num(&mut self, e: &E) -> R<Ex> { match self.expr(e)? { V::X(x) => Ok(x), _ => Err("array where a number is expected".into()) } }
    fn idx(&mut self, e: &E) -> R<usize> { let k = self.num(e)?.konst().ok_or("index is not known")?; if k.bits() > 31 { return Err(format!("index {k}")) } Ok(k.0[0] as usize) }
    fn dims(&mut self, d: &[E]) -> R<Vec<usize>> { d.iter().map(|e| self.idx(e)).collect() }
    fn zeros(d: &[usize]) -> V { match d.split_first() { None => V::X(Ex::zero()), Some((n, r)) => V::A((0..*n).map(|_| Self::zeros(r)).collect()) } }
    fn sigv(b: u32, d: &[usize]) -> V { match d.split_first() { None => V::X(Ex::L(Lc::sig(b))), Some((n, r)) => V::A((0..*n).map(|i| Self::sigv(b + (i * size(r)) as u32, r)).collect()) } }
    fn sub(b: u32, d: &[usize], ix: &[usize]) -> R<(u32, Vec<usize>)> {
        if ix.len() > d.len() { return Err("too many indices".into()) } let mut o = 0;
        for (k, i) in ix.iter().enumerate() { if *i >= d[k] { return Err(format!("index {i} out of {}", d[k])) } o += i * size(&d[k + 1..]) }
        Ok((b + o as u32, d[ix.len()..].to_vec()))
    }
    fn access(&mut self, n: &str, acc: &[Acc]) -> R<Lhs> {
        let s = self.find(n)?; let mut ix = vec![]; let mut dot: Option<Arc<str>> = None; let mut ix2 = vec![];
        for a in acc { match a { Acc::Idx(e) => { let i = self.idx(e)?; if dot.is_some() { ix2.push(i) } else { ix.push(i) } } Acc::Dot(d) => { if dot.is_some() { return Err("two dots".into()) } dot = Some(d.clone()) } } }
        match (&self.scopes[s].1, dot) {
            (Slot::Val(_), None) => Ok(Lhs::Var(s, ix)),
            (Slot::Sig(b, d), None) => { let (b, d) = Self::sub(*b, d, &ix)?; Ok(Lhs::Sig(b, d)) }
            (Slot::Comp(d, _), None) => { let (o, r) = Self::sub(0, d, &ix)?; if !r.is_empty() { return Err("array of components".into()) } Ok(Lhs::Comp(s, o as usize)) }
            (Slot::Comp(d, v), Some(name)) => {
                let (o, r) = Self::sub(0, d, &ix)?; if !r.is_empty() { return Err("array of components".into()) }
                let i = v[o as usize].ok_or(format!("component {n} is not set"))?; let (_, b, d, _) = self.insts[i].sigs.iter().find(|x| x.0 == name).ok_or(format!("{n} has no {name}"))?;
                let (b, d) = Self::sub(*b, d, &ix2)?; Ok(Lhs::Sig(b, d))
            }
            _ => Err(format!("{n}: wrong access")),
        }
    }
    fn expr(&mut self, e: &E) -> R<V> {
        Ok(match e {
            E::Num(n) => { if *n >= self.f.m { self.big = true } V::X(Ex::L(Lc::k(self.f.red(n)))) }
            E::Un(o, a) => { let a = self.num(a)?; V::X(match a.konst() { Some(k) => Ex::L(Lc::k(self.f.un(o, &k))), None if *o == "-" => neg(self.f, &a), None => Ex::N(Arc::new((Op::Un(o), vec![a]))) }) }
            E::Bin(o, a, b) => {
                let (x, y) = (self.num(a)?, self.num(b)?);
                if *o == "<<" || *o == "**" { if let (Some(_), Some(k)) = (x.konst(), y.konst()) { if *o == "<<" && k >= U::from(self.f.bits as u64 - 1) || *o == "**" && k.bits() > 3 { self.big = true } } }
                V::X(bin(self.f, o, x, y))
            }
            E::Tern(c, a, b) => { let c = self.num(c)?; match c.konst() { Some(k) => return self.expr(if k.is_zero() { b } else { a }), None => { let (a, b) = (self.num(a)?, self.num(b)?); V::X(Ex::N(Arc::new((Op::Tern, vec![c, a, b])))) } } }
            E::Arr(v) => V::A(v.iter().map(|x| self.expr(x)).collect::<R<_>>()?),
            E::Tuple(_) => return Err("tuple".into()),
            E::Call(n, a) => { let args = a.iter().map(|x| self.expr(x)).collect::<R<Vec<V>>>()?; return self.call(n, args) }
            E::Anon(n, a, ins) => {
                let i = self.anon(n, a, ins)?; let outs: Vec<(u32, Vec<usize>)> = self.insts[i].sigs.iter().filter(|s| s.3 == Kind::Out).map(|s| (s.1, s.2.clone())).collect();
                if outs.len() != 1 { return Err("component with several outputs used as a value".into()) } Self::sigv(outs[0].0, &outs[0].1)
            }
            E::Var(n, acc) => match self.access(n, acc)? {
                Lhs::Sig(b, d) => Self::sigv(b, &d), Lhs::Comp(..) => return Err(format!("component {n} used as a value")),
                Lhs::Var(s, ix) => { let Slot::Val(v) = &self.scopes[s].1 else { unreachable!() }; let mut v = v; for i in ix { match v { V::A(a) => v = a.get(i).ok_or(format!("{n}: index {i} out of {}", a.len()))?, _ => return Err(format!("{n} is no array")) } } v.clone() }
            },
        })
    }
    fn anon(&mut self, n: &Arc<str>, a: &[E], ins: &[(Option<Arc<str>>, &'static str, E)]) -> R<usize> {
        let args = a.iter().map(|x| self.expr(x)).collect::<R<Vec<V>>>()?; let vals = ins.iter().map(|x| self.expr(&x.2)).collect::<R<Vec<V>>>()?; self.anon += 1;
        let i = self.instance(n, args, &format!("anon{}", self.anon))?; let want: Vec<(Arc<str>, u32, Vec<usize>)> = self.insts[i].sigs.iter().filter(|s| s.3 == Kind::In).map(|s| (s.0.clone(), s.1, s.2.clone())).collect();
        if want.len() != vals.len() { return Err(format!("{n}: {} inputs, {} given", want.len(), vals.len())) }
        for (k, v) in vals.into_iter().enumerate() { let w = match &ins[k].0 { Some(nm) => want.iter().find(|x| x.0 == *nm).ok_or(format!("{n} has no {nm}"))?, None => &want[k] }; let (b, d) = (w.1, w.2.clone()); self.drive(b, &d, v, ins[k].1 == "<==")? }
        Ok(i)
    }
    /// Calls a function; one whose control depends on signals becomes an operation evaluated with the witness.
    pub fn call(&mut self, n: &Arc<str>, args: Vec<V>) -> R<V> {
        let d = self.p.functions.get(n).cloned().ok_or(format!("function {n} is not defined"))?; if d.params.len() != args.len() { return Err(format!("{n}: wrong number of arguments")) }
        let symbolic = args.iter().any(|a| matches!(a, V::X(x) if x.konst().is_none())); let keep = args.clone();
        let (len, floor) = (self.scopes.len(), self.floor); self.floor = len; for (p, a) in d.params.iter().zip(args) { self.scopes.push((p.clone(), Slot::Val(a))) }
        let cond = std::mem::replace(&mut self.cond, 0); let r = self.run(&d.body); self.cond = cond; self.scopes.truncate(len); self.floor = floor;
        match r { Ok(Flow::Ret(v)) => Ok(v), Ok(_) => Err(format!("{n} returns nothing")), Err(e) => if symbolic && e.contains("condition") && keep.iter().all(|a| matches!(a, V::X(_))) { Ok(V::X(Ex::N(Arc::new((Op::Fun(n.clone()), keep.into_iter().map(|a| if let V::X(x) = a { x } else { unreachable!() }).collect()))))) } else { Err(format!("{n}: {e}")) } }
    }
    fn instance(&mut self, n: &Arc<str>, args: Vec<V>, path: &str) -> R<usize> {
        let d = self.p.templates.get(n).cloned().ok_or(format!("template {n} is not defined"))?; if d.params.len() != args.len() { return Err(format!("{n}: wrong number of parameters")) }
        if self.insts.len() > 3_000_000 { return Err("too many components".into()) }
        let id = self.insts.len(); let parent = if self.cur == usize::MAX { String::new() } else { self.insts[self.cur].path.clone() + "." }; let full = if parent.len() > 60 { parent.clone() } else { parent + path };
        self.insts.push(Inst { sigs: vec![], path: full });
        let (len, floor, cur) = (self.scopes.len(), self.floor, self.cur); self.floor = len; self.cur = id;
        for (p, a) in d.params.iter().zip(args) { self.scopes.push((p.clone(), Slot::Val(a))) }
        let cond = std::mem::replace(&mut self.cond, 0); let r = self.run(&d.body); self.cond = cond; self.scopes.truncate(len); self.floor = floor; self.cur = cur;
        r.map_err(|e| if e.len() > 300 { e } else { format!("{n}: {e}") })?; Ok(id)
    }
    fn alloc(&mut self, name: &Arc<str>, d: &[usize], k: Kind) -> R<u32> {
        if self.cur == usize::MAX { return Err("signal outside a template".into()) } if self.cond > 0 { return Err("signal under an unknown condition".into()) }
        let b = self.n; let c = size(d); self.n += c as u32; if self.n > 40_000_000 { return Err("too many signals".into()) }
        self.assign.resize(self.n as usize, None); self.hint.resize(self.n as usize, false); self.input.resize(self.n as usize, false); if k == Kind::In { for i in b..self.n { self.input[i as usize] = true } }
        self.names.push((b, format!("{}.{name}", self.insts[self.cur].path))); self.insts[self.cur].sigs.push((name.clone(), b, d.to_vec(), k)); Ok(b)
    }
    fn equal(&mut self, a: &Ex, b: &Ex) -> R<()> {
        let d = bin(self.f, "-", a.clone(), b.clone()); let d = if let (Ex::N(_), Ex::Q(x), Ex::L(_)) = (&d, a, b) { Ex::Q(x.clone()) } else { d };
        match d { Ex::L(l) => { if !(l.is_k() && l.k.is_zero()) { self.cons.push(Con { a: Lc::default(), b: Lc::default(), c: l }) } Ok(()) } Ex::Q(q) => { self.cons.push(Con { a: q.0.clone(), b: q.1.clone(), c: q.2.clone() }); Ok(()) } Ex::N(_) => Err("constraint is not quadratic".into()) }
    }
    fn drive(&mut self, b: u32, d: &[usize], v: V, con: bool) -> R<()> {
        match (d.split_first(), v) {
            (None, V::X(x)) => { let i = b as usize; if self.assign[i].is_some() { return Err("signal assigned twice".into()) } if self.cond > 0 && con { return Err("constraint under an unknown condition".into()) } if con { self.equal(&Ex::L(Lc::sig(b)), &x)? } else { self.hint[i] = true } self.assign[i] = Some(x); Ok(()) }
            (Some((n, r)), V::A(a)) if a.len() == *n => { for (i, x) in a.into_iter().enumerate() { self.drive(b + (i * size(r)) as u32, r, x, con)? } Ok(()) }
            _ => Err("sizes differ".into()),
        }
    }
    fn set(v: &mut V, ix: &[usize], x: V) -> R<()> { match ix.split_first() { None => { *v = x; Ok(()) } Some((i, r)) => match v { V::A(a) => { let n = a.len(); Self::set(a.get_mut(*i).ok_or(format!("index {i} out of {n}"))?, r, x) } _ => Err("no array".into()) } } }
    fn store(&mut self, l: &E, op: &str, rhs: &E) -> R<()> {
        if let (E::Tuple(ls), E::Anon(n, a, ins)) = (l, rhs) {
            let i = self.anon(n, a, ins)?; let outs: Vec<(u32, Vec<usize>)> = self.insts[i].sigs.iter().filter(|s| s.3 == Kind::Out).map(|s| (s.1, s.2.clone())).collect();
            if !ls.is_empty() && ls.len() != outs.len() { return Err("wrong number of outputs".into()) }
            for (l, (b, d)) in ls.iter().zip(outs) { if matches!(l, E::Var(n, _) if &**n == "_") { continue } self.put(l, op, Self::sigv(b, &d))? } return Ok(())
        }
        if let E::Var(n, acc) = l {
            if &**n == "_" && acc.is_empty() { self.expr(rhs)?; return Ok(()) }
            if op == "=" { if let Lhs::Comp(s, o) = self.access(n, acc)? {
                let E::Call(t, a) = rhs else { return Err("template expected".into()) }; let args = a.iter().map(|x| self.expr(x)).collect::<R<Vec<V>>>()?; let id = self.instance(t, args, &format!("{n}[{o}]"))?;
                let Slot::Comp(_, v) = &mut self.scopes[s].1 else { unreachable!() }; if v[o].replace(id).is_some() { return Err(format!("component {n} set twice")) } return Ok(())
            } }
        }
        let v = self.expr(rhs)?; self.put(l, op, v)
    }
    fn put(&mut self, l: &E, op: &str, v: V) -> R<()> {
        let E::Var(n, acc) = l else { return Err("left side".into()) };
        match self.access(n, acc)? {
            Lhs::Var(s, ix) => { if op != "=" { return Err(format!("{n} is a variable")) } let Slot::Val(x) = &mut self.scopes[s].1 else { unreachable!() }; Self::set(x, &ix, v) }
            Lhs::Sig(b, d) => { if op == "=" { return Err(format!("{n} is a signal")) } self.drive(b, &d, v, op == "<==").map_err(|e| format!("{n}: {e}")) }
            Lhs::Comp(..) => Err(format!("{n} is a component")),
        }
    }
    fn merge(c: &Ex, a: V, b: V) -> R<V> { Ok(match (a, b) { (V::X(a), V::X(b)) => if a.konst().is_some() && a.konst() == b.konst() { V::X(a) } else { V::X(Ex::N(Arc::new((Op::Tern, vec![c.clone(), a, b])))) }, (V::A(a), V::A(b)) if a.len() == b.len() => V::A(a.into_iter().zip(b).map(|(x, y)| Self::merge(c, x, y)).collect::<R<_>>()?), _ => return Err("sizes differ under a condition".into()) }) }
    fn run(&mut self, s: &S) -> R<Flow> {
        self.steps += 1; if self.steps > 400_000_000 { return Err("too many steps".into()) }
        match s {
            S::Nop => {}
            S::Block(v) => { let len = self.scopes.len(); for x in v { if let Flow::Ret(v) = self.run(x)? { self.scopes.truncate(len); return Ok(Flow::Ret(v)) } } self.scopes.truncate(len) }
            S::Ret(e) => { if self.cond > 0 { return Err("return under an unknown condition".into()) } return Ok(Flow::Ret(self.expr(e)?)) }
            S::Assert(e) => { let x = self.num(e)?; match x.konst() { Some(k) => if k.is_zero() { return Err("assertion".into()) }, None => self.asserts.push(x) } }
            S::Sig(k, ds) => for (n, d, i) in ds { let d = self.dims(d)?; let b = self.alloc(n, &d, *k)?; self.scopes.push((n.clone(), Slot::Sig(b, d.clone()))); if let Some((o, e)) = i { let v = self.expr(e)?; self.drive(b, &d, v, *o == "<==")? } },
            S::Var(ds) => for (n, d, i) in ds { let d = self.dims(d)?; let v = match i { Some((_, e)) => self.expr(e)?, None => Self::zeros(&d) }; self.scopes.push((n.clone(), Slot::Val(v))) },
            S::Comp(ds) => for (n, d, i) in ds { let d = self.dims(d)?; let c = size(&d); self.scopes.push((n.clone(), Slot::Comp(d, vec![None; c]))); if let Some((_, e)) = i { self.store(&E::Var(n.clone(), vec![]), "=", e)? } },
            S::Assign(l, o, e) => self.store(l, o, e)?,
            S::Eq(a, b) => { if self.cond > 0 { return Err("constraint under an unknown condition".into()) } let (a, b) = (self.num(a)?, self.num(b)?); self.equal(&a, &b)? }
            S::If(c, a, b) => { let c = self.num(c)?; match c.konst() {
                Some(k) => if !k.is_zero() { return self.run(a) } else if let Some(b) = b { return self.run(b) },
                None => {
                    self.cond += 1; let before = self.scopes.clone(); let go = |x: Flow| if let Flow::Ret(_) = x { Err("return under an unknown condition".to_string()) } else { Ok(()) };
                    self.run(a).and_then(go)?; let then = std::mem::replace(&mut self.scopes, before); if let Some(b) = b { self.run(b).and_then(go)? } self.cond -= 1;
                    for (i, (_, t)) in then.into_iter().enumerate() { if i < self.floor { continue } if let (Slot::Val(x), Slot::Val(y)) = (t, &self.scopes[i].1) { let m = Self::merge(&c, x, y.clone())?; self.scopes[i].1 = Slot::Val(m) } }
                }
            } }
            S::While(c, b) => loop { let k = self.num(c)?.konst().ok_or("loop condition is not known")?; if k.is_zero() { break } self.steps += 1; if let Flow::Ret(v) = self.run(b)? { return Ok(Flow::Ret(v)) } },
        }
        Ok(Flow::Go)
    }
    pub fn circuit(f: &Arc<Fd>, p: &Arc<Program>, template: &str, params: &[u64]) -> R<Circuit> { let a = params.iter().map(|x| V::X(Ex::L(Lc::k(U::from(*x))))).collect(); Builder::new(f, p).finish(template, a, &[]) }
    /// The circuit of the file's main component.
    pub fn main(f: &Arc<Fd>, p: &Arc<Program>) -> R<(Circuit, String)> {
        let (public, e) = p.main.as_ref().ok_or("no main component")?; let E::Call(n, a) = e else { return Err("main".into()) }; let mut b = Builder::new(f, p); let args = a.iter().map(|x| b.expr(x)).collect::<R<Vec<V>>>()?;
        Ok((b.finish(n, args, public)?, n.to_string()))
    }
    fn finish(mut self, template: &str, args: Vec<V>, public: &[Arc<str>]) -> R<Circuit> {
        self.instance(&template.into(), args, "main")?; let n = self.n as usize; let top = std::mem::take(&mut self.insts[0].sigs);
        let pick = |k: Kind| -> Vec<(String, u32, Vec<usize>)> { top.iter().filter(|s| s.3 == k).map(|s| (s.0.to_string(), s.1, s.2.clone())).collect() }; let (ins, outs) = (pick(Kind::In), pick(Kind::Out));
        for x in public { if !ins.iter().any(|i| i.0 == **x) { return Err(format!("{x} is no input")) } }
        let mut wires = vec![]; for (_, b, d) in &outs { wires.extend(*b..*b + size(d) as u32) } for (nm, b, d) in &ins { if public.iter().any(|x| **x == **nm) { wires.extend(*b..*b + size(d) as u32) } }
        // an order in which every signal follows those it is computed from
        let main_in: Vec<bool> = { let mut v = vec![false; n]; for (_, b, d) in &ins { for i in *b..*b + size(d) as u32 { v[i as usize] = true } } v };
        let mut need = vec![0u32; n]; let mut users: Vec<Vec<u32>> = vec![vec![]; n]; let mut tmp = vec![];
        for i in 0..n { if let Some(x) = &self.assign[i] { tmp.clear(); x.signals(&mut tmp); tmp.sort(); tmp.dedup(); need[i] = tmp.len() as u32; for s in &tmp { users[*s as usize].push(i as u32) } } else if !main_in[i] { need[i] = u32::MAX } }
        let mut q: Vec<u32> = (0..n as u32).filter(|i| need[*i as usize] == 0).collect(); let mut order = Vec::with_capacity(n); let mut at = 0;
        while at < q.len() { let s = q[at]; at += 1; if !main_in[s as usize] { order.push(s) } for u in std::mem::take(&mut users[s as usize]) { need[u as usize] -= 1; if need[u as usize] == 0 { q.push(u) } } }
        Ok(Circuit { f: self.f.clone(), prog: self.p.clone(), n, cons: self.cons, assign: self.assign, hint: self.hint, order, asserts: self.asserts, ins, outs, public: wires, big: self.big, names: self.names })
    }
}
pub type Input = BTreeMap<String, Vec<U>>;
impl Circuit {
    pub fn name(&self, s: u32) -> String { let i = self.names.partition_point(|x| x.0 <= s) - 1; format!("{}+{}", self.names[i].1, s - self.names[i].0) }
    pub fn place(&self, inp: &[(&str, Vec<U>)]) -> R<Vec<(u32, U)>> {
        let m: HashMap<&str, &Vec<U>> = inp.iter().map(|(k, v)| (*k, v)).collect(); let mut out = vec![];
        for (n, b, d) in &self.ins { let v = m.get(n.as_str()).ok_or(format!("input {n} is not given"))?; if v.len() != size(d) { return Err(format!("input {n}: {} values for {}", v.len(), size(d))) } for (i, x) in v.iter().enumerate() { out.push((*b + i as u32, self.f.red(x))) } }
        if m.len() != self.ins.len() { return Err(format!("inputs {:?}", self.ins.iter().map(|x| &x.0).collect::<Vec<_>>())) } Ok(out)
    }
    /// What the witness generator computes.
    pub fn witness(&self, inp: &[(u32, U)]) -> Vec<U> { let mut v = vec![U::ZERO; self.n]; for (s, x) in inp { v[*s as usize] = *x } for s in &self.order { let x = self.assign[*s as usize].as_ref().unwrap().eval(self, &v); v[*s as usize] = x } v }
    pub fn broken(&self, v: &[U]) -> Option<usize> { let f = &*self.f; self.cons.iter().position(|c| !(if c.a.is_k() && c.a.k.is_zero() { c.c.eval(f, v) } else { f.add(&f.mul(&c.a.eval(f, v), &c.b.eval(f, v)), &c.c.eval(f, v)) }).is_zero()) }
    pub fn asserts_hold(&self, v: &[U]) -> bool { self.asserts.iter().all(|a| !a.eval(self, v).is_zero()) }
    pub fn out(&self, name: &str, v: &[U]) -> Vec<U> { self.outs.iter().filter(|o| o.0 == name).flat_map(|(_, b, d)| (0..size(d)).map(|i| v[*b as usize + i]).collect::<Vec<_>>()).collect() }
    pub fn out_sigs(&self) -> Vec<u32> { self.outs.iter().flat_map(|(_, b, d)| *b..*b + size(d) as u32).collect() }
}
