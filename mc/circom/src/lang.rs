//! Lexer and parser of the circuit language.
use mccore::U;
use std::{collections::BTreeMap, path::{Path, PathBuf}, sync::Arc};
pub type R<T> = Result<T, String>;
#[derive(Clone, Debug)]
pub enum E { Num(U), Var(Arc<str>, Vec<Acc>), Bin(&'static str, Box<E>, Box<E>), Un(&'static str, Box<E>), Tern(Box<E>, Box<E>, Box<E>), Call(Arc<str>, Vec<E>), Anon(Arc<str>, Vec<E>, Vec<(Option<Arc<str>>, &'static str, E)>), Arr(Vec<E>), Tuple(Vec<E>) }
#[derive(Clone, Debug)]
pub enum Acc { Idx(E), Dot(Arc<str>) }
#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Kind { In, Out, Mid }
pub type Decl = (Arc<str>, Vec<E>, Option<(&'static str, E)>);
#[derive(Clone, Debug)]
pub enum S { Sig(Kind, Vec<Decl>), Var(Vec<Decl>), Comp(Vec<Decl>), Assign(E, &'static str, E), Eq(E, E), If(E, Box<S>, Option<Box<S>>), While(E, Box<S>), Block(Vec<S>), Ret(E), Assert(E), Nop }
#[derive(Debug)]
pub struct Def { pub name: Arc<str>, pub params: Vec<Arc<str>>, pub body: S, pub file: String }
#[derive(Default)]
pub struct Program { pub templates: BTreeMap<Arc<str>, Arc<Def>>, pub functions: BTreeMap<Arc<str>, Arc<Def>>, pub main: Option<(Vec<Arc<str>>, E)>, pub files: Vec<PathBuf> }
#[derive(Clone, Debug, PartialEq)]
enum T { Id(Arc<str>), Num(U), Str(String), Op(&'static str), End }
const OPS: &[&str] = &["<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "++", "--", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}"];
fn lex(s: &str) -> R<Vec<(T, usize)>> {
    let b = s.as_bytes(); let (mut i, mut line) = (0, 1); let mut v = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c == b'\n' { line += 1 }
        if c.is_ascii_whitespace() { i += 1; continue }
        if s.is_char_boundary(i) && s[i..].starts_with("//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if s.is_char_boundary(i) && s[i..].starts_with("/*") { let e = s[i..].find("*/").ok_or("open comment")?; line += s[i..i + e].matches('\n').count(); i += e + 2; continue }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' { let k = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') { i += 1 } v.push((T::Id(s[k..i].into()), line)); continue }
        if c.is_ascii_digit() {
            let k = i; while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1 }
            let t = &s[k..i]; let n = if let Some(h) = t.strip_prefix("0x") { if h.len() > 64 { return Err(format!("number {t}")) } U::from_hex(h) } else { let z = t.trim_start_matches('0'); if !t.bytes().all(|c| c.is_ascii_digit()) || z.len() > 78 || z.len() == 78 && z > MAX { return Err(format!("number {t}")) } U::from_dec(t) };
            v.push((T::Num(n), line)); continue
        }
        if c == b'"' { let e = s[i + 1..].find('"').ok_or("open string")?; v.push((T::Str(s[i + 1..i + 1 + e].into()), line)); i += e + 2; continue }
        for o in OPS { if s.as_bytes()[i..].starts_with(o.as_bytes()) { v.push((T::Op(o), line)); i += o.len(); continue 'o } }
        return Err(format!("line {line}: character {:?}", c as char))
    }
    v.push((T::End, line)); Ok(v)
}
const MAX: &str = "115792089237316195423570985008687907853269984665640564039457584007913129639935";
struct Ps { t: Vec<(T, usize)>, i: usize, file: String }
impl Ps {
    fn err<X>(&self, m: &str) -> R<X> { Err(format!("{}:{}: {m} at {:?}", self.file, self.t[self.i].1, self.t[self.i].0)) }
    fn is(&self, o: &str) -> bool { matches!(&self.t[self.i].0, T::Op(x) if *x == o) }
    fn kw(&self, o: &str) -> bool { matches!(&self.t[self.i].0, T::Id(x) if &**x == o) }
    fn op(&mut self, o: &str) -> bool { if self.is(o) { self.i += 1; true } else { false } }
    fn word(&mut self, o: &str) -> bool { if self.kw(o) { self.i += 1; true } else { false } }
    fn need(&mut self, o: &str) -> R<()> { if self.op(o) { Ok(()) } else { self.err(&format!("{o} expected")) } }
    fn id(&mut self) -> R<Arc<str>> { if let T::Id(x) = &self.t[self.i].0 { let x = x.clone(); self.i += 1; Ok(x) } else { self.err("name expected") } }
    fn list<X>(&mut self, end: &str, f: impl Fn(&mut Ps) -> R<X>) -> R<Vec<X>> { let mut v = vec![]; if self.op(end) { return Ok(v) } loop { v.push(f(self)?); if self.op(end) { return Ok(v) } self.need(",")? } }
    fn expr(&mut self) -> R<E> { let c = self.bin(0)?; if self.op("?") { let a = self.expr()?; self.need(":")?; let b = self.expr()?; return Ok(E::Tern(Box::new(c), Box::new(a), Box::new(b))) } Ok(c) }
    fn bin(&mut self, lvl: usize) -> R<E> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["==", "!=", "<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "\\", "%"], &["**"]];
        if lvl == L.len() { return self.unary() }
        let mut a = self.bin(lvl + 1)?;
        'o: loop { for o in L[lvl] { if self.op(o) { let b = self.bin(lvl + 1)?; a = E::Bin(o, Box::new(a), Box::new(b)); continue 'o } } return Ok(a) }
    }
    fn unary(&mut self) -> R<E> { for o in ["-", "!", "~"] { if self.op(o) { return Ok(E::Un(o, Box::new(self.unary()?))) } } self.atom() }
    fn atom(&mut self) -> R<E> {
        match self.t[self.i].0.clone() {
            T::Num(n) => { self.i += 1; Ok(E::Num(n)) }
            T::Op("(") => { self.i += 1; let mut v = self.list(")", |p| p.expr())?; Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Tuple(v) }) }
            T::Op("[") => { self.i += 1; Ok(E::Arr(self.list("]", |p| p.expr())?)) }
            T::Id(n) => {
                self.i += 1;
                if &*n == "parallel" { return self.atom() }
                if self.op("(") {
                    let a = self.list(")", |p| p.expr())?;
                    if self.op("(") { let ins = self.list(")", |p| { if matches!(p.t[p.i].0, T::Id(_)) { for o in ["<==", "<--"] { if p.t[p.i + 1].0 == T::Op(if o == "<==" { "<==" } else { "<--" }) { let n = p.id()?; p.i += 1; return Ok((Some(n), if o == "<==" { "<==" } else { "<--" }, p.expr()?)) } } } Ok((None, "<==", p.expr()?)) })?; return Ok(E::Anon(n, a, ins)) }
                    return Ok(E::Call(n, a))
                }
                let mut acc = vec![];
                loop { if self.op("[") { acc.push(Acc::Idx(self.expr()?)); self.need("]")? } else if self.op(".") { acc.push(Acc::Dot(self.id()?)) } else { return Ok(E::Var(n, acc)) } }
            }
            _ => self.err("expression expected"),
        }
    }
    fn decls(&mut self, inits: &[&'static str]) -> R<Vec<Decl>> {
        let mut v = vec![];
        loop {
            let n = self.id()?; let mut d = vec![]; while self.op("[") { d.push(self.expr()?); self.need("]")? }
            let mut init = None; for o in inits { if self.op(o) { init = Some((*o, self.expr()?)); break } }
            v.push((n, d, init)); if !self.op(",") { return Ok(v) }
        }
    }
    fn simple(&mut self) -> R<S> {
        if self.word("var") { if self.is("(") { return self.err("tuple declaration") } return Ok(S::Var(self.decls(&["="])?)) }
        let a = self.expr()?;
        for o in ["++", "--"] { if self.op(o) { let b = E::Bin(if o == "++" { "+" } else { "-" }, Box::new(a.clone()), Box::new(E::Num(U::ONE))); return Ok(S::Assign(a, "=", b)) } }
        for o in ["=", "<==", "<--"] { if self.op(o) { return Ok(S::Assign(a, o, self.expr()?)) } }
        for (o, k) in [("==>", "<=="), ("-->", "<--")] { if self.op(o) { let b = self.expr()?; return Ok(S::Assign(b, k, a)) } }
        if self.op("===") { return Ok(S::Eq(a, self.expr()?)) }
        for (o, k) in [("+=", "+"), ("-=", "-"), ("*=", "*"), ("/=", "/"), ("\\=", "\\"), ("%=", "%"), ("&=", "&"), ("|=", "|"), ("^=", "^"), ("**=", "**"), ("<<=", "<<"), (">>=", ">>")] { if self.op(o) { let b = self.expr()?; return Ok(S::Assign(a.clone(), "=", E::Bin(k, Box::new(a), Box::new(b)))) } }
        match a { E::Anon(..) => Ok(S::Assign(E::Tuple(vec![]), "<==", a)), _ => self.err("statement expected") }
    }
    fn stmt(&mut self) -> R<S> {
        if self.op("{") { let mut v = vec![]; while !self.op("}") { v.push(self.stmt()?) } return Ok(S::Block(v)) }
        if self.op(";") { return Ok(S::Nop) }
        if self.word("if") { self.need("(")?; let c = self.expr()?; self.need(")")?; let a = self.stmt()?; let b = if self.word("else") { Some(Box::new(self.stmt()?)) } else { None }; return Ok(S::If(c, Box::new(a), b)) }
        if self.word("while") { self.need("(")?; let c = self.expr()?; self.need(")")?; return Ok(S::While(c, Box::new(self.stmt()?))) }
        if self.word("for") { self.need("(")?; let a = self.simple()?; self.need(";")?; let c = self.expr()?; self.need(";")?; let u = self.simple()?; self.need(")")?; let b = self.stmt()?; return Ok(S::Block(vec![a, S::While(c, Box::new(S::Block(vec![b, u])))])) }
        let s = if self.word("signal") {
            let k = if self.word("input") { Kind::In } else if self.word("output") { Kind::Out } else { Kind::Mid };
            if self.op("{") { self.list("}", |p| p.id())?; }
            S::Sig(k, self.decls(&["<==", "<--"])?)
        } else if self.word("component") { S::Comp(self.decls(&["="])?) }
        else if self.word("return") { S::Ret(self.expr()?) }
        else if self.word("assert") { self.need("(")?; let e = self.expr()?; self.need(")")?; S::Assert(e) }
        else if self.word("log") { self.need("(")?; self.list(")", |p| { if let T::Str(_) = p.t[p.i].0 { p.i += 1; Ok(()) } else { p.expr().map(|_| ()) } })?; S::Nop }
        else { self.simple()? };
        self.need(";")?; Ok(s)
    }
}
impl Program {
    /// Reads a file and everything it includes; the circuit library is resolved to `libdir`.
    pub fn load(file: &Path, libdir: &Path) -> R<Program> { let mut p = Program::default(); p.file(file, libdir)?; Ok(p) }
    pub fn file(&mut self, file: &Path, libdir: &Path) -> R<()> {
        let file = file.canonicalize().map_err(|e| format!("{}: {e}", file.display()))?;
        if self.files.contains(&file) { return Ok(()) } self.files.push(file.clone());
        let text = std::fs::read_to_string(&file).map_err(|e| format!("{}: {e}", file.display()))?; let name = file.display().to_string();
        let mut p = Ps { t: lex(&text).map_err(|e| format!("{name}: {e}"))?, i: 0, file: name.clone() };
        while p.t[p.i].0 != T::End {
            if p.word("pragma") { while !p.op(";") { p.i += 1; if p.t[p.i].0 == T::End { return p.err("pragma") } } continue }
            if p.word("include") { let T::Str(s) = p.t[p.i].0.clone() else { return p.err("include") }; p.i += 1; p.need(";")?; let to = match s.find("circomlib/circuits/") { Some(k) => libdir.join(&s[k + 19..]), None => file.parent().unwrap().join(&s) }; self.file(&to, libdir)?; continue }
            let f = p.word("function");
            if f || p.word("template") {
                if !f { while p.kw("parallel") || p.kw("custom") { p.i += 1 } }
                let name = p.id()?; p.need("(")?; let params = p.list(")", |p| p.id())?; let body = p.stmt()?;
                let d = Arc::new(Def { name: name.clone(), params, body, file: p.file.clone() });
                if (if f { &mut self.functions } else { &mut self.templates }).insert(name.clone(), d).is_some() { return p.err(&format!("{name} defined twice")) }
                continue
            }
            if p.word("component") { if !p.word("main") { return p.err("main expected") } let mut public = vec![]; if p.op("{") { if !p.word("public") { return p.err("public expected") } p.need("[")?; public = p.list("]", |p| p.id())?; p.need("}")? } p.need("=")?; let e = p.expr()?; p.need(";")?; self.main = Some((public, e)); continue }
            return p.err("definition expected")
        }
        Ok(())
    }
}
