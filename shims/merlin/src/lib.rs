//! Stand-in for the `merlin` crate (not in the offline cache): the same
//! STROBE-128 transcript construction, written from its specification.
use vkeccak::f1600_bytes;
const R: u8 = 166;
const I: u8 = 1; const A: u8 = 2; const C: u8 = 4; const M: u8 = 16; 
#[derive(Clone)]
struct Strobe { st: [u8; 200], pos: u8, pos_begin: u8, cur: u8 }
impl Strobe {
    fn new(label: &[u8]) -> Self {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        f1600_bytes(&mut st);
        let mut s = Strobe { st, pos: 0, pos_begin: 0, cur: 0 };
        s.meta_ad(label, false);
        s
    }
    fn meta_ad(&mut self, d: &[u8], more: bool) { self.begin(M | A, more); self.absorb(d) }
    fn ad(&mut self, d: &[u8], more: bool) { self.begin(A, more); self.absorb(d) }
    fn prf(&mut self, d: &mut [u8]) { self.begin(I | A | C, false); self.squeeze(d) }
    fn run_f(&mut self) {
        self.st[self.pos as usize] ^= self.pos_begin;
        self.st[self.pos as usize + 1] ^= 0x04;
        self.st[R as usize + 1] ^= 0x80;
        f1600_bytes(&mut self.st); self.pos = 0; self.pos_begin = 0;
    }
    fn absorb(&mut self, d: &[u8]) { for b in d { self.st[self.pos as usize] ^= b; self.pos += 1; if self.pos == R { self.run_f() } } }
    fn squeeze(&mut self, d: &mut [u8]) { for b in d { *b = self.st[self.pos as usize]; self.st[self.pos as usize] = 0; self.pos += 1; if self.pos == R { self.run_f() } } }
    fn begin(&mut self, flags: u8, more: bool) {
        if more { assert_eq!(self.cur, flags); return; }
        let old = self.pos_begin; self.pos_begin = self.pos + 1; self.cur = flags;
        self.absorb(&[old, flags]);
        if flags & (C | 32) != 0 && self.pos != 0 { self.run_f() }
    }
}
/// One operation on a transcript, as seen by a harness.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev { New(Vec<u8>), Absorb(Vec<u8>, Vec<u8>), Challenge(Vec<u8>, Vec<u8>) }
/// Harness controls (not part of merlin's interface).
pub mod hook {
    use super::Ev;
    use std::cell::{Cell, RefCell};
    thread_local! { pub(crate) static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]); pub(crate) static TAPE: RefCell<Vec<Ev>> = RefCell::new(vec![]); pub(crate) static ON: Cell<bool> = Cell::new(false); pub(crate) static NUDGE: Cell<Option<u64>> = Cell::new(None); pub(crate) static DRAWN: Cell<u64> = Cell::new(0); }
    /// Changes the value (not the state) of the `k`-th draw from transcripts that are not watched, and counts draws from zero.
    pub fn nudge(k: Option<u64>) { NUDGE.with(|n| n.set(k)); DRAWN.with(|d| d.set(0)) }
    pub fn drawn() -> u64 { DRAWN.with(|d| d.get()) }
    /// Start logging: watched transcripts to `LOG`, all others (randomness tapes) to `TAPE`.
    pub fn start() { LOG.with(|l| l.borrow_mut().clear()); TAPE.with(|l| l.borrow_mut().clear()); ON.with(|o| o.set(true)) }
    pub fn stop() -> (Vec<Ev>, Vec<Ev>) { ON.with(|o| o.set(false)); (LOG.with(|l| std::mem::take(&mut *l.borrow_mut())), TAPE.with(|l| std::mem::take(&mut *l.borrow_mut()))) }
}
#[derive(Clone)]
pub struct Transcript { s: Strobe, watched: bool, forced: Option<(u64, u64)> }
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { s: Strobe::new(b"Merlin v1.0"), watched: false, forced: None };
        t.log(|| Ev::New(label.to_vec()));
        t.append_message(b"dom-sep", label);
        t
    }
    /// Log this transcript's operations separately from the others'.
    pub fn watch(mut self) -> Self { self.watched = true; self }
    /// Answer challenges from a fixed stream, whatever was absorbed.
    pub fn force(mut self, seed: u64) -> Self { self.forced = Some((seed, 0)); self }
    fn log(&self, e: impl FnOnce() -> Ev) {
        if hook::ON.with(|o| o.get()) { let e = e(); if self.watched { hook::LOG.with(|l| l.borrow_mut().push(e)) } else { hook::TAPE.with(|l| l.borrow_mut().push(e)) } }
    }
    pub fn append_message(&mut self, label: &'static [u8], m: &[u8]) {
        self.log(|| Ev::Absorb(label.to_vec(), m.to_vec()));
        self.s.meta_ad(label, false); self.s.meta_ad(&(m.len() as u32).to_le_bytes(), true); self.s.ad(m, false);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) { self.append_message(label, &x.to_le_bytes()) }
    pub fn challenge_bytes(&mut self, label: &'static [u8], d: &mut [u8]) {
        let n = d.len() as u32;
        self.s.meta_ad(label, false); self.s.meta_ad(&n.to_le_bytes(), true); self.s.prf(d);
        if let Some((seed, k)) = &mut self.forced {
            let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ k.wrapping_mul(0xd1342543de82ef95);
            *k += 1;
            for b in d.iter_mut() { x = x.wrapping_add(0x9e3779b97f4a7c15); let mut z = x; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); *b = (z ^ (z >> 31)) as u8 }
        }
        if !self.watched { let k = hook::DRAWN.with(|d| { let k = d.get(); d.set(k + 1); k }); if hook::NUDGE.with(|n| n.get()) == Some(k) { d[0] ^= 1 } }
        self.log(|| Ev::Challenge(label.to_vec(), d.to_vec()));
    }
}
#[cfg(test)]
mod t { use super::*;
    #[test] fn merlin_vector() {
        // merlin's own `equivalence_simple` value
        let mut t = Transcript::new(b"test protocol"); t.append_message(b"some label", b"some data");
        let mut c = [0u8; 32]; t.challenge_bytes(b"challenge", &mut c);
        let h: String = c.iter().map(|x| format!("{x:02x}")).collect();
        assert_eq!(h, "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
    }
}
