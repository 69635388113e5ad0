//! Bit-set that is a genuine rustc `MixedBitSet` while its contents are known, and an SMT
//! bit-vector once it has been combined with a symbolic one.
extern crate rustc_index;

use super::BitSet;
use rustc_index::bit_set::{ChunkedBitSet, DenseBitSet, MixedBitSet};
use std::cell::{Cell, RefCell};
use symrt::{SBV, SBool};

#[derive(Clone)]
pub enum SymBitSet {
    Conc(MixedBitSet<usize>),
    Sym(SBV),
}
use SymBitSet::*;

#[cfg(feature = "eager")]
pub type Changed = bool;

/// "Did the set change?", decided by the solver only if somebody asks.
#[cfg(not(feature = "eager"))]
#[derive(Clone, Copy)]
pub struct Changed(SBool);

#[cfg(not(feature = "eager"))]
mod changed_impls {
    use super::*;
    impl Changed {
        pub fn get(self) -> bool {
            symrt::branch(self.0)
        }
        pub fn term(self) -> SBool {
            self.0
        }
    }
    impl From<bool> for Changed {
        fn from(b: bool) -> Self {
            Changed(SBool::C(b))
        }
    }
    impl From<SBool> for Changed {
        fn from(b: SBool) -> Self {
            Changed(b)
        }
    }
    impl From<Changed> for bool {
        fn from(c: Changed) -> bool {
            c.get()
        }
    }
    impl std::ops::Not for Changed {
        type Output = bool;
        fn not(self) -> bool {
            !self.get()
        }
    }
    impl std::ops::BitOrAssign<Changed> for bool {
        fn bitor_assign(&mut self, o: Changed) {
            if !*self {
                *self = o.get()
            }
        }
    }
    impl std::ops::BitOr for Changed {
        type Output = Changed;
        fn bitor(self, o: Changed) -> Changed {
            Changed(self.0.or(o.0))
        }
    }
    impl PartialEq<bool> for Changed {
        fn eq(&self, o: &bool) -> bool {
            self.get() == *o
        }
    }
    impl std::fmt::Debug for Changed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Changed")
        }
    }
}

#[cfg(not(feature = "eager"))]
fn mk(b: SBool) -> Changed {
    Changed(b)
}
#[cfg(feature = "eager")]
fn mk(b: SBool) -> Changed {
    symrt::branch(b)
}
#[cfg(not(feature = "eager"))]
fn term(c: Changed) -> SBool {
    c.0
}
#[cfg(feature = "eager")]
fn term(c: Changed) -> SBool {
    SBool::C(c)
}

thread_local! {
    /// When set, `join` answers "may have changed" (no fork): used only by harnesses in which the
    /// work-list is not the subject.
    pub static MAY_JOIN: Cell<bool> = const { Cell::new(false) };
    /// Called on every matrix clone: (pointer to the fresh clone, its type name).
    pub static CLONE_HOOK: RefCell<Option<Box<dyn FnMut(*mut (), &'static str)>>> = const { RefCell::new(None) };
}

pub fn clone_hook(ptr: *mut (), name: &'static str) {
    let h = CLONE_HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut h) = h {
        h(ptr, name);
        CLONE_HOOK.with(|s| *s.borrow_mut() = Some(h));
    }
}

pub fn join_changed(c: Changed) -> bool {
    match term(c) {
        SBool::C(b) => b,
        t => {
            if MAY_JOIN.with(|m| m.get()) {
                symrt::possible(t)
            } else {
                symrt::branch(t)
            }
        }
    }
}

impl SymBitSet {
    /// The contents as an SMT term.
    pub fn bv(&self) -> SBV {
        match self {
            Sym(b) => b.clone(),
            Conc(s) => {
                let mut v = vec![false; s.domain_size()];
                for i in s.iter() {
                    v[i] = true;
                }
                SBV::from_bits(v)
            }
        }
    }
    /// From a term (constants become genuine rustc bit-sets).
    pub fn from_bv(b: SBV) -> Self {
        match b.as_const() {
            Some(bits) => {
                let mut s = MixedBitSet::new_empty(bits.len());
                for (i, x) in bits.iter().enumerate() {
                    if *x {
                        s.insert(i);
                    }
                }
                Conc(s)
            }
            None => Sym(b),
        }
    }
    pub fn is_symbolic(&self) -> bool {
        matches!(self, Sym(_))
    }
    fn w(&self) -> u32 {
        match self {
            Conc(s) => s.domain_size() as u32,
            Sym(b) => b.width(),
        }
    }
    fn update(&mut self, new: SBV) -> Changed {
        let old = self.bv();
        let c = old.eq(&new).not();
        *self = Self::from_bv(new);
        mk(c)
    }
}

impl PartialEq for SymBitSet {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Conc(a), Conc(b)) => a == b,
            _ => symrt::branch(self.bv().eq(&o.bv())),
        }
    }
}

impl BitSet for SymBitSet {
    fn empty(size: usize) -> Self {
        Conc(MixedBitSet::new_empty(size))
    }
    fn insert(&mut self, index: usize) -> Changed {
        match self {
            Conc(s) => mk(s.insert(index).into()),
            Sym(b) => {
                let n = b.or(&SBV::single(b.width(), index));
                let c = b.bit(index as u32).not();
                *b = n;
                mk(c)
            }
        }
    }
    fn remove(&mut self, index: usize) -> Changed {
        match self {
            Conc(s) => mk(s.remove(index).into()),
            Sym(b) => {
                let n = b.and(&SBV::single(b.width(), index).not());
                let c = b.bit(index as u32);
                *self = Self::from_bv(n);
                mk(c)
            }
        }
    }
    fn contains(&self, index: usize) -> bool {
        match self {
            Conc(s) => s.contains(index),
            Sym(b) => symrt::branch(b.bit(index as u32)),
        }
    }
    fn iter(&self) -> impl Iterator<Item = usize> {
        match self {
            Conc(s) => s.iter().collect::<Vec<_>>().into_iter(),
            Sym(b) => (0..b.width())
                .filter(|i| symrt::branch(b.bit(*i)))
                .map(|i| i as usize)
                .collect::<Vec<_>>()
                .into_iter(),
        }
    }
    fn len(&self) -> usize {
        match self {
            Conc(s) => s.iter().count(),
            Sym(b) => {
                let w = b.width();
                if symrt::branch(b.eq(&SBV::zero(w))) {
                    return 0;
                }
                if symrt::branch(b.and(&b.sub(&SBV::konst(w, 1))).eq(&SBV::zero(w))) {
                    return 1;
                }
                let (one, zero) = (SBV::konst(16, 1), SBV::konst(16, 0));
                let mut n = zero.clone();
                for i in 0..w {
                    n = n.add(&SBV::ite(b.bit(i), &one, &zero));
                }
                for v in 2..w {
                    if symrt::branch(n.eq(&SBV::konst(16, v as u128))) {
                        return v as usize;
                    }
                }
                w as usize
            }
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            Conc(s) => s.is_empty(),
            Sym(b) => symrt::branch(b.eq(&SBV::zero(b.width()))),
        }
    }
    fn union(&mut self, other: &Self) {
        match (&mut *self, other) {
            (Conc(a), Conc(b)) => {
                a.union(b);
            }
            _ => *self = Self::from_bv(self.bv().or(&other.bv())),
        }
    }
    fn union_changed(&mut self, other: &Self) -> Changed {
        match (&mut *self, other) {
            (Conc(a), Conc(b)) => mk(a.union(b).into()),
            _ => {
                let n = self.bv().or(&other.bv());
                self.update(n)
            }
        }
    }
    fn intersect(&mut self, other: &Self) {
        let _ = self.intersect_changed(other);
    }
    fn intersect_changed(&mut self, other: &Self) -> Changed {
        match (&mut *self, other) {
            (Conc(a), Conc(b)) => mk(match (a, b) {
                (MixedBitSet::Large(a), MixedBitSet::Large(b)) => ChunkedBitSet::intersect(a, b),
                (MixedBitSet::Small(a), MixedBitSet::Small(b)) => DenseBitSet::intersect(a, b),
                _ => panic!("Mismatched domains"),
            }
            .into()),
            _ => {
                let n = self.bv().and(&other.bv());
                self.update(n)
            }
        }
    }
    fn subtract(&mut self, other: &Self) {
        let _ = self.subtract_changed(other);
    }
    fn subtract_changed(&mut self, other: &Self) -> Changed {
        match (&mut *self, other) {
            (Conc(a), Conc(b)) => mk(a.subtract(b).into()),
            _ => {
                let n = self.bv().and(&other.bv().not());
                self.update(n)
            }
        }
    }
    fn invert(&mut self) {
        *self = Self::from_bv(self.bv().not());
    }
    fn clear(&mut self) {
        *self = Self::empty(self.w() as usize);
    }
    fn insert_all(&mut self) {
        match self {
            Conc(s) => s.insert_all(),
            Sym(b) => *self = Self::from_bv(SBV::ones(b.width())),
        }
    }
    fn superset(&self, other: &Self) -> bool {
        match (self, other) {
            (Conc(a), Conc(b)) => b.iter().all(|i| a.contains(i)),
            _ => symrt::branch(other.bv().subset_of(&self.bv())),
        }
    }
    fn copy_from(&mut self, other: &Self) {
        *self = other.clone();
    }
}
