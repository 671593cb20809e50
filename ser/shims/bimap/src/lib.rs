//! The part of `bimap` that /repo uses, on two hash maps.
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}
impl<L, R> Overwritten<L, R> {
    pub fn did_overwrite(&self) -> bool {
        !matches!(self, Overwritten::Neither)
    }
}
pub struct BiHashMap<L, R> {
    l: HashMap<Rc<L>, Rc<R>>,
    r: HashMap<Rc<R>, Rc<L>>,
}
pub type BiMap<L, R> = BiHashMap<L, R>;
impl<L, R> Default for BiHashMap<L, R> {
    fn default() -> Self {
        BiHashMap { l: HashMap::new(), r: HashMap::new() }
    }
}
fn own<T>(x: Rc<T>) -> T {
    Rc::try_unwrap(x).ok().expect("held by both maps only")
}
impl<L: Eq + Hash, R: Eq + Hash> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.l.len()
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty()
    }
    pub fn clear(&mut self) {
        self.l.clear();
        self.r.clear()
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.l.contains_key(l)
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.r.contains_key(r)
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.l.get(l).map(|x| &**x)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.r.get(r).map(|x| &**x)
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        let r = self.l.remove(l)?;
        let l = self.r.remove(&r)?;
        Some((own(l), own(r)))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        let l = self.r.remove(r)?;
        let r = self.l.remove(&l)?;
        Some((own(l), own(r)))
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let out = match (self.remove_by_left(&l), self.remove_by_right(&r)) {
            (None, None) => Overwritten::Neither,
            (None, Some((l, r))) => Overwritten::Right(l, r),
            (Some((a, b)), None) => if b == r { Overwritten::Pair(a, b) } else { Overwritten::Left(a, b) },
            (Some(x), Some(y)) => Overwritten::Both(x, y),
        };
        let (l, r) = (Rc::new(l), Rc::new(r));
        self.l.insert(l.clone(), r.clone());
        self.r.insert(r, l);
        out
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.contains_left(&l) || self.contains_right(&r) {
            return Err((l, r));
        }
        self.insert(l, r);
        Ok(())
    }
    pub fn iter(&self) -> impl Iterator<Item = (&L, &R)> + '_ {
        self.l.iter().map(|(l, r)| (&**l, &**r))
    }
    pub fn left_values(&self) -> impl Iterator<Item = &L> + '_ {
        self.l.keys().map(|l| &**l)
    }
    pub fn right_values(&self) -> impl Iterator<Item = &R> + '_ {
        self.r.keys().map(|r| &**r)
    }
}
impl<L: fmt::Debug, R: fmt::Debug> fmt::Debug for BiHashMap<L, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.l.iter()).finish()
    }
}
