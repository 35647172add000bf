//! Every function here must be rejected by the borrow checker (one guarantee each): a function that is
//! accepted shows that a reference handed out by the crate can outlive, or alias, what it refers to.
#![allow(dead_code, unused, deprecated)]
extern crate alloc;
use fallible_collections::*;
use std::cell::Cell;

pub fn vec_as_slice_borrows(mut v: TryVec<u8>) { let s = v.as_slice(); v.clear(); let _ = s.len(); }
pub fn vec_iter_borrows(mut v: TryVec<u8>) { let s = v.iter(); let _ = v.push(1); let _ = s.count(); }
pub fn vec_iter_mut_borrows(mut v: TryVec<u8>) { let s = v.iter_mut(); let _ = v.iter_mut(); let _ = s.count(); }
pub fn vec_as_mut_slice_borrows(mut v: TryVec<u8>) { let s = v.as_mut_slice(); v.clear(); s[0] = 1; }
pub fn vec_deref_borrows(mut v: TryVec<u8>) { let s: &[u8] = &v; v.clear(); let _ = s.len(); }
pub fn vec_as_slice_outlives() -> usize { let s; { let v = TryVec::<u8>::new(); s = v.as_slice(); } s.len() }
pub fn vec_into_iter_ref_outlives() -> usize { let s; { let v = TryVec::<u8>::new(); s = (&v).into_iter(); } s.count() }
pub fn vec_append_needs_two(mut v: TryVec<u8>) { let _ = v.append(&mut v); }
pub fn box_deref_borrows(b: TryBox<u8>) { let r: &u8 = &b; drop(b); let _ = *r; }
pub fn vec_dangling_element() { let mut v = TryVec::new(); { let x = 1u8; let _ = v.push(&x); } let _ = v.len(); }
pub fn box_dangling_element() { let b; { let x = 1u8; b = TryBox::try_new(&x); } let _ = b.is_ok(); }

#[cfg(feature = "hashmap")]
mod hm {
    use super::*;
    pub fn map_get_borrows(mut m: TryHashMap<u8, u8>) { let r = m.get(&1); let _ = m.insert(1, 2); let _ = r; }
    pub fn map_iter_borrows(mut m: TryHashMap<u8, u8>) { let r = m.iter(); let _ = m.remove(&1); let _ = r.count(); }
    pub fn map_get_outlives() -> Option<u8> { let r; { let m = TryHashMap::<u8, u8>::default(); r = m.get(&1); } r.copied() }
}

#[cfg(feature = "unstable")]
mod bt {
    use super::*;
    use fallible_collections::btree::{map, set, BTreeMap, BTreeSet};
    use map::Entry;
    type M = BTreeMap<u8, String>;
    type S = BTreeSet<String>;

    pub fn get_borrows(mut m: M) { let r = m.get(&1); m.clear(); let _ = r; }
    pub fn get_outlives() -> usize { let r; { let m = M::new(); r = m.get(&1); } r.map_or(0, |s| s.len()) }
    pub fn get_key_value_borrows(mut m: M) { let r = m.get_key_value(&1); m.clear(); let _ = r; }
    pub fn get_mut_borrows(mut m: M) { let r = m.get_mut(&1); let q = m.get(&1); let _ = (r, q); }
    pub fn index_borrows(mut m: M) { let r = &m[&1]; m.clear(); let _ = r.len(); }
    pub fn iter_borrows(mut m: M) { let r = m.iter(); m.clear(); let _ = r.count(); }
    pub fn iter_item_borrows(mut m: M) { let r = m.iter().next(); m.clear(); let _ = r; }
    pub fn iter_item_back_borrows(mut m: M) { let r = m.iter().next_back(); m.clear(); let _ = r; }
    pub fn iter_mut_borrows(mut m: M) { let r = m.iter_mut(); m.clear(); let _ = r.count(); }
    pub fn iter_mut_item_borrows(mut m: M) { let r = m.iter_mut().next(); let q = m.iter_mut().next(); let _ = (r, q); }
    pub fn iter_mut_item_outlives() -> usize { let r; { let mut m = M::new(); r = m.iter_mut().next(); } r.map_or(0, |x| x.1.len()) }
    pub fn range_borrows(mut m: M) { let r = m.range(1..2); m.clear(); let _ = r.count(); }
    pub fn range_item_borrows(mut m: M) { let r = m.range(1..2).next(); m.clear(); let _ = r; }
    pub fn range_outlives() -> usize { let r; { let m = M::new(); r = m.range(1..2); } r.count() }
    pub fn range_mut_borrows(mut m: M) { let r = m.range_mut(1..2); m.clear(); let _ = r.count(); }
    pub fn range_mut_item_borrows(mut m: M) { let r = m.range_mut(1..2).next(); let q = m.range_mut(1..2).next(); let _ = (r, q); }
    pub fn keys_borrows(mut m: M) { let r = m.keys(); m.clear(); let _ = r.count(); }
    pub fn keys_item_borrows(mut m: M) { let r = m.keys().next(); m.clear(); let _ = r; }
    pub fn values_borrows(mut m: M) { let r = m.values(); m.clear(); let _ = r.count(); }
    pub fn values_item_borrows(mut m: M) { let r = m.values().next(); m.clear(); let _ = r; }
    pub fn values_mut_borrows(mut m: M) { let r = m.values_mut(); m.clear(); let _ = r.count(); }
    pub fn values_mut_item_borrows(mut m: M) { let r = m.values_mut().next(); let q = m.values_mut().next(); let _ = (r, q); }
    pub fn entry_borrows(mut m: M) { let e = m.try_entry(1); m.clear(); let _ = e.is_ok(); }
    pub fn entry_key_borrows(mut m: M) { if let Ok(e) = m.try_entry(1) { let k = e.key(); drop(e); let _ = *k; } }
    pub fn occupied_get_borrows(e: map::OccupiedEntry<'_, u8, String>) { let r = e.get(); let _ = e.remove(); let _ = r.len(); }
    pub fn occupied_get_mut_borrows(mut e: map::OccupiedEntry<'_, u8, String>) { let r = e.get_mut(); let _ = e.insert(String::new()); r.clear(); }
    pub fn occupied_into_mut_borrows(mut m: M) {
        if let Ok(Entry::Occupied(e)) = m.try_entry(1) { let r = e.into_mut(); m.clear(); r.clear(); }
    }
    pub fn vacant_insert_borrows(mut m: M) {
        if let Ok(Entry::Vacant(e)) = m.try_entry(1) { let r = e.try_insert(String::new()); m.clear(); let _ = r; }
    }
    pub fn or_try_insert_borrows(mut m: M) {
        if let Ok(e) = m.try_entry(1) { let r = e.or_try_insert(String::new()); m.clear(); let _ = r; }
    }
    pub fn or_default_borrows(mut m: M) {
        if let Ok(e) = m.try_entry(1) { let r = e.or_default(); m.clear(); let _ = r; }
    }
    pub fn append_needs_two(mut m: M) { m.append(&mut m); }
    pub fn map_dangling_key() { let mut m = BTreeMap::new(); { let x = 1u8; let _ = m.try_insert(&x, 1); } let _ = m.len(); }
    pub fn map_dangling_value() { let mut m = BTreeMap::new(); { let x = 1u8; let _ = m.try_insert(1, &x); } let _ = m.len(); }
    pub fn into_iter_dangling() { let i; { let x = 1u8; let mut m = BTreeMap::new(); let _ = m.try_insert(1, &x); i = m.into_iter(); } let _ = i.count(); }

    pub fn dropck_key_destructor() {
        struct D<'a>(&'a Cell<u8>);
        impl Drop for D<'_> { fn drop(&mut self) { self.0.set(1); } }
        let mut m;
        let x = Cell::new(0);
        m = BTreeMap::new();
        m.try_insert(1u8, D(&x)).ok();
    }

    pub fn set_get_borrows(mut m: S) { let r = m.get("a"); m.clear(); let _ = r; }
    pub fn set_iter_borrows(mut m: S) { let r = m.iter(); m.clear(); let _ = r.count(); }
    pub fn set_iter_item_borrows(mut m: S) { let r = m.iter().next(); m.clear(); let _ = r; }
    pub fn set_range_item_borrows(mut m: S) { let r = m.range::<str, _>((core::ops::Bound::Unbounded, core::ops::Bound::Included("a"))).next(); m.clear(); let _ = r; }
    pub fn set_union_borrows(mut m: S, n: S) { let r = m.union(&n); m.clear(); let _ = r.count(); }
    pub fn set_union_item_borrows(m: S, mut n: S) { let r = m.union(&n).next(); n.clear(); let _ = r; }
    pub fn set_difference_item_borrows(mut m: S, n: S) { let r = m.difference(&n).next(); m.clear(); let _ = r; }
    pub fn set_intersection_item_borrows(mut m: S, n: S) { let r = m.intersection(&n).next(); m.clear(); let _ = r; }
    pub fn set_symmetric_item_borrows(m: S, mut n: S) { let r = m.symmetric_difference(&n).next(); n.clear(); let _ = r; }

    // invariance of what can write
    pub fn invariant_iter_mut_value<'a, 'b>(m: map::IterMut<'b, u8, &'static str>) -> map::IterMut<'b, u8, &'a str> { m }
    pub fn invariant_iter_mut_key<'a, 'b>(m: map::IterMut<'b, &'static str, u8>) -> map::IterMut<'b, &'a str, u8> { m }
    pub fn invariant_range_mut_value<'a, 'b>(m: map::RangeMut<'b, u8, &'static str>) -> map::RangeMut<'b, u8, &'a str> { m }
    pub fn invariant_values_mut<'a, 'b>(m: map::ValuesMut<'b, u8, &'static str>) -> map::ValuesMut<'b, u8, &'a str> { m }
    pub fn invariant_entry_value<'a, 'b>(m: map::Entry<'b, u8, &'static str>) -> map::Entry<'b, u8, &'a str> { m }
    pub fn invariant_occupied_value<'a, 'b>(m: map::OccupiedEntry<'b, u8, &'static str>) -> map::OccupiedEntry<'b, u8, &'a str> { m }
    pub fn invariant_occupied_key<'a, 'b>(m: map::OccupiedEntry<'b, &'static str, u8>) -> map::OccupiedEntry<'b, &'a str, u8> { m }
    pub fn invariant_vacant_value<'a, 'b>(m: map::VacantEntry<'b, u8, &'static str>) -> map::VacantEntry<'b, u8, &'a str> { m }
    // shared views must not be extended
    pub fn iter_lifetime_extended<'b>(m: map::Iter<'b, u8, u8>) -> map::Iter<'static, u8, u8> { m }
    pub fn range_lifetime_extended<'b>(m: map::Range<'b, u8, u8>) -> map::Range<'static, u8, u8> { m }
    pub fn into_iter_elements_extended<'a>(m: map::IntoIter<u8, &'a str>) -> map::IntoIter<u8, &'static str> { m }
    pub fn map_elements_extended<'a>(m: BTreeMap<u8, &'a str>) -> BTreeMap<u8, &'static str> { m }
}
fn main() {}
