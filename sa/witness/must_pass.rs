//! Every item here must type-check against the crate.  One function per guarantee: an error inside a
//! function is a violation of the guarantee the function is named after.
#![allow(dead_code, unused, deprecated)]
extern crate alloc;
use fallible_collections::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::rc::Rc;

fn send<T: Send>() {}
fn sync<T: Sync>() {}

// ---- negative implementations: inference is ambiguous exactly when the type does implement the trait
macro_rules! not_impl {
    ($name:ident, $t:ty, $($tr:tt)+) => {
        pub fn $name() {
            trait Ambiguous<A> { fn some_item() {} }
            impl<T: ?Sized> Ambiguous<()> for T {}
            struct Invalid;
            impl<T: ?Sized + $($tr)+> Ambiguous<Invalid> for T {}
            let _ = <$t as Ambiguous<_>>::some_item;
        }
    };
}

not_impl!(exclude__tryvec_clone, TryVec<u8>, Clone);
not_impl!(exclude__tryvec_clone_of_any, TryVec<Box<u8>>, Clone);
not_impl!(exclude__tryvec_extend, TryVec<u8>, Extend<u8>);
not_impl!(exclude__tryvec_extend_ref, TryVec<u8>, Extend<&'static u8>);
not_impl!(exclude__tryvec_from_slice, TryVec<u8>, From<&'static [u8]>);
not_impl!(exclude__tryvec_from_array, TryVec<u8>, From<[u8; 3]>);
not_impl!(exclude__tryvec_from_array_ref, TryVec<u8>, From<&'static [u8; 3]>);
not_impl!(exclude__tryvec_from_mut_slice, TryVec<u8>, From<&'static mut [u8]>);
not_impl!(exclude__tryvec_from_str, TryVec<u8>, From<&'static str>);
not_impl!(exclude__tryvec_from_string, TryVec<u8>, From<String>);
not_impl!(exclude__tryvec_from_iter, TryVec<u8>, core::iter::FromIterator<u8>);
not_impl!(exclude__tryvec_to_owned, TryVec<u8>, Copy);
not_impl!(exclude__trybox_clone, TryBox<u8>, Clone);
not_impl!(exclude__trybox_from_value, TryBox<u8>, From<u8>);
not_impl!(exclude__trybox_default, TryBox<u8>, Default);
not_impl!(exclude__tryvec_deref_vec, TryVec<u8>, core::ops::Deref<Target = Vec<u8>>);
not_impl!(exclude__tryvec_asmut_vec, TryVec<u8>, AsMut<Vec<u8>>);
not_impl!(exclude__tryvec_borrowmut_vec, TryVec<u8>, core::borrow::BorrowMut<Vec<u8>>);
not_impl!(exclude__trybox_deref_box, TryBox<u8>, core::ops::Deref<Target = Box<u8>>);

// ---- auto traits
pub fn auto__vec_send_sync() { send::<TryVec<u8>>(); sync::<TryVec<u8>>(); send::<TryBox<u8>>(); sync::<TryBox<u8>>(); }
not_impl!(auto__tryvec_not_send, TryVec<Rc<u8>>, Send);
not_impl!(auto__tryvec_not_sync, TryVec<Cell<u8>>, Sync);
not_impl!(auto__trybox_not_send, TryBox<Rc<u8>>, Send);
not_impl!(auto__trybox_not_sync, TryBox<Cell<u8>>, Sync);
pub fn tryvec__iterates_by_reference(v: &TryVec<u8>) { for x in v { let _: &u8 = x; } }
pub fn tryvec__iterates_by_value(v: TryVec<u8>) { for x in v { let _: u8 = x; } }
pub fn variance__tryvec<'a>(v: TryVec<&'static str>) -> TryVec<&'a str> { v }
pub fn variance__trybox<'a>(v: TryBox<&'static str>) -> TryBox<&'a str> { v }

#[cfg(feature = "hashmap")]
mod hm {
    use super::*;
    not_impl!(exclude__tryhashmap_clone, TryHashMap<u8, u8>, Clone);
    not_impl!(exclude__tryhashmap_extend, TryHashMap<u8, u8>, Extend<(u8, u8)>);
    not_impl!(exclude__tryhashmap_extend_ref, TryHashMap<u8, u8>, Extend<(&'static u8, &'static u8)>);
    not_impl!(exclude__tryhashmap_from_array, TryHashMap<u8, u8>, From<[(u8, u8); 2]>);
    not_impl!(exclude__tryhashmap_from_iter, TryHashMap<u8, u8>, core::iter::FromIterator<(u8, u8)>);
    pub fn auto__tryhashmap() { send::<TryHashMap<u8, u8>>(); sync::<TryHashMap<u8, u8>>(); }
    not_impl!(auto__tryhashmap_not_send_key, TryHashMap<Rc<u8>, u8>, Send);
    not_impl!(auto__tryhashmap_not_send_value, TryHashMap<u8, Rc<u8>>, Send);
    not_impl!(auto__tryhashmap_not_sync_value, TryHashMap<u8, Cell<u8>>, Sync);
    pub fn variance__tryhashmap<'a>(v: TryHashMap<&'static str, &'static str>) -> TryHashMap<&'a str, &'a str> { v }
}

#[cfg(feature = "unstable")]
mod bt {
    use super::*;
    use fallible_collections::btree::{map, set, BTreeMap, BTreeSet};
    type Bad = Rc<u8>;
    type Share = Cell<u8>;

    pub fn auto__map() { send::<BTreeMap<u8, u8>>(); sync::<BTreeMap<u8, u8>>(); }
    pub fn auto__map_of_cells_is_send() { send::<BTreeMap<u8, Share>>(); send::<BTreeSet<Share>>(); }
    pub fn auto__set() { send::<BTreeSet<u8>>(); sync::<BTreeSet<u8>>(); }
    pub fn auto__iter() {
        send::<map::Iter<'static, u8, u8>>(); sync::<map::Iter<'static, u8, u8>>();
        send::<map::IterMut<'static, u8, u8>>(); sync::<map::IterMut<'static, u8, u8>>();
        send::<map::IntoIter<u8, u8>>(); sync::<map::IntoIter<u8, u8>>();
        send::<map::Range<'static, u8, u8>>(); sync::<map::Range<'static, u8, u8>>();
        send::<map::RangeMut<'static, u8, u8>>(); sync::<map::RangeMut<'static, u8, u8>>();
        send::<map::Keys<'static, u8, u8>>(); send::<map::Values<'static, u8, u8>>();
        send::<map::Entry<'static, u8, u8>>(); sync::<map::Entry<'static, u8, u8>>();
        send::<set::Iter<'static, u8>>(); sync::<set::Iter<'static, u8>>();
        send::<set::IntoIter<u8>>(); send::<set::Range<'static, u8>>();
    }
    not_impl!(auto__map_not_send_key, BTreeMap<Bad, u8>, Send);
    not_impl!(auto__map_not_send_value, BTreeMap<u8, Bad>, Send);
    not_impl!(auto__map_not_sync_key, BTreeMap<Share, u8>, Sync);
    not_impl!(auto__map_not_sync_value, BTreeMap<u8, Share>, Sync);
    not_impl!(auto__set_not_send, BTreeSet<Bad>, Send);
    not_impl!(auto__set_not_sync, BTreeSet<Share>, Sync);
    not_impl!(auto__iter_not_send_key, map::Iter<'static, Share, u8>, Send);
    not_impl!(auto__iter_not_send_value, map::Iter<'static, u8, Share>, Send);
    not_impl!(auto__iter_not_sync, map::Iter<'static, u8, Share>, Sync);
    not_impl!(auto__iter_mut_not_send_key, map::IterMut<'static, Bad, u8>, Send);
    not_impl!(auto__iter_mut_not_send_value, map::IterMut<'static, u8, Bad>, Send);
    not_impl!(auto__iter_mut_not_sync, map::IterMut<'static, u8, Share>, Sync);
    not_impl!(auto__into_iter_not_send_key, map::IntoIter<Bad, u8>, Send);
    not_impl!(auto__into_iter_not_send_value, map::IntoIter<u8, Bad>, Send);
    not_impl!(auto__into_iter_not_sync, map::IntoIter<u8, Share>, Sync);
    not_impl!(auto__range_not_send, map::Range<'static, u8, Share>, Send);
    not_impl!(auto__range_mut_not_send, map::RangeMut<'static, u8, Bad>, Send);
    not_impl!(auto__range_mut_not_sync, map::RangeMut<'static, u8, Share>, Sync);
    not_impl!(auto__range_mut_not_send_key, map::RangeMut<'static, Bad, u8>, Send);
    not_impl!(auto__entry_not_send, map::Entry<'static, u8, Bad>, Send);
    not_impl!(auto__vacant_not_send, map::VacantEntry<'static, Bad, u8>, Send);
    not_impl!(auto__occupied_not_send, map::OccupiedEntry<'static, u8, Bad>, Send);
    not_impl!(auto__keys_not_send, map::Keys<'static, Share, u8>, Send);
    not_impl!(auto__values_not_send, map::Values<'static, u8, Share>, Send);
    not_impl!(auto__set_iter_not_send, set::Iter<'static, Share>, Send);
    not_impl!(auto__set_into_iter_not_send, set::IntoIter<Bad>, Send);

    // exclusive views must not be duplicated
    not_impl!(alias__iter_mut_clone, map::IterMut<'static, u8, u8>, Clone);
    not_impl!(alias__range_mut_clone, map::RangeMut<'static, u8, u8>, Clone);
    not_impl!(alias__values_mut_clone, map::ValuesMut<'static, u8, u8>, Clone);
    not_impl!(alias__into_iter_clone, map::IntoIter<u8, u8>, Clone);
    not_impl!(alias__occupied_clone, map::OccupiedEntry<'static, u8, u8>, Clone);
    not_impl!(alias__vacant_clone, map::VacantEntry<'static, u8, u8>, Clone);

    // covariance of everything that only reads
    pub fn variance__map<'a>(m: BTreeMap<&'static str, &'static str>) -> BTreeMap<&'a str, &'a str> { m }
    pub fn variance__set<'a>(m: BTreeSet<&'static str>) -> BTreeSet<&'a str> { m }
    pub fn variance__iter<'a, 'b>(m: map::Iter<'b, &'static str, &'static str>) -> map::Iter<'b, &'a str, &'a str> { m }
    pub fn variance__into_iter<'a>(m: map::IntoIter<&'static str, &'static str>) -> map::IntoIter<&'a str, &'a str> { m }
    pub fn variance__range<'a, 'b>(m: map::Range<'b, &'static str, &'static str>) -> map::Range<'b, &'a str, &'a str> { m }
    pub fn variance__keys<'a, 'b>(m: map::Keys<'b, &'static str, &'static str>) -> map::Keys<'b, &'a str, &'a str> { m }
    pub fn variance__values<'a, 'b>(m: map::Values<'b, &'static str, &'static str>) -> map::Values<'b, &'a str, &'a str> { m }
    pub fn variance__set_iter<'a, 'b>(m: set::Iter<'b, &'static str>) -> set::Iter<'b, &'a str> { m }

    // a map may be dropped after the data its keys and values refer to (they have no destructor looking at it)
    pub fn dropck__map() {
        let (mut m, x);
        x = String::new();
        m = BTreeMap::new();
        m.try_insert(1u8, &x).ok();
    }
    pub fn dropck__map_declared_first() {
        let mut m;
        let x = String::new();
        m = BTreeMap::new();
        m.try_insert(&x[..], &x).ok();
    }
    pub fn dropck__set_declared_first() {
        let mut m;
        let x = String::new();
        m = BTreeSet::new();
        m.try_insert(&x[..]).ok();
    }
}
fn main() {}
