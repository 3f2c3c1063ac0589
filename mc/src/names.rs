//! Dumps of types whose names have every length around the one the reload accepts.
use crate::ctx::*;
use crate::iou::*;
use crate::util::*;
use anndists::dist::distances::Distance;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::prelude::*;
use mcctl::rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;
use std::time::Instant;

/// a type with a number in its name
pub struct N<const K: u64>;
/// a name within a name
pub struct P<X>(PhantomData<X>);
type P4<X> = P<P<P<P<X>>>>;
type P15<X> = P4<P4<P4<P<P<P<X>>>>>>;
type P16<X> = P4<P4<P4<P4<X>>>>;

/// a distance with a name as long as one likes
pub struct D<X>(PhantomData<fn() -> X>);
impl<X> Default for D<X> {
    fn default() -> Self {
        D(PhantomData)
    }
}
impl<T: El, X> Distance<T> for D<X> {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        gdist(a, b)
    }
}
/// an element type with a name as long as one likes
pub struct E<X>(f32, PhantomData<fn() -> X>);
impl<X> Clone for E<X> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<X> Copy for E<X> {}
impl<X> PartialEq for E<X> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<X> std::fmt::Debug for E<X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<X> Default for E<X> {
    fn default() -> Self {
        E(0., PhantomData)
    }
}
impl<X> Serialize for E<X> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, X> Deserialize<'de> for E<X> {
    fn deserialize<Z: Deserializer<'de>>(d: Z) -> Result<Self, Z::Error> {
        f32::deserialize(d).map(|x| E(x, PhantomData))
    }
}
impl<X: 'static> El for E<X> {
    fn of(x: u32) -> Self {
        E(x as f32, PhantomData)
    }
    fn f(self) -> f32 {
        self.0
    }
    const TN: &'static str = "E";
}

/// A dump that is reported good reloads, in every way; one that is refused leaves no index under its name.
fn one<T: El, G: Distance<T> + Default + Send + Sync + 'static>(until: Instant) {
    let c = ctx();
    if Instant::now() > until {
        c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
        return;
    }
    let (tn, dn) = (std::any::type_name::<T>(), std::any::type_name::<G>());
    c.case(|| format!("namelen:T{}D{}", tn.len(), dn.len()), || {
        let h = Hnsw::<T, G>::new(4, 10, 16, 8, G::default());
        let pts: Vec<Vec<T>> = [[1, 2], [5, 3], [9, 9], [4, 7]].iter().map(|p| conv(p)).collect();
        for (i, p) in pts.iter().enumerate() {
            rng::force(Some(raw_for_level(i % 2, 4)));
            h.insert((p, i + 3));
            rng::force(None);
        }
        c.state(hash64(format!("{} {} {}", tn, dn, snap(&h).text()).as_bytes()));
        let d = Dir::new();
        match h.file_dump(&d.abs, "a") {
            std::result::Result::Ok(n) => {
                ensure!(n == "a", "dumped as {}", n);
                crate::iochk::check_description(&d, "a", &h)?;
                for mm in [None, Some(0), Some(2)] {
                    let l = load::<T, G>(&d.abs, "a", mm).map_err(|e| format!("names of {} and {} characters: the dump is reported good, its reload {:?} fails: {}", tn.len(), dn.len(), mm, e))?;
                    same_index(&h, l.h(), &pts, false)?;
                }
                let l = load_with::<T, G>(&d.abs, "a", G::default())?;
                same_index(&h, l.h(), &pts, false)?;
                let g = load_graph(&d.abs, "a")?;
                ensure!(g.get_nb_point() == pts.len(), "graph alone: {} points", g.get_nb_point());
                let m = DataMap::from_hnswdump::<T>(&d.abs, "a").map_err(|e| format!("data map: {}", e))?;
                ensure!(m.check_data_type::<T>() && m.get_distname() == dn && m.get_data_typename() == tn, "data map names {} {}", m.get_data_typename(), m.get_distname());
            }
            Err(_) => {
                ensure!(tn.len() > 256 || dn.len() > 256, "names of {} and {} characters: the dump is refused", tn.len(), dn.len());
                ensure!(load::<T, G>(&d.abs, "a", None).is_err(), "the dump is refused, and reloads");
            }
        }
        Ok(())
    });
}

pub fn c10_name_lengths(until: Instant) {
    macro_rules! each { ($($k:literal),*) => { $(
        one::<f32, D<P15<N<$k>>>>(until);
        one::<E<P15<N<$k>>>, D<N<1>>>(until);
        one::<f32, D<P16<N<$k>>>>(until);
        one::<E<P16<N<$k>>>, D<N<1>>>(until);
        one::<E<P16<N<$k>>>, D<P16<N<$k>>>>(until);
    )* } }
    each!(1, 12, 123, 1234, 12345, 123456, 1234567, 12345678, 123456789, 1234567890, 12345678901, 123456789012, 1234567890123, 12345678901234, 123456789012345, 1234567890123456, 12345678901234567, 123456789012345678, 1234567890123456789);
    one::<f32, D<P4<P16<N<1>>>>>(until);
    one::<E<P4<P16<N<1>>>>, D<N<1>>>(until);
    one::<f32, D<P16<P16<P16<N<1>>>>>>(until);
    one::<f32, D<N<1>>>(until);
    one::<f32, D<P4<N<1>>>>(until);
    one::<E<P4<N<1>>>, D<P4<N<1>>>>(until);
}
