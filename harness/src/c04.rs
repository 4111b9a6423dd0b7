//! C04: integer literals are read exactly, or refused when out of range.
use crate::all::sym::*;
use deser::de::Deserialize;
use deser_json::Deserializer;
use std::collections::BTreeMap;

/// An integer type as sign and magnitude.
pub trait Int: Deserialize + Copy {
    const MAX: u64;
    const MIN_MAG: u64; // magnitude of the minimum
    fn neg(self) -> bool;
    fn mag(self) -> u64;
}
macro_rules! ints {
    ($($t:ident)*) => { $(impl Int for $t {
        const MAX: u64 = $t::MAX as u64;
        const MIN_MAG: u64 = ($t::MIN as i128).unsigned_abs() as u64;
        fn neg(self) -> bool { (self as i128) < 0 }
        fn mag(self) -> u64 { #[allow(unused_comparisons)] if self < 0 { (self as i64).wrapping_neg() as u64 } else { self as u64 } }
    })* }
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

/// `n` digits without a superfluous leading zero, and the value they denote
/// (`None` when above 64 bits).
fn literal(b: &mut Vec<u8>, n: u64) -> Option<u64> {
    let (mut v, mut w) = (0u64, 0u128);
    let mut huge = false;
    for i in 0..n {
        let d = digit();
        if i == 0 && n > 1 {
            assume(d != b'0');
        }
        b.push(d);
        if i == 19 {
            w = v as u128;
        }
        if i >= 19 && !huge {
            w = w.wrapping_mul(10).wrapping_add((d - b'0') as u128);
            huge = w > u64::MAX as u128;
        }
        v = v.wrapping_mul(10).wrapping_add((d - b'0') as u64);
    }
    if huge {
        None
    } else {
        Some(v)
    }
}
fn judge<T: Int>(got: Option<T>, neg: bool, want: Option<u64>) {
    let fits = match want {
        None => false,
        Some(m) => m <= if neg { T::MIN_MAG } else { T::MAX },
    };
    match got {
        Some(g) => {
            reach(1);
            out(g.mag());
            check(fits, "out-of-range integer accepted");
            let m = want.unwrap_or(0);
            check((g.mag() == m) & ((g.neg() == neg) | (m == 0)), "integer changed by parsing");
        }
        None => {
            reach(2);
            check(!fits, "representable integer refused");
        }
    }
}
fn plain<T: Int>() {
    let neg = boolean();
    let mut b = Vec::new();
    if neg {
        b.push(b'-');
    }
    let want = literal(&mut b, param(1));
    judge(Deserializer::new(&b).deserialize::<T>().ok(), neg, want)
}
macro_rules! by_type {
    ($f:ident) => {
        match param(0) {
            0 => $f::<u8>(),
            1 => $f::<u16>(),
            2 => $f::<u32>(),
            3 => $f::<u64>(),
            4 => $f::<usize>(),
            5 => $f::<i8>(),
            6 => $f::<i16>(),
            7 => $f::<i32>(),
            8 => $f::<i64>(),
            _ => $f::<isize>(),
        }
    };
}
fn nested<T: Int>() {
    // inside containers: [{"k": <int>}, <int>]
    let (n1, n2) = (boolean(), boolean());
    let mut b = b"[{\"k\":".to_vec();
    if n1 {
        b.push(b'-');
    }
    let w1 = literal(&mut b, param(1));
    b.extend_from_slice(b"},");
    if n2 {
        b.push(b'-');
    }
    let w2 = literal(&mut b, param(1));
    b.extend_from_slice(b" ]");
    let r = Deserializer::new(&b).deserialize::<(BTreeMap<String, T>, Option<T>)>().ok();
    match r {
        None => {
            reach(2);
            let fit = |neg: bool, w: Option<u64>| w.map_or(false, |m| m <= if neg { T::MIN_MAG } else { T::MAX });
            check(!(fit(n1, w1) && fit(n2, w2)), "representable integers refused");
        }
        Some((m, v)) => {
            judge(m.get("k").copied(), n1, w1);
            judge(v, n2, w2);
        }
    }
}
harness! {
    c04_plain { by_type!(plain) }
    c04_nested { by_type!(nested) }
}
