//! C05: numbers with fraction or exponent become the double they denote.
use crate::all::sym::*;
use deser_json::Deserializer;

static P10: [f64; 23] = [
    1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22,
];

fn number(b: &mut Vec<u8>, mut v: u64) {
    let at = b.len();
    loop {
        b.insert(at, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
}
fn parse(b: &[u8]) -> Option<f64> {
    Deserializer::new(b).deserialize::<f64>().ok()
}
harness! {
    c05_exact {
        // d..d.d..d[e±x]: at most 15 significant digits and a net decimal
        // exponent within ±22 denote a double that one IEEE operation yields
        let (n, point, exp) = (param(0), param(1), choose(45) as i64 - 22);
        let neg = boolean();
        let mut b = Vec::new();
        if neg { b.push(b'-'); }
        let mut sig = 0u64;
        for i in 0..n {
            let d = digit();
            if i == 0 && point > 1 { assume(d != b'0'); }
            if i == point { b.push(b'.'); }
            b.push(d);
            sig = sig * 10 + (d - b'0') as u64;
        }
        let net = exp - (n - point) as i64;
        assume(net >= -22 && net <= 22);
        if exp != 0 || boolean() {
            b.push(if boolean() { b'e' } else { b'E' });
            if exp < 0 { b.push(b'-') } else if boolean() { b.push(b'+') }
            number(&mut b, exp.unsigned_abs());
        }
        let mut want = if net >= 0 { sig as f64 * P10[net as usize] } else { sig as f64 / P10[-net as usize] };
        if neg { want = -want; }
        match parse(&b) {
            None => check(false, "valid number refused"),
            Some(v) => {
                reach(1);
                out(v.to_bits());
                check((v.to_bits() == want.to_bits()) | ((v == 0.0) & (want == 0.0)), "number differs from the double it denotes");
            }
        }
    }
    c05_pow {
        // every power of ten of the double range, in three notations: within
        // a few ulps of the nearest double
        let e = choose(256) as i64 * 3 + param(0) as i64 - 384;
        assume(e >= -330 && e <= 308);
        let mut b = match choose(3) { 0 => b"1e".to_vec(), 1 => b"10.0E".to_vec(), _ => b"0.001e".to_vec() };
        let shift = match b[1] { b'e' => 0, b'0' => -1, _ => 3 };
        let w = e + shift;
        if w < 0 { b.push(b'-'); }
        number(&mut b, w.unsigned_abs());
        let mut t = b"1e".to_vec();
        if e < 0 { t.push(b'-'); }
        number(&mut t, e.unsigned_abs());
        let want: f64 = unsafe { std::str::from_utf8_unchecked(&t) }.parse().unwrap_or(0.0);
        match parse(&b) {
            None => check(false, "number within range refused"),
            Some(v) => {
                reach(1);
                out(v.to_bits());
                check(v.to_bits().abs_diff(want.to_bits()) <= 4, "number is not close to the double it denotes");
            }
        }
    }
    c05_range {
        // d.d e ddd: refused exactly above the largest double, never infinite
        let neg = boolean();
        let mut b = Vec::new();
        if neg { b.push(b'-'); }
        let (d, f) = (digit(), digit());
        let e = 300 + choose(13) as i64;
        b.extend_from_slice(&[d, b'.', f, b'e']);
        number(&mut b, e as u64);
        let m = (d - b'0') * 10 + (f - b'0'); // tenths
        // f64::MAX = 1.79..e308
        let over = m != 0 && (e > 309 || (e == 309 && m >= 2) || (e == 308 && m >= 18));
        match parse(&b) {
            None => {
                reach(2);
                out(0);
                check(over, "number within range refused");
            }
            Some(v) => {
                reach(1);
                out(v.to_bits());
                check(!over, "number above the range accepted");
                check(v.is_finite(), "parsed to infinity or NaN");
                check((v == 0.0) | (v.is_sign_negative() == neg), "sign lost");
            }
        }
    }
    c05_exp {
        // exponents of n digits, both signs: zero stays zero, underflow gives
        // (almost) zero, overflow is refused
        let neg = boolean();
        let eneg = boolean();
        let mut b = Vec::new();
        if neg { b.push(b'-'); }
        let d = digit();
        let frac = boolean();
        if frac { b.push(d); b.extend_from_slice(b".5e") } else { b.extend_from_slice(&[d, b'e']) }
        if eneg { b.push(b'-') } else if boolean() { b.push(b'+') }
        let n = param(0);
        let mut e = 0u64;
        for i in 0..n {
            let x = digit();
            if i == 0 { assume(x != b'0'); }
            b.push(x);
            if i < 4 { e = e * 10 + (x - b'0') as u64; }
        }
        let zero = (d == b'0') & !frac;
        let big = (n > 3) | (e >= 310);
        let small = (n <= 3) & (e <= 307);
        match parse(&b) {
            None => {
                reach(2);
                check(!eneg & !zero & !small, "number within range refused");
            }
            Some(v) => {
                reach(1);
                check(v.is_finite(), "parsed to infinity or NaN");
                check(eneg | zero | !big, "number above the range accepted");
                check(!eneg | !big | (v.abs() <= 1e-300), "tiny number is not tiny");
                check((v == 0.0) | (v.is_sign_negative() == neg), "sign lost");
            }
        }
    }
    c05_long {
        // n integer digits (more than fit 64 bits) and m fraction digits: the
        // value lies between its two leading digits and the next ones
        let (n, m) = (param(0), param(1));
        let neg = boolean();
        let mut b = Vec::new();
        if neg { b.push(b'-'); }
        let lead = choose(90) + 10;
        number(&mut b, lead);
        for _ in 2..n { b.push(digit()); }
        if m > 0 { b.push(b'.'); }
        for _ in 0..m { b.push(digit()); }
        let mut lo = lead as f64;
        for _ in 2..n { lo *= 10.0; }
        let hi = lo * (lead + 1) as f64 / lead as f64 * (1.0 + 1e-12);
        let lo = lo * (1.0 - 1e-12);
        match parse(&b) {
            None => check(false, "number within range refused"),
            Some(v) => {
                reach(1);
                let (l, h) = if neg { (-hi, -lo) } else { (lo, hi) };
                check((v >= l) & (v <= h), "long number is not close to its value");
            }
        }
    }
}
