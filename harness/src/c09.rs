//! C09: typed values through JSON text and back.
use crate::all::check_for;
use crate::all::derived::*;
use crate::all::sym::*;
use crate::all::types::*;
use crate::each_type;
use deser::Serialize;
use std::collections::*;

fn back<T: Val + Serialize>() {
    let live0 = live();
    {
        let v = T::arb();
        let s = match deser_json::to_string(&v) {
            Ok(s) => s,
            Err(_) => {
                check_for(9, false, "a value of a supported type cannot be written");
                return;
            }
        };
        match deser_json::from_str::<T>(&s) {
            Ok(w) => check_for(9, v.same(&w), "another value came back"),
            Err(_) => check_for(9, false, "the text of a value was refused by its own type"),
        }
        reach(1);
    }
    check_for(9, live() == live0, "memory is not released");
}
harness! {
    // params: type, longest container
    j_back {
        each_type! { back:
            0 bool; 1 (); 2 u8; 3 u16; 4 u32; 5 u64; 6 usize; 7 i8; 8 i16; 9 i32; 10 i64; 11 isize; 12 char; 13 String;
            14 Vec<()>; 15 Vec<u16>; 16 Vec<String>; 17 Vec<Vec<bool>>; 18 Vec<Option<i8>>; 19 [bool; 0]; 20 [u16; 1]; 21 [String; 2]; 22 [Option<u32>; 3]; 23 [[i8; 2]; 2];
            24 (u16,); 25 (bool, String); 26 (u8, (), i64); 27 (String, Vec<i8>, Option<bool>, char); 28 Option<bool>; 29 Option<String>; 30 Option<Vec<Option<i8>>>;
            31 Option<(u8, bool)>; 32 Box<u64>; 33 Box<Vec<Box<bool>>>; 34 Option<Box<i16>>; 35 BTreeMap<String, bool>; 36 BTreeMap<String, Vec<bool>>;
            37 BTreeMap<char, BTreeMap<String, bool>>; 38 BTreeMap<char, Option<i8>>; 39 BTreeSet<u8>; 40 BTreeSet<String>; 41 BTreeSet<(bool, bool)>;
            42 HashMap<char, bool, PlainState>; 43 HashMap<String, bool, PlainState>; 44 HashSet<u16>; 45 Vec<BTreeMap<String, [Option<bool>; 1]>>; 46 Vec<[(); 2]>;
            47 (bool, bool, bool, bool, bool); 48 (u8, bool, u8, (), u8, bool); 49 (u8, (), bool, i8, (), Option<bool>, bool, (), [bool; 0], (), Vec<()>, u16); 50 [Box<bool>; 3]; 51 Vec<(bool, Vec<bool>)>;
            52 Vec<Option<Box<[Option<bool>; 2]>>>; 53 BTreeMap<Simple, bool>;
            60 Plain5; 61 Few; 62 Holder; 63 Empty; 64 Slim; 65 Vec<Few>; 66 Option<Few>; 67 Box<Plain5>; 68 (Few, Few); 69 Outer; 70 Mid; 71 Option<Slim>; 72 Option<Outer>; 73 Vec<Outer>;
            74 Simple; 75 Snake; 76 Single; 77 N8; 78 NOpt; 79 NVec; 80 NFew; 81 NN; 82 NEnum; 83 NTup; 84 NBox; 85 NSelf; 86 WithNew; 87 Vec<Simple>; 88 Option<NN>; 89 BTreeMap<Snake, Few>;
            90 BTreeMap<String, Outer>; 91 Vec<Option<Snake>>; 92 [WithNew; 1]; 93 Pair; 94 Front;
        }
    }
    // texts of this many characters, as value and as key
    j_text {
        let live0 = live();
        {
            let s = string(param(0));
            let mut m = BTreeMap::new();
            m.insert(s.clone(), vec![Some(s)]);
            let t = deser_json::to_string(&m);
            check_for(9, t.is_ok(), "a value of a supported type cannot be written");
            match deser_json::from_str::<BTreeMap<String, Vec<Option<String>>>>(&t.unwrap()) {
                Ok(w) => check_for(9, w.same(&m), "another value came back"),
                Err(_) => check_for(9, false, "the text of a value was refused by its own type"),
            }
            reach(1);
        }
        check_for(9, live() == live0, "memory is not released");
    }
    // every integer of this many bits at either end of the type; params: type, bits
    j_int {
        let live0 = live();
        {
            macro_rules! go { ($t:ty) => {{
                let v = match choose(3) { 0 => u(param(1) as u32) as $t, 1 => <$t>::MAX - u(param(1) as u32) as $t, _ => <$t>::MIN + u(param(1) as u32) as $t };
                let s = deser_json::to_string(&v);
                check_for(9, s.is_ok(), "a value of a supported type cannot be written");
                check_for(9, deser_json::from_str::<$t>(&s.unwrap()).ok() == Some(v), "another value came back");
            }} }
            match param(0) { 0 => go!(u32), 1 => go!(u64), 2 => go!(usize), 3 => go!(i32), 4 => go!(i64), _ => go!(isize) }
            reach(1);
        }
        check_for(9, live() == live0, "memory is not released");
    }
}
