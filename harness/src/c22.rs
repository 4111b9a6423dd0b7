//! C22 to C26: derived types.
use crate::all::c11::run;
use crate::all::c12::{judge, near};
use crate::all::model::*;
use crate::all::derived::*;
use crate::all::sym::*;
use crate::each_type;

harness! {
    // params: type, most entries, places off the shape
    d_read {
        each_type! { near:
            0 Plain5; 1 Filled; 2 Filled2; 3 Few; 4 Holder; 5 Empty; 6 Skips; 7 AllOpt; 8 Vec<Few>; 9 Option<Few>; 10 Box<Plain5>; 11 (Few, Few); 12 Slim; 13 Pair;
            20 Outer; 21 Deep; 22 Shadow; 23 Mid; 24 Option<Outer>; 25 Vec<Outer>; 26 Front; 27 Middle; 28 Lead;
            30 Simple; 31 Snake; 32 Single; 33 N8; 34 NOpt; 35 NVec; 36 NFew; 37 NMap; 38 NN; 39 NArr; 40 NEnum; 41 NTup; 42 NBox; 43 NSelf; 44 WithNew; 45 Vec<Simple>; 46 Option<NN>;
        }
    }
    // params: type, longest container
    d_write {
        each_type! { run:
            0 Plain5; 1 Filled; 2 Filled2; 3 Few; 4 Holder; 5 Empty; 6 Skips; 7 AllOpt; 8 Vec<Few>; 9 Option<Few>; 10 Box<Plain5>; 11 (Few, Few); 12 Slim; 13 Pair; 14 Nest;
            20 Outer; 21 Deep; 22 Shadow; 23 Mid; 24 Option<Outer>; 25 Vec<Outer>; 26 Front; 27 Middle; 28 Lead;
            30 Simple; 31 Snake; 32 Single; 33 N8; 34 NOpt; 35 NVec; 36 NFew; 37 NMap; 38 NN; 39 NArr; 40 NEnum; 41 NTup; 42 NBox; 43 NSelf; 44 WithNew; 45 Vec<Simple>; 46 Option<NN>;
        }
    }
    // every ASCII text of this length against every enum; params: length
    d_word {
        let mut v = Vec::new();
        for _ in 0..param(0) {
            let c = byte();
            assume(c < 0x80);
            v.push(c);
        }
        let n = A(deser::Atom::Str(std::borrow::Cow::Owned(unsafe { String::from_utf8_unchecked(v) })));
        match choose(3) {
            0 => judge::<Simple>(&n),
            1 => judge::<Snake>(&n),
            _ => judge::<Single>(&n),
        }
    }
}
