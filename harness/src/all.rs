#[macro_use]
mod macros {
    #[macro_export]
    macro_rules! harness {
        ($($(#[$m:meta])* $name:ident $body:block)*) => {
            $(
                $(#[$m])*
                #[cfg(not(feature = "native"))]
                #[no_mangle]
                pub extern "C" fn $name() $body
                $(#[$m])*
                #[cfg(feature = "native")]
                pub fn $name() $body
            )*
            #[cfg(feature = "native")]
            pub const REG: &[(&str, fn())] = &[$($(#[$m])* (stringify!($name), $name)),*];
        };
    }
}
pub mod sym;
pub mod common;
/// The property the build is for (0: all); assertions of other properties are
/// left out so that a check only reports its own.
pub const PROP: u32 = {
    macro_rules! prop {
        ($($f:literal $n:literal;)*) => { $( if cfg!(feature = $f) { $n } else )* { 0 } };
    }
    prop! {
        "c09" 9; "c10" 10; "c11" 11; "c12" 12; "c13" 13; "c14" 14; "c15" 15; "c16" 16; "c17" 17; "c18" 18; "c19" 19; "c20" 20; "c21" 21;
        "c22" 22; "c23" 23; "c24" 24; "c25" 25; "c26" 26; "c27" 27; "c28" 28; "c29" 29; "c30" 30; "c31" 31; "c32" 32; "c33" 33;
    }
};
#[inline(always)]
pub fn check_for(p: u32, c: bool, m: &'static str) {
    if PROP == 0 || PROP == p {
        sym::check(c, m)
    }
}
pub mod tree;
#[cfg(feature = "types")]
pub mod types;
#[cfg(feature = "model")]
pub mod model;
#[cfg(feature = "derived")]
pub mod derived;
#[cfg(feature = "json")]
pub mod oracle;
#[cfg(not(feature = "native"))]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R { f() }

macro_rules! modules {
    ($($name:ident $feat:literal;)*) => {
        $( #[cfg(feature = $feat)] pub mod $name; )*
        #[cfg(feature = "native")]
        pub fn registry() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( #[cfg(feature = $feat)] v.extend_from_slice($name::REG); )*
            v
        }
    };
}
modules! {
    c01 "c01";
    c02 "c02";
    c03 "c03";
    c04 "c04";
    c05 "c05";
    c06 "c06";
    ser "ser";
    de "de";
    flat "flatp";
    pathw "path";
    front "front";
    c07 "c07";
    c08 "c08";
    c09 "c09";
    c11 "types";
    c12 "model";
    c20 "c20";
    c22 "derived";
    c23 "c23";
    c23x "c23x";
    c21 "c21";
    c29 "c29";
    c30 "c30";
    c31 "c31";
    own "c33";
}
