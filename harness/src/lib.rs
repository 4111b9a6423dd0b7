#![allow(dead_code, static_mut_refs, unused_imports, elided_named_lifetimes, mismatched_lifetime_syntaxes)]
#[cfg(not(feature = "native"))]
#[path = "all.rs"]
mod all;
