//! C10 and C11 for the standard types: the events of a value, and back.
use crate::all::check_for;
use crate::all::sym::*;
use crate::all::tree::same_event;
use crate::all::types::*;
use crate::std_types;
use deser::de::DeserializeDriver;
use deser::ser::{Serialize, SerializeDriver};

pub fn run<T: Val + Serialize>() {
    let p = crate::all::PROP;
    let (out_of, back) = (if p == 11 { 10 } else { p }, if p == 10 { 11 } else { p });
    let live0 = live();
    {
        let v = T::arb();
        let mut want = Events::new();
        v.ev(&mut want);
        let mut got = Events::new();
        {
            let mut d = SerializeDriver::new(&v);
            while let Some((e, _, _)) = match d.next() {
                Ok(x) => x,
                Err(_) => {
                    check_for(out_of, false, "an error nobody raised");
                    None
                }
            } {
                got.push(e.to_static());
            }
        }
        check_for(out_of, got.len() == want.len(), "wrong number of events");
        check_for(out_of, got.iter().zip(&want).all(|(a, b)| same_event(a, b)), "a wrong event was delivered");
        // (a written map may lack what was skipped: judged by what it yields)
        if p == 11 || p == 9 || p == 0 {
            let mut out: Option<T> = None;
            let mut ok = true;
            {
                let mut d = DeserializeDriver::new(&mut out);
                for e in got {
                    ok = ok && d.emit(e).is_ok();
                }
            }
            check_for(back, ok, "the events of a value were refused by its own type");
            check_for(back, out.as_ref().map_or(false, |x| x.same(&v)), "another value came back");
        }
        reach(1);
    }
    check_for(17, live() == live0, "memory is not released");
}
harness! {
    // params: type, longest container
    ev_std { std_types!(run) }
}
