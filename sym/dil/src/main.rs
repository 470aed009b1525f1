//! Scenarios on the C implementation of Dilithium (D01-D06, D08).  The C sources are compiled by
//! sym/build.py, once to bitcode for the symbolic run and once natively for the replay; calls of
//! the SHAKE functions made by them are renamed to the stubs in xof.rs.
#![allow(clippy::all, dead_code, non_snake_case)]
#[path = "../../harness/src/rt.rs"]
mod rt;

macro_rules! scenarios {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() { $body }
        )*
        fn dispatch(n: &str) {
            match n {
                $(stringify!($name) => $name(),)*
                _ => { eprintln!("no scenario {n}"); std::process::exit(2) }
            }
        }
    };
}

mod ffi;
mod arith;
mod codec;
mod xof;

include!("scenarios.rs");

fn main() {
    let n = std::env::args().nth(1).expect("scenario name");
    rt::native_main(|| dispatch(&n));
}
