//! Root of the symbolic build of the command line tool: /repo's src/main.rs with this file
//! included as a module (env/prepare.py).
#[path = "alloc.rs"]
mod alloc;
#[path = "sym.rs"]
pub mod sym;
#[path = "util.rs"]
#[allow(dead_code)]
pub mod util;
#[path = "cli.rs"]
pub mod cli;
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        mod exports {
            $( #[unsafe(no_mangle)] pub extern "C" fn $f() { super::$m::$f() } )*
            #[unsafe(no_mangle)] pub extern "C" fn vp_warm() { super::sym::init(); super::util::warm() }
        }
    };
}
include!("cli_entries.rs");
