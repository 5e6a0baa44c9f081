//! Property harnesses. Every entry is executed symbolically by the engine (wasm64
//! build) and natively, on concrete bytes, by the replay binary.
pub mod sym;
pub mod util;

#[cfg(target_family = "wasm")]
mod alloc;
/// the library never ends the process
#[cfg(target_family = "wasm")]
#[unsafe(no_mangle)]
extern "C" fn vp_exit(code: i32) { panic!("the process exits with code {code}") }

/// Register entry points: exported symbols in the symbolic build, a name table natively.
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[cfg(target_family = "wasm")]
        mod exports {
            $( #[unsafe(no_mangle)] pub extern "C" fn $f() { super::$m::$f() } )*
            #[unsafe(no_mangle)] pub extern "C" fn vp_warm() { super::sym::init(); super::util::warm() }
        }
        pub const ENTRIES: &[(&str, fn())] = &[ $( (stringify!($f), $m::$f as fn()) ),* ];
    };
}
include!("entries.rs");
/// The command line tool is a crate of its own in the symbolic build (cli_root.rs) and a
/// process of its own natively.
#[cfg(not(target_family = "wasm"))]
pub mod tool {
    use super::cli;
    include!("cli_entries.rs");
}
#[cfg(not(target_family = "wasm"))]
pub mod cli;
