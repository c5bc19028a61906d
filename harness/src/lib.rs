#![allow(clippy::all)]
#![cfg_attr(feature = "native", allow(dead_code, suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions))]
pub mod sym;
pub mod world;
#[cfg(not(feature = "native"))]
pub mod os;
#[cfg(feature = "native")]
pub mod native;
#[allow(warnings)]
#[path = "../gen/main.rs"]
pub mod cli;

mod cli_util;
mod cuts;
mod p_diff;
mod p_checkout;
mod p_cmd;
mod p_dir;
mod p_file;
mod p_keys;
mod p_more;
mod p_look;
mod p_two;
mod p_names;
mod p_refs;
mod p_old;
mod p_store;
mod smoke;
mod trees;

#[path = "../gen/registry.rs"]
pub mod registry;

#[cfg(feature = "native")]
fn main() {
    native::main()
}
