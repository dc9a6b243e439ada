#![allow(unexpected_cfgs)]
include!(concat!(env!("WASM_SHIM_SOURCE"), "/lib.rs"));

/// The module's entry point.
pub fn module_start() {
    start();
}
pub use filter::FilterRoot;
