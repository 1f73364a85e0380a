#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;

pub mod data;
pub mod exec;
pub mod explore;
#[cfg(feature = "oracle")]
pub mod oracle;

#[cfg(all(target_family = "wasm", feature = "std"))]
mod wasm_api;
