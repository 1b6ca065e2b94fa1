#![allow(arithmetic_overflow, unconditional_panic, unused, deprecated, non_camel_case_types)]
#![cfg_attr(not(feature = "full"), no_std)]
#[cfg(feature = "heap")]
#[macro_use]
extern crate alloc;
include!(concat!(env!("OUT_DIR"), "/zoo.rs"));
