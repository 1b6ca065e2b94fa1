#![allow(arithmetic_overflow, unconditional_panic, unused, deprecated, non_camel_case_types)]
include!(concat!(env!("OUT_DIR"), "/zoo.rs"));
