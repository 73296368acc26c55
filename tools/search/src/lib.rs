#![allow(warnings)]
include!("gen/wrappers.rs");
