//! The forms once more with named registers and literals (see forms.py).
use crate::table::V;
use monoasm::*;
use monoasm_macro::monoasm;
include!("gen/variants.rs");
