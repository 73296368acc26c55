use crate::dec::*;
use forms::*;
use monoasm::*;
#[derive(Clone, Copy, Debug)]
pub struct P {
    pub a: u64,
    pub b: u64,
    pub x: u64,
    pub c: u64,
    pub d: i32,
    pub i: i64,
    pub u: u8,
    pub l: Lab,
}
pub struct Form {
    pub name: &'static str,
    pub text: &'static str,
    pub props: &'static str,
    pub uses: &'static str,
    pub run: fn(&mut JitMemory, &P),
    pub pre: fn(&P) -> bool,
    pub must: fn(&P) -> bool,
    pub may: fn(&P) -> bool,
    pub check: fn(&P, &Dec) -> bool,
}
include!("gen/table.rs");
pub struct V {
    pub a: u64,
    pub b: u64,
    pub x: u64,
    pub c: u64,
    pub d: i32,
    pub i: i64,
    pub u: u8,
}
