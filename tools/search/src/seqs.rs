//! C13: one macro call with several statements emits what the statements emit one by one.
use crate::util::*;
use monoasm::*;
use monoasm_macro::monoasm;
include!("gen/seqs.rs");

pub fn run() {
    let mut n = 0;
    for (text, whole, split) in SEQS {
        let mut out = vec![];
        for f in [*whole, *split] {
            let mut jit = JitMemory::new();
            for _ in 0..5 {
                jit.emitb(0x90);
            }
            let labs: Vec<DestLabel> = (0..4).map(|_| jit.label()).collect();
            current(text);
            if quiet(|| f(&mut jit, &labs)).is_none() {
                fail(&format!("panic while assembling `{}`", text));
            }
            if quiet(|| jit.finalize()).is_none() {
                fail(&format!("finalize panicked after `{}`", text));
            }
            let s = jit.as_slice().to_vec();
            let b = jit.get_current_address().as_ptr() as u64 - jit.get_current() as u64;
            let l: Vec<Option<u64>> = labs.iter().map(|l| quiet(|| jit.get_label_address(*l).as_ptr() as u64 - b)).collect();
            out.push((s, l));
        }
        n += 1;
        if out[0] != out[1] {
            fail(&format!("`{}` in one macro call emits {} labels {:?}; statement by statement {} labels {:?}", text, hex(&out[0].0), out[0].1, hex(&out[1].0), out[1].1));
        }
    }
    // data statements: the eight bytes of the number, nothing else
    macro_rules! data { ($ty:ty, $($t:literal),*) => { vec![$((stringify!($t), (|jit: &mut JitMemory| { monoasm!(jit, dq $t;); }) as fn(&mut JitMemory), { let x: $ty = $t; u64::from_le_bytes(x.to_le_bytes()) })),*] } }
    let mut all = data!(f64, 0.0, 1.0, 1.5, 3.141592653589793, 0.1, 1.0e300, 2.5e-300, 123456789.0, 4.9406564584124654e-324);
    all.extend(data!(i64, 0, 1, 255, 256, 65536, 4294967295, 4294967296, 0x7f, 1_000_000, 9223372036854775807));
    for (text, f, want) in all {
        let mut jit = JitMemory::new();
        current(text);
        if quiet(|| f(&mut jit)).is_none() {
            fail(&format!("panic while assembling `dq {};`", text));
        }
        n += 1;
        jit.finalize();
        if jit.as_slice() != want.to_le_bytes() {
            fail(&format!("`dq {};` emits {}; the number is {}", text, hex(jit.as_slice()), hex(&want.to_le_bytes())));
        }
    }
    println!("STAT evaluations={}", n);
}
