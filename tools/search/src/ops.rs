//! C01: the public encoder entry points over all operands.
use crate::dec::*;
use crate::util::*;
use monoasm::*;

struct Case {
    txt: String,
    start: u64,
    end: u64,
    k: K,
    op: Vec<u8>,
    reg: Rg,
    rm: Op,
    imm: Option<(usize, i128)>,
}

fn mk(n: u64) -> Option<Reg> {
    quiet(|| Reg::from(n))
}

pub fn run(seed: u64, depth: u64) {
    let mut rng = Rng::new(seed);
    let mut jit = JitMemory::new();
    let base = jit.get_current_address().as_ptr() as u64;
    for _ in 0..29 {
        jit.emitb(0);
    }
    let back = jit.label();
    jit.bind_label(back);
    let fwd = jit.label();
    let mut pend: Vec<Case> = vec![];
    let mut evals = 0u64;
    let mut refused = 0u64;
    // register numbers above 16 have no meaning
    for n in [17u64, 18, 20, 31, 255, 256, 256 + 3, 1 << 32, u64::MAX] {
        if mk(n).is_some() {
            fail(&format!("Reg::from({}) is accepted (as {})", n, mk(n).unwrap()));
        }
        refused += 1;
    }
    let disps: Vec<(Disp, Option<i64>, u8)> = {
        let mut v = vec![(Disp::None, Some(0), 0), (Disp::from_label(back), None, 1), (Disp::from_label(fwd), None, 2)];
        for d in [0i8, 1, -1, 127, -128, 8] {
            v.push((Disp::D8(d), Some(d as i64), 0));
        }
        for d in [0i32, 1, -1, 127, 128, -128, -129, i32::MAX, i32::MIN, 0x12345678] {
            v.push((Disp::D32(d), Some(d as i64), 0));
            v.push((Disp::from_disp(d), Some(d as i64), 0));
        }
        for d in -130..131 {
            if d % 16 == 3 {
                v.push((Disp::from_disp(d), Some(d as i64), 0));
            }
        }
        v
    };
    let imm = |rng: &mut Rng, k: u64| -> (Imm, Option<(usize, i128)>) {
        let v = (rng.next() as i64) >> rng.below(60);
        match k {
            0 => (Imm::None, None),
            1 => (Imm::B(v as i8), Some((1, v as i8 as i128))),
            2 => (Imm::W(v as i16), Some((2, v as i16 as i128))),
            3 => (Imm::L(v as i32), Some((4, v as i32 as i128))),
            _ => (Imm::Q(v), Some((8, v as i128))),
        }
    };
    const ENC: &[&str] = &["enc_mi", "enc_rexw_mi", "enc_mi_byte", "enc_mr", "enc_mr_byte", "enc_rexw_mr", "enc_m_byte", "enc_digit", "enc_digit_imm", "enc_digit_imm_byte", "enc_rexw_digit"];
    // shapes: None = register, Some((index, scale))
    let mut shapes: Vec<Option<Option<(u64, u8)>>> = vec![None, Some(None)];
    for x in 0..=16u64 {
        // scale 4 has no encoding: it must be refused
        for s in 0..=4u8 {
            shapes.push(Some(Some((x, s))));
        }
    }
    for (ei, e) in ENC.iter().enumerate() {
        let has_reg = e.ends_with("_mr") || *e == "enc_mr_byte";
        for b in 0..=16u64 {
            for sh in &shapes {
                let nd = if sh.is_none() { 1 } else { disps.len() };
                for di in 0..nd {
                    for reg in 0..=16u64 {
                        // the reg field does not interact with the address beyond the REX prefix:
                        // the full product is explored at depth, a seed-dependent part otherwise
                        if !has_reg && reg > 7 {
                            break;
                        }
                        if sh.is_some() && depth == 0 && rng.below(6) != 0 {
                            continue;
                        }
                        let (disp, dv, dl) = disps[di];
                        // a label operand is claimed with rip only
                        if sh.is_some() && dl != 0 && (b != 16) {
                            continue;
                        }
                        if let Some(Some((x, _))) = sh {
                            if *x == 16 && b == 16 {
                                continue;
                            }
                        }
                        evals += 1;
                        let op: &[u8] = match (ei + reg as usize) % 3 {
                            0 => &[0x03],
                            1 => &[0x0f, 0x1f],
                            _ => &[0x8b],
                        };
                        let single = matches!(*e, "enc_mi" | "enc_rexw_mi" | "enc_mi_byte");
                        let op = if single { &[0xc7u8][..] } else { op };
                        let (im, iv) = if has_reg || *e == "enc_m_byte" || *e == "enc_digit" { imm(&mut rng, 0) } else { let k = rng.below(5); imm(&mut rng, k) };
                        let rb = mk(b).unwrap();
                        let rm = match sh {
                            None => Rm::reg(rb),
                            Some(None) => Rm::ind(rb, disp, Scale::None),
                            Some(Some((x, s))) => Rm::ind(rb, disp, Scale::S1(*s, mk(*x).unwrap())),
                        };
                        let legal = match sh {
                            None => b < 16,
                            Some(None) => true,
                            Some(Some((x, s))) => b < 16 && *x < 16 && *x != 4 && *s < 4,
                        } && (!has_reg || reg < 16);
                        let txt = format!("{}(op {}, reg/digit {}, {}, imm {:?})", e, hex(op), reg, match sh {
                            None => format!("register {}", b),
                            Some(None) => format!("[{} + {:?}]", b, disp),
                            Some(Some((x, s))) => format!("[{} + {} * {} + {:?}]", b, x, 1 << s, disp),
                        }, iv);
                        let start = jit.get_current() as u64;
                        current(e);
                        let rr = if reg <= 16 { mk(reg).unwrap() } else { mk(0).unwrap() };
                        let dg = (reg & 7) as u8;
                        let mut field = Rg::D(dg as u64);
                        let mut ok = op.to_vec();
                        let j = &mut jit;
                        let (mut k, r) = match *e {
                            "enc_mi" => { field = Rg::R(0); (K::N, quiet(|| j.enc_mi(op[0], rm, im))) }
                            "enc_rexw_mi" => { field = Rg::R(0); (K::W, quiet(|| j.enc_rexw_mi(op[0], rm, im))) }
                            "enc_mi_byte" => { field = Rg::R(0); (K::B, quiet(|| j.enc_mi_byte(op[0], rm, im))) }
                            "enc_mr" => { field = Rg::R(reg); (K::N, quiet(|| j.enc_mr(op, rr, rm))) }
                            "enc_mr_byte" => { field = Rg::R(reg); (K::B, quiet(|| j.enc_mr_byte(op, rr, rm))) }
                            "enc_rexw_mr" => { field = Rg::R(reg); (K::W, quiet(|| j.enc_rexw_mr(op, rr, rm))) }
                            "enc_m_byte" => { field = Rg::D(0); (K::B, quiet(|| j.enc_m_byte(op, rm))) }
                            "enc_digit" => (K::N, quiet(|| j.enc_digit(op, rm, dg))),
                            "enc_digit_imm" => (K::N, quiet(|| j.enc_digit_imm(op, rm, dg, im))),
                            "enc_digit_imm_byte" => (K::B, quiet(|| j.enc_digit_imm_byte(op, 0x3c, rm, dg, im))),
                            _ => (K::W, quiet(|| j.enc_rexw_digit(op, rm, dg, im))),
                        };
                        // the accumulator form has its own opcode
                        let acc = *e == "enc_digit_imm_byte" && sh.is_none() && b == 0;
                        if *e == "enc_digit_imm_byte" && sh.is_some() { k = K::N; }
                        let end = jit.get_current() as u64;
                        if r.is_none() {
                            refused += 1;
                            if legal {
                                fail(&format!("refused (panic): {}", txt));
                            }
                            continue;
                        }
                        if !legal {
                            let by = unsafe { std::slice::from_raw_parts((base + start) as *const u8, (end - start) as usize) };
                            fail(&format!("accepted although it has no encoding: {} emitted {}", txt, hex(by)));
                        }
                        let mut orm = match sh {
                            None => Op::R(b),
                            Some(_) if dl != 0 => Op::L(Lab(if dl == 1 { back } else { fwd })),
                            Some(None) => Op::M { base: b, index: None, scale: 1, disp: dv.unwrap() },
                            Some(Some((x, s))) => Op::M { base: b, index: Some(*x), scale: 1 << s, disp: dv.unwrap() },
                        };
                        if acc {
                            ok = vec![0x3c];
                            orm = Op::R(u64::MAX);
                        }
                        let c = Case { txt, start, end, k, op: ok, reg: field, rm: orm, imm: iv };
                        if matches!(orm, Op::L(_)) {
                            pend.push(c);
                        } else {
                            check(base, 0, &c);
                        }
                        if end > REGION - 65536 {
                            // region exhausted: stop here
                            println!("STAT evaluations={} refused={}", evals, refused);
                            return;
                        }
                    }
                }
            }
        }
        tick();
    }
    // opcode + register
    for n in 0..=16u64 {
        for v in 0..4 {
            let start = jit.get_current() as u64;
            let rr = mk(n).unwrap();
            let j = &mut jit;
            let (name, k, op, r) = match v {
                0 => ("enc_o", K::N, 0x50, quiet(|| j.enc_o(0x50, rr))),
                1 => ("enc_oi", K::N, 0xb8, quiet(|| j.enc_oi(0xb8, rr))),
                2 => ("enc_oi_byte", K::B, 0xb0, quiet(|| j.enc_oi_byte(0xb0, rr))),
                _ => ("enc_rexw_o", K::W, 0xb8, quiet(|| j.enc_rexw_o(0xb8, rr))),
            };
            let end = jit.get_current() as u64;
            evals += 1;
            let by = unsafe { std::slice::from_raw_parts((base + start) as *const u8, (end - start) as usize) };
            match r {
                None if n < 16 => fail(&format!("refused (panic): {}({:#x}, R({}))", name, op, n)),
                Some(()) if n >= 16 => fail(&format!("accepted although it has no encoding: {}({:#x}, R({})) emitted {}", name, op, n, hex(by))),
                Some(()) => {
                    let d = Dec { bytes: by, addr: base + start, lab: 0 };
                    if !d.o(k, &[], op, n, None) {
                        fail(&format!("{}({:#x}, R({})) emitted {}", name, op, n, hex(by)));
                    }
                }
                None => refused += 1,
            }
        }
    }
    // operand classification
    for n in 0..=16u64 {
        let r = mk(n).unwrap();
        if r.is_rip() != (n == 16) || r.is_cl() != (n == 1) || r.is_rax() != (n == 0) {
            fail(&format!("is_rip/is_cl/is_rax wrong for register {}", n));
        }
        let m = Rm::reg(r);
        let i = Rm::ind(r, Disp::None, Scale::None);
        if !m.is_reg() || i.is_reg() || m.is_rax() != (n == 0) || i.is_rax() {
            fail(&format!("Rm::is_reg/is_rax wrong for register {}", n));
        }
    }
    for _ in 0..7 {
        jit.emitb(0);
    }
    jit.bind_label(fwd);
    if quiet(|| jit.finalize()).is_none() {
        fail("finalize() panicked");
    }
    for c in &pend {
        let l = match c.rm {
            Op::L(l) => jit.get_label_address(l.0).as_ptr() as u64,
            _ => 0,
        };
        check(base, l, c);
    }
    println!("STAT evaluations={} refused={}", evals, refused);
}

fn check(base: u64, lab: u64, c: &Case) {
    let by = unsafe { std::slice::from_raw_parts((base + c.start) as *const u8, (c.end - c.start) as usize) };
    let d = Dec { bytes: by, addr: base + c.start, lab };
    let ok = match c.rm {
        Op::R(u64::MAX) => d.raw(&c.op, c.imm),
        _ => d.m(c.k, &[], &c.op, c.reg, c.rm, c.imm),
    };
    if !ok {
        fail(&format!("{} emitted {}: does not decode to these operands", c.txt, hex(by)));
    }
}
