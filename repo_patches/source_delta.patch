From ad2fcf07fdfe4c9d3282d1be18e635d13165c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 1/6] fix: keep macro-generated locals from capturing user
 variables

The code generated for immediates and movq declared locals named imm, op1,
op2 and rm_op, which shadow variables of the same name used in operand
expressions (e.g. addq [rax + (imm)], 5). Use reserved names.
---
 monoasm_macro/src/asm.rs | 156 +++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 78 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..daffdbc 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -64,13 +64,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
+                            let __imm = (#i) as i64;
+                            if let Ok(__imm) = i32::try_from(__imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
-                                    jit.emitl(imm as u32);
+                                    jit.emitl(__imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(__imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -79,9 +79,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
-                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                            let __imm = (#i) as i64;
+                            if let Ok(__imm) = i32::try_from(__imm)  {
+                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(__imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -97,13 +97,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
+                            let __imm = (#i) as i64;
+                            if let Ok(__imm) = i8::try_from(__imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0xa8]);
-                                    jit.emitb(imm as u8);
+                                    jit.emitb(__imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(__imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -112,9 +112,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
-                                jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                            let __imm = (#i) as i64;
+                            if let Ok(__imm) = i8::try_from(__imm)  {
+                                jit.enc_mi_byte(0xf6, #op1, Imm::B(__imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -286,9 +286,9 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    if let Ok(__imm) = i32::try_from(#imm as i64) {
                         jit.emitb(0xe8);
-                        jit.emitl(imm as u32);
+                        jit.emitl(__imm as u32);
                     } else {
                         panic!("'CALL ({})' out of range.", #imm);
                     }
@@ -350,9 +350,9 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         (MovOperand::Xmm(op1), op2) => match &op2 {
             MovOperand::Imm(..) => panic!("'MOV xmm, Imm' does not exists."),
             MovOperand::Reg(op2) => quote! {
-                let op2 = Rm::reg(#op2);
+                let __op2 = Rm::reg(#op2);
                 jit.emitb(0x66);
-                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), op2);
+                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), __op2);
             },
             op2 => quote! {
                 jit.emitb(0xf3);
@@ -371,23 +371,23 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             if let Some(size) = size {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let __imm = (#i) as i64;
+                    let __rm_op = Rm::reg(#expr);
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
-                    jit.emitq(imm as u64);
+                    jit.emitq(__imm as u64);
                 )
             } else {
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let __imm = (#i) as i64;
+                    let __rm_op = Rm::reg(#expr);
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
                     //} else {
                     //    // MOV r64, imm64
                         jit.enc_rexw_o(0xb8, #expr);
-                        jit.emitq(imm as u64);
+                        jit.emitq(__imm as u64);
                     //};
                 )
             }
@@ -398,9 +398,9 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         (op1, MovOperand::Imm(i, None)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i32::try_from(__imm)  {
+                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(__imm));
                 } else {
                     panic!("'MOV {}, imm64' does not exists.", #op1_str);
                 }
@@ -411,9 +411,9 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         // MR
         (op1, MovOperand::Reg(expr)) => quote!( jit.enc_rexw_mr(&[0x89], #expr, #op1); ),
         (MovOperand::Reg(op1), MovOperand::Xmm(op2)) => quote! {
-            let op1 = Rm::reg(#op1);
+            let __op1 = Rm::reg(#op1);
             jit.emitb(0x66);
-            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), op1);
+            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), __op1);
         },
         (op1, MovOperand::Xmm(op2)) => quote! {
             jit.emitb(0x66);
@@ -434,13 +434,13 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         // OI
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm) {
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i32::try_from(__imm) {
                     // MOV r32, imm32
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitl(imm as u32);
+                    jit.emitl(__imm as u32);
                 } else {
-                    panic!("'MOVL {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVL {}, {}' does not exists.", #expr, __imm);
                 };
             )
         }
@@ -450,9 +450,9 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_mi(0xc7, #op1, Imm::L(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i32::try_from(__imm)  {
+                    jit.enc_mi(0xc7, #op1, Imm::L(__imm));
                 } else {
                     panic!("'MOVL {}, imm64' does not exists.", #op1_str);
                 }
@@ -476,14 +476,14 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         // B8+ rw iw
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm) {
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i16::try_from(__imm) {
                     // MOV r16, imm16
                     jit.emitb(0x66);
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitw(imm as u16);
+                    jit.emitw(__imm as u16);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, __imm);
                 };
             )
         }
@@ -492,12 +492,12 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm)  {
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i16::try_from(__imm)  {
                     jit.emitb(0x66);
-                    jit.enc_mi(0xc7, #op1, Imm::W(imm));
+                    jit.enc_mi(0xc7, #op1, Imm::W(__imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, __imm);
                 }
             }
         }
@@ -523,14 +523,14 @@ fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         // B0+ rb ib
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i8::try_from(__imm) {
                     // MOV r8, imm8
                     //jit.emitb(0x66);
                     jit.enc_oi_byte(0xb0, #expr);
-                    jit.emitb(imm as u8);
+                    jit.emitb(__imm as u8);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, __imm);
                 };
             )
         }
@@ -539,11 +539,11 @@ fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm)  {
-                    jit.enc_mi_byte(0xc6, #op1, Imm::B(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i8::try_from(__imm)  {
+                    jit.enc_mi_byte(0xc6, #op1, Imm::B(__imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, __imm);
                 }
             }
         }
@@ -604,11 +604,11 @@ fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i8::try_from(__imm) {
+                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(__imm));
+                } else if let Ok(__imm) = i32::try_from(__imm) {
+                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(__imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -663,11 +663,11 @@ fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i8::try_from(__imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(__imm));
+                } else if let Ok(__imm) = i32::try_from(__imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(__imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -722,12 +722,12 @@ fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
+                let __imm = (#i) as i64;
                 jit.emitb(0x66);
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i16::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(imm));
+                if let Ok(__imm) = i8::try_from(__imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(__imm));
+                } else if let Ok(__imm) = i16::try_from(__imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(__imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -788,9 +788,9 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op_al = op_mr + 4;
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
+                let __imm = (#i) as i64;
+                if let Ok(__imm) = i8::try_from(__imm) {
+                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(__imm));
                 } else {
                     panic!("{} is out of 8bit.", #i);
                 }
@@ -877,11 +877,11 @@ fn shift_op(
                 // Shl r/m64, imm8
                 // REX.W C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let __imm = (#i) as i64;
+                    if __imm == 1 {
                         jit.enc_rexw_digit(&[0xd1], #op1, #digit, Imm::None);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(__imm) = i8::try_from(__imm) {
+                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(__imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
@@ -905,11 +905,11 @@ fn shift_op(
                 // Shl r/m32, imm8
                 // REX C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let __imm = (#i) as i64;
+                    if __imm == 1 {
                         jit.enc_digit(&[0xd1], #op1, #digit);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(__imm) = i8::try_from(__imm) {
+                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(__imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
-- 
2.43.0


From c780df139ff2ba41859237087a66320906feb323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 2/6] fix: emit REX.W for cvttsd2siq

CVTTSD2SI r64, xmm/m64 is F2 REX.W 0F 2C /r; without REX.W the conversion is
to a 32-bit integer.
---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index daffdbc..46a3e77 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From 0df110252027e195b1a70ae1b9ce580eb9c79f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 3/6] fix: account for the immediate of roundpd in rip-relative
 operands

The displacement is relative to the end of the instruction, which includes
the trailing imm8, so the immediate has to be passed to the encoder.
---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..afcd706 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 46a3e77..07fa83c 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,8 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                let __imm: u8 = #op3;
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(__imm as i8));
             }
         }
 
-- 
2.43.0


From 8c1bc89fac280bf09707dd09b96351a898bfd7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 4/6] fix: refuse rsp as an index register

SIB.index = 100b without REX.X means that there is no index, so
[base + rsp * n] was silently encoded as [base].
---
 monoasm/src/jit_memory.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index afcd706..90d6916 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -701,6 +701,8 @@ impl JitMemory {
             Rex::Byte => JitMemory::rex_none_byte,
         };
         assert!(!reg.is_rip());
+        // Index 4 (rsp) in SIB means "no index".
+        assert!(rm.mode.scale().index() != Reg(4));
         if rm.base.is_rip() {
             // For rip, only indirect addressing with disp32 ([rip + disp32]) is allowed.
             // [rip] and [rip + disp8] are to be converted to [rip + disp32].
-- 
2.43.0


From 419ccf788b805d0672ee80a8fa68127880dc8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 5/6] fix: refuse register numbers above 16 in Reg::from

The number was truncated to u8, so R(256) became rax, and numbers of 17 and
above were encoded as some other register.
---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..17b042d 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "illegal register number: {num}");
         Reg(num as u8)
     }
 
-- 
2.43.0


From dffaf3d507fb56e08963c76b4b38a5559291d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 6/6] fix: make include() independent of the selected page

It compared against the base of the current page, so with page 1 selected it
excluded page 0 and included the data page.
---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 90d6916..5124d40 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let top = self.pages[0].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0

