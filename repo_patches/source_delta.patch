From 5e236802800452620e7c8c26308bf6eb9909b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 01/71] fix: reserved OP-32 encodings are illegal instructions,
 not a host panic

---
 src/cpu/decode/inst_32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpu/decode/inst_32.rs b/src/cpu/decode/inst_32.rs
index dc6419f..8e2b42e 100644
--- a/src/cpu/decode/inst_32.rs
+++ b/src/cpu/decode/inst_32.rs
@@ -121,9 +121,8 @@ impl DecodeUtil for u32 {
                 _ => Extensions::BaseI,
             },
             0b0111011 => match funct7 {
-                0b0000000 | 0b0100000 => Extensions::BaseI,
                 0b0000001 => Extensions::M,
-                _ => unreachable!(),
+                _ => Extensions::BaseI,
             },
             0b1110011 => match funct3 {
                 0b000 => match funct7 {
-- 
2.43.0


From 4627356f5eb2f27404103cacd01a74bf62eb2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 02/71] fix: SLT compares all 64 bits on RV64

---
 src/cpu/execution/inst_32/base_i.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index c6f4465..98fac65 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -227,7 +227,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
                 inst.rd,
-                ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64,
+                match *cpu.isa {
+                    Isa::Rv32 => {
+                        ((cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32)) as u64
+                    }
+                    Isa::Rv64 => {
+                        ((cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64)) as u64
+                    }
+                },
             );
         }
         OpecodeKind::OP_SLTU => {
-- 
2.43.0


From fa1d1666c4efb7fef63be9e6dca49296db0e83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 03/71] fix: SLL/SRL use only the low 5 bits of rs2 on RV32

---
 src/cpu/execution/inst_32/base_i.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 98fac65..6135bd9 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -221,8 +221,11 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) - cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SLL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) << cpu.regs.read(inst.rs2));
+            let shamt = match *cpu.isa {
+                Isa::Rv32 => cpu.regs.read(inst.rs2) & 0b11111,
+                Isa::Rv64 => cpu.regs.read(inst.rs2) & 0b111111,
+            };
+            cpu.regs.write(inst.rd, cpu.regs.read(inst.rs1) << shamt);
         }
         OpecodeKind::OP_SLT => {
             cpu.regs.write(
@@ -248,8 +251,11 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 .write(inst.rd, cpu.regs.read(inst.rs1) ^ cpu.regs.read(inst.rs2));
         }
         OpecodeKind::OP_SRL => {
-            cpu.regs
-                .write(inst.rd, cpu.regs.read(inst.rs1) >> cpu.regs.read(inst.rs2));
+            let shamt = match *cpu.isa {
+                Isa::Rv32 => cpu.regs.read(inst.rs2) & 0b11111,
+                Isa::Rv64 => cpu.regs.read(inst.rs2) & 0b111111,
+            };
+            cpu.regs.write(inst.rd, cpu.regs.read(inst.rs1) >> shamt);
         }
         OpecodeKind::OP_SRA => {
             cpu.regs.write(
-- 
2.43.0


From e8794aa986445afa5ddb7f6d7837bf2f067ca708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 04/71] fix: REM uses the full 64-bit operands on RV64

---
 src/cpu/execution/inst_32/m_extension.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index fed0360..4bbf1c1 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -96,8 +96,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             } else if rs1 as i64 == i64::MIN && rs2 as i64 == -1 {
                 cpu.regs.write(inst.rd, 0);
             } else {
-                cpu.regs
-                    .write(inst.rd, (rs1 as i32 as i64 % rs2 as i32 as i64) as u64);
+                cpu.regs.write(
+                    inst.rd,
+                    match *cpu.isa {
+                        Isa::Rv32 => (rs1 as i32 as i64 % rs2 as i32 as i64) as u64,
+                        Isa::Rv64 => (rs1 as i64 % rs2 as i64) as u64,
+                    },
+                );
             }
         }
         OpecodeKind::OP_REMU => {
-- 
2.43.0


From 9379baf27661836c345672d379f5146f6736e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 05/71] fix: DIVUW/REMUW test the low word of the divisor for
 zero

---
 src/cpu/execution/inst_32/m_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/m_extension.rs b/src/cpu/execution/inst_32/m_extension.rs
index 4bbf1c1..408b05e 100644
--- a/src/cpu/execution/inst_32/m_extension.rs
+++ b/src/cpu/execution/inst_32/m_extension.rs
@@ -139,7 +139,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_DIVUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, (2i32.pow(32) - 1) as u64);
             } else {
                 cpu.regs
@@ -147,7 +147,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_REMUW => {
-            if rs2 == 0 {
+            if rs2 as u32 == 0 {
                 cpu.regs.write(inst.rd, rs1 as i32 as u64);
             } else {
                 cpu.regs
-- 
2.43.0


From 48766398e24e7a57fc8460af336f9d5f1c17419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 06/71] fix: an AMO whose store faults leaves rd unchanged

---
 src/cpu/execution/inst_32/a_extension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 348c87d..16fc423 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -13,9 +13,9 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
     )?;
     let loaded_data = cpu.bus.load32(amo_addr)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
@@ -32,9 +32,9 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
     )?;
     let loaded_data = cpu.bus.load64(amo_addr)?;
     let rs2_data = cpu.regs.read(inst.rs2);
-    cpu.regs.write(inst.rd, loaded_data);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
+    cpu.regs.write(inst.rd, loaded_data);
 
     Ok(())
 }
-- 
2.43.0


From 82246a6e70e02a1298326085c22b5fd4ae6b7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 07/71] fix: a failing SC also gives up the reservation

---
 src/cpu/execution/inst_32/a_extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 16fc423..056ef55 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -64,6 +64,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
@@ -133,6 +134,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                 cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 0);
             } else {
+                cpu.reservation_set = None;
                 cpu.regs.write(inst.rd, 1);
             }
         }
-- 
2.43.0


From af0c8bf9475a1af14906d015e32e5b366ad08d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 08/71] fix: C.JR clears the least-significant bit of the
 target

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 68a50bf..7bb5a42 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -135,7 +135,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             }
         }
         OpecodeKind::OP_C_JR => {
-            cpu.update_pc(cpu.regs.read(inst.rs1));
+            cpu.update_pc(cpu.regs.read(inst.rs1) & !0x1);
         }
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
-- 
2.43.0


From a61606f7a29c6695742e43b17c43d4704842d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 09/71] fix: C.EBREAK raises a breakpoint exception

---
 src/cpu/execution/inst_16/c_extension.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 7bb5a42..961953f 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -140,7 +140,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_MV => {
             cpu.regs.write(inst.rd, cpu.regs.read(inst.rs2));
         }
-        OpecodeKind::OP_C_EBREAK => { /* NOP */ }
+        OpecodeKind::OP_C_EBREAK => {
+            return Err((
+                Some(cpu.pc()),
+                TrapCause::Breakpoint,
+                "c.ebreak".to_string(),
+            ));
+        }
         // -- rv64 --
         OpecodeKind::OP_C_LD => {
             let load_addr = cpu.trans_addr(
-- 
2.43.0


From 1b31e20fd2e3c4782bfdd060950305bc56d3401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 10/71] fix: C.SDSP requires 8-byte alignment like SD

---
 src/cpu/execution/inst_16/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 961953f..88063a9 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -175,7 +175,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_SDSP => {
             let store_addr = cpu.trans_addr(
                 TransFor::StoreAMO,
-                TransAlign::Size32,
+                TransAlign::Size64,
                 (cpu.regs.read(Some(REG_SP)) as i64 + inst.imm.unwrap() as i64) as u64,
             )?;
             cpu.bus.store64(store_addr, cpu.regs.read(inst.rs2))?;
-- 
2.43.0


From 2a3276fa2718532cde755cf5d0468dcdabfa15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 11/71] fix: a faulting AMO reports a store/AMO access fault

---
 src/cpu/execution/inst_32/a_extension.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/execution/inst_32/a_extension.rs b/src/cpu/execution/inst_32/a_extension.rs
index 056ef55..583ab7c 100644
--- a/src/cpu/execution/inst_32/a_extension.rs
+++ b/src/cpu/execution/inst_32/a_extension.rs
@@ -11,7 +11,10 @@ fn atomic_memory_operations_32<F: Fn(u64, u64) -> u64>(
         TransAlign::Size32,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load32(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load32(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
     cpu.bus
         .store32(amo_addr, operation(loaded_data, rs2_data))?;
@@ -30,7 +33,10 @@ fn atomic_memory_operations_64<F: Fn(u64, u64) -> u64>(
         TransAlign::Size64,
         cpu.regs.read(inst.rs1),
     )?;
-    let loaded_data = cpu.bus.load64(amo_addr)?;
+    let loaded_data = cpu
+        .bus
+        .load64(amo_addr)
+        .map_err(|(addr, _, msg)| (addr, TrapCause::StoreAMOAccessFault, msg))?;
     let rs2_data = cpu.regs.read(inst.rs2);
     cpu.bus
         .store64(amo_addr, operation(loaded_data, rs2_data))?;
-- 
2.43.0


From 2cc581b17c11d3a265b6bb0cce9a1fa2d5438294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 12/71] fix: a jump, taken branch, trap or return to its own
 address is not skipped over

---
 src/cpu/execution/inst_16.rs                | 17 ++++++++------
 src/cpu/execution/inst_16/c_extension.rs    |  4 ++++
 src/cpu/execution/inst_32.rs                | 21 +++++++++++------
 src/cpu/execution/inst_32/base_i.rs         | 25 +++++++++++++++++----
 src/cpu/execution/inst_32/priv_extension.rs |  7 ++++--
 5 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/src/cpu/execution/inst_16.rs b/src/cpu/execution/inst_16.rs
index b222c4e..e8c8f9c 100644
--- a/src/cpu/execution/inst_16.rs
+++ b/src/cpu/execution/inst_16.rs
@@ -1,6 +1,6 @@
 mod c_extension;
 use super::Cpu;
-use crate::cpu::instruction::Instruction;
+use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::TrapCause;
 
 pub fn exe_cinst(
@@ -9,14 +9,17 @@ pub fn exe_cinst(
 ) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 2;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     c_extension::exec(inst, cpu)?;
 
-    // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    // control transfer instructions set the program counter by themselves
+    match inst.opc {
+        OpecodeKind::OP_C_J
+        | OpecodeKind::OP_C_JAL
+        | OpecodeKind::OP_C_JR
+        | OpecodeKind::OP_C_JALR
+        | OpecodeKind::OP_C_BEQZ
+        | OpecodeKind::OP_C_BNEZ => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_16/c_extension.rs b/src/cpu/execution/inst_16/c_extension.rs
index 88063a9..2cfc659 100644
--- a/src/cpu/execution/inst_16/c_extension.rs
+++ b/src/cpu/execution/inst_16/c_extension.rs
@@ -127,11 +127,15 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_C_BEQZ => {
             if cpu.regs.read(inst.rs1) == 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_BNEZ => {
             if cpu.regs.read(inst.rs1) != 0 {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_C_JR => {
diff --git a/src/cpu/execution/inst_32.rs b/src/cpu/execution/inst_32.rs
index 727fe06..73dfd2b 100644
--- a/src/cpu/execution/inst_32.rs
+++ b/src/cpu/execution/inst_32.rs
@@ -4,15 +4,12 @@ mod m_extension;
 mod priv_extension;
 mod zicsr_extension;
 
-use crate::cpu::instruction::{Extensions, Instruction};
+use crate::cpu::instruction::{Extensions, Instruction, OpecodeKind};
 use crate::cpu::{Cpu, TrapCause};
 
 pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     const INST_SIZE: u64 = 4;
 
-    // store previous program counter for excluding branch case
-    let prev_pc = cpu.pc();
-
     match inst.opc_to_extension() {
         Extensions::BaseI => base_i::exec(inst, cpu)?,
         Extensions::A => a_extension::exec(inst, cpu)?,
@@ -22,9 +19,19 @@ pub fn exe_inst(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, T
         _ => panic!("not a full size instruction."),
     }
 
-    // add the program counter when it isn't a branch instruction
-    if cpu.pc() == prev_pc {
-        cpu.add2pc(INST_SIZE as i32);
+    // control transfer instructions set the program counter by themselves
+    match inst.opc {
+        OpecodeKind::OP_JAL
+        | OpecodeKind::OP_JALR
+        | OpecodeKind::OP_BEQ
+        | OpecodeKind::OP_BNE
+        | OpecodeKind::OP_BLT
+        | OpecodeKind::OP_BGE
+        | OpecodeKind::OP_BLTU
+        | OpecodeKind::OP_BGEU
+        | OpecodeKind::OP_SRET
+        | OpecodeKind::OP_MRET => (),
+        _ => cpu.add2pc(INST_SIZE as i32),
     }
 
     Ok(())
diff --git a/src/cpu/execution/inst_32/base_i.rs b/src/cpu/execution/inst_32/base_i.rs
index 6135bd9..ea76a22 100644
--- a/src/cpu/execution/inst_32/base_i.rs
+++ b/src/cpu/execution/inst_32/base_i.rs
@@ -28,22 +28,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         OpecodeKind::OP_BEQ => {
             if cpu.regs.read(inst.rs1) == cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BNE => {
             if cpu.regs.read(inst.rs1) != cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BLT => match *cpu.isa {
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) < (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) < (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
@@ -51,22 +59,30 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             Isa::Rv32 => {
                 if (cpu.regs.read(inst.rs1) as i32) >= (cpu.regs.read(inst.rs2) as i32) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
             Isa::Rv64 => {
                 if (cpu.regs.read(inst.rs1) as i64) >= (cpu.regs.read(inst.rs2) as i64) {
                     cpu.add2pc(inst.imm.unwrap());
+                } else {
+                    cpu.add2pc(INST_SIZE as i32);
                 }
             }
         },
         OpecodeKind::OP_BLTU => {
             if cpu.regs.read(inst.rs1) < cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_BGEU => {
             if cpu.regs.read(inst.rs1) >= cpu.regs.read(inst.rs2) {
                 cpu.add2pc(inst.imm.unwrap());
+            } else {
+                cpu.add2pc(INST_SIZE as i32);
             }
         }
         OpecodeKind::OP_LB => {
@@ -282,18 +298,19 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             // nop (pipeline are not yet implemented)
         }
         OpecodeKind::OP_ECALL => {
-            cpu.trap(
-                0,
+            return Err((
+                Some(0),
                 match cpu.priv_lv() {
                     PrivilegedLevel::User => TrapCause::UmodeEcall,
                     PrivilegedLevel::Supervisor => TrapCause::SmodeEcall,
                     PrivilegedLevel::Machine => TrapCause::MmodeEcall,
                     _ => panic!("cannot enviroment call in current privileged mode."),
                 },
-            );
+                "ecall".to_string(),
+            ));
         }
         OpecodeKind::OP_EBREAK => {
-            cpu.trap(cpu.pc(), TrapCause::Breakpoint);
+            return Err((Some(cpu.pc()), TrapCause::Breakpoint, "ebreak".to_string()));
         }
         OpecodeKind::OP_LWU => {
             let load_addr = cpu.trans_addr(
diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7e60da7..04e495d 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -93,8 +93,11 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
                     .read_xstatus(PrivilegedLevel::Machine, Xstatus::TVM)
                     == 1
             {
-                let illegal_inst = cpu.bus.load32(cpu.pc())?;
-                cpu.trap(illegal_inst, TrapCause::IllegalInst);
+                return Err((
+                    Some(0),
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma but mstatus.TVM == 1".to_string(),
+                ));
             }
         }
         _ => panic!("not an privileged extension"),
-- 
2.43.0


From 99a4f6de8213436cbdf07ca767ee9d5cac710bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 13/71] fix: C.ADD with rd=x0 is a hint, not C.EBREAK

---
 src/cpu/decode/inst_16/c_extension.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpu/decode/inst_16/c_extension.rs b/src/cpu/decode/inst_16/c_extension.rs
index 6a4eef8..d24ff48 100644
--- a/src/cpu/decode/inst_16/c_extension.rs
+++ b/src/cpu/decode/inst_16/c_extension.rs
@@ -98,12 +98,12 @@ fn quadrant2(
                 0b0 => Ok(OpecodeKind::OP_C_JR),
                 _ => Ok(OpecodeKind::OP_C_MV),
             },
-            0b1 => match mi_flag {
-                0b0 => Ok(OpecodeKind::OP_C_EBREAK),
-                _ => match lo_flag {
-                    0b0 => Ok(OpecodeKind::OP_C_JALR),
-                    _ => Ok(OpecodeKind::OP_C_ADD),
+            0b1 => match lo_flag {
+                0b0 => match mi_flag {
+                    0b0 => Ok(OpecodeKind::OP_C_EBREAK),
+                    _ => Ok(OpecodeKind::OP_C_JALR),
                 },
+                _ => Ok(OpecodeKind::OP_C_ADD),
             },
             _ => Err((
                 Some(u64::from(inst)),
-- 
2.43.0


From 901a3a10188d88809fa5a040e06f35be7aad8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 14/71] fix: MRET is illegal below machine mode

---
 src/cpu/execution/inst_32/priv_extension.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 04e495d..7619175 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -58,6 +58,14 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             log::debugln!("csrs.sepc: {:#x}", cpu.csrs.read(CSRname::sepc.wrap())?);
         }
         OpecodeKind::OP_MRET => {
+            if cpu.priv_lv() < PrivilegedLevel::Machine {
+                return Err((
+                    Some(0),
+                    TrapCause::IllegalInst,
+                    "exec mret below machine mode".to_string(),
+                ));
+            }
+
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::MPP);
-- 
2.43.0


From 365165b2dda00b126356ccce88eb937b7b410a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 15/71] fix: SRET: TSR only concerns supervisor mode, and the
 trap is an illegal instruction wherever pc points

---
 src/cpu/execution/inst_32/priv_extension.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index 7619175..c01aa65 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -6,6 +6,7 @@ use crate::log;
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
     match inst.opc {
         OpecodeKind::OP_SRET => {
+            // mstatus.TSR == 1: sret is not permitted in supervisor mode
             let require_priv = if cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Machine, Xstatus::TSR)
@@ -17,7 +18,7 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             };
             if cpu.priv_lv() < require_priv {
                 return Err((
-                    Some(cpu.bus.load32(cpu.pc())?),
+                    Some(0),
                     TrapCause::IllegalInst,
                     "exec sret but mstatus.TSR == 1".to_string(),
                 ));
@@ -26,14 +27,8 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
             let new_priv = cpu
                 .csrs
                 .read_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP);
-            if cpu.csrs.read(CSRname::mstatus.wrap())? >> 22 & 1 == 1 {
-                // mstatus.TSR == 1
-                let except_pc = cpu.pc();
-                cpu.trap(except_pc, TrapCause::IllegalInst);
-            } else {
-                let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
-                cpu.update_pc(new_pc);
-            }
+            let new_pc = cpu.csrs.read(CSRname::sepc.wrap())?;
+            cpu.update_pc(new_pc);
 
             // sstatus.SIE = sstatus.SPIE
             cpu.csrs.write_xstatus(
-- 
2.43.0


From 73329b1f9e5f680d5b67d09556e6ab40b0e2622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 16/71] fix: SFENCE.VMA is illegal in user mode

---
 src/cpu/execution/inst_32/priv_extension.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/execution/inst_32/priv_extension.rs b/src/cpu/execution/inst_32/priv_extension.rs
index c01aa65..b94bd94 100644
--- a/src/cpu/execution/inst_32/priv_extension.rs
+++ b/src/cpu/execution/inst_32/priv_extension.rs
@@ -90,6 +90,13 @@ pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapC
         }
         OpecodeKind::OP_WFI => { /* nop */ }
         OpecodeKind::OP_SFENCE_VMA => {
+            if cpu.priv_lv() == PrivilegedLevel::User {
+                return Err((
+                    Some(0),
+                    TrapCause::IllegalInst,
+                    "exec sfence.vma in user mode".to_string(),
+                ));
+            }
             if cpu.priv_lv() == PrivilegedLevel::Supervisor
                 && cpu
                     .csrs
-- 
2.43.0


From 76c9c1cd5e43c3c2e96ab029405f62e3dda168b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 17/71] fix: writes through sstatus, sie and sip replace
 exactly the bits of the view

---
 src/cpu/csr.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index a77c9d8..668ea9c 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -81,7 +81,7 @@ impl CSRs {
                     mask
                 }
             }
-            MSTATUS => match *self.isa {
+            USTATUS | SSTATUS | MSTATUS => match *self.isa {
                 Isa::Rv32 => mask,
                 Isa::Rv64 => mask & !(0b1111 << 32),
             },
@@ -141,10 +141,28 @@ impl CSRs {
 
         let src = src.fix2regsz(&self.isa);
         match dist {
-            USTATUS => self.csrs[MSTATUS] |= src & self.umask(),
-            SSTATUS => self.csrs[MSTATUS] |= src & self.smask(),
-            SIE => self.csrs[CSRname::mie as usize] = src & SIESIPMASK,
-            SIP => self.csrs[CSRname::mip as usize] = src & SIESIPMASK,
+            USTATUS => {
+                let mask = match *self.isa {
+                    Isa::Rv32 => self.umask(),
+                    Isa::Rv64 => self.umask() & !(0b1111 << 32),
+                };
+                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !mask) | (src & mask)
+            }
+            SSTATUS => {
+                let mask = match *self.isa {
+                    Isa::Rv32 => self.smask(),
+                    Isa::Rv64 => self.smask() & !(0b1111 << 32),
+                };
+                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !mask) | (src & mask)
+            }
+            SIE => {
+                let mie = self.csrs[CSRname::mie as usize];
+                self.csrs[CSRname::mie as usize] = (mie & !SIESIPMASK) | (src & SIESIPMASK)
+            }
+            SIP => {
+                let mip = self.csrs[CSRname::mip as usize];
+                self.csrs[CSRname::mip as usize] = (mip & !SIESIPMASK) | (src & SIESIPMASK)
+            }
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
                     let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
-- 
2.43.0


From 34ab8776e0bf2934a21478e136725bbcfec548fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 18/71] fix: a misa write at a 2-byte aligned pc keeps the C
 bit

---
 src/cpu/csr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 668ea9c..38158bd 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -165,7 +165,7 @@ impl CSRs {
             }
             MISA => {
                 if *self.pc.borrow() % 4 != 0 {
-                    let c_ext_bit = (self.csrs[MISA] >> 2) & 1;
+                    let c_ext_bit = self.csrs[MISA] & 0b100;
                     self.csrs[MISA] = (src & !0b100) | c_ext_bit
                 } else {
                     self.csrs[MISA] = src
-- 
2.43.0


From 7d66fbf5c8d5de136f1fb0cea54d1b55347e6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 19/71] fix: a CSR access does not abort when the instruction
 word cannot be re-read

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 1a4077e..343537e 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -3,7 +3,7 @@ use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause,
 
 fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
     let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
-    let invalid_instruction = Some(cpu.bus.load_u32(inst_addr).expect("get instruction failed"));
+    let invalid_instruction = cpu.bus.load_u32(inst_addr).ok();
 
     if dist >= 4096 {
         return Err((
-- 
2.43.0


From 3bb54394ff5a5a491fad071e97fca4eecddb9163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 20/71] fix: ustatus gives user mode only the UIE and UPIE bits
 of mstatus

---
 src/cpu/csr.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 38158bd..2fa2f56 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -52,10 +52,7 @@ impl CSRs {
     }
 
     fn umask(&self) -> u64 {
-        match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
-        }
+        0b10001 // UPIE and UIE
     }
 
     fn smask(&self) -> u64 {
@@ -142,11 +139,7 @@ impl CSRs {
         let src = src.fix2regsz(&self.isa);
         match dist {
             USTATUS => {
-                let mask = match *self.isa {
-                    Isa::Rv32 => self.umask(),
-                    Isa::Rv64 => self.umask() & !(0b1111 << 32),
-                };
-                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !mask) | (src & mask)
+                self.csrs[MSTATUS] = (self.csrs[MSTATUS] & !self.umask()) | (src & self.umask())
             }
             SSTATUS => {
                 let mask = match *self.isa {
-- 
2.43.0


From 1e08d23eb77470ba01a9659c0a5ed5ce234318f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 21/71] fix: mstatus.MPP never holds the reserved privilege
 level

---
 src/cpu/csr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 2fa2f56..13c9fd6 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -69,6 +69,13 @@ impl CSRs {
         }
     }
 
+    /// mstatus.MPP is WARL: the reserved encoding 0b10 is replaced by 0b00 (user mode)
+    fn fix_mpp(&mut self) {
+        if self.csrs[MSTATUS] >> 11 & 0b11 == 0b10 {
+            self.csrs[MSTATUS] &= !(0b11 << 11);
+        }
+    }
+
     fn mask_warl(&mut self, dst: usize, mask: u64) -> u64 {
         match dst {
             MISA => {
@@ -103,6 +110,7 @@ impl CSRs {
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
                 _ => self.csrs[dist] |= mask,
             }
+            self.fix_mpp();
         }
 
         Ok(())
@@ -124,6 +132,7 @@ impl CSRs {
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
                 _ => self.csrs[dist] &= !mask,
             }
+            self.fix_mpp();
         }
 
         Ok(())
@@ -171,6 +180,7 @@ impl CSRs {
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
+        self.fix_mpp();
         self.update_triggers(dist, src);
 
         Ok(())
-- 
2.43.0


From 32af3e83e8690ef1211664df1d4205b13fb7ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 22/71] fix: selecting a trigger that does not exist does not
 abort

---
 src/cpu/csr/breakpoint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index d2f3dff..6741702 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -14,6 +14,11 @@ impl CSRs {
             0x7a0 => {
                 // tselect
                 let tgr_index = src as usize;
+                if tgr_index >= self.triggers.tdata1.len() {
+                    // WARL: a trigger that does not exist cannot be selected
+                    self.csrs[CSRname::tselect as usize] = self.triggers.tselect as u64;
+                    return;
+                }
                 self.triggers.tselect = tgr_index;
                 self.csrs[CSRname::tdata1 as usize] = self.triggers.tdata1[tgr_index];
                 self.csrs[CSRname::tdata2 as usize] = self.triggers.tdata2[tgr_index];
-- 
2.43.0


From f00620cccca393eea9b585abad949fd8ec4938d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 23/71] fix: CSRRS/CSRRC on a trigger register take effect like
 CSRRW

---
 src/cpu/csr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index 13c9fd6..af573e5 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -111,6 +111,7 @@ impl CSRs {
                 _ => self.csrs[dist] |= mask,
             }
             self.fix_mpp();
+            self.update_triggers(dist, self.csrs[dist]);
         }
 
         Ok(())
@@ -133,6 +134,7 @@ impl CSRs {
                 _ => self.csrs[dist] &= !mask,
             }
             self.fix_mpp();
+            self.update_triggers(dist, self.csrs[dist]);
         }
 
         Ok(())
-- 
2.43.0


From 0079672d3a216a738c944efd2346c030467be45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 24/71] fix: a breakpoint fires whatever trigger is selected
 and whatever the others match

---
 src/cpu/csr/breakpoint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index 6741702..c30c4f4 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -42,7 +42,7 @@ impl Cpu {
         purpose: TransFor,
         addr: u64,
     ) -> Result<(), (Option<u64>, TrapCause, String)> {
-        for trigger_num in 0..self.csrs.triggers.tselect + 1 {
+        for trigger_num in 0..self.csrs.triggers.tdata1.len() {
             let tdata1 = self.csrs.triggers.tdata1[trigger_num];
             let trigger_type = match *self.isa {
                 Isa::Rv32 => tdata1 >> 28 & 0xF,
@@ -64,7 +64,7 @@ impl Cpu {
                         || self.priv_lv() == PrivilegedLevel::Supervisor && mode_s == 0x0
                         || self.priv_lv() == PrivilegedLevel::User && mode_u == 0x0
                     {
-                        return Ok(());
+                        continue;
                     }
 
                     if match_mode != 0x0 {
-- 
2.43.0


From b92b18c0e8d51fb1a0119bb3b9379b1d7e6d89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 25/71] fix: an unimplemented trigger type never matches
 instead of aborting the emulator

---
 src/cpu/csr/breakpoint.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/cpu/csr/breakpoint.rs b/src/cpu/csr/breakpoint.rs
index c30c4f4..ee843d0 100644
--- a/src/cpu/csr/breakpoint.rs
+++ b/src/cpu/csr/breakpoint.rs
@@ -50,8 +50,6 @@ impl Cpu {
             };
 
             match trigger_type {
-                0x0 => (),
-                0x1 => panic!("SiFive address match trigger is not implemented."),
                 0x2 => {
                     let tdata2 = self.csrs.triggers.tdata2[trigger_num];
                     let match_mode = tdata1 >> 7 & 0xF;
@@ -68,7 +66,8 @@ impl Cpu {
                     }
 
                     if match_mode != 0x0 {
-                        panic!("this match mode is not supported");
+                        // only exact match is implemented
+                        continue;
                     }
 
                     match purpose {
@@ -104,10 +103,8 @@ impl Cpu {
                         }
                     }
                 }
-                0x3 => panic!("Instruction count trigger is not implemented."),
-                0x4 => panic!("Interrupt trigger is not implemented."),
-                0x5 => panic!("Exception trigger is not implemented."),
-                _ => panic!("this trigger is not supported: {trigger_type}"),
+                // other trigger types are not implemented and never match
+                _ => (),
             }
         }
 
-- 
2.43.0


From 7f34c9b48adabfd5c2c90b94ef6fd373341cdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 26/71] fix: CSR accesses obey the privilege and read-only bits
 of the CSR number

---
 src/cpu/execution/inst_32/zicsr_extension.rs | 56 ++++++++++----------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/cpu/execution/inst_32/zicsr_extension.rs b/src/cpu/execution/inst_32/zicsr_extension.rs
index 343537e..5dad373 100644
--- a/src/cpu/execution/inst_32/zicsr_extension.rs
+++ b/src/cpu/execution/inst_32/zicsr_extension.rs
@@ -1,7 +1,11 @@
 use crate::cpu::instruction::{Instruction, OpecodeKind};
 use crate::cpu::{CSRname, Cpu, PrivilegedLevel, TransAlign, TransFor, TrapCause, Xstatus};
 
-fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, TrapCause, String)> {
+fn check_accessible(
+    cpu: &mut Cpu,
+    dist: usize,
+    is_write: bool,
+) -> Result<(), (Option<u64>, TrapCause, String)> {
     let inst_addr = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
     let invalid_instruction = cpu.bus.load_u32(inst_addr).ok();
 
@@ -13,16 +17,26 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
         ));
     }
 
+    // csr[9:8] is the lowest privilege level that may access the CSR
+    if dist >> 8 & 0b11 > cpu.priv_lv() as usize {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("You are in {:?} mode but accessed {dist:x}", cpu.priv_lv()),
+        ));
+    }
+
+    // csr[11:10] == 0b11 is a read-only CSR
+    if is_write && dist >> 10 & 0b11 == 0b11 {
+        return Err((
+            invalid_instruction,
+            TrapCause::IllegalInst,
+            format!("writing to {dist:x} is not allowed"),
+        ));
+    }
+
     match cpu.priv_lv() {
         PrivilegedLevel::User => {
-            if (0x100..=0x180).contains(&dist) || (0x300..=0x344).contains(&dist) {
-                return Err((
-                    invalid_instruction,
-                    TrapCause::IllegalInst,
-                    format!("You are in User mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -43,14 +57,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
             }
         }
         PrivilegedLevel::Supervisor => {
-            if (0x300..=0x344).contains(&dist) {
-                return Err((
-                    invalid_instruction,
-                    TrapCause::IllegalInst,
-                    format!("You are in Supervisor mode but accessed {dist:x}"),
-                ));
-            }
-
             if (0xc00..=0xc1f).contains(&dist) {
                 let mctren = cpu.csrs.read(CSRname::mcounteren.wrap())?;
                 if mctren >> (dist - 0xc00) & 0x1 == 0 {
@@ -124,15 +130,6 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 
     if csrs_ranges.iter().any(|x| x.contains(&dist)) {
         match dist {
-            // == depends on access type ==
-            0xc00 => match cpu.priv_lv() {
-                PrivilegedLevel::Machine => Ok(()),
-                _ => Err((
-                    None,
-                    TrapCause::IllegalInst,
-                    format!("writing to cycle is not allowed: {dist:x}"),
-                )),
-            },
             // == depends on privilege ==
             // scounteren(0x106) only allow higher
             0x106 => {
@@ -168,7 +165,12 @@ fn check_accessible(cpu: &mut Cpu, dist: usize) -> Result<(), (Option<u64>, Trap
 }
 
 pub fn exec(inst: &Instruction, cpu: &mut Cpu) -> Result<(), (Option<u64>, TrapCause, String)> {
-    check_accessible(cpu, inst.rs2.unwrap())?;
+    // set and clear with x0 (or a zero immediate) do not write
+    let is_write = match inst.opc {
+        OpecodeKind::OP_CSRRW | OpecodeKind::OP_CSRRWI => true,
+        _ => inst.rs1 != Some(0),
+    };
+    check_accessible(cpu, inst.rs2.unwrap(), is_write)?;
 
     match inst.opc {
         OpecodeKind::OP_CSRRW => {
-- 
2.43.0


From 70afeac21f65147df2fd1c5655b8b71763770ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 27/71] fix: sstatus covers XS and SD but not mstatus.MPP

---
 src/cpu/csr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index af573e5..d646276 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -57,15 +57,15 @@ impl CSRs {
 
     fn smask(&self) -> u64 {
         match *self.isa {
-            Isa::Rv32 => 0b10000000000011010111100100110011,
-            Isa::Rv64 => 0b100000000000000000000000000001100000000000011010111100100110011,
+            Isa::Rv32 => 0b10000000000011011110000100110011,
+            Isa::Rv64 => 0b1000000000000000000000000000001100000000000011011110000100110011,
         }
     }
 
     fn mmask(&self) -> u64 {
         match *self.isa {
             Isa::Rv32 => 0b10000000011111111111100110111011,
-            Isa::Rv64 => 0b100000000000000000000000000111100000000011111111111100110111011,
+            Isa::Rv64 => 0b1000000000000000000000000000111100000000011111111111100110111011,
         }
     }
 
-- 
2.43.0


From cf2f92416a9834096439e4918f1cdb530df9b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 28/71] fix: a vectored trap jumps to base + 4 * its own cause,
 and only for interrupts

---
 src/cpu/trap.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 7bb99b3..c646bce 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -145,6 +145,18 @@ impl Cpu {
         }
     }
 
+    // only interrupts are vectored; xtvec[1:0] is the mode, not a part of the address
+    fn trap_vector(tvec: u64, cause_of_trap: TrapCause) -> u64 {
+        const INTERRUPT_BIT: u32 = 1 << 31;
+        let base = tvec & !0b11;
+        let cause = cause_of_trap as u32;
+        if tvec & 0b11 == 1 && cause & INTERRUPT_BIT != 0 {
+            base + 4 * (cause & !INTERRUPT_BIT) as u64
+        } else {
+            base
+        }
+    }
+
     pub fn trap(&mut self, tval_addr: u64, cause_of_trap: TrapCause) {
         let prev_priv = self.priv_lv();
 
@@ -154,7 +166,6 @@ impl Cpu {
             && (deleg & 1 << cause_of_trap as u32) != 0
         {
             self.set_priv_lv(PrivilegedLevel::Supervisor);
-            let scause = self.csrs.read(CSRname::scause.wrap()).unwrap();
 
             log::infoln!("delegated");
             self.csrs
@@ -191,14 +202,9 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Supervisor, Xstatus::SPP, prev_priv as u64); // set prev_priv to SPP
 
             let stvec = self.csrs.read(CSRname::stvec.wrap()).unwrap();
-            if stvec & 0b1 == 1 {
-                (stvec - 1) + 4 * scause.trailing_zeros() as u64
-            } else {
-                stvec
-            }
+            Self::trap_vector(stvec, cause_of_trap)
         } else {
             self.set_priv_lv(PrivilegedLevel::Machine);
-            let mcause = self.csrs.read(CSRname::mcause.wrap()).unwrap();
 
             self.csrs
                 .write(
@@ -234,11 +240,7 @@ impl Cpu {
                 .write_xstatus(PrivilegedLevel::Machine, Xstatus::MPP, prev_priv as u64); // set prev_priv to MPP
 
             let mtvec = self.csrs.read(CSRname::mtvec.wrap()).unwrap();
-            if mtvec & 0b1 == 1 {
-                (mtvec - 1) + 4 * mcause.trailing_zeros() as u64
-            } else {
-                mtvec
-            }
+            Self::trap_vector(mtvec, cause_of_trap)
         };
 
         self.update_pc(new_pc);
-- 
2.43.0


From d2350eeef30431ceee179806a4d6bb0ec9b554e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 29/71] fix: taking an interrupt leaves it pending

---
 src/cpu/trap.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index c646bce..80f6a45 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -63,8 +63,6 @@ impl Cpu {
         let is_interrupt_enabled = |bit: u64| (enabled_interrupt_mask & (1 << bit)) != 0;
 
         if is_interrupt_enabled(MEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::MachineExternalInterrupt,
@@ -72,7 +70,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineSoftwareInterrupt,
@@ -80,8 +77,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(MTIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << MTIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::MachineTimerInterrupt,
@@ -89,8 +84,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SEIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SEIP).unwrap();
-            self.bus.plic.mip_value = 0;
             return Err((
                 Some(0),
                 TrapCause::SupervisorExternalInterrupt,
@@ -98,7 +91,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(SSIP) {
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << SSIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorSoftwareInterrupt,
@@ -106,8 +98,6 @@ impl Cpu {
             ));
         }
         if is_interrupt_enabled(STIP) {
-            // TODO: bit clear when mtimecmp written
-            self.csrs.bitclr(CSRname::mip.wrap(), 1 << STIP).unwrap();
             return Err((
                 Some(0),
                 TrapCause::SupervisorTimerInterrupt,
-- 
2.43.0


From d947751fa9ecd1affcea85815399d08158a82151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 30/71] fix: an access just past the end of a device is an
 access fault, not a host panic

---
 src/bus/clint.rs | 4 ++--
 src/bus/dram.rs  | 2 +-
 src/bus/mrom.rs  | 4 +++-
 src/bus/plic.rs  | 2 +-
 src/bus/uart.rs  | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 152a4aa..1a12027 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -16,7 +16,7 @@ impl Default for Clint {
 impl Clint {
     #[allow(arithmetic_overflow)]
     pub fn new() -> Self {
-        const CLINT_SIZE: usize = 0xFFFF;
+        const CLINT_SIZE: usize = 0x10000;
 
         Clint {
             clint: vec![0; CLINT_SIZE],
@@ -30,7 +30,7 @@ impl Clint {
 impl Device for Clint {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/dram.rs b/src/bus/dram.rs
index 4328fad..0d1477a 100644
--- a/src/bus/dram.rs
+++ b/src/bus/dram.rs
@@ -81,7 +81,7 @@ impl Dram {
 impl Device for Dram {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index e655374..0df42a6 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -41,6 +41,8 @@ impl Mrom {
     }
 
     pub fn set_size(&mut self) {
+        // an aligned access never reaches past the end
+        self.mrom.resize((self.mrom.len() + 7) / 8 * 8, 0);
         self.size = self.mrom.len();
     }
 }
@@ -49,7 +51,7 @@ impl Mrom {
 impl Device for Mrom {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 2ee8439..709c729 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -261,7 +261,7 @@ impl Plic {
 impl Device for Plic {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 8f6aa23..3668207 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -253,7 +253,7 @@ impl Uart {
 impl Device for Uart {
     // is addr in device address space
     fn in_range(&self, addr: u64) -> bool {
-        (self.base_addr..=self.base_addr + self.size as u64).contains(&addr)
+        (self.base_addr..self.base_addr + self.size as u64).contains(&addr)
     }
 
     // address to raw index
-- 
2.43.0


From 3b50082a713c41bc7d6de93983adb115dbea484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 31/71] fix: an access a device does not support is an access
 fault, not a page fault

---
 src/bus/clint.rs | 14 +++++++-------
 src/bus/mrom.rs  |  8 ++++----
 src/bus/uart.rs  | 16 ++++++++--------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 1a12027..726ae66 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -42,7 +42,7 @@ impl Device for Clint {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store8".to_string(),
         ))
     }
@@ -50,7 +50,7 @@ impl Device for Clint {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "clint only allows load/store32 but try store16".to_string(),
         ))
     }
@@ -81,7 +81,7 @@ impl Device for Clint {
     fn load8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load8".to_string(),
         ))
     }
@@ -89,7 +89,7 @@ impl Device for Clint {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load16".to_string(),
         ))
     }
@@ -116,7 +116,7 @@ impl Device for Clint {
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u8".to_string(),
         ))
     }
@@ -124,7 +124,7 @@ impl Device for Clint {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u16".to_string(),
         ))
     }
@@ -132,7 +132,7 @@ impl Device for Clint {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "clint only allows load/store32 but try load_u32".to_string(),
         ))
     }
diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index 0df42a6..0384989 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -63,7 +63,7 @@ impl Device for Mrom {
     fn store8(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -71,7 +71,7 @@ impl Device for Mrom {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -79,7 +79,7 @@ impl Device for Mrom {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
@@ -87,7 +87,7 @@ impl Device for Mrom {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             format!("mrom is read only: {addr:x}"),
         ))
     }
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 3668207..43c38ba 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -269,7 +269,7 @@ impl Device for Uart {
     fn store16(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store16".to_string(),
         ))
     }
@@ -277,7 +277,7 @@ impl Device for Uart {
     fn store32(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store32".to_string(),
         ))
     }
@@ -285,7 +285,7 @@ impl Device for Uart {
     fn store64(&mut self, addr: u64, _data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::StoreAMOPageFault,
+            TrapCause::StoreAMOAccessFault,
             "uart only allows load/store8 but try store64".to_string(),
         ))
     }
@@ -298,7 +298,7 @@ impl Device for Uart {
     fn load16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load16".to_string(),
         ))
     }
@@ -306,7 +306,7 @@ impl Device for Uart {
     fn load32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load32".to_string(),
         ))
     }
@@ -314,7 +314,7 @@ impl Device for Uart {
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load64".to_string(),
         ))
     }
@@ -327,7 +327,7 @@ impl Device for Uart {
     fn load_u16(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u16".to_string(),
         ))
     }
@@ -335,7 +335,7 @@ impl Device for Uart {
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         Err((
             Some(addr),
-            TrapCause::LoadPageFault,
+            TrapCause::LoadAccessFault,
             "uart only allows load/store8 but try load_u32".to_string(),
         ))
     }
-- 
2.43.0


From 585f63467f7152bf11ea586455a8582ce8cdc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 32/71] fix: signed and unsigned device loads differ only in
 the extension

---
 src/bus.rs       |  9 +++++----
 src/bus/clint.rs | 10 +++++-----
 src/bus/plic.rs  |  6 +++---
 src/bus/uart.rs  |  2 +-
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/bus.rs b/src/bus.rs
index ff67479..9619800 100644
--- a/src/bus.rs
+++ b/src/bus.rs
@@ -212,7 +212,7 @@ impl Bus {
         }
     }
 
-    pub fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+    pub fn load_u8(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.mrom.in_range(addr) {
             self.mrom.load_u8(addr)
         } else if self.clint.in_range(addr) {
@@ -220,7 +220,8 @@ impl Bus {
         } else if self.dram.in_range(addr) {
             self.dram.load_u8(addr)
         } else if self.uart.in_range(addr) {
-            self.uart.load_u8(addr)
+            let data = self.uart.load8_with_plic(addr, &mut self.plic)?;
+            Ok(data & 0xff)
         } else if self.plic.in_range(addr) {
             self.plic.load_u8(addr)
         } else {
@@ -252,7 +253,7 @@ impl Bus {
         }
     }
 
-    pub fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
+    pub fn load_u32(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
         if self.mrom.in_range(addr) {
             self.mrom.load_u32(addr)
         } else if self.clint.in_range(addr) {
@@ -262,7 +263,7 @@ impl Bus {
         } else if self.uart.in_range(addr) {
             self.uart.load_u32(addr)
         } else if self.plic.in_range(addr) {
-            self.plic.load_u32(addr)
+            self.plic.load32(addr).map(|data| data & 0xffff_ffff)
         } else {
             Err((
                 Some(addr),
diff --git a/src/bus/clint.rs b/src/bus/clint.rs
index 726ae66..51d93c8 100644
--- a/src/bus/clint.rs
+++ b/src/bus/clint.rs
@@ -130,10 +130,10 @@ impl Device for Clint {
     }
 
     fn load_u32(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        Err((
-            Some(addr),
-            TrapCause::LoadAccessFault,
-            "clint only allows load/store32 but try load_u32".to_string(),
-        ))
+        let addr = self.addr2index(addr);
+        Ok((self.clint[addr + 3] as u64) << 24
+            | (self.clint[addr + 2] as u64) << 16
+            | (self.clint[addr + 1] as u64) << 8
+            | (self.clint[addr + 0] as u64))
     }
 }
diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 709c729..0090196 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -356,12 +356,12 @@ impl Device for Plic {
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
         let addr = self.addr2index(addr);
         match addr {
-            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as u64),
+            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as i32 as i64 as u64),
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
                 let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
                 let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as u64)
+                    Ok(self.context_enable_read(cntx, addr) as i32 as i64 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
@@ -374,7 +374,7 @@ impl Device for Plic {
                 let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
                 let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_read(cntx, addr) as u64)
+                    Ok(self.context_read(cntx, addr) as i32 as i64 as u64)
                 } else {
                     Err((
                         Some(addr as u64),
diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 43c38ba..2746244 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -155,7 +155,7 @@ impl Uart {
                 };
                 self.update_interrupt(plic);
 
-                Ok(data as u64)
+                Ok(data as i8 as i64 as u64)
             }
             IER => {
                 if self.uart[UartRegister::LCR as usize] & LcrMask::DLAB as u8 != 0 {
-- 
2.43.0


From 29db87a731393af5d49674a3ef55a499ae3e7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 33/71] fix: reserved PLIC context registers read zero and
 ignore writes instead of aborting

---
 src/bus/plic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 0090196..0c454d8 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -197,7 +197,7 @@ impl Plic {
         match offset {
             CONTEXT_THRESHOLD => self.contexts[context_id].priority_thresould as u32,
             CONTEXT_CLAIM => self.context_claim(context_id),
-            _ => unreachable!(),
+            _ => 0,
         }
     }
 
@@ -220,7 +220,7 @@ impl Plic {
                     self.context_update(context_id);
                 }
             }
-            _ => unreachable!("offset: {:#x}", offset),
+            _ => (),
         }
     }
 
-- 
2.43.0


From 93eeb0a88490c7164992265689a2185aaf2fd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 34/71] fix: 64-bit PLIC accesses carry both 32-bit registers

---
 src/bus/plic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 0c454d8..e425f96 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -329,8 +329,8 @@ impl Device for Plic {
     }
 
     fn store64(&mut self, addr: u64, data: u64) -> Result<(), (Option<u64>, TrapCause, String)> {
-        self.store32(addr, data & 0xffff)?;
-        self.store32(addr + 4, data >> 32 & 0xffff)
+        self.store32(addr, data & 0xffff_ffff)?;
+        self.store32(addr + 4, data >> 32)
     }
 
     // load
@@ -388,8 +388,9 @@ impl Device for Plic {
     }
 
     fn load64(&mut self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-        self.load32(addr)?;
-        self.load32(addr + 4)
+        let lower = self.load32(addr)? & 0xffff_ffff;
+        let upper = self.load32(addr + 4)?;
+        Ok(upper << 32 | lower)
     }
 
     fn load_u8(&self, addr: u64) -> Result<u64, (Option<u64>, TrapCause, String)> {
-- 
2.43.0


From ec33e6c3877c09799e7a04ae87a0584410eb4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 35/71] fix: updating one PLIC context leaves the pending bit
 of the other alone

---
 src/bus/plic.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index e425f96..d9a64a5 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -104,20 +104,17 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
-        self.mip_mask = match self.contexts[context_id].context_priv {
+        let context_mask = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
-        self.mip_value = if best_id == 0 {
-            0
+        self.mip_mask |= context_mask;
+        if best_id == 0 {
+            self.mip_value &= !context_mask;
         } else {
-            match self.contexts[context_id].context_priv {
-                PrivilegedLevel::Machine => MIP_MEIP_MASK,
-                PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
-                _ => unreachable!(),
-            }
-        };
+            self.mip_value |= context_mask;
+        }
     }
 
     fn context_claim(&mut self, context_id: usize) -> u32 {
-- 
2.43.0


From 4316174814259704f9c01cbc7bedb1891f00736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 36/71] fix: the PLIC obeys current priorities and the
 threshold

---
 src/bus/plic.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index d9a64a5..29e0bcf 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -21,7 +21,6 @@ pub struct PlicContext {
     priority_thresould: u8,
     enable: Vec<u32>,
     pending: Vec<u32>,
-    pending_priority: Vec<u8>,
     claimed: Vec<u32>,
     context_priv: PrivilegedLevel,
 }
@@ -32,7 +31,6 @@ impl PlicContext {
             priority_thresould: 0,
             enable: vec![0; PLIC_MAX_DEVICES / 32],
             pending: vec![0; PLIC_MAX_DEVICES / 32],
-            pending_priority: vec![0; PLIC_MAX_DEVICES],
             claimed: vec![0; PLIC_MAX_DEVICES / 32],
             context_priv,
         }
@@ -89,10 +87,10 @@ impl Plic {
                     continue;
                 }
 
-                if (best_id == 0) || (best_id_prio < self.contexts[context_id].pending_priority[id])
-                {
+                // priority 0 means never interrupt
+                if best_id_prio < self.priority[id] {
                     best_id = id as u32;
-                    best_id_prio = self.contexts[context_id].pending_priority[id];
+                    best_id_prio = self.priority[id];
                 }
             }
         }
@@ -104,13 +102,14 @@ impl Plic {
         const MIP_MEIP_MASK: u64 = 1 << 11;
         const MIP_SEIP_MASK: u64 = 1 << 9;
         let best_id = self.context_best_pending(context_id);
+        let threshold = self.contexts[context_id].priority_thresould;
         let context_mask = match self.contexts[context_id].context_priv {
             PrivilegedLevel::Machine => MIP_MEIP_MASK,
             PrivilegedLevel::Supervisor => MIP_SEIP_MASK,
             _ => unreachable!(),
         };
         self.mip_mask |= context_mask;
-        if best_id == 0 {
+        if best_id == 0 || self.priority[best_id as usize] <= threshold {
             self.mip_value &= !context_mask;
         } else {
             self.mip_value |= context_mask;
@@ -144,6 +143,9 @@ impl Plic {
         let id = offset >> 2;
         if id > 0 && id < NUM_IDS {
             self.priority[id] = (val & PLIC_PRIO_MASK) as u8;
+            for c in 0..CONTEXT_NUM {
+                self.context_update(c);
+            }
         }
     }
 
@@ -169,9 +171,7 @@ impl Plic {
         self.contexts[context_id].enable[id_word] = new_val;
 
         for i in 0..32 {
-            let id = id_word * 32 + i;
             let id_mask = 1 << i;
-            let id_prio = self.priority[id];
 
             if xor_val & id_mask == 0 {
                 continue;
@@ -179,10 +179,8 @@ impl Plic {
 
             if new_val & id_mask != 0 && self.level[id_word] & id_mask != 0 {
                 self.contexts[context_id].pending[id_word] |= id_mask;
-                self.contexts[context_id].pending_priority[id] = id_prio;
             } else if new_val & id_mask == 0 {
                 self.contexts[context_id].pending[id_word] &= !id_mask;
-                self.contexts[context_id].pending_priority[id] = 0;
                 self.contexts[context_id].claimed[id_word] &= !id_mask;
             }
         }
@@ -226,7 +224,6 @@ impl Plic {
             return;
         }
 
-        let id_prio = self.priority[id as usize];
         let id_word = (id / 32) as usize;
         let id_mask = 1 << (id % 32);
 
@@ -240,10 +237,8 @@ impl Plic {
             if self.contexts[c].enable[id_word] & id_mask != 0 {
                 if level != 0 {
                     self.contexts[c].pending[id_word] |= id_mask;
-                    self.contexts[c].pending_priority[id as usize] = id_prio;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].pending_priority[id as usize] = 0;
                     self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
-- 
2.43.0


From 02b9e06c77788724ffcd2f7cd92b382fff4f4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 37/71] fix: a PLIC source reaches every context that enables
 it and stays claimed until completed

---
 src/bus/plic.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index 29e0bcf..e931d11 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -239,11 +239,9 @@ impl Plic {
                     self.contexts[c].pending[id_word] |= id_mask;
                 } else {
                     self.contexts[c].pending[id_word] &= !id_mask;
-                    self.contexts[c].claimed[id_word] &= !id_mask;
                 }
 
                 self.context_update(c);
-                break;
             }
         }
     }
-- 
2.43.0


From e77cbabb5b80de3754322be97b8db7763feee1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 38/71] fix: transmitting writes exactly the low byte to the
 console and never aborts on other data

---
 src/bus/uart.rs    | 2 +-
 src/bus/uart/io.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 2746244..22096d4 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -199,7 +199,7 @@ impl Uart {
                     return Ok(());
                 }
 
-                self.tx_byte(char::from_u32(data as u32).unwrap())
+                self.tx_byte(data as u8)
             }
             IER => {
                 if self.uart[LCR] & LcrMask::DLAB as u8 == 0 {
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index ece61f3..5606ee4 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -62,9 +62,10 @@ impl Uart {
         front
     }
 
-    pub fn tx_byte(&mut self, data: char) {
+    pub fn tx_byte(&mut self, data: u8) {
         self.uart[UartRegister::LSR as usize] |= (LsrMask::TEMT as u8) | (LsrMask::THRE as u8);
-        print!("{}", char::from_u32(data as u32).unwrap());
-        io::stdout().flush().expect("stdout flush failed");
+        let mut stdout = io::stdout();
+        stdout.write_all(&[data]).expect("stdout write failed");
+        stdout.flush().expect("stdout flush failed");
     }
 }
-- 
2.43.0


From 284e7f8803e4fea8d75668ef2220160e3e3d9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 39/71] fix: console input reaches the guest byte by byte

---
 src/bus/uart.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 22096d4..cb0b1d9 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -236,9 +236,7 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                for c in input.chars() {
-                    self.rx_queue.push_back(c as u8);
-                }
+                self.rx_queue.extend(input.bytes());
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
             }
-- 
2.43.0


From c79dabc3bdd724d2b9216b4817a97ed08e0514b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 40/71] fix: the FIFO reset bits are those of FCR, not of LCR,
 and a pending interrupt does not stop reception

---
 src/bus/uart.rs    |  4 ++--
 src/bus/uart/io.rs | 23 ++++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index cb0b1d9..1775393 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -208,6 +208,7 @@ impl Uart {
                     self.dlm = data as u8;
                 }
             }
+            FCR => self.write_fcr(data as u8),
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
@@ -220,8 +221,7 @@ impl Uart {
     }
 
     pub fn tick(&mut self, plic: &mut Plic) {
-        if (self.uart[UartRegister::IIR_FCR as usize] & FcrMask::ENABLE_FIFO as u8 == 0)
-            || (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
+        if (self.uart[UartRegister::MCR as usize] & McrMask::LOOP as u8 != 0)
             || (UART_QUEUE_SIZE <= self.rx_queue.len())
         {
             return;
diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 5606ee4..6eb919d 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -7,17 +7,6 @@ impl Uart {
     pub fn update_interrupt(&mut self, plic: &mut Plic) {
         const UART_INTERRUPT_ID: u32 = 1;
         let mut interrupts = 0;
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_RCVR as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_RCVR as u8);
-            self.rx_queue.clear();
-            self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
-        }
-
-        if self.uart[UartRegister::LCR as usize] & FcrMask::CLEAR_XMIT as u8 != 0 {
-            self.uart[UartRegister::LCR as usize] &= !(FcrMask::CLEAR_XMIT as u8);
-            self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
-        }
-
         if self.uart[UartRegister::IER as usize] & IerMask::RDI as u8 != 0
             && self.uart[UartRegister::LSR as usize] & LsrMask::DR as u8 != 0
         {
@@ -43,6 +32,18 @@ impl Uart {
         }
     }
 
+    // the FIFO reset bits clear themselves, and FCR shares its offset but no storage with IIR
+    pub fn write_fcr(&mut self, data: u8) {
+        if data & FcrMask::CLEAR_RCVR as u8 != 0 {
+            self.rx_queue.clear();
+            self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
+        }
+
+        if data & FcrMask::CLEAR_XMIT as u8 != 0 {
+            self.uart[UartRegister::LSR as usize] |= LsrMask::TEMT as u8 | LsrMask::THRE as u8;
+        }
+    }
+
     pub fn rx_byte(&mut self) -> u8 {
         if self.rx_queue.is_empty() {
             self.uart[UartRegister::LSR as usize] &= !(LsrMask::DR as u8);
-- 
2.43.0


From 5e574663f2f405b564cd36ba384d99bc0d062d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 41/71] fix: the UART status registers are read only

---
 src/bus/uart.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 1775393..7367603 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -180,6 +180,8 @@ impl Uart {
         const FCR: usize = UartRegister::IIR_FCR as usize;
         const LCR: usize = UartRegister::LCR as usize;
         const MCR: usize = UartRegister::MCR as usize;
+        const LSR: usize = UartRegister::LSR as usize;
+        const MSR: usize = UartRegister::MSR as usize;
         let index = self.addr2index(addr);
 
         match index {
@@ -209,6 +211,7 @@ impl Uart {
                 }
             }
             FCR => self.write_fcr(data as u8),
+            LSR | MSR => (), // read only
             _ => self.uart[index] = (data & 0xFF) as u8,
         }
 
-- 
2.43.0


From 4e8308e4ef728607a42f8a2230ef10290abae720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 42/71] fix: IIR reports the highest-priority interrupt, not a
 mixture of codes

---
 src/bus/uart/io.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bus/uart/io.rs b/src/bus/uart/io.rs
index 6eb919d..bdb870f 100644
--- a/src/bus/uart/io.rs
+++ b/src/bus/uart/io.rs
@@ -10,13 +10,11 @@ impl Uart {
         if self.uart[UartRegister::IER as usize] & IerMask::RDI as u8 != 0
             && self.uart[UartRegister::LSR as usize] & LsrMask::DR as u8 != 0
         {
-            interrupts |= IirMask::RDI as u8;
-        }
-
-        if self.uart[UartRegister::IER as usize] & IerMask::THRI as u8 != 0
+            interrupts = IirMask::RDI as u8;
+        } else if self.uart[UartRegister::IER as usize] & IerMask::THRI as u8 != 0
             && self.uart[UartRegister::LSR as usize] & LsrMask::TEMT as u8 != 0
         {
-            interrupts |= IirMask::THRI as u8;
+            interrupts = IirMask::THRI as u8;
         }
 
         if interrupts == 0 {
-- 
2.43.0


From 5c60bd10fa69bad4506347df95e4f0c7d1cc7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 43/71] fix: the end of console input is not delivered as data
 for ever

---
 src/bus/uart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index 7367603..dcd679c 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -120,7 +120,9 @@ impl Uart {
         let (tx, rx) = mpsc::channel::<String>();
         std::thread::spawn(move || loop {
             let mut buffer = String::new();
-            std::io::stdin().read_line(&mut buffer).unwrap();
+            if std::io::stdin().read_line(&mut buffer).unwrap() == 0 {
+                break; // end of input
+            }
             tx.send(buffer).unwrap();
         });
 
-- 
2.43.0


From 3e29e58d3410596dd4691fc19ca676683ee181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 44/71] fix: a non-canonical Sv39 address is a page fault

---
 src/cpu/mmu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index 222b1a1..d2366d6 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -166,6 +166,13 @@ impl Mmu {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
                 AddrTransMode::Bare => Ok(addr),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
+                    // Sv39: bits 63-39 must equal bit 38
+                    if let Isa::Rv64 = *self.isa {
+                        if (addr as i64) << 25 >> 25 != addr as i64 {
+                            return Err(self.trap_cause(purpose));
+                        }
+                    }
+
                     let page_off = addr & 0xFFF;
                     let mut ppn = self.ppn;
                     let vpn = match *self.isa {
-- 
2.43.0


From 3badb423c22b0c37ccaee7b7f63517b40d706dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 45/71] fix: a page table outside memory is an access fault,
 not a host panic

---
 src/cpu/mmu.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index d2366d6..e37bbcf 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -78,6 +78,14 @@ impl Mmu {
         }
     }
 
+    fn access_fault(&self, purpose: TransFor) -> TrapCause {
+        match purpose {
+            TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+            TransFor::Load => TrapCause::LoadAccessFault,
+            TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
+        }
+    }
+
     fn check_leaf_pte(
         &self,
         purpose: TransFor,
@@ -193,6 +201,9 @@ impl Mmu {
                     let pte = loop {
                         let pte_addr = ppn * PAGESIZE + vpn[level as usize] * pte_size;
                         log::debugln!("pte_addr({}): 0x{:x}", level, pte_addr);
+                        if !dram.in_range(pte_addr) {
+                            return Err(self.access_fault(purpose));
+                        }
                         let pte =
                             match *self.isa {
                                 Isa::Rv32 => self
@@ -212,7 +223,7 @@ impl Mmu {
                         }
 
                         ppn = match *self.isa {
-                            Isa::Rv32 => pte >> 10 & 0x3fff_ffff,
+                            Isa::Rv32 => pte >> 10 & 0x3f_ffff,
                             Isa::Rv64 => pte >> 10 & 0xfff_ffff_ffff,
                         };
                         log::debugln!("PPN{}: 0x{:x}", level, ppn);
-- 
2.43.0


From fdc31e967b865fe9d65f6c0aa30bc099323c32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 46/71] fix: supervisor mode cannot execute user pages

---
 src/cpu/mmu.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index e37bbcf..f1e7f68 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -121,6 +121,12 @@ impl Mmu {
                     log::debugln!("invalid pte_x: {:x}", pte);
                     return Err(TrapCause::InstPageFault);
                 }
+
+                // supervisor mode never executes user pages, whatever SUM is
+                if pte_u == 1 && priv_lv == PrivilegedLevel::Supervisor {
+                    log::debugln!("invalid pte_u: {:x}", pte);
+                    return Err(TrapCause::InstPageFault);
+                }
             }
             TransFor::Load => {
                 // check sum bit
-- 
2.43.0


From 23160e5160586be4d00dbba0743ac54b4ac0c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 47/71] fix: an Sv32 physical address keeps all 34 bits

---
 src/cpu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu.rs b/src/cpu.rs
index 1c7ce89..9b44351 100644
--- a/src/cpu.rs
+++ b/src/cpu.rs
@@ -153,7 +153,7 @@ impl Cpu {
         {
             Ok(vaddr) => {
                 if addr % align as u64 == 0 {
-                    Ok(vaddr.fix2regsz(&self.isa))
+                    Ok(vaddr)
                 } else {
                     let cause = match purpose {
                         TransFor::Fetch | TransFor::Deleg => TrapCause::InstAddrMisaligned,
-- 
2.43.0


From 12bfa565a366afe4a4261158942941b9499a427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 48/71] fix: each of the 16 PMP entries is configured by its
 own byte of pmpcfg

---
 src/cpu/mmu/pmp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index c91331b..46e6651 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -1,7 +1,7 @@
 use super::Mmu;
 use crate::cpu::csr::CSRs;
 use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
-use crate::log;
+use crate::{log, Isa};
 
 impl Mmu {
     fn check_pmp(
@@ -44,11 +44,14 @@ impl Mmu {
         priv_lv: PrivilegedLevel,
         csrs: &CSRs,
     ) -> Result<u64, TrapCause> {
-        let pmpaddrs: Vec<usize> = (0x3B0..0x3BF).collect();
+        let pmpaddrs: Vec<usize> = (0x3B0..=0x3BF).collect();
         let get_pmpcfg = |pmpnum| {
-            let cfgnum = pmpnum / 4;
-            let cfgoff = pmpnum % 4;
-            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (4 * cfgoff)
+            let (cfgnum, cfgoff) = match *self.isa {
+                Isa::Rv32 => (pmpnum / 4, pmpnum % 4),
+                // RV64 has only the even numbered pmpcfg registers
+                Isa::Rv64 => (pmpnum / 8 * 2, pmpnum % 8),
+            };
+            csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff) & 0xff
         };
 
         for index in 0..pmpaddrs.len() {
-- 
2.43.0


From 1d4aa57a50d9524187c43fbc4c943bba3f38a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 49/71] fix: a disabled PMP entry is skipped and does not
 disable the entries after it

---
 src/cpu/mmu/pmp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 46e6651..5ec45d2 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -54,6 +54,7 @@ impl Mmu {
             csrs.read(Some(0x3A0 + cfgnum)).unwrap() >> (8 * cfgoff) & 0xff
         };
 
+        let mut any_active = false;
         for index in 0..pmpaddrs.len() {
             // pmpaddr0 ~ pmpaddr15
             let pmpcfg = get_pmpcfg(index);
@@ -61,8 +62,9 @@ impl Mmu {
             let pmp_w = pmpcfg >> 1 & 0x1;
             let pmp_x = pmpcfg >> 2 & 0x1;
             let pmp_a = pmpcfg >> 3 & 0x3;
+            any_active |= pmp_a != 0b00;
             match pmp_a {
-                0b00 => return Ok(addr),
+                0b00 => continue,
                 0b01 => {
                     // TOR
                     let addr_aligned = addr >> 2; // addr[:2]
@@ -100,7 +102,8 @@ impl Mmu {
             }
         }
 
-        if priv_lv == PrivilegedLevel::Machine {
+        // nothing is protected before the first entry is configured
+        if priv_lv == PrivilegedLevel::Machine || !any_active {
             Ok(addr)
         } else {
             Err(match purpose {
-- 
2.43.0


From 50860385bb6abde9cfadd22da9de8853c8b68a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 50/71] fix: an access PMP denies is an access fault, not a
 page fault

---
 src/cpu/mmu/pmp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 5ec45d2..52cd42d 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -17,19 +17,19 @@ impl Mmu {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
                     log::debugln!("invalid pmp_x: {:x}", pmpcfg);
-                    return Err(TrapCause::InstPageFault);
+                    return Err(TrapCause::InstAccessFault);
                 }
             }
             TransFor::Load => {
                 if pmp_r != 1 {
                     log::debugln!("invalid pmp_r: {:x}", pmpcfg);
-                    return Err(TrapCause::LoadPageFault);
+                    return Err(TrapCause::LoadAccessFault);
                 }
             }
             TransFor::StoreAMO => {
                 if pmp_w != 1 {
                     log::debugln!("invalid pmp_w: {:x}", pmpcfg);
-                    return Err(TrapCause::StoreAMOPageFault);
+                    return Err(TrapCause::StoreAMOAccessFault);
                 }
             }
         }
@@ -107,9 +107,9 @@ impl Mmu {
             Ok(addr)
         } else {
             Err(match purpose {
-                TransFor::Fetch | TransFor::Deleg => TrapCause::InstPageFault,
-                TransFor::Load => TrapCause::LoadPageFault,
-                TransFor::StoreAMO => TrapCause::StoreAMOPageFault,
+                TransFor::Fetch | TransFor::Deleg => TrapCause::InstAccessFault,
+                TransFor::Load => TrapCause::LoadAccessFault,
+                TransFor::StoreAMO => TrapCause::StoreAMOAccessFault,
             })
         }
     }
-- 
2.43.0


From 3c56c08f97f4440fe6cef8277e0e74c0add67f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 51/71] fix: only locked PMP entries restrict machine mode

---
 src/cpu/mmu/pmp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cpu/mmu/pmp.rs b/src/cpu/mmu/pmp.rs
index 52cd42d..0f82dee 100644
--- a/src/cpu/mmu/pmp.rs
+++ b/src/cpu/mmu/pmp.rs
@@ -4,15 +4,22 @@ use crate::cpu::{PrivilegedLevel, TransFor, TrapCause};
 use crate::{log, Isa};
 
 impl Mmu {
+    #[allow(clippy::too_many_arguments)]
     fn check_pmp(
         &self,
         purpose: TransFor,
         addr: u64,
+        priv_lv: PrivilegedLevel,
         pmpcfg: u64,
         pmp_r: u64,
         pmp_w: u64,
         pmp_x: u64,
     ) -> Result<u64, TrapCause> {
+        // only locked entries apply to machine mode
+        if priv_lv == PrivilegedLevel::Machine && pmpcfg >> 7 & 0x1 == 0 {
+            return Ok(addr);
+        }
+
         match purpose {
             TransFor::Fetch | TransFor::Deleg => {
                 if pmp_x != 1 {
@@ -73,14 +80,14 @@ impl Mmu {
                             && csrs.read(Some(pmpaddrs[index - 1])).unwrap() <= addr_aligned
                             && addr_aligned < csrs.read(Some(pmpaddrs[index])).unwrap())
                     {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 0b10 => {
                     // NA4
                     let addr_aligned = addr >> 2; // addr[:2]
                     if addr_aligned == csrs.read(Some(pmpaddrs[index])).unwrap() {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 0b11 => {
@@ -95,7 +102,7 @@ impl Mmu {
                     addr_aligned >>= 1;
 
                     if addr_aligned == pmpaddr {
-                        return self.check_pmp(purpose, addr, pmpcfg, pmp_r, pmp_w, pmp_x);
+                        return self.check_pmp(purpose, addr, priv_lv, pmpcfg, pmp_r, pmp_w, pmp_x);
                     }
                 }
                 _ => panic!("pmp_a does not matched"),
-- 
2.43.0


From a3c34a7016a4abcd19050220bf3b315dad075586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 52/71] fix: PMP protects memory whether or not paging is on

---
 src/cpu/mmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/mmu.rs b/src/cpu/mmu.rs
index f1e7f68..09274e3 100644
--- a/src/cpu/mmu.rs
+++ b/src/cpu/mmu.rs
@@ -178,7 +178,7 @@ impl Mmu {
 
         match priv_lv {
             PrivilegedLevel::Supervisor | PrivilegedLevel::User => match self.trans_mode {
-                AddrTransMode::Bare => Ok(addr),
+                AddrTransMode::Bare => self.pmp(purpose, addr, priv_lv, csrs),
                 AddrTransMode::Sv32 | AddrTransMode::Sv39 => {
                     // Sv39: bits 63-39 must equal bit 38
                     if let Isa::Rv64 = *self.isa {
-- 
2.43.0


From 0f8b4eb9f0920036eb1ffb56f709f3103bae8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 53/71] fix: ELF64 p_memsz and p_align are read from their own
 offsets, and a dump stops at the file contents

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_64/program_header.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 1266692..8a9466b 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -65,7 +65,7 @@ impl ProgramHeader for ProgramHeader32 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
+        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_filesz)
             .step_by(4)
             .enumerate()
         {
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c1e6753..c365b68 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -42,8 +42,8 @@ impl ProgramHeader64 {
                 p_vaddr: get_u64(mmap, segment_start + 16),
                 p_paddr: get_u64(mmap, segment_start + 24),
                 p_filesz: get_u64(mmap, segment_start + 32),
-                p_memsz: get_u64(mmap, segment_start + 48),
-                p_align: get_u64(mmap, segment_start + 56),
+                p_memsz: get_u64(mmap, segment_start + 40),
+                p_align: get_u64(mmap, segment_start + 48),
             }));
         }
 
@@ -65,7 +65,7 @@ impl ProgramHeader for ProgramHeader64 {
     }
 
     fn dump(&self, mmap: &[u8]) {
-        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_memsz)
+        for (block, dump_part) in (self.p_offset..self.p_offset + self.p_filesz)
             .step_by(4)
             .enumerate()
         {
-- 
2.43.0


From 80cb2f50f145d7969c9be17bd2e97d18a7b69af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 54/71] fix: ELF32 sh_entsize is read from its own offset

---
 src/elfload/elf_32/section_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index 3620bff..c69a7fc 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -36,7 +36,7 @@ impl SectionHeader32 {
                 sh_link: get_u32(mmap, section_head + 24),
                 sh_info: get_u32(mmap, section_head + 28),
                 sh_addralign: get_u32(mmap, section_head + 32),
-                sh_entsize: get_u32(mmap, section_head + 34),
+                sh_entsize: get_u32(mmap, section_head + 36),
             }));
         }
 
-- 
2.43.0


From 28ea26cf7dbc43e411caad91febc1de891e534e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 55/71] fix: header tables larger than 64 KiB are indexed
 without wrapping

---
 src/elfload/elf_32/program_header.rs | 2 +-
 src/elfload/elf_32/section_header.rs | 4 ++--
 src/elfload/elf_64/program_header.rs | 2 +-
 src/elfload/elf_64/section_header.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elfload/elf_32/program_header.rs b/src/elfload/elf_32/program_header.rs
index 8a9466b..4a5659d 100644
--- a/src/elfload/elf_32/program_header.rs
+++ b/src/elfload/elf_32/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader32 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u32) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u32 * segment_num as u32) as usize;
 
             new_prog.push(Box::new(ProgramHeader32 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_32/section_header.rs b/src/elfload/elf_32/section_header.rs
index c69a7fc..e689aa2 100644
--- a/src/elfload/elf_32/section_header.rs
+++ b/src/elfload/elf_32/section_header.rs
@@ -19,12 +19,12 @@ impl SectionHeader32 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader32) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u32;
+            elf_header.e_shoff + elf_header.e_shentsize as u32 * elf_header.e_shstrndx as u32;
         let name_table_off: usize = get_u32(mmap, (name_table as usize) + 16) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u32) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u32 * section_num as u32) as usize;
 
             new_sect.push(Box::new(SectionHeader32 {
                 sh_name: SectionHeader32::get_sh_name(mmap, section_head, name_table_off),
diff --git a/src/elfload/elf_64/program_header.rs b/src/elfload/elf_64/program_header.rs
index c365b68..58ae9d5 100644
--- a/src/elfload/elf_64/program_header.rs
+++ b/src/elfload/elf_64/program_header.rs
@@ -33,7 +33,7 @@ impl ProgramHeader64 {
 
         for segment_num in 0..elf_header.e_phnum {
             let segment_start: usize =
-                (elf_header.e_phoff + (elf_header.e_phentsize * segment_num) as u64) as usize;
+                (elf_header.e_phoff + elf_header.e_phentsize as u64 * segment_num as u64) as usize;
 
             new_prog.push(Box::new(ProgramHeader64 {
                 p_type: get_u32(mmap, segment_start),
diff --git a/src/elfload/elf_64/section_header.rs b/src/elfload/elf_64/section_header.rs
index c957e30..876a284 100644
--- a/src/elfload/elf_64/section_header.rs
+++ b/src/elfload/elf_64/section_header.rs
@@ -20,12 +20,12 @@ impl SectionHeader64 {
     pub fn new_sect(mmap: &[u8], elf_header: &ElfHeader64) -> Vec<Box<dyn SectionHeader>> {
         let mut new_sect: Vec<Box<dyn SectionHeader>> = Vec::new();
         let name_table =
-            elf_header.e_shoff + (elf_header.e_shentsize * elf_header.e_shstrndx) as u64;
+            elf_header.e_shoff + elf_header.e_shentsize as u64 * elf_header.e_shstrndx as u64;
         let name_table_off: usize = get_u64(mmap, (name_table as usize) + 24) as usize;
 
         for section_num in 0..elf_header.e_shnum {
             let section_head: usize =
-                (elf_header.e_shoff + (elf_header.e_shentsize * section_num) as u64) as usize;
+                (elf_header.e_shoff + elf_header.e_shentsize as u64 * section_num as u64) as usize;
 
             new_sect.push(Box::new(SectionHeader64 {
                 sh_name: Self::get_sh_name(mmap, section_head, name_table_off),
-- 
2.43.0


From 49e90206a9de08aacfa7c86479c439a3d6b53ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 56/71] fix: a file without the ELF magic is rejected before
 its headers are parsed

---
 src/elfload.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/elfload.rs b/src/elfload.rs
index 53197bd..c4f2fa7 100644
--- a/src/elfload.rs
+++ b/src/elfload.rs
@@ -116,6 +116,16 @@ impl ElfLoader {
     pub fn try_new(filename: &str) -> std::io::Result<ElfLoader> {
         let file = File::open(filename)?;
         let mapped_data = unsafe { Mmap::map(&file)? };
+
+        const ELF_MAGIC: [u8; 4] = [0x7f, 0x45, 0x4c, 0x46];
+        const ELF_HEADER_SIZE: usize = 52;
+        if mapped_data.len() < ELF_HEADER_SIZE || mapped_data[0..4] != ELF_MAGIC {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "not an ELF file",
+            ));
+        }
+
         let elf_ident = ElfIdentification::new(&mapped_data);
         match elf_ident.target_arch() {
             Isa::Rv32 => {
-- 
2.43.0


From 1ff7b068a9c3a23cccf07fc9129c338af1b357e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 57/71] fix: pwrite reports the error number like the other
 calls

---
 src/fesvr/syscall.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index e225cfb..b955862 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -138,7 +138,7 @@ impl FrontendServer {
             )
         };
 
-        wrote_len as i64
+        sysret_errno(wrote_len as i64)
     }
 
     pub fn fstatat(
-- 
2.43.0


From 7076b81528f43e6cce367fb4aea0f6fae218776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 58/71] fix: a failing fstat or fstatat leaves guest memory
 alone

---
 src/fesvr/syscall.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index b955862..8a7a734 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -186,7 +186,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret.into());
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
@@ -228,7 +228,7 @@ impl FrontendServer {
         };
 
         let ret = sysret_errno(ret as i64);
-        if ret != -1 {
+        if ret >= 0 {
             let rbuf = rbuf
                 .iter()
                 .flat_map(|w| w.to_le_bytes().to_vec())
-- 
2.43.0


From 2d9f64186afbdc5f5a846858267612b5ef4f4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 59/71] fix: stat: uid before gid, and st_blksize in the low
 half of its word

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 8a7a734..cc489cb 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -168,11 +168,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    buf.st_blksize as u32 as u64 | PADDING << 32,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
@@ -210,11 +210,11 @@ impl FrontendServer {
                     buf.st_dev,
                     buf.st_ino,
                     buf.st_nlink << 32 | buf.st_mode as u64,
-                    (buf.st_uid as u64) << 32 | buf.st_gid as u64,
+                    (buf.st_gid as u64) << 32 | buf.st_uid as u64,
                     buf.st_rdev,
                     PADDING,
                     buf.st_size as u64,
-                    (buf.st_blksize as u32 as u64) << 32 | PADDING,
+                    buf.st_blksize as u32 as u64 | PADDING << 32,
                     buf.st_blocks as u64,
                     buf.st_atime as u64,
                     PADDING,
-- 
2.43.0


From 8696f4b47a4f8fe35db7ca6ac50f87d1bb54465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 60/71] fix: openat and fstatat take a guest directory
 descriptor, not a host one

---
 src/fesvr.rs         | 9 +++++++++
 src/fesvr/syscall.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index b5c64ef..476d7bd 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -34,6 +34,15 @@ impl FrontendServer {
             self.fd_table[fd as usize].unwrap_or(u64::MAX) as i64
         }
     }
+
+    // a directory is a guest descriptor, or AT_FDCWD
+    pub fn dirfd_lookup(&self, dirfd: u64) -> i64 {
+        if dirfd as i32 == libc::AT_FDCWD {
+            libc::AT_FDCWD as i64
+        } else {
+            self.fd_lookup(dirfd)
+        }
+    }
 }
 
 impl Emulator {
diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index cc489cb..200b528 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -44,7 +44,7 @@ impl FrontendServer {
         let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
         let fd = sysret_errno(unsafe {
             libc::openat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 flags as i32,
                 mode as i32,
@@ -157,7 +157,7 @@ impl FrontendServer {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
             let ret = libc::fstatat(
-                dirfd as i32,
+                self.dirfd_lookup(dirfd) as i32,
                 name.as_ptr() as *const i8,
                 &mut buf as *mut libc::stat,
                 flags as i32,
-- 
2.43.0


From 85862d3eb91b7e9adb4834285e5b7439c8939475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 61/71] fix: a path that is not NUL-terminated UTF-8 neither
 aborts nor reads past its buffer

---
 src/fesvr/syscall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fesvr/syscall.rs b/src/fesvr/syscall.rs
index 200b528..a2d9b29 100644
--- a/src/fesvr/syscall.rs
+++ b/src/fesvr/syscall.rs
@@ -40,8 +40,8 @@ impl FrontendServer {
         mode: u64,
     ) -> i64 {
         log::infoln!("sys_openat(56)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let mut name: Vec<u8> = memread(cpu, name_addr, len);
+        name.push(0); // the host must not read past the end
         let fd = sysret_errno(unsafe {
             libc::openat(
                 self.dirfd_lookup(dirfd) as i32,
@@ -151,8 +151,8 @@ impl FrontendServer {
         flags: u64,
     ) -> i64 {
         log::infoln!("sys_fstatat(79)");
-        let name: Vec<u8> = memread(cpu, name_addr, len);
-        let name: &str = std::str::from_utf8(name.split_last().unwrap().1).unwrap();
+        let mut name: Vec<u8> = memread(cpu, name_addr, len);
+        name.push(0); // the host must not read past the end
         let (ret, rbuf) = unsafe {
             const PADDING: u64 = 0;
             let mut buf: libc::stat = std::mem::zeroed();
-- 
2.43.0


From 0e22b0854a7f1fd58d2a5bf0a5961ee3914794de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 62/71] fix: the answer in fromhost carries the device and
 command of the request

---
 src/fesvr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fesvr.rs b/src/fesvr.rs
index 476d7bd..2edef4b 100644
--- a/src/fesvr.rs
+++ b/src/fesvr.rs
@@ -154,7 +154,7 @@ impl Emulator {
             if self.cpu.bus.load64(fromhost_addr).unwrap() == 0 {
                 self.cpu
                     .bus
-                    .store64(fromhost_addr, (tohost << 48 >> 48) | 1)
+                    .store64(fromhost_addr, (tohost >> 48 << 48) | 1)
                     .unwrap();
             }
         }
-- 
2.43.0


From 668b138656b01ca7422d9ef9894383b2256493a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 63/71] fix: satp ignores writes that select an unsupported
 translation mode

---
 src/cpu/csr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index d646276..d704069 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -6,6 +6,7 @@ use breakpoint::Triggers;
 use std::cell::RefCell;
 use std::rc::Rc;
 
+const SATP: usize = CSRname::satp as usize;
 const MISA: usize = CSRname::misa as usize;
 const USTATUS: usize = CSRname::ustatus as usize;
 const SSTATUS: usize = CSRname::sstatus as usize;
@@ -76,6 +77,14 @@ impl CSRs {
         }
     }
 
+    /// satp ignores a write that selects an unsupported translation mode
+    fn is_satp_supported(&self, satp: u64) -> bool {
+        match *self.isa {
+            Isa::Rv32 => true,
+            Isa::Rv64 => matches!(satp >> 60, 0 | 8), // Bare or Sv39
+        }
+    }
+
     fn mask_warl(&mut self, dst: usize, mask: u64) -> u64 {
         match dst {
             MISA => {
@@ -108,6 +117,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] |= mask & self.smask(),
                 SIE => self.csrs[CSRname::mie as usize] |= mask & SIESIPMASK,
                 SIP => self.csrs[CSRname::mip as usize] |= mask & SIESIPMASK,
+                SATP if !self.is_satp_supported(self.csrs[SATP] | mask) => (),
                 _ => self.csrs[dist] |= mask,
             }
             self.fix_mpp();
@@ -131,6 +141,7 @@ impl CSRs {
                 SSTATUS => self.csrs[MSTATUS] &= !(mask & self.smask()),
                 SIE => self.csrs[CSRname::mie as usize] &= !(mask & SIESIPMASK),
                 SIP => self.csrs[CSRname::mip as usize] &= !(mask & SIESIPMASK),
+                SATP if !self.is_satp_supported(self.csrs[SATP] & !mask) => (),
                 _ => self.csrs[dist] &= !mask,
             }
             self.fix_mpp();
@@ -179,6 +190,7 @@ impl CSRs {
                 Isa::Rv32 => self.csrs[dist] = src,
                 Isa::Rv64 => self.csrs[dist] = (src & !(0b1111 << 32)) | 0b1010 << 32,
             },
+            SATP if !self.is_satp_supported(src) => (),
             MHPMCOUNTER3 => (), // protect from any value
             other => self.csrs[other] = src,
         }
-- 
2.43.0


From 8536f3f0f2c93b8436480aa68b9fc4e5dd405d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 64/71] fix: the device tree gives the actual translation mode
 and CLINT size

---
 src/bus/device_tree/dts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a66f17d..a647d18 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -50,7 +50,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
                 clint@2000000 {{
                   compatible = \"riscv,clint0\";
                   interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-                  reg = <0x0 0x2000000 0x0 0xc0000>;
+                  reg = <0x0 0x2000000 0x0 0x10000>;
                 }};
                 PLIC: plic@c000000 {{
                   compatible = \"riscv,plic0\";
@@ -106,7 +106,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
               status = \"okay\";
               compatible = \"riscv\";
               riscv,isa = \"rv64imac\";
-              mmu-type = \"riscv,sv57\";
+              mmu-type = \"riscv,sv39\";
               riscv,pmpregions = <16>;
               riscv,pmpgranularity = <4>;
               clock-frequency = <1000000000>;
@@ -130,7 +130,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
             clint@2000000 {{
               compatible = \"riscv,clint0\";
               interrupts-extended = <&CPU0_intc 3 &CPU0_intc 7 >;
-              reg = <0x0 0x2000000 0x0 0xc0000>;
+              reg = <0x0 0x2000000 0x0 0x10000>;
             }};
             PLIC: plic@c000000 {{
               compatible = \"riscv,plic0\";
-- 
2.43.0


From 72781504fd893e3b9f5310b4637a70ba2a41d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 65/71] fix: the boot ROM is padded only once

---
 src/bus/mrom.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bus/mrom.rs b/src/bus/mrom.rs
index 0384989..2f7ae23 100644
--- a/src/bus/mrom.rs
+++ b/src/bus/mrom.rs
@@ -41,8 +41,6 @@ impl Mrom {
     }
 
     pub fn set_size(&mut self) {
-        // an aligned access never reaches past the end
-        self.mrom.resize((self.mrom.len() + 7) / 8 * 8, 0);
         self.size = self.mrom.len();
     }
 }
-- 
2.43.0


From e38532e1b68da0f107c8eceb5e3e9774e0843810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 66/71] fix: unimplemented mip bits do not hide supervisor
 interrupts

---
 src/cpu/trap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpu/trap.rs b/src/cpu/trap.rs
index 80f6a45..aacbc4b 100644
--- a/src/cpu/trap.rs
+++ b/src/cpu/trap.rs
@@ -36,7 +36,10 @@ impl Cpu {
         let mip = self.csrs.read(CSRname::mip.wrap()).unwrap();
         let mie = self.csrs.read(CSRname::mie.wrap()).unwrap();
 
-        let pending_interrupts = mip & mie;
+        // only the implemented interrupts; other mip bits must not hide them
+        const IMPLEMENTED: u64 =
+            1 << SSIP | 1 << MSIP | 1 << STIP | 1 << MTIP | 1 << SEIP | 1 << MEIP;
+        let pending_interrupts = mip & mie & IMPLEMENTED;
         let mideleg = self.csrs.read(CSRname::mideleg.wrap()).unwrap();
         let mstatus_mie = self
             .csrs
-- 
2.43.0


From 5bf948b7db7f3d1875db634939bc3fa1e17093a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:09 +0000
Subject: [PATCH 67/71] fix: the trap value of a fetch access fault is the
 virtual address

---
 src/cpu/fetch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cpu/fetch.rs b/src/cpu/fetch.rs
index 0ad2b9e..4062269 100644
--- a/src/cpu/fetch.rs
+++ b/src/cpu/fetch.rs
@@ -7,7 +7,7 @@ pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause,
     let index_pc: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc())?;
     let is_cinst: bool = match cpu.bus.load_u8(index_pc) {
         Ok(inst_byte) => inst_byte & 0x3 != 0x3,
-        Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+        Err((_, _, msg)) => return Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
     };
 
     if is_cinst {
@@ -19,17 +19,19 @@ pub fn fetch(cpu: &mut Cpu) -> Result<Box<dyn Decode>, (Option<u64>, TrapCause,
         };
         match cpu.bus.load_u16(index_pc) {
             Ok(new_inst) => Ok(Box::new(new_inst as u16)),
-            Err((inst, _, msg)) => Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
         }
     } else {
         let index_pc2: u64 = cpu.trans_addr(TransFor::Fetch, TransAlign::Size8, cpu.pc() + 2)?;
         let inst_upper: u32 = match cpu.bus.load_u16(index_pc2) {
             Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => {
+                return Err((Some(cpu.pc() + 2), TrapCause::InstAccessFault, msg))
+            }
         };
         let inst_lower: u32 = match cpu.bus.load_u16(index_pc) {
             Ok(inst) => inst as u32,
-            Err((inst, _, msg)) => return Err((inst, TrapCause::InstAccessFault, msg)),
+            Err((_, _, msg)) => return Err((Some(cpu.pc()), TrapCause::InstAccessFault, msg)),
         };
         match *cpu.isa {
             Isa::Rv32 => log::infoln!("pc: 0x{:08x}", cpu.pc()),
-- 
2.43.0


From 1c2708de72e9e49a33ec7e63cf1ed5e657167b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 68/71] fix: access faults from the PLIC carry the faulting
 address, not the offset within the context

---
 src/bus/plic.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/bus/plic.rs b/src/bus/plic.rs
index e931d11..d555549 100644
--- a/src/bus/plic.rs
+++ b/src/bus/plic.rs
@@ -280,35 +280,35 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
-        let addr = self.addr2index(addr);
-        match addr {
+        let offset = self.addr2index(addr);
+        match offset {
             PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => {
-                self.priority_write(addr, data as u32);
+                self.priority_write(offset, data as u32);
                 Ok(())
             }
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
-                let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
-                let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
+                let cntx = (offset - ENABLE_BASE) / ENABLE_PER_HART;
+                let offset = offset - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    self.context_enable_write(cntx, addr, data as u32);
+                    self.context_enable_write(cntx, offset, data as u32);
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
                 }
             }
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
-                let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
-                let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
+                let cntx = (offset - CONTEXT_BASE) / CONTEXT_PER_HART;
+                let offset = offset - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM {
-                    self.context_write(cntx, addr, data as u32);
+                    self.context_write(cntx, offset, data as u32);
                     Ok(())
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(addr),
                         TrapCause::StoreAMOAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
@@ -344,30 +344,30 @@ impl Device for Plic {
         const ENABLE_BASE_MINUS_ONE: usize = ENABLE_BASE - 1;
         const CONTEXT_BASE_MINUS_ONE: usize = CONTEXT_BASE - 1;
         const PLIC_SIZE_MINUS_ONE: usize = PLIC_SIZE - 1;
-        let addr = self.addr2index(addr);
-        match addr {
-            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(addr) as i32 as i64 as u64),
+        let offset = self.addr2index(addr);
+        match offset {
+            PRIORITY_BASE..=ENABLE_BASE_MINUS_ONE => Ok(self.priority_read(offset) as i32 as i64 as u64),
             ENABLE_BASE..=CONTEXT_BASE_MINUS_ONE => {
-                let cntx = (addr - ENABLE_BASE) / ENABLE_PER_HART;
-                let addr = addr - (cntx * ENABLE_PER_HART + ENABLE_BASE);
+                let cntx = (offset - ENABLE_BASE) / ENABLE_PER_HART;
+                let offset = offset - (cntx * ENABLE_PER_HART + ENABLE_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_enable_read(cntx, addr) as i32 as i64 as u64)
+                    Ok(self.context_enable_read(cntx, offset) as i32 as i64 as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
                 }
             }
             CONTEXT_BASE..=PLIC_SIZE_MINUS_ONE => {
-                let cntx = (addr - CONTEXT_BASE) / CONTEXT_PER_HART;
-                let addr = addr - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
+                let cntx = (offset - CONTEXT_BASE) / CONTEXT_PER_HART;
+                let offset = offset - (cntx * CONTEXT_PER_HART + CONTEXT_BASE);
                 if cntx < CONTEXT_NUM {
-                    Ok(self.context_read(cntx, addr) as i32 as i64 as u64)
+                    Ok(self.context_read(cntx, offset) as i32 as i64 as u64)
                 } else {
                     Err((
-                        Some(addr as u64),
+                        Some(addr),
                         TrapCause::LoadAccessFault,
                         "plic only allows load/store32,64 but try store16".to_string(),
                     ))
-- 
2.43.0


From 8356f5a3f95e88b040f497c6facde7569d3fdb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 69/71] fix: misa reports the C extension at reset wherever
 execution starts

---
 src/cpu/csr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cpu/csr.rs b/src/cpu/csr.rs
index d704069..3784094 100644
--- a/src/cpu/csr.rs
+++ b/src/cpu/csr.rs
@@ -41,10 +41,9 @@ impl CSRs {
     pub fn init(mut self) -> Self {
         self.write(CSRname::marchid.wrap(), 0x5).unwrap();
         match *self.isa {
-            Isa::Rv32 => self.write(CSRname::misa.wrap(), 0x40141105).unwrap(),
+            Isa::Rv32 => self.csrs[CSRname::misa as usize] = 0x40141105,
             Isa::Rv64 => {
-                self.write(CSRname::misa.wrap(), 0x8000000000141105)
-                    .unwrap();
+                self.csrs[CSRname::misa as usize] = 0x8000000000141105;
                 self.write(CSRname::mstatus.wrap(), 0x0000000a00000000)
                     .unwrap();
             }
-- 
2.43.0


From 745b6df4623c0d65e337bb53b904bdb33fe53c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 70/71] fix: the device tree of a RV64 machine can place memory
 above 4 GiB

---
 src/bus/device_tree/dts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bus/device_tree/dts.rs b/src/bus/device_tree/dts.rs
index a647d18..e5fb610 100644
--- a/src/bus/device_tree/dts.rs
+++ b/src/bus/device_tree/dts.rs
@@ -82,6 +82,7 @@ fn dts_32(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
 fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>) -> String {
     let initrd_start = initrd_start.unwrap_or(0);
     let initrd_end = initrd_end.unwrap_or(0);
+    let (dram_upper, dram_lower) = (dram_addr >> 32, dram_addr as u32);
     format!(
         "/dts-v1/;
 
@@ -120,7 +121,7 @@ fn dts_64(dram_addr: u64, initrd_start: Option<usize>, initrd_end: Option<usize>
           }};
           memory@{dram_addr:x} {{
             device_type = \"memory\";
-            reg = <0x0 {dram_addr:#x} 0x0 0x80000000>;
+            reg = <{dram_upper:#x} {dram_lower:#x} 0x0 0x80000000>;
           }};
           soc {{
             #address-cells = <2>;
-- 
2.43.0


From bddc57c1be1dcce23d86ee3fb5bc1486a14a081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 71/71] fix: console input that is not UTF-8 reaches the guest
 instead of ending the input thread

---
 src/bus/uart.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bus/uart.rs b/src/bus/uart.rs
index dcd679c..d6976f9 100644
--- a/src/bus/uart.rs
+++ b/src/bus/uart.rs
@@ -4,6 +4,7 @@ use super::Device;
 use crate::bus::Plic;
 use crate::TrapCause;
 use std::collections::VecDeque;
+use std::io::BufRead;
 use std::sync::mpsc;
 
 const UART_QUEUE_SIZE: usize = 64;
@@ -99,7 +100,7 @@ pub struct Uart {
     pub base_addr: u64,
     size: usize,
     rx_queue: VecDeque<u8>,
-    stdin_channel: mpsc::Receiver<String>,
+    stdin_channel: mpsc::Receiver<Vec<u8>>,
 }
 
 impl Default for Uart {
@@ -117,10 +118,11 @@ impl Uart {
         uart[UartRegister::MSR as usize] = 0xb0; // UART_MSR_DCD | UART_MSR_DSR | UART_MSR_CTS
         uart[UartRegister::MCR as usize] = 0x08; // MCR_OUT2
 
-        let (tx, rx) = mpsc::channel::<String>();
+        let (tx, rx) = mpsc::channel::<Vec<u8>>();
         std::thread::spawn(move || loop {
-            let mut buffer = String::new();
-            if std::io::stdin().read_line(&mut buffer).unwrap() == 0 {
+            let mut buffer = Vec::new(); // not necessarily UTF-8
+            let length = std::io::stdin().lock().read_until(b'\n', &mut buffer);
+            if length.unwrap() == 0 {
                 break; // end of input
             }
             tx.send(buffer).unwrap();
@@ -241,7 +243,7 @@ impl Uart {
             Ok(input) => {
                 self.backoff_counter = 0;
 
-                self.rx_queue.extend(input.bytes());
+                self.rx_queue.extend(input);
                 self.uart[UartRegister::LSR as usize] |= LsrMask::DR as u8;
                 self.update_interrupt(plic);
             }
-- 
2.43.0

