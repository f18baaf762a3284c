From 4bbdd05c2405eb734498d2d8973e52eca128fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 01/42] fix: mark the entry that was not dirty, not always the
 level 1 entry first

With the level 1 entry dirty already and the level 2 entry not, the zip
paired the level 2 flags byte with the level 1 entry's address: the level 1
entry's permissions were overwritten and the level 2 entry stayed clean.
---
 src/blf4/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..2806aa7 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
+            let dirty_iter = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
 
             for (addr, undirty_byte) in dirty_iter {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From fd797e9a9ba9238e942da78febcac8a7a65bd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 02/42] fix: wrap address arithmetic of the processor modulo
 65536

Guest programs could abort the emulator (attempt to add/subtract with
overflow) with a stack pointer, program counter or effective address at
either end of the address space.
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2806aa7..184509d 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -474,7 +474,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -492,7 +492,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -501,7 +501,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -516,24 +516,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From a0585d268a1bdc8a58f92eb8e30587c17a869b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 03/42] fix: shifts by the operand width or more do not abort
 the emulator

The amount counts modulo the operand width, as it already does in builds
without overflow checks.
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 54c8c7a07705981e750b8579953c05f761b756e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 04/42] fix: a fault fetching the opcode traps like any other

It was reported to the host directly, bypassing an installed trap handler
and leaving the trap and user mode flags as they were.
---
 src/blf4/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 184509d..1595bcf 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,11 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let res = ctx
+            .fetch()
+            .and_then(|opcode| OP_HANDLERS[opcode as usize](&mut ctx));
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match res {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 77a8869fc7728ae2c02be059b4652de4e5e80ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 05/42] fix: trap entry saves the program counter and the flags
 at the trap

The program counter was never saved, so reth went on inside the handler,
and the flags were saved after user mode had been cleared, so returning
from a trap taken in user mode left supervisor mode on.
---
 src/blf4/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 1595bcf..92461f8 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -241,12 +241,13 @@ impl Cpu for Blf4 {
         match res {
             Ok(()) => (),
             Err(tm) => {
+                let flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -539,8 +540,9 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(self.cpu.program_counter)?;
+        self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
@@ -554,7 +556,9 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
-        self.cpu.flags = self.popw()?.into();
+        let flags = self.popw()?;
+        self.cpu.program_counter = self.popw()?;
+        self.cpu.flags = flags.into();
 
         Ok(())
     }
-- 
2.43.0


From bf19eba5050ce36ab4a4b806a5453f2a84336815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/42] fix: disassemble instructions that wrap around the end
 of the address space

---
 src/disassemble.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..ad202ee 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -214,13 +214,14 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    let instruction_length = next_instruction_location.wrapping_sub(addr);
+    for _ in 0..instruction_length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
     // restore rpc
     c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - instruction_length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From 84d563436efd18142ce92cc015badcca25b33c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 07/42] fix: disassembling leaves the program counter alone
 when a fetch faults

---
 src/disassemble.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index ad202ee..b4317ef 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -40,6 +40,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let res = disassemble_at_pc(machine, label_lookup);
+    // restore rpc, also if fetching the instruction failed half way
+    machine.cpu.program_counter = addr;
+    res
+}
+
+fn disassemble_at_pc<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
-- 
2.43.0


From 7acc340951b3ee3104004b1a99a4c641ff31632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 08/42] fix: disassemble all four operands of mul and div

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index b4317ef..2a43099 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -209,10 +209,10 @@ fn disassemble_at_pc<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => quadop("div", ByteRegister, &mut c, f)?,
+        DIV_W => quadop("div", WideRegister, &mut c, f)?,
+        MUL_B => quadop("mul", ByteRegister, &mut c, f)?,
+        MUL_W => quadop("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -274,6 +274,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn quadop<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From cb081c415b37f778b655218ff52b7094349cc3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 09/42] fix: relocations of .wide labels name the place of the
 wide

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From a7c3ddc69503921efa8b3bbde0e2cedef8da5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 10/42] fix: stack size has its own section name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 7b4ab9a20205b94edebaee08bbe1f9105a4c7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 11/42] fix: look for the magic right after a byte that only
 looked like its start

---
 src/aalv/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..19e770d 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -91,6 +91,8 @@ impl<F: BufRead + Seek> AalvReader<F> {
             if magic_buf == AALV_MAGIC.as_bytes() {
                 break;
             }
+            // The magic may start inside the bytes that turned out not to be it
+            self.file.seek(SeekFrom::Start(self.file_offset + 1))?;
         }
 
         Ok(())
-- 
2.43.0


From 0cfbad8a725340d27024d819fbf8c624b7d8b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 12/42] fix: refuse to write a section whose length does not
 fit its header

---
 src/aalv/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 19e770d..2476f2f 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -209,9 +209,15 @@ impl<F: Write + Seek> AalvWriter<F> {
 
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
+        let stored_length = u16::try_from(length).map_err(|_| {
+            io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too long ({length} bytes)", S::NAME),
+            )
+        })?;
 
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
+        self.file.write_all(&stored_length.to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
 
         Ok(())
-- 
2.43.0


From 2fe8890d5f840ac6ad9f76d55f8612439354114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/42] fix: report errors of writing the last buffered bytes
 of an object

---
 src/aalv/mod.rs | 23 ++++++++++++++++++++++-
 src/aalv/obj.rs |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 2476f2f..348e773 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -178,11 +178,13 @@ impl<R: Read> Read for ReadWindow<R> {
 
 pub struct AalvWriter<F: Write> {
     file: F,
+    // Set when the terminating zero byte is written or should not be because something failed
+    ended: bool,
 }
 
 impl<F: Write + Seek> AalvWriter<F> {
     pub fn new(file: F, file_offset: u64) -> Result<Self> {
-        let mut new = AalvWriter { file };
+        let mut new = AalvWriter { file, ended: false };
 
         new.file.seek(SeekFrom::Start(file_offset))?;
         new.write_magic()?;
@@ -194,6 +196,22 @@ impl<F: Write + Seek> AalvWriter<F> {
     }
 
     pub fn write_section<S: Section>(&mut self, segment: &S) -> Result<()> {
+        let res = self.try_write_section(segment);
+        if res.is_err() {
+            // Without the zero byte a file that lacks sections can't be mistaken for a complete one
+            self.ended = true;
+        }
+        res
+    }
+
+    /// Ends the file, reporting if that or any earlier buffered writing failed
+    pub fn finish(mut self) -> Result<()> {
+        self.ended = true;
+        self.file.write_all(&[0])?;
+        self.file.flush()
+    }
+
+    fn try_write_section<S: Section>(&mut self, segment: &S) -> Result<()> {
         assert!(
             !S::NAME.contains('\0'),
             "section name may not contain null bytes"
@@ -226,6 +244,9 @@ impl<F: Write + Seek> AalvWriter<F> {
 
 impl<F: Write> Drop for AalvWriter<F> {
     fn drop(&mut self) {
+        if self.ended {
+            return;
+        }
         self.file
             .write_all(&[0])
             .expect("writing of final álvur zero byte failed");
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..ed71414 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -118,7 +118,7 @@ impl Object {
             aalvur.write_section(relocation_table)?;
         }
 
-        Ok(())
+        aalvur.finish()
     }
 
     #[deprecated = "Load segmented instead"]
-- 
2.43.0


From 0307900edb34eda52216aedc20c92f131059491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 14/42] fix: read a symbol table with an empty global name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From e3eb6f4bab753ca9699c54e1d9c3fab0eec648a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 15/42] fix: report unexpected sections instead of aborting

---
 src/aalv/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index ed71414..a0c3b86 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
-- 
2.43.0


From 23b62c6daa84439a21838b6b615c95270e0e5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 16/42] fix: refuse to write symbol names the format cannot
 hold

---
 src/aalv/obj/sec_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 7efa1b7..a420d0c 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -144,6 +144,12 @@ impl Section for SymbolTable {
             location,
         } in &self.0
         {
+            if name.contains('\0') || is_global && name.starts_with(' ') {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("symbol name {name:?} cannot be stored"),
+                ));
+            }
             write!(writer, "{}{name}\0", if is_global { "" } else { " " })?;
             writer.write_all(&[segment_type as u8])?;
             writer.write_all(&location.to_le_bytes())?;
-- 
2.43.0


From ac63e2eb5d7afb0a56ede4966e348ba54211f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 17/42] fix: map the whole requested heap from the heap segment
 on

---
 src/blf4/std_kernel/load_user_binary.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..e131459 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                // the pages the heap's initial bytes are on have been mapped already
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = heap_size.saturating_add(offset - heap);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From ad27a767db3331342c1217464baceaaecad48067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 18/42] fix: load segments that reach the end of the address
 space

---
 src/blf4/std_kernel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..e9a7544 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,9 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        let range = start_vpage as usize..offset as usize + bytes.len();
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            let vaddr = u16::try_from(vaddr).expect("segment should be within the address space");
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From 9f7ac420aeec988e8dd169d0047183849ef3ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 19/42] fix: raw boot images may be shorter than the ROM

---
 src/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..aab4428 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,9 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        let mut rom = [0; ROM_SIZE];
+        rom[..bytes.len()].copy_from_slice(bytes);
+        self.rom = Some(rom);
         self
     }
 }
-- 
2.43.0


From df20cd37595b392b11b2856bef36e26457cdac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 20/42] fix: tobjdump fails if it could not read an input

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..3330db2 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From b1600ab7a54963d199f02aaa1ec36f73e1c0364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 21/42] fix: report hex escapes that are cut off

---
 src/source/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..b7bb2f5 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -316,8 +316,9 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
             b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
+                s.get(2..4)
+                    .and_then(|digits| u8::from_str_radix(&String::from_utf8_lossy(digits), 16).ok())
+                    .ok_or(InvalidEscapeSequence)?,
                 &s[4..],
             ),
             c => return Err(InvalidEscapeCharacter(*c)),
-- 
2.43.0


From 49922ac59e4b9f67fac25e667f383ec9db51be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 22/42] fix: aligning an already aligned address near the end
 of the address space

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4a1b64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr & !mask) + alignment
     }
 }
 
-- 
2.43.0


From 687d3dba237377f00b4833a899e8339b3d381a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 23/42] fix: report segments that are too big instead of
 aborting

---
 src/source/mod.rs | 53 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index b7bb2f5..9d99d51 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -9,7 +9,7 @@ use std::{
 use crate::{
     aalv::obj::Entry,
     aalv::obj::SegmentType,
-    align_end,
+    align_end, align_start,
     blf4::{ByteRegister as BReg, WideRegister as WReg, *},
     PAGE_SIZE, U4,
 };
@@ -377,10 +377,18 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
         let dls = self.dls.entry(st).or_default();
+        dls.size = u16::try_from(dls.size as usize + size).map_err(|_| {
+            ErrorType::Other(format!("segment {st} does not fit in memory").into_boxed_str())
+        })?;
         dls.lines.push(line);
-        dls.size += size;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -399,8 +407,22 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
-        s.start = align_end(last_end, PAGE_SIZE);
-        last_end = s.start + s.size;
+        let end = (last_end <= align_start(u16::MAX, PAGE_SIZE))
+            .then(|| align_end(last_end, PAGE_SIZE))
+            .and_then(|start| Some((start, start.checked_add(s.size)?)));
+        let Some((start, end)) = end else {
+            add_error_opt(
+                &mut errors,
+                Error::new(
+                    src.clone(),
+                    0,
+                    ErrorType::Other("segments do not fit in memory".into()),
+                ),
+            );
+            break;
+        };
+        s.start = start;
+        last_end = end;
     }
 
     let mut labels = Vec::with_capacity(symbols.size());
@@ -433,7 +455,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
                 let stype = addr.0;
                 let offset = dls.get(&stype).map(|dl| dl.start).unwrap_or(0);
-                let pos = addr.1 + offset;
+                let pos = addr.1.wrapping_add(offset);
 
                 element = (l, st, stype, pos)
             }
@@ -522,22 +544,29 @@ fn inner_process<B: BufRead>(
                 state.add_line(
                     *current_segment,
                     DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                    1 + dat_op.size() as usize,
+                )
+                .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From 07f8009ddcdb8e2ca6089cd8040c1699d6a84b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 24/42] fix: linker reports segments that do not fit in memory

---
 src/bin/tl.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..60cfcd1 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    align_end, align_start, PAGE_SIZE,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::OutOfMemory => eprintln!("the linked segments do not fit in memory"),
                 Error::ObjectFailure => (),
             }
 
@@ -95,6 +96,7 @@ enum Error {
     InvalidEntryPointFormat(ParseIntError),
     ObjectFailure,
     NoEntryPoint,
+    OutOfMemory,
     ReferenceToNonExistantSegment,
 }
 
@@ -132,16 +134,24 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                *lengths.entry(stype).or_insert(0) += v.len();
             }
         }
+        let mut fitting_lengths = BTreeMap::new();
+        for (st, size) in lengths {
+            fitting_lengths.insert(st, u16::try_from(size).map_err(|_| Error::OutOfMemory)?);
+        }
+        let mut lengths = fitting_lengths;
         let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
         last_end = last_end.max(PAGE_SIZE);
 
         for (st, size) in lengths {
+            if last_end > align_start(u16::MAX, segment_alignment) {
+                return Err(Error::OutOfMemory);
+            }
             let start = align_end(last_end, segment_alignment);
             segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
-            last_end = start + size;
+            last_end = start.checked_add(size).ok_or(Error::OutOfMemory)?;
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
-- 
2.43.0


From 1776ef84d5075013ade4dce42e40ecc4604ae192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 25/42] fix: linker keeps the zero segment at the start of
 memory

---
 src/bin/tl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 60cfcd1..0a33c5d 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -142,7 +142,11 @@ fn tl_main() -> Result<(), Error> {
             fitting_lengths.insert(st, u16::try_from(size).map_err(|_| Error::OutOfMemory)?);
         }
         let mut lengths = fitting_lengths;
-        let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
+        let mut last_end = 0;
+        if let Some(size) = lengths.remove(&SegmentType::Zero) {
+            segs_out.insert(SegmentType::Zero, (0, Vec::with_capacity(size as usize)));
+            last_end = size;
+        }
         last_end = last_end.max(PAGE_SIZE);
 
         for (st, size) in lengths {
-- 
2.43.0


From c2adfd9dbf80c0b8a7ac1bf6da553fdb8e978313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 26/42] fix: link objects whose entry point is in an empty
 segment

---
 src/bin/tl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 0a33c5d..46ded24 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -181,8 +181,12 @@ fn tl_main() -> Result<(), Error> {
 
     for (input_file, mut obj) in objects {
         entry_point = entry_point.or_else(|| {
-            obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
+            obj.entry.map(|Entry(st, ep)| {
+                // an entry point may be in a segment without any bytes
+                let old_start = obj.segs.get(&st).map(|s| s.0).unwrap_or(0);
+                let new_start = segs.get(&st).map(|s| s.0).unwrap_or(0);
+                Entry(st, ep.wrapping_sub(old_start).wrapping_add(new_start))
+            })
         });
 
         let mut file_symbol_to_out_symbol = Vec::new();
-- 
2.43.0


From b1e17b0fec345b1a85a023f7a5b147548042b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 27/42] fix: an undefined start symbol is not an entry point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 46ded24..60f7d02 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -314,8 +314,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 6ae87fb13cdc6e64d4fa84c67a4d65a8cec3f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 28/42] fix: labels and the entry point need a segment

---
 src/source/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 9d99d51..8d122fe 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -500,6 +500,21 @@ fn inner_process<B: BufRead>(
     state: &mut ProcessState,
     symbols: &mut Symbols,
 ) -> Option<Error> {
+    fn started_segment(
+        src: &str,
+        ln: u32,
+        current_segment: SegmentType,
+        state: &ProcessState,
+    ) -> Result<Address> {
+        if current_segment == SegmentType::Unknown {
+            return Err(Error::new(
+                src,
+                ln,
+                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
+            ));
+        }
+        Ok(Address(current_segment, state.get_size(current_segment)))
+    }
     fn inner_process_line(
         src: &str,
         ln: u32,
@@ -524,10 +539,10 @@ fn inner_process<B: BufRead>(
                 if state.entry.is_some() {
                     return Err(Error::new(src, ln, ErrorType::DoubleEntry));
                 }
-                state.entry = Some(Address(*current_segment, state.get_size(*current_segment)));
+                state.entry = Some(started_segment(src, ln, *current_segment, state)?);
             }
             SourceLine::Label(s) => {
-                let addr = Address(*current_segment, state.get_size(*current_segment));
+                let addr = started_segment(src, ln, *current_segment, state)?;
                 symbols.set_label(&s, addr, SourceLocation::new(src, ln))?;
             }
             SourceLine::Ins(s, ops) => {
-- 
2.43.0


From 04c6c9a7cf400c2b327ebb426b5f3e5112477d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 29/42] fix: unreadable source is reported with its line and
 not read forever

---
 src/source/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 8d122fe..8c1c8df 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::BTreeMap,
     fs::File,
-    io::{BufRead, BufReader, Lines},
+    io::{BufRead, BufReader, ErrorKind, Lines},
     path::Path,
     slice::Iter,
 };
@@ -52,6 +52,7 @@ pub struct SourceLines<B> {
     ln: LineNumber,
     source: Box<str>,
     errors: Option<Error>,
+    unreadable: bool,
 }
 
 fn add_error_opt(errors: &mut Option<Error>, error: Error) {
@@ -80,6 +81,7 @@ impl SourceLines<BufReader<File>> {
             ln: 0,
             source,
             errors: None,
+            unreadable: false,
         })
     }
 }
@@ -136,12 +138,18 @@ impl<B: BufRead> SourceLines<B> {
             ln: 0,
             source: "<input>".into(),
             errors: None,
+            unreadable: false,
         }
     }
     pub fn parse_next_line(&mut self) -> Option<(u32, SourceLine)> {
         loop {
+            if self.unreadable {
+                return None;
+            }
             let line = self.lines.next()?;
             self.ln += 1;
+            // A line that is not UTF-8 is skipped by reading it, but other errors would repeat forever
+            self.unreadable = matches!(&line, Err(e) if e.kind() != ErrorKind::InvalidData);
             match self.inner_parse_line(line) {
                 Ok(sl) => break Some((self.ln, sl)),
                 Err(e) => {
@@ -152,7 +160,9 @@ impl<B: BufRead> SourceLines<B> {
     }
     fn inner_parse_line(&mut self, line: StdResult<String, IoError>) -> Result<SourceLine> {
         Ok({
-            let line = line?;
+            let line = line.map_err(|e| {
+                Error::new(self.source.clone(), self.ln, ErrorType::IoError(e))
+            })?;
             let line = line.trim();
 
             if line.is_empty()
-- 
2.43.0


From bcf975f60e97983f4d64fa8ec12b159c6f695d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 30/42] fix: a source file that includes itself is an error

---
 src/source/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 8c1c8df..a356635 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -2,7 +2,7 @@ use std::{
     collections::BTreeMap,
     fs::File,
     io::{BufRead, BufReader, ErrorKind, Lines},
-    path::Path,
+    path::{Path, PathBuf},
     slice::Iter,
 };
 
@@ -375,6 +375,8 @@ pub struct DataLineSegment {
 struct ProcessState {
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
+    // The files being processed right now, each included by the one before
+    including: Vec<PathBuf>,
 }
 
 impl ProcessState {
@@ -382,6 +384,7 @@ impl ProcessState {
         Self {
             dls: BTreeMap::new(),
             entry: None,
+            including: Vec::new(),
         }
     }
     fn get_size(&self, st: SegmentType) -> u16 {
@@ -410,10 +413,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let mut state = ProcessState::new();
 
     let src = lines.source.clone();
+    state.including.extend(Path::new(&*src).canonicalize());
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
@@ -603,8 +607,24 @@ fn inner_process<B: BufRead>(
                     &pth_buf
                 };
 
+                let canonical = path
+                    .canonicalize()
+                    .map_err(|e| Error::new(src, ln, ErrorType::IoError(e)))?;
+                if state.including.contains(&canonical) {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other(
+                            format!("{} includes itself", path.display()).into_boxed_str(),
+                        ),
+                    ));
+                }
+
                 let lines = SourceLines::new(path)?;
-                if let Some(e) = inner_process(lines, state, symbols) {
+                state.including.push(canonical);
+                let errors = inner_process(lines, state, symbols);
+                state.including.pop();
+                if let Some(e) = errors {
                     return Err(e);
                 }
             }
-- 
2.43.0


From 7ea6286a6b785724d92006898fe161257bac2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 31/42] fix: debugger quits at the end of its commands

---
 src/bin/tdbg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..ad9e20f 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -184,7 +184,10 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+                // end of the commands
+                break 'disassemble_loop;
+            }
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
-- 
2.43.0


From fbcd83e079579c3846fdfcb5a9b78bc7ea3e1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 32/42] fix: debugger lets an instruction that cannot be
 fetched trap

---
 src/bin/tdbg.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index ad9e20f..1d9fe6e 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -150,7 +150,14 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
 
     'disassemble_loop: loop {
         let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s))
+                // The instruction can't be fetched, executing it will trap
+                .unwrap_or_else(|tm| DisassembledInstruction {
+                    annotated_source: format!("  {:04x}:  {tm:?}", machine.cpu.program_counter),
+                    ends_block: true,
+                    nesting_difference: 0,
+                    next_instruction_location: machine.cpu.program_counter,
+                });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
-- 
2.43.0


From dc2e0d287d5be5277f375fd3009b3d842cb564d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 33/42] fix: debugger reports memory that cannot be read
 instead of aborting

---
 src/bin/tdbg.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 1d9fe6e..811dfa6 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -217,11 +217,10 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    match (c.read(addr), c.read(addr.wrapping_add(1))) {
+                        (Ok(b0), Ok(b1)) => println!(" = 0x{b0:02x} 0x{b1:02x} ..."),
+                        (Err(tm), _) | (_, Err(tm)) => eprintln!("can't read 0x{addr:04x}: {tm:?}"),
+                    }
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From cbea3f997599ee11311f9bd807c95d131362589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 34/42] fix: debugger shows the unfinished last line of output

---
 src/bin/tdbg.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 811dfa6..bae18de 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -18,6 +18,15 @@ struct DbgIo {
     out_buf: Vec<u8>,
 }
 
+impl Drop for DbgIo {
+    fn drop(&mut self) {
+        // The program's last line may be unfinished
+        if !self.out_buf.is_empty() {
+            self.write(0, b'\n');
+        }
+    }
+}
+
 impl Io for DbgIo {
     fn write(&mut self, _addr: u8, val: u8) {
         if val == b'\n' {
-- 
2.43.0


From 1f0970baa580bf80288be349ec2be69f7f3c4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 35/42] fix: show relocations of an instruction that wraps
 around

---
 src/bin/tobjdump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 3330db2..142fb0c 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -250,7 +250,9 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
+                let length = next_instruction_location.wrapping_sub(location);
+                let in_instruction = |&(&loc, _): &(&u16, _)| loc.wrapping_sub(location) < length;
+                for (&loc, &sym) in relocs.iter().filter(in_instruction) {
                     println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
                 }
             }
-- 
2.43.0


From 2e265778dd6d0a2225ac40c2f0a66d2305cd186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 36/42] fix: too many operands are wrong operands for every
 instruction

---
 src/source/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index a356635..46f7c0e 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1038,6 +1038,7 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
@@ -1050,6 +1051,7 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
@@ -1061,6 +1063,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1073,6 +1076,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
@@ -1087,6 +1091,7 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmByte(reg1, imm, reg2))
     }
     fn parse_wide_imm_wide<'a>(
@@ -1097,47 +1102,56 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmWide(reg1, imm, reg2))
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1146,7 +1160,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1161,7 +1175,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From aa32bb6abc7acb815ad52013d51408e187c7baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 37/42] fix: an included archive member ends the need for its
 symbols

---
 src/bin/tl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 60f7d02..4e0c13d 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
+    collections::{BTreeMap, HashMap, HashSet}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -427,6 +427,8 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
     }
 
     let mut cur_globals = input_globals;
+    // Symbols defined by included objects, no other definition of them is needed
+    let mut included_definitions = HashSet::new();
     let mut objs = Vec::new();
 
     loop {
@@ -437,7 +439,8 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
                 // - a defined symbol that is referenced by any input objects or recently included objects
                 // - an undefined symbol defined by the input objects (but NOT by included objects)
                 // that is the definedness of the symbol differs between the current objects and the library object
-                if cur_globals.is(sym, !defined_in_aobj) {
+                let already_included = defined_in_aobj && included_definitions.contains(sym);
+                if cur_globals.is(sym, !defined_in_aobj) && !already_included {
                     if verbose {
                         println!("including {oname} because {sym} {}", if defined_in_aobj { "is defined in archive" } else { "is defined in inputs objects"});
                     }
@@ -452,6 +455,8 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
         };
         let (oname, obj, glbs) = a_objs.remove(i);
 
+        included_definitions.extend(glbs.iter().filter(|&(_, defined)| defined).map(|(sym, _)| Box::<str>::from(sym)));
+
         // Add undefined references from this newly included object to the current map
         cur_globals.extend_undefineds(glbs);
         objs.push((oname, obj));
-- 
2.43.0


From af11abf6ce5187bdebe42183ebc7788d4575d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 38/42] fix: the debugger showed nothing in place of addresses
 with nameless symbols

---
 src/bin/tdbg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index bae18de..5f51029 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -136,6 +136,10 @@ fn main() -> ExitCode {
             ..
         } in obj.symbols.into_iter()
         {
+            // Erased names would hide the addresses they stand for
+            if name.is_empty() {
+                continue;
+            }
             if is_global {
                 labels.insert(name.clone(), location);
                 pos_to_labels.insert(location, name);
-- 
2.43.0


From 8f5d34bab72273ef4ae3eed42ae069ffa6cfd736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 39/42] fix: the debugger's next at a return stopped in the
 next called subroutine or never

---
 src/bin/tdbg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 5f51029..658b6fe 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -212,7 +212,8 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
                 "n" | "next" => {
-                    break current_nesting;
+                    // at a return, the next instruction is the caller's
+                    break current_nesting.min(next_nesting);
                 }
                 "si" | "in" | "stepin" => {
                     break next_nesting;
-- 
2.43.0


From f4b9ac68b2c6eb42747ecc17b982c8be01ac31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:16 +0000
Subject: [PATCH 40/42] fix: many errors in a source overflowed the stack of
 the assembler

---
 src/source/err.rs | 29 ++++++++++++-----------------
 src/source/mod.rs |  4 ++--
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..e5c4e29 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -28,7 +28,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    // The errors chained to this one, which have none chained to themselves
+    rest: Vec<Self>,
 }
 
 impl Error {
@@ -37,19 +38,15 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            rest: Vec::new(),
         }
     }
-    pub fn chain(mut self, second: Self) -> Self {
-        self.chain_mut(second);
+    pub fn chain(mut self, mut second: Self) -> Self {
+        let rest = std::mem::take(&mut second.rest);
+        self.rest.push(second);
+        self.rest.extend(rest);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
-    }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
     // }
@@ -69,14 +66,14 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
+        let mut errors = std::iter::once(self).chain(&self.rest).peekable();
 
-        while let Some(e) = cur {
+        while let Some(e) = errors.next() {
             let Self {
                 source,
                 ln,
                 error,
-                next,
+                rest: _,
             } = e;
 
             if *ln == 0 {
@@ -100,11 +97,9 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
+            if errors.peek().is_some() {
                 writeln!(f)?;
             }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +112,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            rest: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 46f7c0e..c82c277 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -478,11 +478,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                     Internal => {
                         let e = e
                             .into_iter()
+                            .rev()
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From 7014a23d39e1d4f830153dc95f3d383c67f4d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:49 +0000
Subject: [PATCH 41/42] fix: deeply nested includes overflowed the stack of the
 assembler

---
 src/source/mod.rs | 54 +++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index c82c277..f167303 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -536,7 +536,7 @@ fn inner_process<B: BufRead>(
         current_segment: &mut SegmentType,
         state: &mut ProcessState,
         symbols: &mut Symbols,
-    ) -> Result<()> {
+    ) -> Result<Option<SourceLines<BufReader<File>>>> {
         match line {
             SourceLine::DirSeg(seg) => {
                 let new_seg = match &*seg {
@@ -622,11 +622,7 @@ fn inner_process<B: BufRead>(
 
                 let lines = SourceLines::new(path)?;
                 state.including.push(canonical);
-                let errors = inner_process(lines, state, symbols);
-                state.including.pop();
-                if let Some(e) = errors {
-                    return Err(e);
-                }
+                return Ok(Some(lines));
             }
             SourceLine::DirGlobal(l) => {
                 let id = symbols.get_label(&l, SourceLocation::new(src, ln));
@@ -647,22 +643,44 @@ fn inner_process<B: BufRead>(
             ));
         }
 
-        Ok(())
+        Ok(None)
     }
 
     let mut current_segment = SegmentType::Unknown;
+    // The included files being processed right now with their current segments, each included by the one before
+    let mut included: Vec<(SourceLines<BufReader<File>>, SegmentType)> = Vec::new();
+
+    loop {
+        let (next_line, src, segment) = match included.last_mut() {
+            Some((lines, segment)) => (lines.parse_next_line(), lines.source.clone(), segment),
+            None => (lines.parse_next_line(), lines.source.clone(), &mut current_segment),
+        };
+
+        let error = match next_line {
+            Some((ln, line)) => {
+                match inner_process_line(&src, ln, line, segment, state, symbols) {
+                    Ok(Some(lines)) => {
+                        included.push((lines, SegmentType::Unknown));
+                        None
+                    }
+                    Ok(None) => None,
+                    Err(e) => Some(e),
+                }
+            }
+            None => {
+                let Some((lines, _)) = included.pop() else {
+                    break;
+                };
+                state.including.pop();
+                lines.errors
+            }
+        };
 
-    while let Some((ln, line)) = lines.parse_next_line() {
-        match inner_process_line(
-            &lines.source,
-            ln,
-            line,
-            &mut current_segment,
-            state,
-            symbols,
-        ) {
-            Ok(()) => (),
-            Err(e) => lines.add_error(e),
+        if let Some(error) = error {
+            match included.last_mut() {
+                Some((lines, _)) => lines.add_error(error),
+                None => lines.add_error(error),
+            }
         }
     }
 
-- 
2.43.0


From ccd2e953b44dd797f8032d7273afe3e2742f0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:38 +0000
Subject: [PATCH 42/42] fix: a section without a name was written, which ends
 the file early for readers

---
 src/aalv/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 348e773..206a7c2 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -216,7 +216,7 @@ impl<F: Write + Seek> AalvWriter<F> {
             !S::NAME.contains('\0'),
             "section name may not contain null bytes"
         );
-        assert_ne!(!S::NAME.len(), 0, "section name may not be empty");
+        assert!(!S::NAME.is_empty(), "section name may not be empty");
 
         write!(self.file, "{}\0\0\0", S::NAME)?;
 
-- 
2.43.0

