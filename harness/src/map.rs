//! The listing of the memory map in given states.
use crate::cpu::*;
use crate::util::*;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::blf4::*;
use telda2::mem::MainMemory;

/// state and memory as for single steps
pub fn map_cases() {
    for f in cases() {
        let s = parse_state(&f);
        let m = parse_mem(&f);
        let mut mem = Recorder::new(Flat::default(), 0);
        for (a, bs) in &m {
            for (i, &b) in bs.iter().enumerate() {
                mem.inner.write(a + i as u32, b);
            }
        }
        let mut cpu = Blf4::new();
        set_state(&mut cpu, &s);
        mem.start_step();
        println!("\n@@@ {}", f["id"]);
        let r = catch_unwind(AssertUnwindSafe(|| cpu.context(&mut mem).print_mmap()));
        let kept = (get_state(&cpu) == s && mem.changes().is_empty()) as u8;
        println!(
            "\n{{\"id\":{},\"c\":{},\"mem\":{},\"t\":{},\"kept\":{kept}}}",
            jstr(&f["id"]),
            nums(s),
            mem_json(&m),
            if r.is_ok() { -1 } else { PANICKED }
        );
    }
}
