//! Disassembly at given program counters.
use crate::cpu::*;
use crate::util::*;
use crate::world::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::blf4::*;
use telda2::disassemble::disassemble_instruction;
use telda2::machine::Machine;
use telda2::mem::MainMemory;

/// state and memory as for single steps; `at=pc,pc,..`, `labels=addr:namehex|..`
pub fn dis_cases() {
    for f in cases() {
        let s = parse_state(&f);
        let m = parse_mem(&f);
        let labels: HashMap<u16, String> = f
            .get("labels")
            .map(|l| {
                l.split('|')
                    .filter(|p| !p.is_empty())
                    .map(|p| {
                        let (a, n) = p.split_once(':').unwrap();
                        (hex(a) as u16, String::from_utf8(hex_bytes(n)).unwrap())
                    })
                    .collect()
            })
            .unwrap_or_default();
        let mut mem = Recorder::new(Flat::default(), 0);
        for (a, bs) in &m {
            for (i, &b) in bs.iter().enumerate() {
                mem.inner.write(a + i as u32, b);
            }
        }
        let mut w = Machine::new(mem, Blf4::new());
        set_state(&mut w.cpu, &s);
        let mut shown = Vec::new();
        for at in f["at"].split(',') {
            w.cpu.program_counter = hex(at) as u16;
            let before = get_state(&w.cpu);
            w.memory.start_step();
            let r = catch_unwind(AssertUnwindSafe(|| {
                disassemble_instruction(&mut w, |p| labels.get(&p).map(|s| &**s))
            }));
            let kept = (get_state(&w.cpu) == before && w.memory.touched.is_empty()) as u8;
            let (t, text, next, ends, nest) = match r {
                Err(_) => (PANICKED, String::new(), 0, false, 0),
                Ok(Err(tm)) => (tm as u8 as i32, String::new(), 0, false, 0),
                Ok(Ok(d)) => (-1, d.annotated_source, d.next_instruction_location, d.ends_block, d.nesting_difference),
            };
            shown.push(format!(
                "{{\"at\":{},\"t\":{t},\"text\":{},\"next\":{next},\"ends\":{},\"nest\":{nest},\"kept\":{kept}}}",
                hex(at),
                jstr(&text),
                ends as u8
            ));
            w.memory.touched.clear();
            set_state(&mut w.cpu, &s);
        }
        println!(
            "\n{{\"id\":{},\"c\":{},\"mem\":{},\"labels\":[{}],\"shown\":[{}]}}",
            jstr(&f["id"]),
            nums(s),
            mem_json(&m),
            labels.iter().map(|(a, n)| format!("[{a},{}]", jstr(n))).collect::<Vec<_>>().join(","),
            shown.join(",")
        );
    }
}
