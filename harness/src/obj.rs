//! Objects: case tokens to the library's Object and back to JSON.
use crate::cpu::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::aalv::obj::*;
use telda2::blf4::*;
use telda2::machine::Machine;
use telda2::mem::{LazyMain, MainMemory};

fn st(s: &str) -> SegmentType {
    SegmentType::try_from(hex(s) as u8).expect("segment type in case")
}
fn text(s: &str) -> Box<str> {
    String::from_utf8(hex_bytes(s)).expect("names are UTF-8").into()
}

/// `off`, `e=st:addr`, `fl=0|1`, `ss`, `hs`, `segs=st:start:hex|..`, `syms=namehex:g:st:loc|..`,
/// `rel=st:loc:index|..`; all numbers hex
pub fn parse_object(f: &Fields) -> Object {
    let mut segs = BTreeMap::new();
    let parts = |k: &str| -> Vec<Vec<String>> {
        f.get(k)
            .map(|s| {
                s.split('|')
                    .filter(|p| !p.is_empty())
                    .map(|p| p.split(':').map(|x| x.to_owned()).collect())
                    .collect()
            })
            .unwrap_or_default()
    };
    for p in parts("segs") {
        // either bytes or ~length,a,b for a pattern
        let bytes = if let Some(pat) = p[2].strip_prefix('~') {
            let v: Vec<u32> = pat.split(',').map(|x| x.parse().unwrap()).collect();
            (0..v[0]).map(|i| pattern(i, v[1], v[2])).collect()
        } else {
            hex_bytes(&p[2])
        };
        segs.insert(st(&p[0]), (hex(&p[1]) as u16, bytes));
    }
    Object {
        file_offset: f.get("off").map(|s| hex(s) as u64).unwrap_or(0),
        entry: parts("e").first().map(|p| Entry(st(&p[0]), hex(&p[1]) as u16)),
        flags: f.get("fl").map(|s| Flags { readable_text: s == "1" }),
        stack_size: f.get("ss").map(|s| StackSize(hex(s) as u16)),
        heap_size: f.get("hs").map(|s| HeapSize(hex(s) as u16)),
        segs,
        symbols: SymbolTable(
            parts("syms")
                .iter()
                .map(|p| SymbolDefinition {
                    name: text(&p[0]),
                    is_global: p[1] == "1",
                    segment_type: st(&p[2]),
                    location: hex(&p[3]) as u16,
                })
                .collect(),
        ),
        relocation_table: RelocationTable(
            parts("rel")
                .iter()
                .map(|p| RelocationEntry {
                    reference_segment: st(&p[0]),
                    reference_location: hex(&p[1]) as u16,
                    symbol_index: hex(&p[2]) as u16,
                })
                .collect(),
        ),
    }
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

pub fn object_json(o: &Object) -> String {
    let one = |x: Option<u32>| nums(x);
    format!(
        "{{\"off\":{},\"entry\":{},\"flags\":{},\"stack\":{},\"heap\":{},\"segs\":{},\"syms\":{},\"rel\":{}}}",
        o.file_offset,
        o.entry.map(|Entry(s, l)| nums([s as u8 as u16, l])).unwrap_or("[]".to_owned()),
        one(o.flags.map(|f| f.readable_text as u32)),
        one(o.stack_size.map(|s| s.0 as u32)),
        one(o.heap_size.map(|s| s.0 as u32)),
        list(
            o.segs
                .iter()
                .map(|(s, (start, b))| format!("[{},{start},{}]", *s as u8, nums(b)))
                .collect()
        ),
        list(
            o.symbols
                .iter()
                .map(|s| format!(
                    "[{},{},{},{}]",
                    bytes_of(&s.name),
                    s.is_global as u8,
                    s.segment_type as u8,
                    s.location
                ))
                .collect()
        ),
        list(
            o.relocation_table
                .0
                .iter()
                .map(|r| nums([r.reference_segment as u8 as u16, r.reference_location, r.symbol_index]))
                .collect()
        ),
    )
}

type World = Machine<Recorder<LazyMain<Ports>>, Blf4>;

fn frames_json(w: &mut World) -> String {
    let frames: std::collections::BTreeSet<u32> =
        w.memory.touched.keys().map(|a| a & !127).collect();
    list(
        frames
            .into_iter()
            .map(|a| (a, (0..128).map(|i| w.memory.inner.read(a + i)).collect::<Vec<u8>>()))
            .filter(|(_, b)| b.iter().any(|&x| x != 0))
            .map(|(a, b)| format!("[{a},{}]", nums(b)))
            .collect(),
    )
}

/// Loads an object and, if asked, runs it under the emulated kernel step by step.
pub fn load_cases() {
    for f in cases() {
        let obj = parse_object(&f);
        let n: usize = f.get("n").map(|n| n.parse().unwrap()).unwrap_or(0);
        let input = f.get("in").map(|s| hex_bytes(s)).unwrap_or_default();
        let ports = Ports::new(input.clone());
        let mut w = Machine::new(Recorder::new(LazyMain::new(ports.clone()), 0x80), Blf4::new());
        let loaded = catch_unwind(AssertUnwindSafe(|| w.load_user_binary(&obj))).is_ok();
        let c0 = get_state(&w.cpu);
        let frames = if loaded { frames_json(&mut w) } else { "[]".to_owned() };
        let mut steps = Vec::new();
        if loaded {
            for _ in 0..n {
                w.memory.start_step();
                let o = outcome(catch_unwind(AssertUnwindSafe(|| w.execute_once())));
                steps.push(format!(
                    "{{\"o\":{o},\"c\":{},\"w\":{},\"io\":{}}}",
                    nums(get_state(&w.cpu)),
                    changes_json(&w.memory.changes()),
                    ports.take_json()
                ));
                if o != -1 {
                    break;
                }
            }
        }
        println!(
            "\n{{\"id\":{},\"ok\":{},\"obj\":{},\"c\":{},\"mem\":{},\"in\":{},\"st\":[{}]}}",
            jstr(&f["id"]),
            loaded as u8,
            object_json(&obj),
            nums(c0),
            frames,
            nums(input),
            steps.join(",")
        );
    }
}
