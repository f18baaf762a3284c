use crate::util::*;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::blf4::*;
use telda2::machine::Cpu;
use telda2::mem::{LazyMain, MainMemory};
use telda2::U4;

pub fn wr(n: u8) -> WideRegister {
    WideRegister(U4::new(n))
}
pub fn br(n: u8) -> ByteRegister {
    ByteRegister(U4::new(n))
}

/// wide registers 1..=15, program counter, flags (in the order of rflags)
pub fn set_state(cpu: &mut Blf4, s: &[u32; 17]) {
    cpu.flags = Blf4Flags::default();
    for n in 1..=10 {
        cpu.write_wr(wr(n), s[n as usize - 1] as u16).unwrap();
    }
    cpu.stack = s[10] as u16;
    cpu.link = s[11] as u16;
    cpu.frame = s[12] as u16;
    cpu.page = s[13] as u16;
    cpu.trap_handler = s[14] as u16;
    cpu.program_counter = s[15] as u16;
    set_flags(cpu, s[16]);
}
pub fn set_flags(cpu: &mut Blf4, f: u32) {
    let b = |i: u32| f >> i & 1 == 1;
    cpu.flags.zero = b(7);
    cpu.flags.overflow = b(6);
    cpu.flags.sign = b(5);
    cpu.flags.carry = b(4);
    cpu.flags.virtual_mode = b(3);
    cpu.flags.reserved = b(2);
    cpu.flags.trap = b(1);
    cpu.flags.user_mode = b(0);
}
pub fn get_flags(cpu: &Blf4) -> u32 {
    let f = &cpu.flags;
    [
        f.user_mode,
        f.trap,
        f.reserved,
        f.virtual_mode,
        f.carry,
        f.sign,
        f.overflow,
        f.zero,
    ]
    .iter()
    .enumerate()
    .map(|(i, &b)| (b as u32) << i)
    .sum()
}
pub fn get_state(cpu: &Blf4) -> [u32; 17] {
    let mut s = [0; 17];
    for n in 1..=10 {
        s[n as usize - 1] = cpu.read_wr(wr(n)).unwrap_or(0xffff) as u32;
    }
    s[10] = cpu.stack as u32;
    s[11] = cpu.link as u32;
    s[12] = cpu.frame as u32;
    s[13] = cpu.page as u32;
    s[14] = cpu.trap_handler as u32;
    s[15] = cpu.program_counter as u32;
    s[16] = get_flags(cpu);
    s
}

pub const PANICKED: i32 = -99;
pub fn outcome(r: std::thread::Result<Result<(), TrapMode>>) -> i32 {
    match r {
        Err(_) => PANICKED,
        Ok(Ok(())) => -1,
        Ok(Err(tm)) => tm as u8 as i32,
    }
}

pub fn parse_state(f: &Fields) -> [u32; 17] {
    let mut s = [0; 17];
    let r = &f["r"];
    for i in 0..15 {
        s[i] = hex(&r[4 * i..4 * i + 4]);
    }
    s[15] = hex(&f["pc"]);
    s[16] = hex(&f["fl"]);
    s
}
pub fn parse_mem(f: &Fields) -> Vec<(u32, Vec<u8>)> {
    f.get("m")
        .map(|m| {
            m.split(',')
                .filter(|p| !p.is_empty())
                .map(|p| {
                    let (a, b) = p.split_once(':').unwrap();
                    (hex(a), hex_bytes(b))
                })
                .collect()
        })
        .unwrap_or_default()
}
pub fn mem_json(m: &[(u32, Vec<u8>)]) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|(a, b)| format!("[{a},{}]", nums(b.iter())))
        .collect();
    format!("[{}]", v.join(","))
}
pub fn changes_json(ch: &[(u32, u8)]) -> String {
    let w: Vec<String> = ch.iter().map(|(a, v)| format!("[{a},{v}]")).collect();
    format!("[{}]", w.join(","))
}

/// Single steps of the processor on flat memory or on the machine's memory.
pub fn run_cases() {
    for f in cases() {
        if f.contains_key("lazy") {
            let ports = Ports::new(f.get("in").map(|s| hex_bytes(s)).unwrap_or_default());
            let rom = f.get("rom").map(|s| hex_bytes(s)).unwrap_or_default();
            let mut m = LazyMain::new(ports.clone());
            let ok = catch_unwind(AssertUnwindSafe(|| {
                let m = LazyMain::new(ports.clone());
                if rom.is_empty() { m } else { m.with_rom(&rom) }
            }));
            let ok = match ok {
                Ok(n) => {
                    m = n;
                    true
                }
                Err(_) => false,
            };
            run_case(&f, Recorder::new(m, 0x80), ok, Some(ports));
        } else {
            run_case(&f, Recorder::new(Flat::default(), 0), true, None);
        }
    }
}

fn run_case<M: MainMemory>(f: &Fields, mut mem: Recorder<M>, ok: bool, ports: Option<Ports>) {
    let s = parse_state(f);
    let m = parse_mem(f);
    let n: usize = f["n"].parse().unwrap();
    let views = f.contains_key("views");
    let go_on = f.contains_key("goon");

    let mut cpu = Blf4::new();
    for (a, bs) in &m {
        for (i, &b) in bs.iter().enumerate() {
            mem.inner.write(a + i as u32, b);
        }
    }
    let mut steps = Vec::new();
    let ok = ok && catch_unwind(AssertUnwindSafe(|| set_state(&mut cpu, &s))).is_ok();
    for _ in 0..n {
        mem.start_step();
        let o = if ok {
            outcome(catch_unwind(AssertUnwindSafe(|| {
                cpu.execute_instruction(&mut mem)
            })))
        } else {
            PANICKED
        };
        let st = catch_unwind(AssertUnwindSafe(|| get_state(&cpu))).unwrap_or([0; 17]);
        let mut j = format!(
            "{{\"o\":{o},\"c\":{},\"w\":{}",
            nums(st),
            changes_json(&mem.changes())
        );
        if views {
            let v = catch_unwind(AssertUnwindSafe(|| {
                let b: Vec<i32> = (0..16).map(|r| cpu.read_br(br(r)) as i32).collect();
                let w: Vec<i32> = (0..16)
                    .map(|r| cpu.read_wr(wr(r)).map(|w| w as i32).unwrap_or(-1))
                    .collect();
                (b, w)
            }));
            let (b, w) = v.unwrap_or((vec![-99; 16], vec![-99; 16]));
            j.push_str(&format!(",\"vb\":{},\"vw\":{}", nums(b), nums(w)));
        }
        if let Some(p) = &ports {
            j.push_str(&format!(",\"io\":{}", p.take_json()));
        }
        j.push('}');
        steps.push(j);
        if o == PANICKED || (o >= 0 && !go_on) {
            break;
        }
    }
    let mut extra = String::new();
    if ports.is_some() {
        let g = |k: &str| nums(f.get(k).map(|s| hex_bytes(s)).unwrap_or_default());
        extra = format!(",\"k\":\"lazy\",\"rom\":{},\"in\":{}", g("rom"), g("in"));
    }
    println!(
        "{{\"id\":{},\"c\":{},\"mem\":{}{extra},\"st\":[{}]}}",
        jstr(&f["id"]),
        nums(s),
        mem_json(&m),
        steps.join(",")
    );
}

fn one(cpu: &mut Blf4, mem: &mut Flat, code: &[u8]) -> i32 {
    for (i, &b) in code.iter().enumerate() {
        mem.0.insert(0x1000 + i as u32, b);
    }
    cpu.program_counter = 0x1000;
    outcome(catch_unwind(AssertUnwindSafe(|| {
        cpu.execute_instruction(mem)
    })))
}

/// For one opcode, first operand and register choice, all 256 second operands.
/// fields: op a d e x y f   (d, e destinations; x, y operand registers; f flags before)
pub fn byte_tables() {
    for f in cases() {
        let g = |k: &str| hex(&f[k]) as u8;
        let (op, a, d, e, x, y) = (g("op"), g("a"), g("d"), g("e"), g("x"), g("y"));
        let four = f.contains_key("four");
        let code = if four {
            [op, d << 4 | e, x << 4 | y]
        } else {
            [op, d << 4 | x, y << 4]
        };
        let mut rows = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];
        for b in 0..=255u8 {
            let mut cpu = Blf4::new();
            let mut mem = Flat::default();
            let mut s = [0x5a3c; 17];
            s[14] = 0;
            s[13] = 0;
            s[16] = g("f") as u32;
            set_state(&mut cpu, &s);
            cpu.write_br(br(x), a);
            cpu.write_br(br(y), b);
            rows[3].push(one(&mut cpu, &mut mem, &code));
            rows[0].push(cpu.read_br(br(d)) as i32);
            rows[1].push(cpu.read_br(br(e)) as i32);
            rows[2].push(get_flags(&cpu) as i32);
        }
        println!(
            "{{\"id\":{},\"n\":8,\"op\":{op},\"a\":{a},\"bs\":[],\"f\":{},\"d\":{},\"e\":{},\"fl\":{},\"o\":{}}}",
            jstr(&f["id"]),
            g("f"),
            nums(&rows[0]),
            nums(&rows[1]),
            nums(&rows[2]),
            nums(&rows[3])
        );
    }
}

/// As byte_tables, for wide operations and the second operands in b (hex words)
pub fn wide_tables() {
    for f in cases() {
        let g = |k: &str| hex(&f[k]) as u8;
        let (op, d, e, x, y) = (g("op"), g("d"), g("e"), g("x"), g("y"));
        let a = hex(&f["a"]) as u16;
        let four = f.contains_key("four");
        let code = if four {
            [op, d << 4 | e, x << 4 | y]
        } else {
            [op, d << 4 | x, y << 4]
        };
        let bs: Vec<u16> = f["b"]
            .as_bytes()
            .chunks(4)
            .map(|c| hex(std::str::from_utf8(c).unwrap()) as u16)
            .collect();
        let mut rows = [Vec::new(), Vec::new(), Vec::new(), Vec::new()];
        for &b in &bs {
            let mut cpu = Blf4::new();
            let mut mem = Flat::default();
            let mut s = [0x5a3c; 17];
            s[14] = 0;
            s[13] = 0;
            s[16] = g("f") as u32;
            set_state(&mut cpu, &s);
            cpu.write_wr(wr(x), a).unwrap();
            cpu.write_wr(wr(y), b).unwrap();
            rows[3].push(one(&mut cpu, &mut mem, &code));
            rows[0].push(cpu.read_wr(wr(d)).unwrap() as i32);
            rows[1].push(cpu.read_wr(wr(e)).unwrap() as i32);
            rows[2].push(get_flags(&cpu) as i32);
        }
        println!(
            "{{\"id\":{},\"n\":16,\"op\":{op},\"a\":{a},\"bs\":{},\"f\":{},\"d\":{},\"e\":{},\"fl\":{},\"o\":{}}}",
            jstr(&f["id"]),
            nums(&bs),
            g("f"),
            nums(&rows[0]),
            nums(&rows[1]),
            nums(&rows[2]),
            nums(&rows[3])
        );
    }
}
