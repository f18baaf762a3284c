//! A machine whose emulated kernel is of one's own: it follows a script.
use crate::cpu::*;
use crate::util::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use telda2::blf4::*;
use telda2::machine::{EmulatedKernel, Machine};
use telda2::mem::MainMemory;

/// Ends programs that would never end by themselves: reads in one operation
const READS: u32 = 6000;
const ENDLESS: i32 = -3;
thread_local!(static LEFT: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) });
struct Bounded(Flat);
impl MainMemory for Bounded {
    fn read(&mut self, addr: u32) -> u8 {
        let left = LEFT.get();
        assert!(left > 0);
        if left <= READS {
            LEFT.set(left - 1);
        }
        self.0.read(addr)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        self.0.write(addr, byte)
    }
}

fn trap_of(n: u32) -> TrapMode {
    use TrapMode::*;
    *[
        Invalid, SysCall, ZeroDiv, Halt, Level1PageFault, Level2PageFault, IllegalOperation, IllegalRead,
        IllegalWrite, IllegalExecute, IllegalHandlerReturn,
    ]
    .iter()
    .find(|&&t| t as u8 as u32 == n)
    .expect("trap number in case")
}

type Script = Rc<RefCell<VecDeque<String>>>;
struct Hook {
    id: usize,
    script: Script,
    asked: Rc<RefCell<Vec<String>>>,
}
impl EmulatedKernel<Blf4> for Hook {
    fn handle_trap(&mut self, tm: TrapMode, cpu: &mut Blf4, mem: &mut dyn MainMemory) -> Result<(), TrapMode> {
        self.asked
            .borrow_mut()
            .push(format!("[{},{},{}]", self.id, tm as u8, nums(get_state(cpu))));
        // its script is over
        let Some(act) = self.script.borrow_mut().pop_front() else {
            return Err(tm);
        };
        let mut verdict = Ok(());
        for edit in act.split(';') {
            let (k, v) = edit.split_once(':').expect("edit");
            let v = hex(v);
            match &k[..1] {
                "g" => verdict = Ok(()),
                "t" => verdict = Err(trap_of(v)),
                "p" => cpu.program_counter = v as u16,
                "f" => set_flags(cpu, v),
                "m" => mem.write(hex(&k[1..]), v as u8),
                "r" => {
                    let n: usize = k[1..].parse().unwrap();
                    let mut s = get_state(cpu);
                    s[n - 1] = v;
                    let flags = s[16];
                    set_state(cpu, &s);
                    set_flags(cpu, flags);
                }
                _ => unreachable!(),
            }
        }
        verdict
    }
}

/// `ops` are s (a step), r (to the end) and i<n> (install kernel n); `k<n>` are the scripts
pub fn hook_cases() {
    for f in cases() {
        let s = parse_state(&f);
        let mut mem = Bounded(Flat::default());
        let m = parse_mem(&f);
        for (a, bs) in &m {
            for (i, &b) in bs.iter().enumerate() {
                mem.write(a + i as u32, b);
            }
        }
        let mut cpu = Blf4::new();
        set_state(&mut cpu, &s);
        let mut w = Machine::new(Recorder::new(mem, 0), cpu);
        let asked = Rc::new(RefCell::new(Vec::new()));
        let scripts: Vec<Script> = (1..)
            .map_while(|k| f.get(&format!("k{k}")))
            .map(|s| Rc::new(RefCell::new(s.split('|').filter(|a| !a.is_empty()).map(|a| a.to_owned()).collect())))
            .collect();
        let mut steps = Vec::new();
        for op in f["ops"].split(',') {
            w.memory.start_step();
            LEFT.set(READS);
            let o = catch_unwind(AssertUnwindSafe(|| match &op[..1] {
                "s" => match w.execute_once() {
                    Ok(()) => -1,
                    Err(tm) => tm as u8 as i32,
                },
                "r" => w.run_until_abort() as u8 as i32,
                _ => {
                    let id: usize = op[1..].parse().unwrap();
                    w.install_emulated_kernel(Hook {
                        id,
                        script: scripts[id - 1].clone(),
                        asked: asked.clone(),
                    }) as i32
                }
            }))
            .unwrap_or(if LEFT.get() == 0 { ENDLESS } else { PANICKED });
            LEFT.set(u32::MAX);
            let asks: Vec<String> = asked.borrow_mut().drain(..).collect();
            steps.push(format!(
                "{{\"o\":{o},\"c\":{},\"w\":{},\"asks\":[{}]}}",
                nums(get_state(&w.cpu)),
                changes_json(&w.memory.changes()),
                asks.join(",")
            ));
            if o == PANICKED || o == ENDLESS {
                break;
            }
        }
        println!(
            "{{\"id\":{},\"c\":{},\"mem\":{},\"st\":[{}]}}",
            jstr(&f["id"]),
            nums(s),
            mem_json(&m),
            steps.join(",")
        );
    }
}

/// What a kernel does through the processor's context; a value or a trap after each operation
pub fn context_cases() {
    for f in cases() {
        let s = parse_state(&f);
        let m = parse_mem(&f);
        let mut flat = Flat::default();
        for (a, bs) in &m {
            for (i, &b) in bs.iter().enumerate() {
                flat.write(a + i as u32, b);
            }
        }
        let mut mem = Recorder::new(flat, 0);
        let mut cpu = Blf4::new();
        set_state(&mut cpu, &s);
        let mut steps = Vec::new();
        for op in f["ops"].split(',') {
            mem.start_step();
            let a: Vec<u32> = op.split(':').skip(1).map(hex).collect();
            let o = catch_unwind(AssertUnwindSafe(|| {
                let mut x = cpu.context(&mut mem);
                let byte = |r: Result<u8, TrapMode>| r.map(|b| b as u32);
                let wide = |r: Result<u16, TrapMode>| r.map(|w| w as u32);
                let none = |r: Result<(), TrapMode>| r.map(|()| 0);
                match op.split(':').next().unwrap() {
                    // users have not all registers
                    "save" | "restore" if x.cpu.flags.user_mode => Ok(0),
                    "read" => byte(x.read(a[0] as u16)),
                    "write" => none(x.write(a[0] as u16, a[1] as u8)),
                    "readw" => wide(x.read_wide(a[0] as u16)),
                    "writew" => none(x.write_wide(a[0] as u16, a[1] as u16)),
                    "fetch" => byte(x.fetch()),
                    "pread" => byte(x.physical_read(a[0])),
                    "pwrite" => none(x.physical_write(a[0], a[1] as u8)),
                    "pushw" => none(x.pushw(a[0] as u16)),
                    "pushb" => none(x.pushb(a[0] as u8)),
                    "popw" => wide(x.popw()),
                    "popb" => byte(x.popb()),
                    "save" => none(x.push_registers(Blf4Flags::from(a[0] as u16))),
                    "restore" => none(x.pop_registers()),
                    "getw" => wide(x.cpu.read_wr(wr(a[0] as u8))),
                    "setw" => none(x.cpu.write_wr(wr(a[0] as u8), a[1] as u16)),
                    "getb" => Ok(x.cpu.read_br(ByteRegister(telda2::U4::new(a[0] as u8))) as u32),
                    "setb" => {
                        x.cpu.write_br(ByteRegister(telda2::U4::new(a[0] as u8)), a[1] as u8);
                        Ok(0)
                    }
                    _ => unreachable!(),
                }
            }));
            let (t, v) = match o {
                Ok(Ok(v)) => (-1, v),
                Ok(Err(tm)) => (tm as u8 as i32, 0),
                Err(_) => (PANICKED, 0),
            };
            steps.push(format!(
                "{{\"o\":{t},\"v\":{v},\"c\":{},\"w\":{}}}",
                nums(get_state(&cpu)),
                changes_json(&mem.changes())
            ));
            if t == PANICKED {
                break;
            }
        }
        println!(
            "{{\"id\":{},\"c\":{},\"mem\":{},\"st\":[{}]}}",
            jstr(&f["id"]),
            nums(s),
            mem_json(&m),
            steps.join(",")
        );
    }
}
