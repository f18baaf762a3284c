//! Stand-ins around the machine: ports that log, memory that remembers what a step changed.
use crate::util::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use telda2::mem::{Io, LazyMain, MainMemory};

#[derive(Default)]
pub struct Log {
    pub input: VecDeque<u8>,
    pub log: Vec<[u32; 3]>,
}
#[derive(Clone, Default)]
pub struct Ports(pub Rc<RefCell<Log>>);
impl Ports {
    pub fn new(input: Vec<u8>) -> Self {
        let p = Ports::default();
        p.0.borrow_mut().input.extend(input);
        p
    }
    pub fn take_json(&self) -> String {
        let v: Vec<String> = self.0.borrow_mut().log.drain(..).map(nums).collect();
        format!("[{}]", v.join(","))
    }
}
impl Io for Ports {
    fn read(&mut self, addr: u8) -> u8 {
        let mut l = self.0.borrow_mut();
        let v = l.input.pop_front().unwrap_or(0);
        l.log.push([0, addr as u32, v as u32]);
        v
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.0.borrow_mut().log.push([1, addr as u32, val as u32]);
    }
}

/// RAM at every address
#[derive(Default)]
pub struct Flat(pub HashMap<u32, u8>);
impl MainMemory for Flat {
    fn read(&mut self, addr: u32) -> u8 {
        *self.0.get(&addr).unwrap_or(&0)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        self.0.insert(addr, byte);
    }
}

/// Remembers what the addresses written since start_step held before
pub struct Recorder<M> {
    pub inner: M,
    first_plain: u32,
    before: BTreeMap<u32, u8>,
    pub touched: BTreeMap<u32, ()>,
}
impl<M: MainMemory> Recorder<M> {
    /// addresses below first_plain are ports
    pub fn new(inner: M, first_plain: u32) -> Self {
        Recorder {
            inner,
            first_plain,
            before: BTreeMap::new(),
            touched: BTreeMap::new(),
        }
    }
    pub fn start_step(&mut self) {
        self.before.clear();
    }
    pub fn changes(&mut self) -> Vec<(u32, u8)> {
        let inner = &mut self.inner;
        self.before
            .iter()
            .map(|(&a, &old)| (a, old, inner.read(a)))
            .filter(|&(_, old, new)| old != new)
            .map(|(a, _, new)| (a, new))
            .collect()
    }
}
impl<M: MainMemory> MainMemory for Recorder<M> {
    fn read(&mut self, addr: u32) -> u8 {
        self.inner.read(addr)
    }
    fn write(&mut self, addr: u32, byte: u8) {
        if addr >= self.first_plain {
            let old = self.inner.read(addr);
            self.before.entry(addr).or_insert(old);
            self.touched.insert(addr, ());
        }
        self.inner.write(addr, byte);
    }
}

/// Boot image byte i of the pattern (a, b)
pub fn pattern(i: u32, a: u32, b: u32) -> u8 {
    (i * a + (i >> 8) * b + 7) as u8
}

/// Reads and writes of the machine's memory.
pub fn mem_cases() {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    for f in cases() {
        let ports = Ports::new(f.get("in").map(|s| hex_bytes(s)).unwrap_or_default());
        let p2 = ports.clone();
        let rom: Option<Vec<u32>> = f
            .get("rom")
            .map(|r| r.split(',').map(|x| x.parse().unwrap()).collect());
        let made = catch_unwind(AssertUnwindSafe(|| {
            let m = LazyMain::new(p2);
            match &rom {
                Some(r) => {
                    let image: Vec<u8> = (0..r[0]).map(|i| pattern(i, r[1], r[2])).collect();
                    m.with_rom(&image)
                }
                None => m,
            }
        }));
        let mut res: Vec<i32> = Vec::new();
        let mut ops: Vec<String> = Vec::new();
        if let Ok(mut m) = made {
            for op in f["ops"].split(',').filter(|o| !o.is_empty()) {
                let write = &op[..1] == "w";
                let (a, v) = op[1..].split_once(':').unwrap_or((&op[1..], "0"));
                let (a, v) = (hex(a), hex(v));
                ops.push(nums([write as u32, a, v]));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if write {
                        m.write(a, v as u8);
                        -1
                    } else {
                        m.read(a) as i32
                    }
                }));
                res.push(r.unwrap_or(-99));
            }
        } else {
            ops.push("[0,0,0]".to_owned());
            res.push(-99);
        }
        println!(
            "{{\"id\":{},\"rom\":{},\"in\":{},\"ops\":[{}],\"res\":{},\"io\":{}}}",
            jstr(&f["id"]),
            nums(rom.unwrap_or_default()),
            nums(f.get("in").map(|s| hex_bytes(s)).unwrap_or_default()),
            ops.join(","),
            nums(res),
            ports.take_json()
        );
    }
}
