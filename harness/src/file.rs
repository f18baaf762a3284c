//! Writing and reading object files and archives with the library.
use crate::obj::{object_json, parse_object};
use crate::util::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::aalv::obj::{BinarySegment, Object};
use telda2::aalv::{self, read_archive};

/// "null" for an error, "[]" if reading did not return
fn read_json(path: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| Object::from_file(path))) {
        Ok(Ok(o)) => object_json(&o),
        Ok(Err(_)) => "{\"error\":1}".to_owned(),
        Err(_) => "{\"panic\":1}".to_owned(),
    }
}
/// 0 error, 1 object, 2 panic
fn read_code(path: &str) -> u8 {
    match catch_unwind(AssertUnwindSafe(|| Object::from_file(path))) {
        Ok(Ok(_)) => 1,
        Ok(Err(_)) => 0,
        Err(_) => 2,
    }
}

fn put(path: &str, bytes: &[u8]) {
    std::fs::write(path, bytes).expect("scratch file");
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n.max(1)
    }
}

fn damaged(bytes: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut b = bytes.to_vec();
    for _ in 0..1 + r.next(3) {
        if b.is_empty() {
            b.push(0);
        }
        let i = r.next(b.len());
        match r.next(7) {
            0 => b[i] = 0,
            1 => b[i] = 0xff,
            2 => b[i] = r.next(256) as u8,
            3 => b[i] ^= 1 << r.next(8),
            4 => {
                b.remove(i);
            }
            5 => b.insert(i, r.next(256) as u8),
            _ => {
                let j = (i + 1 + r.next(8)).min(b.len());
                b.drain(i..j);
            }
        }
    }
    b
}

fn by_hand(o: &Object, path: &str) -> std::io::Result<()> {
    let mut w = aalv::write_aalv_file_with_offset(path, o.file_offset)?;
    if let Some(x) = &o.entry {
        w.write_section(x)?;
    }
    if let Some(x) = &o.flags {
        w.write_section(x)?;
    }
    if let Some(x) = &o.stack_size {
        w.write_section(x)?;
    }
    if let Some(x) = &o.heap_size {
        w.write_section(x)?;
    }
    for (&stype, (offset, bytes)) in &o.segs {
        w.write_section(&BinarySegment { stype, offset: *offset, bytes: bytes.clone() })?;
    }
    if !o.symbols.0.is_empty() {
        w.write_section(&o.symbols)?;
    }
    if !o.relocation_table.0.is_empty() {
        w.write_section(&o.relocation_table)?;
    }
    Ok(())
}

/// Writes each object behind its prefix (over whatever `old` is there) and reads it back;
/// with `cut` also every strict prefix, with `dmg=seed:n` damaged variants.
pub fn obj_cases() {
    for f in cases() {
        let path = "o.to";
        let pre = f.get("pre").map(|s| hex_bytes(s)).unwrap_or_default();
        let old = f.get("old").map(|s| hex_bytes(s)).unwrap_or_default();
        let _ = std::fs::remove_file(path);
        if !pre.is_empty() || !old.is_empty() {
            put(path, &[&pre[..], &old[..]].concat());
        }
        let mut o = parse_object(&f);
        o.file_offset = pre.len() as u64;
        let wrote = match catch_unwind(AssertUnwindSafe(|| o.write_to_file(path))) {
            Ok(Ok(())) => 1,
            Ok(Err(_)) => 0,
            Err(_) => 2,
        };
        let bytes = std::fs::read(path).unwrap_or_default();
        let read = read_json(path);
        // the same sections through a writer that is only dropped
        let byhand = if wrote == 1 {
            let _ = std::fs::remove_file("h.to");
            if !pre.is_empty() || !old.is_empty() {
                put("h.to", &[&pre[..], &old[..]].concat());
            }
            match catch_unwind(AssertUnwindSafe(|| by_hand(&o, "h.to"))) {
                Ok(Ok(())) => (read_json("h.to") == read) as u8,
                _ => 2,
            }
        } else {
            1
        };
        let mut cuts = Vec::new();
        if f.contains_key("cut") {
            let step = f["cut"].parse::<usize>().unwrap();
            let mut i = 0;
            while i < bytes.len() {
                put("c.to", &bytes[..i]);
                cuts.push(read_code("c.to"));
                i += if i < 400 || i + 64 > bytes.len() { 1 } else { step };
            }
        }
        let mut dmg = Vec::new();
        let mut bad = Vec::new();
        if let Some(d) = f.get("dmg") {
            let (seed, n) = d.split_once(':').unwrap();
            let mut r = Rng(seed.parse().unwrap());
            for _ in 0..n.parse::<usize>().unwrap() {
                let b = damaged(&bytes, &mut r);
                put("c.to", &b);
                let code = read_code("c.to");
                if code == 2 {
                    bad = b;
                }
                dmg.push(code);
            }
        }
        println!(
            "\n{{\"id\":{},\"obj\":{},\"pre\":{},\"wrote\":{wrote},\"bytes\":{},\"byhand\":{byhand},\"read\":{read},\"cuts\":{},\"dmg\":{},\"bad\":{}}}",
            jstr(&f["id"]),
            object_json(&o),
            nums(pre),
            nums(bytes),
            nums(cuts),
            nums(dmg),
            nums(bad)
        );
    }
}

/// Reads given bytes as an object.
pub fn read_cases() {
    for f in cases() {
        let b = hex_bytes(&f["bytes"]);
        put("r.to", &b);
        println!("\n{{\"id\":{},\"bytes\":{},\"read\":{}}}", jstr(&f["id"]), nums(b), read_json("r.to"));
    }
}

/// Reads the object file or archive at `path` and reports what is in it.
pub fn show_cases() {
    for f in cases() {
        println!("\n{{\"id\":{},\"read\":{}}}", jstr(&f["id"]), read_json(&f["path"]));
    }
}

/// Writes the object to `path`, behind the prefix if there is one.
pub fn put_cases() {
    for f in cases() {
        let pre = f.get("pre").map(|s| hex_bytes(s)).unwrap_or_default();
        let _ = std::fs::remove_file(&f["path"]);
        if !pre.is_empty() {
            put(&f["path"], &pre);
        }
        let mut o = parse_object(&f);
        o.file_offset = pre.len() as u64;
        let ok = o.write_to_file(&f["path"]).is_ok() as u8;
        println!("\n{{\"id\":{},\"wrote\":{ok},\"obj\":{}}}", jstr(&f["id"]), object_json(&o));
    }
}

fn archive(path: &str) -> (Vec<String>, &'static str) {
    let mut objs = Vec::new();
    let mut it = match catch_unwind(AssertUnwindSafe(|| read_archive(path))) {
        Ok(Ok(it)) => it,
        Ok(Err(_)) => return (objs, "error"),
        Err(_) => return (objs, "panic"),
    };
    loop {
        match catch_unwind(AssertUnwindSafe(|| it.next(|r| Object::from_aalv_reader(r)))) {
            Ok(Ok(Some(o))) => objs.push(object_json(&o)),
            Ok(Ok(None)) => return (objs, "end"),
            Ok(Err(_)) => return (objs, "error"),
            Err(_) => return (objs, "panic"),
        }
    }
}

/// Reads the archive at `path`, and its strict prefixes (every `cut`th, and all of a short one).
pub fn archive_cases() {
    for f in cases() {
        let bytes = std::fs::read(&f["path"]).unwrap_or_default();
        let (objs, end) = archive(&f["path"]);
        let mut cuts = Vec::new();
        if let Some(step) = f.get("cut") {
            let step: usize = step.parse().unwrap();
            for i in (0..bytes.len()).step_by(step) {
                put("c.savn", &bytes[..i]);
                let (o, e) = archive("c.savn");
                let same = o.len() <= objs.len() && o[..] == objs[..o.len()];
                cuts.push(format!("[{i},{},\"{}\"]", o.len(), if same { e } else { "other" }));
            }
        }
        println!(
            "\n{{\"id\":{},\"bytes\":{},\"objs\":[{}],\"end\":\"{end}\",\"cuts\":[{}]}}",
            jstr(&f["id"]),
            nums(bytes),
            objs.join(","),
            cuts.join(",")
        );
    }
}
