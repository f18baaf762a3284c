//! Containers with sections of one's own, written and read through the library
use crate::util::*;
use std::cell::RefCell;
use std::io::{BufReader, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use telda2::aalv::{sample::Name, AalvReader, AalvWriter, Section};

thread_local! {
    /// how sections are read: all (in one way or another, below 0), or exactly so many bytes
    static COUNT: RefCell<i64> = const { RefCell::new(-1) };
}
fn put<W: Write>(mut w: W, b: &[u8]) -> Result<()> {
    // in pieces, in different ways
    match b.len() % 4 {
        0 => w.write_all(b),
        1 => {
            for x in b.chunks(7) {
                w.write_all(x)?;
                w.flush()?;
            }
            Ok(())
        }
        2 => {
            let mut at = 0;
            while at < b.len() {
                match w.write(&b[at..(at + 5).min(b.len())])? {
                    0 => return Err(ErrorKind::WriteZero.into()),
                    n => at += n,
                }
            }
            Ok(())
        }
        _ => {
            let (x, y) = b.split_at(b.len() / 2);
            w.write_all(x)?;
            w.write_all(&[])?;
            w.write_all(y)
        }
    }
}
fn get<R: Read>(mut r: R) -> Result<Vec<u8>> {
    let n = COUNT.with_borrow(|c| *c);
    if n >= 0 {
        let mut v = vec![0; n as usize];
        for x in v.chunks_mut(11) {
            r.read_exact(x)?;
        }
        return Ok(v);
    }
    let mut v = Vec::new();
    let mut buf = vec![0; [13, 300, 70_000][(-n - 1) as usize % 3]];
    if n == -4 {
        r.read_to_end(&mut v)?;
        return Ok(v);
    }
    loop {
        match r.read(&mut buf)? {
            0 => return Ok(v),
            n => v.extend(&buf[..n]),
        }
    }
}
macro_rules! sections {
    ($($t:ident $n:expr),*) => { $(
        struct $t(Vec<u8>);
        impl Section for $t {
            const NAME: &'static str = $n;
            fn read<R: Read>(r: R) -> Result<Self> {
                get(r).map($t)
            }
            fn write<W: Write>(&self, w: W) -> Result<()> {
                put(w, &self.0)
            }
        }
    )* }
}
const LONG: &str = "a name that is longer than most names of sections are and that goes on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on and on.";
sections!(A "a", Ab "ab", Seg "_seg", Foreign "þættir álvur2\n", Long LONG, Blank " ", Empty "", Zeroed "a\0b", Absent "b", Capital "A", Spaced "a ");

fn write_to<W: Write + Seek>(w: &mut AalvWriter<W>, t: u32, b: Vec<u8>) -> Result<()> {
    match t {
        0 => w.write_section(&A(b)),
        1 => w.write_section(&Ab(b)),
        2 => w.write_section(&Seg(b)),
        3 => w.write_section(&Foreign(b)),
        4 => w.write_section(&Long(b)),
        5 => w.write_section(&Blank(b)),
        6 => w.write_section(&Name(String::from_utf8(b).map_err(|_| Error::from(ErrorKind::InvalidData))?)),
        7 => w.write_section(&Empty(b)),
        8 => w.write_section(&Zeroed(b)),
        9 => w.write_section(&Absent(b)),
        10 => w.write_section(&Capital(b)),
        _ => w.write_section(&Spaced(b)),
    }
}
/// Takes only so many bytes at a time
struct Stingy<W>(W, usize);
impl<W: Write> Write for Stingy<W> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.0.write(&b[..b.len().min(self.1)])
    }
    fn flush(&mut self) -> Result<()> {
        self.0.flush()
    }
}
impl<W: Seek> Seek for Stingy<W> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}
type R = AalvReader<BufReader<Cursor<Vec<u8>>>>;
fn read_from(r: &mut R, t: u32) -> Option<Result<Vec<u8>>> {
    match t {
        0 => r.read_section::<A>().map(|s| s.map(|s| s.0)),
        1 => r.read_section::<Ab>().map(|s| s.map(|s| s.0)),
        2 => r.read_section::<Seg>().map(|s| s.map(|s| s.0)),
        3 => r.read_section::<Foreign>().map(|s| s.map(|s| s.0)),
        4 => r.read_section::<Long>().map(|s| s.map(|s| s.0)),
        5 => r.read_section::<Blank>().map(|s| s.map(|s| s.0)),
        6 => r.read_section::<Name>().map(|s| s.map(|s| s.0.into_bytes())),
        9 => r.read_section::<Absent>().map(|s| s.map(|s| s.0)),
        10 => r.read_section::<Capital>().map(|s| s.map(|s| s.0)),
        _ => r.read_section::<Spaced>().map(|s| s.map(|s| s.0)),
    }
}

/// `c<i>`: gap/type:content/type:content.. ; `tail`; `buf` size of the reader's buffer;
/// `ops`: o, t<type>:<count>, r, l
pub fn container_cases() {
    for f in cases() {
        let mut file = Cursor::new(Vec::new());
        let mut acc = Vec::new();
        for c in (0..).map_while(|i| f.get(&format!("c{i}"))) {
            let mut parts = c.split('/');
            file.seek(SeekFrom::End(0)).unwrap();
            file.write_all(&hex_bytes(parts.next().unwrap())).unwrap();
            let at = file.position();
            let mut w = AalvWriter::new(Stingy(&mut file, [3, 100, usize::MAX][at as usize / 2 % 3]), at).expect("a buffer");
            let mut these = Vec::new();
            for p in parts {
                let (t, b) = p.split_once(':').unwrap();
                let (t, b) = (hex(t), hex_bytes(b));
                let ok = catch_unwind(AssertUnwindSafe(|| write_to(&mut w, t, b).is_ok())).unwrap_or(false);
                these.push(ok as u8);
            }
            if at % 2 == 0 {
                drop(w);
            } else {
                w.finish().expect("a buffer");
            }
            acc.push(nums(these));
        }
        file.seek(SeekFrom::End(0)).unwrap();
        file.write_all(&hex_bytes(&f["tail"])).unwrap();
        let bytes = file.into_inner();
        let mut res: Vec<String> = Vec::new();
        let mut stream = Some(BufReader::with_capacity(hex(&f["buf"]) as usize, Cursor::new(bytes.clone())));
        let mut reader: Option<R> = None;
        for op in f["ops"].split(',').filter(|o| !o.is_empty()) {
            let o = catch_unwind(AssertUnwindSafe(|| match &op[..1] {
                "o" => match AalvReader::new(stream.take().unwrap()) {
                    Ok(r) => {
                        let o = r.file_offset;
                        reader = Some(r);
                        format!("[\"ok\",{o}]")
                    }
                    Err(_) => "[\"err\"]".into(),
                },
                "t" => {
                    let (t, n) = op[1..].split_once(':').unwrap();
                    COUNT.set(n.parse().unwrap());
                    match read_from(reader.as_mut().unwrap(), hex(t)) {
                        None => "[\"none\"]".into(),
                        Some(Err(_)) => "[\"err\"]".into(),
                        Some(Ok(b)) => format!("[\"ok\",{}]", nums(b)),
                    }
                }
                "r" => {
                    let v: Vec<String> = reader.as_ref().unwrap().remaing_sections().map(|n| nums(n.bytes())).collect();
                    format!("[\"ok\",[{}]]", v.join(","))
                }
                _ => match reader.take().unwrap().end() {
                    Ok(mut s) => {
                        let p = s.stream_position().unwrap();
                        stream = Some(s);
                        format!("[\"ok\",{p}]")
                    }
                    Err(_) => "[\"err\"]".into(),
                },
            }))
            .unwrap_or("[\"panic\"]".into());
            let go = o.starts_with("[\"ok") || (op.starts_with('t') && !o.contains("panic"));
            res.push(o);
            if !go {
                break;
            }
        }
        println!(
            "{{\"id\":{},\"acc\":[{}],\"b\":{},\"res\":[{}]}}",
            jstr(&f["id"]),
            acc.join(","),
            nums(bytes),
            res.join(",")
        );
    }
}
