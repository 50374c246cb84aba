//! P03: process_file on streams with symbolic faults.
use super::common::*;
use crate::processing::{process, process_file};
use std::io::{self, ErrorKind, Read, Write};

struct In { data: Vec<u8>, pos: usize, faults: u32, failed: bool }
impl Read for In {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = std::cmp::min(self.data.len() - self.pos, buf.len());
        let mut n = left;
        if self.faults > 0 {
            match concretize(range(0, 3)) {
                1 => { self.faults -= 1; cover(1); return Err(ErrorKind::Interrupted.into()); }
                2 => { self.faults -= 1; self.failed = true; cover(2); return Err(ErrorKind::Other.into()); }
                3 => { if left > 1 { self.faults -= 1; n = concretize(range(1, std::cmp::min(left as u64 - 1, 4))) as usize; cover(3); } }
                _ => {}
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Out { data: Vec<u8>, faults: u32, failed: bool, interrupted: bool }
impl Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if self.faults > 0 && n > 0 {
            match concretize(range(0, 4)) {
                1 => { self.faults -= 1; self.interrupted = true; cover(4); return Err(ErrorKind::Interrupted.into()); }
                2 => { self.faults -= 1; self.failed = true; cover(5); return Err(ErrorKind::Other.into()); }
                3 => { if n > 1 { self.faults -= 1; n = concretize(range(1, std::cmp::min(n as u64 - 1, 4))) as usize; cover(6); } }
                4 => { self.faults -= 1; self.failed = true; cover(7); return Ok(0); }
                _ => {}
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.faults > 0 && concretize(range(0, 1)) == 1 { self.faults -= 1; self.failed = true; cover(8); return Err(ErrorKind::Other.into()); }
        Ok(())
    }
}

/// The lines of the input, processed, each with one newline.
fn expected(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..=data.len() {
        if i == data.len() || data[i] == b'\n' {
            if i > start || i < data.len() {
                let line = std::str::from_utf8(&data[start..i]).unwrap();
                out.extend_from_slice(process(line).as_bytes());
                out.push(b'\n');
            }
            start = i + 1;
        }
    }
    out
}

fn run(data: Vec<u8>, rf: u32, wf: u32) {
    let want = expected(&data);
    let mut i = In { data, pos: 0, faults: rf, failed: false };
    let mut o = Out { data: vec![], faults: wf, failed: false, interrupted: false };
    let r = process_file(&mut i, &mut o);
    let complete = same(&o.data, &want);
    check(complete || r.is_err(), "P03 success is only reported when the complete output was delivered");
    check(r.is_ok() || i.failed || o.failed || o.interrupted, "P03 no error without a failing stream");
    if r.is_ok() { cover(10); } else { cover(11); }
    observe(r.is_ok() as u64);
    observe_bytes(&o.data);
}

/// params: length of the text, read faults, write faults, length of a leading run of letters (lo, hi), letters per line
#[no_mangle]
pub extern "C" fn h03_faults() {
    let n = param(0) as usize;
    let pad = concretize(range(param(3), param(4))) as usize;
    let mut data = vec![b'q'; pad];
    for _ in 0..n { data.push(pick(b"aB \n")); }
    run(data, param(1) as u32, param(2) as u32);
}

/// Characters of several bytes and invalid UTF-8: bytes from a small alphabet; params: length
#[no_mangle]
pub extern "C" fn h03_bytes() {
    let n = param(0) as usize;
    let mut data = Vec::new();
    for _ in 0..n { data.push(pick(b"a\n\xc3\x89\xff")); }
    let valid = std::str::from_utf8(&data).is_ok();
    let want = if valid { expected(&data) } else { vec![] };
    let mut i = In { data, pos: 0, faults: param(1) as u32, failed: false };
    let mut o = Out { data: vec![], faults: 0, failed: false, interrupted: false };
    let r = process_file(&mut i, &mut o);
    if valid {
        cover(20);
        check(same(&o.data, &want) || (r.is_err() && i.failed), "P03 text with multi-byte characters is processed completely");
    } else {
        cover(21);
        check(r.is_err(), "P03 input that is not UTF-8 is reported");
    }
    observe(r.is_ok() as u64);
    observe_bytes(&o.data);
}

/// The process command, also onto a file that is there already. params: characters (lo, hi), what the output held (hi)
#[no_mangle]
pub extern "C" fn h03_command() {
    let n = concretize(range(param(0), param(1)));
    let mut data = Vec::new();
    for _ in 0..n { data.push(pick(b"aB \n")); }
    std::fs::write("in.txt", &data).unwrap();
    let had = concretize(range(0, param(2)));
    if had > 0 { std::fs::write("out.txt", vec![b'z'; if had == 1 { 1 } else { 50 }]).unwrap(); }
    crate::process("in.txt", "out.txt");
    let got = std::fs::read("out.txt").unwrap();
    check(same(&got, &expected(&data)), "P03 the output file holds the processed lines and nothing else");
    check(same(&std::fs::read("in.txt").unwrap(), &data), "P03 the input file is left as it is");
    cover(30 + had);
    observe_bytes(&got);
}
