//! P07, P08, P09: samplers.
use super::common::*;
use crate::input::file_sampler::FileSampler;
use crate::input::memory_sampler::MemorySampler;
use crate::input::sample::Sampler;

const CHARS: [&str; 7] = ["a", "\n", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0", "\r"];
/// A text of n characters of the first k classes.
fn text(n: u64, k: u64) -> Vec<u8> {
    let mut t = vec![];
    for _ in 0..n {
        let c = concretize(range(0, k - 1));
        match c {
            // any character of that encoded length
            0 => { let b = byte(); assume((b < 128) & (b != b'\n')); t.push(b); }
            1 => t.push(b'\n'),
            2 => { let (x, y) = (byte(), byte()); assume((x >= 0xc2) & (x <= 0xdf) & (y >= 0x80) & (y <= 0xbf)); t.push(x); t.push(y); }
            3 => { let (x, y, z) = (byte(), byte(), byte()); assume((x >= 0xe1) & (x <= 0xec) & (y >= 0x80) & (y <= 0xbf) & (z >= 0x80) & (z <= 0xbf)); t.push(x); t.push(y); t.push(z); }
            4 => { let (x, y, z, w) = (byte(), byte(), byte(), byte()); assume((x >= 0xf1) & (x <= 0xf3) & (y >= 0x80) & (y <= 0xbf) & (z >= 0x80) & (z <= 0xbf) & (w >= 0x80) & (w <= 0xbf)); t.push(x); t.push(y); t.push(z); t.push(w); }
            _ => t.extend_from_slice(CHARS[c as usize].as_bytes()),
        }
    }
    t
}
fn samples<'a, S: Sampler<'a>>(s: &'a S, max: usize) -> Option<Vec<Vec<u8>>> {
    let mut r = vec![];
    for x in s.iter() {
        r.push(x.as_bytes().to_vec());
        if r.len() > max { return None; }
    }
    Some(r)
}
fn check_samples(t: &[u8], got: &Option<Vec<Vec<u8>>>, chunk: usize) {
    check(got.is_some(), "no more samples than bytes");
    let got = match got { Some(x) => x, None => return };
    let mut all = vec![];
    for s in got.iter() {
        check(!s.is_empty(), "samples are not empty");
        check(s.len() <= chunk, "no sample is longer than the chunk size");
        all.extend_from_slice(s);
    }
    check(same(&all, t), "the samples together are the data");
    if !same(&all, t) { return; }
    let mut end = 0;
    for s in got.iter() {
        end += s.len();
        if end == t.len() { break; }
        // a blank line: two newlines within the sample
        let mut last = 0;
        for i in 1..s.len() { if s[i] == 10 && s[i - 1] == 10 { last = i + 1; } }
        check(last == 0 || last == s.len(), "a sample that is cut and has a blank line ends after one");
        if last > 0 { cover(2); } else { cover(3); }
    }
    if got.len() > 1 { cover(1); }
    observe(got.len() as u64);
}

/// params: characters (lo, hi), classes of characters, chunk sizes (lo, hi)
#[no_mangle]
pub extern "C" fn h07_memory() {
    let n = concretize(range(param(0), param(1)));
    let t = text(n, param(2));
    let chunk = concretize(range(param(3), param(4))) as usize;
    let s = MemorySampler::from_str(unsafe { std::str::from_utf8_unchecked(&t) }, chunk);
    check(s.total_size() == t.len() as u64, "P07 the total size is the size of the data");
    let a = samples(&s, t.len());
    check_samples(&t, &a, chunk);
    let b = samples(&s, t.len());
    let mut eq = a.is_some() == b.is_some();
    if let (Some(a), Some(b)) = (&a, &b) { eq = a.len() == b.len(); if eq { for i in 0..a.len() { eq &= same(&a[i], &b[i]); } } }
    check(eq, "P07 iterating again yields the same");
}
/// The same for a sampler over a file.
#[no_mangle]
pub extern "C" fn h07_memory_file() {
    let n = concretize(range(param(0), param(1)));
    let t = text(n, param(2));
    let chunk = concretize(range(param(3), param(4))) as usize;
    std::fs::write("data.txt", &t).unwrap();
    let s = MemorySampler::from_file("data.txt", chunk);
    check(s.total_size() == t.len() as u64, "P07 the total size is the size of the data");
    check_samples(&t, &samples(&s, t.len()), chunk);
}
/// params: characters (lo, hi), classes of characters, sample sizes (lo, hi)
#[no_mangle]
pub extern "C" fn h08_file() {
    let n = concretize(range(param(0), param(1)));
    let t = text(n, param(2));
    let chunk = concretize(range(param(3), param(4))) as usize;
    std::fs::write("data.txt", &t).unwrap();
    let s = FileSampler::new("data.txt", chunk, None);
    check(s.total_size() == t.len() as u64, "P08 the total size is the size of the file");
    check_samples(&t, &samples(&s, t.len()), chunk);
    check_samples(&t, &samples(&s, t.len()), chunk);
}
/// Data around a sample size above the usual: params: letters before (lo, hi), characters, classes, sample size
#[no_mangle]
pub extern "C" fn h08_long() {
    let k = concretize(range(param(0), param(1)));
    let mut t = vec![b'x'; k as usize];
    t.extend_from_slice(&text(param(2), param(3)));
    let chunk = param(4) as usize;
    std::fs::write("data.txt", &t).unwrap();
    let s = FileSampler::new("data.txt", chunk, None);
    check_samples(&t, &samples(&s, 64), chunk);
    let s = MemorySampler::from_file("data.txt", chunk);
    check_samples(&t, &samples(&s, 64), chunk);
}

/// The paragraphs of a text, by definition.
fn paragraphs(t: &[u8]) -> Vec<&[u8]> {
    let mut r = vec![];
    let mut start = 0;
    for i in 2..t.len() {
        if t[i - 2] == 10 && t[i - 1] == 10 && t[i] != 10 { r.push(&t[start..i]); start = i; }
    }
    if start < t.len() { r.push(&t[start..]); }
    r
}
/// params: characters, classes of characters (2: letter, newline), largest target, extra letters per letter
#[no_mangle]
pub extern "C" fn h09_subsample() {
    let n = concretize(range(0, param(0)));
    let mut t = vec![];
    for _ in 0..n {
        let c = concretize(range(0, param(1) - 1));
        match c {
            0 => { let b = byte(); assume((b < 128) & (b != b'\n')); t.push(b); }
            1 => t.push(b'\n'),
            2 => { let b = byte(); assume((b < 128) & (b != b'\n')); for _ in 0..5 { t.push(b); } }
            _ => t.extend_from_slice("\u{e9}".as_bytes()),
        }
    }
    subsample(&t, param(2));
}
/// Several paragraphs: params: paragraphs, their greatest length, largest target
#[no_mangle]
pub extern "C" fn h09_paragraphs() {
    let mut t = vec![];
    for _ in 0..param(0) {
        let n = concretize(range(1, param(1)));
        for _ in 0..n { let b = byte(); assume((b < 128) & (b != b'\n')); t.push(b); }
        for _ in 0..concretize(range(2, 3)) { t.push(b'\n'); }
    }
    subsample(&t, param(2));
}
fn subsample(t: &Vec<u8>, most: u64) {
    let size = concretize(range(0, std::cmp::min(most, t.len() as u64)));
    std::fs::write("data.txt", t).unwrap();
    let s = MemorySampler::sample_from_file("data.txt", size as usize, 1 << 20);
    let mut got = vec![];
    for x in s.iter() { got.extend_from_slice(x.as_bytes()); }
    check(s.total_size() == got.len() as u64, "P09 the total size is the size of the sample");
    // distinct whole paragraphs in order: equal paragraphs are told apart by their letters, except blank ones
    let ps = paragraphs(t);
    // reach[j]: can the first j bytes of the sample be a concatenation of some of the first i paragraphs?
    let mut reach = vec![false; got.len() + 1];
    reach[0] = true;
    let mut longest = 0;
    for p in ps.iter() {
        longest = std::cmp::max(longest, p.len());
        for j in (0..got.len() + 1).rev() {
            if j + p.len() <= got.len() { let b = reach[j] & same(&got[j..j + p.len()], p); reach[j + p.len()] |= b; }
        }
    }
    check(reach[got.len()], "P09 the sample consists of distinct whole paragraphs in order");
    let d = (got.len() as i64 - size as i64).abs();
    check(d <= longest as i64, "P09 the amount taken differs from the target by at most the longest paragraph");
    if ps.len() > 2 && got.len() < t.len() && got.len() > ps[0].len() { cover(1); }
    if size as usize == t.len() { cover(2); }
    observe_bytes(&got);
}
