//! P01 (lossless), P02 (canonical form): caps-words processing of symbolic texts.
use super::common::*;
use crate::processing::process;

const CAP: char = '\x14';
const ALLCAPS: char = '\x15';
const END: char = '\x16';

/// Decodes processed text by the documented rules.
fn decode(text: &[char]) -> Vec<char> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        if c == CAP {
            i += 1;
            if i < text.len() { out.extend(text[i].to_uppercase()); i += 1; }
        } else if c == ALLCAPS {
            i += 1;
            let mut w = String::new();
            while i < text.len() && text[i] != END { w.push(text[i]); i += 1; }
            out.extend(w.to_uppercase().chars());
        } else if c == END {
            i += 1;
            if i < text.len() && (text[i] == CAP || text[i] == ALLCAPS || text[i].is_alphabetic()) { out.push(' '); }
        } else { out.push(c); i += 1; }
    }
    out
}

fn equal(a: &[char], b: &[char]) -> bool {
    if a.len() != b.len() { return false; }
    let mut diff = 0u32;
    for i in 0..a.len() { diff |= a[i] as u32 ^ b[i] as u32; }
    diff == 0
}

fn lossless(text: &[char]) {
    let s: String = text.iter().collect();
    let p = process(&s);
    let pc: Vec<char> = p.chars().collect();
    check(equal(&decode(&pc), text), "P01 decoding the processed text gives the original");
    if pc.contains(&CAP) { cover(1); }
    if pc.contains(&ALLCAPS) { cover(2); }
    if pc.contains(&END) { cover(3); }
    if pc.len() > text.len() { cover(4); }
    observe_bytes(p.as_bytes());
}

/// The documented form of a word.
fn spec_word(w: &[char], out: &mut Vec<char>) {
    let first = w[0];
    if first.is_uppercase() {
        if w[1..].iter().all(|c| c.is_lowercase()) {
            let l: Vec<char> = first.to_lowercase().collect();
            let back: Vec<char> = l.iter().flat_map(|c| c.to_uppercase()).collect();
            if l.len() == 1 && equal(&back, &[first]) {
                out.push(CAP);
                out.push(l[0]);
                out.extend_from_slice(&w[1..]);
                return;
            }
        }
        if w[1..].iter().all(|c| c.is_uppercase()) {
            let s: String = w.iter().collect();
            let l = s.to_lowercase();
            let back: Vec<char> = l.to_uppercase().chars().collect();
            if equal(&back, w) {
                out.push(ALLCAPS);
                out.extend(l.chars());
                return;
            }
        }
    }
    out.extend_from_slice(w);
}

fn spec(t: &[char]) -> Vec<char> {
    let mut out = Vec::new();
    let letter: Vec<bool> = t.iter().map(|c| c.is_alphabetic()).collect();
    let n = t.len();
    let mut i = 0;
    while i < n {
        let mut j = i + 1;
        while j < n && letter[j] == letter[i] { j += 1; }
        if letter[i] {
            spec_word(&t[i..j], &mut out);
            out.push(END);
        } else {
            let between = i > 0 && j < n;
            if !(between && j - i == 1 && t[i] == ' ') { out.extend_from_slice(&t[i..j]); } else { cover(5); }
        }
        i = j;
    }
    out
}

fn canonical(text: &[char]) {
    let s: String = text.iter().collect();
    let p = process(&s);
    let pc: Vec<char> = p.chars().collect();
    check(equal(&pc, &spec(text)), "P02 processed text has the documented form");
    if pc.contains(&CAP) { cover(1); }
    if pc.contains(&ALLCAPS) { cover(2); }
    if pc.contains(&END) { cover(3); }
    observe_bytes(p.as_bytes());
}

/// n characters from one interval of Unicode.
fn interval(markers: bool) -> Vec<char> {
    let n = param(0) as usize;
    let mut t = Vec::new();
    for _ in 0..n {
        let c = any_char(param(1) as u32, param(2) as u32);
        if !markers { assume(!((c >= '\x14') & (c <= '\x16'))); }
        t.push(c);
    }
    t
}
/// n characters from an alphabet with one character per class of behaviour.
const LETTERS: [char; 12] = ['a', 'B', ' ', '.', '\n', 'É', 'ß', 'Σ', '\u{130}', 'ǅ', '\u{212a}', '𝐀'];
fn classes() -> Vec<char> {
    let n = param(0) as usize;
    let k = param(1);
    (0..n).map(|_| LETTERS[range(0, k - 1) as usize]).collect()
}

#[no_mangle]
pub extern "C" fn h01_interval() { lossless(&interval(false)); }
#[no_mangle]
pub extern "C" fn h01_classes() { lossless(&classes()); }
#[no_mangle]
pub extern "C" fn h02_interval() { canonical(&interval(true)); }
#[no_mangle]
pub extern "C" fn h02_classes() { canonical(&classes()); }
