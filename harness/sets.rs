//! Token sets used by the harnesses.
#![allow(dead_code)]
use super::common::*;
use crate::input::sample::{Sample, Sampler};
use crate::processing::Processing;
use crate::tokenset::{Token, TokenSet, TokenType};

/// kind 0: bits1, 1: bits2, 2: bits4, 3: bytes, 4: the BytesHuff form (string token and extension tokens)
pub fn base(kind: u64) -> TokenSet {
    match kind {
        0 => TokenSet::new_bits1(Processing::Raw, true),
        1 => TokenSet::new_bits2(Processing::Raw, true),
        2 => TokenSet::new_bits4(Processing::Raw, true),
        3 => TokenSet::new_bytes(Processing::Raw),
        _ => {
            // string tokens for 'a', 'b', 'n' and every 16th byte; other bytes: the last string token below and digits
            let mut ts = TokenSet::new(3, Processing::Raw, TokenType::BytesHuff, true);
            let mut last = 0;
            let mut k = 0usize;
            for c in 0..=255u8 {
                if c % 16 == 0 || c == b'a' || c == b'b' || c == b'n' {
                    last = ts.add_token(&[c]);
                    k = 0;
                } else {
                    let mut seq = vec![last];
                    let mut r = k;
                    loop { seq.push(r % 3); r /= 3; if r == 0 { break; } r -= 1; }
                    ts.add_sequence(vec![c], seq);
                    k += 1;
                }
            }
            ts
        }
    }
}
pub const EXTRAS: [&[&[u8]]; 8] = [
    &[],
    &[b"a", b"ab", b"bc"],
    &[b"ab", b"b", b"c", b"bcde", b"abcd"],
    &[b"aa", b"aaa", b"aaaaa"],
    &[b"aba", b"bab", b"ba"],
    &[b"\n\n", b"\n\n\n", b"a\n"],
    &[b"abc", b"bc", b"bcd", b"cdab"],
    &[b"\xc3\xa9", b"\xa9\xc3", b"\x00\x00", b"\xff\xff\xff"],
];
/// Index of the single bytes among the tokens (or encodings); None: a bad set.
pub fn is_single(ts: &TokenSet, b: u8) -> bool { ts.find_token(&[b]).is_some() }

/// A base set with extra tokens; tokens that already exist are left out.
pub fn with(kind: u64, extra: &[&[u8]]) -> TokenSet {
    let mut ts = base(kind);
    for t in extra {
        let have = ts.tokens.iter().any(|x| matches!(x, Token::Str(s) if s == t));
        if !have { ts.add_token(t); }
    }
    ts
}
/// A base set with symbolic extra tokens: k tokens of 2..=maxlen letters of {a,b,...}.
pub fn with_symbolic(kind: u64, k: u64, maxlen: u64, letters: u64) -> TokenSet {
    let mut ts = base(kind);
    let mut prev: Vec<u8> = vec![];
    for _ in 0..k {
        let l = concretize(range(2, maxlen));
        let mut t = Vec::new();
        for _ in 0..l { t.push(concretize(range(b'a' as u64, b'a' as u64 + letters - 1)) as u8); }
        // in increasing order: sets, not sequences
        assume(prev.is_empty() || (prev.len(), &prev[..]) < (t.len(), &t[..]));
        ts.add_token(&t);
        prev = t;
    }
    ts
}
/// The number of tokens that encode each byte.
pub fn byte_costs(ts: &TokenSet) -> [u64; 256] {
    let mut c = [0; 256];
    for s in ts.sequences.iter() { if s.string.len() == 1 { c[s.string[0] as usize] = s.tokens.len() as u64; } }
    for t in ts.tokens.iter() { if let Token::Str(s) = t { if s.len() == 1 { c[s[0] as usize] = 1; } } }
    c
}
pub fn long_tokens(ts: &TokenSet) -> Vec<Vec<u8>> {
    ts.tokens.iter().filter_map(|t| match t { Token::Str(s) if s.len() > 1 => Some(s.clone()), _ => None }).collect()
}

/// A sampler over given samples.
pub struct Fixed { pub samples: Vec<Vec<u8>>, pub size: u64 }
pub struct FixedIter<'a> { s: &'a Fixed, i: usize }
impl<'a> Iterator for FixedIter<'a> {
    type Item = Sample<'a>;
    fn next(&mut self) -> Option<Sample<'a>> {
        let i = self.i;
        if i == self.s.samples.len() { return None; }
        self.i += 1;
        let b = &self.s.samples[i];
        // both kinds of samples
        Some(if i % 2 == 0 { Sample::Ref(unsafe { std::str::from_utf8_unchecked(b) }) } else { Sample::Data(unsafe { String::from_utf8_unchecked(b.clone()) }) })
    }
}
impl<'a> Sampler<'a> for Fixed {
    type Iter = FixedIter<'a>;
    fn iter(&'a self) -> FixedIter<'a> { FixedIter { s: self, i: 0 } }
    fn total_size(&'a self) -> u64 { self.size }
}

