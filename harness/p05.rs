//! P05: statistics describe an actual segmentation of the text, and accumulate.
use super::common::*;
use super::sets::*;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{Token, TokenSet};

const NONE: u64 = 1 << 40;

struct Tables { tok: [u64; 256], seq: [u64; 256], cost: [u64; 256], long: Vec<(Vec<u8>, u64)>, occ: Vec<[u64; 256]> }

fn tables(ts: &TokenSet) -> Tables {
    let mut t = Tables { tok: [NONE; 256], seq: [NONE; 256], cost: [0; 256], long: vec![], occ: vec![] };
    for (i, x) in ts.tokens.iter().enumerate() {
        if let Token::Str(s) = x {
            if s.len() == 1 { t.tok[s[0] as usize] = i as u64; t.cost[s[0] as usize] = 1; } else { t.long.push((s.clone(), i as u64)); }
        }
    }
    for j in 0..ts.tokens.len() {
        if ts.sequences.is_empty() { break; }
        let mut o = [0; 256];
        for s in ts.sequences.iter() { o[s.string[0] as usize] = s.tokens.iter().filter(|&&x| x == j).count() as u64; }
        t.occ.push(o);
    }
    for (i, s) in ts.sequences.iter().enumerate() { t.seq[s.string[0] as usize] = i as u64; t.cost[s.string[0] as usize] = s.tokens.len() as u64; }
    t
}
fn b(c: bool) -> u64 { c as u64 }

struct Delta<'a> { old: &'a TokenStats, new: &'a TokenStats }
impl<'a> Delta<'a> {
    fn token(&self, j: u64) -> u64 { self.new.token_counts[j as usize].wrapping_sub(self.old.token_counts[j as usize]) }
    fn seq(&self, j: u64) -> u64 { self.new.seq_counts[j as usize].wrapping_sub(self.old.seq_counts[j as usize]) }
    fn pair(&self, j: u64) -> u64 { self.new.pair_counts[j as usize].wrapping_sub(self.old.pair_counts[j as usize]) }
}

/// Is there a segmentation of the text with these figures? j, k, l: any token, sequence, pair.
fn matches(t: &Tables, nt: u64, text: &[u8], d: &Delta, total: u64, j: u64, k: u64, l: u64) -> bool {
    let n = text.len();
    let mut any = n == 0 && total == 0;
    if n == 0 { return any & (d.token(j) == 0) & (d.pair(l) == 0); }
    let (cj, cl) = (d.token(j), d.pair(l));
    let ck = if t.occ.is_empty() { 0 } else { d.seq(k) };
    for mask in 0..(1u64 << (n - 1)) {
        let mut valid = true;
        let (mut cost, mut pj, mut pk, mut pl) = (0u64, 0u64, 0u64, 0u64);
        let mut prev = NONE * 2; // token before, or a value that is no token
        let mut s = 0;
        for e in 1..=n {
            if e < n && mask >> (e - 1) & 1 == 0 { continue; }
            let tid;
            if e - s == 1 {
                let x = text[s] as usize;
                tid = t.tok[x];
                cost += t.cost[x];
                if !t.occ.is_empty() {
                    pk += b(t.seq[x] == k);
                    pj += t.occ[j as usize][x];
                }
            } else {
                let mut found = 0u64;
                let mut id = 0u64;
                for (w, i) in t.long.iter() {
                    if w.len() != e - s { continue; }
                    let eq = b(same(w, &text[s..e]));
                    found |= eq;
                    id += eq * i;
                }
                valid &= found == 1;
                tid = id;
                cost += 1;
            }
            pj += b(tid == j);
            pl += b((prev < NONE) & (tid < NONE) & (prev * nt + tid == l));
            prev = tid;
            s = e;
        }
        any |= valid & (cost == total) & (cj == pj) & (ck == pk) & (cl == pl);
    }
    any
}

/// params: length of the first text, kinds (lo, hi), extra tokens (lo, hi), length of the second text
#[no_mangle]
pub extern "C" fn h05_account() {
    let kind = concretize(range(param(1), param(2)));
    let ex = concretize(range(param(3), param(4))) as usize;
    let ts = with(kind, EXTRAS[ex]);
    let nt = ts.tokens.len() as u64;
    let t = tables(&ts);
    let tok = FragmentTokenizer::new(ts.clone());
    let mut stats = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    for call in 0..2 {
        let n = if call == 0 { param(0) } else { param(5) };
        if n == 0 && call == 1 { break; }
        let mut text: Vec<u8> = vec![];
        for _ in 0..n { text.push(byte()); }
        let old = stats.clone();
        tok.process_slice(&text, &mut stats, &mut buf);
        check(stats.scanned_bytes - old.scanned_bytes == n, "P05 the bytes counted are the bytes of the text");
        check((stats.token_counts.len() as u64 == nt) & (stats.seq_counts.len() == ts.sequences.len()) & (stats.pair_counts.len() as u64 == nt * nt), "P05 there is one count for each token, sequence and pair");
        let total = stats.total_tokens - old.total_tokens;
        let d = Delta { old: &old, new: &stats };
        if !t.occ.is_empty() {
            let mut sum = 0u64;
            for j in 0..nt { sum = sum.wrapping_add(d.token(j)); }
            check(sum == total, "P05 the token counts add up to the total");
        }
        let mut j = range(0, nt - 1);
        if !t.occ.is_empty() { j = concretize(j); }
        let k = if t.occ.is_empty() { 0 } else { range(0, ts.sequences.len() as u64 - 1) };
        let l = range(0, nt * nt - 1);
        check(matches(&t, nt, &text, &d, total, j, k, l), "P05 the counts are those of a segmentation of the text");
        if total == 1 { cover(1); }
        if n > 1 { if d.pair(l) > 0 { cover(2); } }
        observe(total);
    }
    check(stats.initial_size.is_none() && stats.token_set.tokens == ts.tokens, "P05 tokenizing leaves the set alone");
}
