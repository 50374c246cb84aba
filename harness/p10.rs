//! P10, P16: encodings of bytes.
use super::common::*;
use super::sets::*;
use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer, SimpleBytesOptimizer};
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenset::{Token, TokenSet, TokenType};

fn type_no(ts: &TokenSet) -> u64 {
    match ts.token_type { TokenType::Bits1 => 0, TokenType::Bits2 => 1, TokenType::Bits4 => 2, TokenType::Bytes => 3, TokenType::BytesHuff => 4 }
}
/// One encoding for each byte, all of them decodable.
pub fn check_encodings(ts: &TokenSet) {
    let mut n = [0u64; 256];
    let mut own = [usize::MAX; 256];
    let mut next = 0;
    for (i, t) in ts.tokens.iter().enumerate() {
        match t {
            Token::Str(s) => {
                check(!s.is_empty(), "P10 no empty token");
                if s.len() == 1 { n[s[0] as usize] += 1; own[s[0] as usize] = i; }
            }
            Token::Ext(e) => { check(*e as usize == next, "P10 extension tokens are numbered in order"); next += 1; }
        }
    }
    check(next == ts.n_ext_tokens, "P10 the number of extension tokens is the stated one");
    for s in ts.sequences.iter() {
        if s.string.len() == 1 { n[s.string[0] as usize] += 1; }
    }
    let mut one = true;
    for c in n.iter() { one &= *c == 1; }
    check(one, "P10 each byte has exactly one encoding");
    let kind = type_no(ts);
    check(ts.n_ext_tokens == [2, 4, 16, 0][kind as usize % 4] || kind == 4, "P10 bit- and digit-based sets have the extension tokens of their base");
    check(ts.n_ext_tokens < 256, "P10 extension tokens fit");
    let mut spelled = true;
    let mut codes: Vec<&[usize]> = vec![];
    for s in ts.sequences.iter() {
        if s.string.len() != 1 { spelled = false; continue; }
        let b = s.string[0] as usize;
        let t = &s.tokens;
        match kind {
            0 | 1 | 2 => {
                let bits = 1 << kind;
                let digits = 8 / bits;
                if t.len() != digits { spelled = false; continue; }
                for i in 0..digits {
                    let d = b >> (bits * (digits - 1 - i)) & ((1 << bits) - 1);
                    // by the name of the token, not its place
                    spelled &= t[i] < ts.tokens.len() && ts.tokens[t[i]] == Token::Ext(d as u8);
                }
            }
            3 => spelled = false,
            _ => {
                // the token of another byte, then extension tokens
                if t.len() < 2 || t[0] >= ts.tokens.len() { spelled = false; continue; }
                match &ts.tokens[t[0]] { Token::Str(x) => spelled &= x.len() == 1, _ => spelled = false }
                for &x in t[1..].iter() { spelled &= x < ts.tokens.len() && matches!(ts.tokens[x], Token::Ext(_)); }
                codes.push(t);
            }
        }
    }
    check(spelled, "P10 sequences have the documented form");
    codes.sort();
    let mut distinct = true;
    for i in 1..codes.len() { distinct &= codes[i] != codes[i - 1]; }
    check(distinct, "P10 encodings are distinct");
    let _ = own;
}
fn base_sets(kind: u64) -> TokenSet { if kind < 4 { base(kind) } else { let ts = TokenSet::new_bytes(Processing::Raw); HuffOptimizer::optimize_bytes(&TokenStats::new(ts, None), 20) } }

/// The sets optimization starts from. params: kind (lo, hi)
#[no_mangle]
pub extern "C" fn h10_initial() {
    let kind = concretize(range(param(0), param(1)));
    let p = if flag() { Processing::CapsWords } else { Processing::Raw };
    let split = flag();
    let ts = match kind {
        0 => TokenSet::new_bits1(p, split),
        1 => TokenSet::new_bits2(p, split),
        2 => TokenSet::new_bits4(p, split),
        _ => TokenSet::new_bytes(p),
    };
    check(type_no(&ts) == kind, "P10 the type is the one asked for");
    check_encodings(&ts);
    // the byte that a symbolic sequence of digits stands for
    if kind < 3 {
        let b = byte();
        let bits = 1 << kind;
        let s = &ts.sequences[b as usize];
        let mut v = 0;
        for i in 0..8 / bits { v = v << bits | s.tokens[i]; }
        check(s.string[0] == b && v == b as usize, "P10 the digits spell the byte");
    }
}

/// Statistics with symbolic counts for some bytes; the others have given small counts.
fn stats_for(ts: &TokenSet, k: u64, most: u64, pattern: u64) -> (TokenStats, [u64; 256]) {
    let mut st = TokenStats::new(ts.clone(), None);
    let mut counts = [0u64; 256];
    for b in 0..256usize {
        counts[b] = match pattern { 0 => 0, 1 => (b as u64 * 7) % 5, 2 => if b % 32 == 0 { most / 2 + 1 } else { 0 }, _ => if b < 3 { 1 << (20 + b) } else { b as u64 % 3 } };
    }
    for i in 0..k as usize { let b = [b'n', 0, 255, b'a', 128][i]; counts[b as usize] = range(0, most); }
    for (i, t) in ts.tokens.iter().enumerate() { if let Token::Str(s) = t { st.token_counts[i] = if s.len() == 1 { counts[s[0] as usize] } else { 5 }; } }
    for (i, s) in ts.sequences.iter().enumerate() { if s.string.len() == 1 { st.seq_counts[i] = counts[s.string[0] as usize]; } }
    (st, counts)
}
fn check_kept(ts: &TokenSet, new: &TokenSet) {
    check(type_no(ts) == type_no(new) && matches!(ts.processing, Processing::Raw) == matches!(new.processing, Processing::Raw), "P16 type and processing are kept");
    let mut a = long_tokens(ts);
    let mut b = long_tokens(new);
    a.sort(); b.sort();
    check(a == b, "P16 the multi-byte tokens are kept");
}

/// params: kinds (lo, hi), extra tokens (lo, hi), bytes with symbolic counts, their greatest count, patterns of the others (lo, hi), budgets for bytes (lo, hi)
#[no_mangle]
pub extern "C" fn h16_simple() {
    let kind = concretize(range(param(0), param(1)));
    let ex = concretize(range(param(2), param(3))) as usize;
    let pattern = concretize(range(param(6), param(7)));
    let budget = concretize(range(param(8), param(9))) as usize;
    let mut ts = with(kind, EXTRAS[ex]);
    if flag() { ts.processing = Processing::CapsWords; ts.sort(); }
    let (st, counts) = stats_for(&ts, param(4), param(5), pattern);
    let new = SimpleBytesOptimizer::optimize_bytes(&st, ts.n_ext_tokens + budget);
    check_encodings(&new);
    check_kept(&ts, &new);
    let cost = byte_costs(&new);
    let mut n = 0;
    let (mut least, mut most) = (u64::MAX, 0);
    for b in 0..256 {
        if cost[b] == 1 { n += 1; least = std::cmp::min(least, counts[b]); } else { most = std::cmp::max(most, counts[b]); }
    }
    check(n == std::cmp::min(budget, 256), "P16 as many bytes as asked for have their own token");
    check(n == 0 || n == 256 || least >= most, "P16 no byte without a token is more frequent than one with a token");
    if cost[b'n' as usize] == 1 && cost[0] > 1 { cover(1); }
    if cost[b'n' as usize] > 1 && cost[0] == 1 { cover(2); }
    observe(new.tokens.len() as u64);
}

/// The frequency-based optimizer. params: start (0: bytes, 1: frequency-coded set), extra tokens (lo, hi), bytes with symbolic counts, greatest count, patterns (lo, hi), budgets (lo, hi)
#[no_mangle]
pub extern "C" fn h10_huff() {
    let ex = concretize(range(param(1), param(2))) as usize;
    let pattern = concretize(range(param(5), param(6)));
    let budget = concretize(range(param(7), param(8))) as usize;
    let ts = with(if param(0) == 0 { 3 } else { 4 }, EXTRAS[ex]);
    let (st, _) = stats_for(&ts, param(3), param(4), pattern);
    let new = HuffOptimizer::optimize_bytes(&st, budget);
    check_encodings(&new);
    check(type_no(&new) == 4, "P10 the result is a frequency-based set");
    let mut a = long_tokens(&ts);
    let mut b = long_tokens(&new);
    a.sort(); b.sort();
    check(a == b, "P10 the multi-byte tokens are kept");
    check(new.tokens.len() - b.len() <= budget, "P10 no more tokens than asked for");
    cover(budget as u64);
    observe(new.tokens.len() as u64);
    let _ = base_sets;
}
