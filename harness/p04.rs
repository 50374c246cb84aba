//! P04: the number of tokens is the smallest possible.
use super::common::*;
use super::sets::*;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::TokenSet;

/// The smallest number of tokens (shortest path), written without branches on the text.
fn minimum(ts: &TokenSet, text: &[u8]) -> u64 {
    let cost = byte_costs(ts);
    let long = long_tokens(ts);
    let mut dp: Vec<u64> = vec![0];
    for i in 1..=text.len() {
        let mut best = dp[i - 1] + cost[text[i - 1] as usize];
        for t in long.iter() {
            if t.len() <= i {
                let mut diff = 0u8;
                for k in 0..t.len() { diff |= t[k] ^ text[i - t.len() + k]; }
                let cand = if diff == 0 { dp[i - t.len()] + 1 } else { 1_000_000 };
                best = std::cmp::min(best, cand);
            }
        }
        dp.push(best);
    }
    dp[text.len()]
}

fn go(ts: TokenSet, n: usize) {
    let mut text: Vec<u8> = vec![];
    for _ in 0..n { text.push(byte()); }
    let tok = FragmentTokenizer::new(ts.clone());
    let mut stats = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    tok.process_slice(&text, &mut stats, &mut buf);
    let want = minimum(&ts, &text);
    check(stats.total_tokens == want, "P04 the total is the smallest number of tokens");
    if stats.total_tokens == 1 { cover(1); }
    observe(stats.total_tokens);
}

/// params: length of the text, kinds of set (lo, hi), extra tokens (lo, hi)
#[no_mangle]
pub extern "C" fn h04_fixed() {
    let kind = concretize(range(param(1), param(2)));
    let ex = concretize(range(param(3), param(4))) as usize;
    go(with(kind, EXTRAS[ex]), param(0) as usize);
}
/// params: length of the text, kinds (lo, hi), number of symbolic tokens, their greatest length, letters
#[no_mangle]
pub extern "C" fn h04_symbolic() {
    let kind = concretize(range(param(1), param(2)));
    go(with_symbolic(kind, param(3), param(4), param(5)), param(0) as usize);
}
