//! P13: answers of the statistics cache equal fresh tokenization.
use super::common::*;
use super::sets::*;
use crate::batch_tokenize::TokenizerCache;
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{Token, TokenSet, TokenType};

fn type_no(ts: &TokenSet) -> u64 {
    match ts.token_type { TokenType::Bits1 => 0, TokenType::Bits2 => 1, TokenType::Bits4 => 2, TokenType::Bytes => 3, TokenType::BytesHuff => 4 }
}
/// Sets that differ in one thing each, and the same sets listed in other orders.
fn pool(i: u64) -> TokenSet {
    let set = |t: &[&[u8]]| { let mut ts = base(2); for x in t { ts.add_token(x); } ts };
    match i {
        0 => set(&[b"ab", b"bc"]),
        1 => set(&[b"bc", b"ab"]),
        2 => set(&[b"ab"]),
        3 => set(&[b"abc"]),
        4 => { let mut ts = set(&[b"ab"]); ts.processing = Processing::CapsWords; ts }
        5 => { let mut ts = set(&[b"ab"]); ts.split_paragraphs = false; ts }
        6 => set(&[b"a"]),
        7 => { let mut ts = set(&[b"c", b"bc", b"a", b"ab"]); let k = ts.find_token(b"c").unwrap(); ts.remove_token(k); ts.add_token(b"c"); ts }
        8 => huff(0),
        9 => huff(1),
        10 => { let mut ts = huff(1); ts.sequences.reverse(); ts }
        11 => { let mut ts = base(0); ts.add_token(b"ab"); ts }
        12 => { let mut ts = set(&[b"b"]); ts.tokens.reverse(); let n = ts.tokens.len(); for s in ts.sequences.iter_mut() { for t in s.tokens.iter_mut() { *t = n - 1 - *t; } } ts }
        _ => set(&[b"b"]),
    }
}
/// A frequency-based set; with swap, two bytes have each other's encodings (of different lengths).
fn huff(swap: u64) -> TokenSet {
    let mut ts = base(4);
    if swap == 1 {
        let i = ts.sequences.iter().position(|s| s.string[0] == b'c').unwrap();
        let l = ts.sequences[i].tokens.len();
        let j = ts.sequences.iter().position(|s| s.tokens.len() != l).unwrap();
        let (a, b) = (ts.sequences[i].tokens.clone(), ts.sequences[j].tokens.clone());
        ts.sequences[i].tokens = b;
        ts.sequences[j].tokens = a;
    }
    ts
}
fn differ(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return true; }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d != 0
}
/// params: queries, sets (lo, hi), samples of letters (count, letters in each), letters of the alphabet,
/// 1: after a set, only it or the next one in the pool is asked for
#[no_mangle]
pub extern "C" fn h13_cache() {
    let mut samples = vec![];
    for _ in 0..param(3) {
        let mut t = vec![];
        for _ in 0..param(4) { t.push(range(b'a' as u64, b'a' as u64 + param(5) - 1) as u8); }
        samples.push(t);
    }
    let size = param(3) * param(4);
    let s = Fixed { samples, size };
    let initial = Some(range(0, 1 << 40));
    let mut cache = TokenizerCache::new(&s, initial);
    let mut hits = 0;
    let mut asked: Vec<u64> = vec![];
    let mut last = 0;
    let mut fresh: Vec<TokenStats> = vec![];
    for _ in 0..param(0) {
        let i = if param(6) == 1 && asked.len() > 0 {
            let l = last;
            if flag() { l } else if l < param(2) { l + 1 } else { param(1) }
        } else {
            concretize(range(param(1), param(2)))
        };
        last = i;
        let pairs = concretize(range(0, 1)) == 1;
        let ts = pool(i);
        let got = if pairs { cache.get_stats_with_pairs(&ts) } else { cache.get_stats(&ts) };
        let at = match asked.iter().position(|x| *x == i) {
            Some(at) => { hits += 1; at }
            None => {
                // afresh
                let mut sorted = ts.clone();
                sorted.sort();
                let tok = FragmentTokenizer::new(sorted.clone());
                let mut want = TokenStats::new(sorted, initial);
                let mut buf = Vec::new();
                for x in s.samples.iter() { tok.process_slice(x, &mut want, &mut buf); }
                asked.push(i);
                fresh.push(want);
                asked.len() - 1
            }
        };
        let want = &fresh[at];
        let (g, w) = (&got.token_set, &want.token_set);
        check(type_no(g) == type_no(w) && g.n_ext_tokens == w.n_ext_tokens && matches!(g.processing, Processing::Raw) == matches!(w.processing, Processing::Raw) && g.split_paragraphs == w.split_paragraphs, "P13 the answer describes the set asked for");
        check(g.tokens == w.tokens && g.tokens.len() == got.token_counts.len(), "P13 the tokens are those asked for, sorted");
        check(g.sequences == w.sequences, "P13 the encodings are those asked for, sorted");
        let mut sorted = true;
        for i in 1..g.tokens.len() { sorted &= match (&g.tokens[i - 1], &g.tokens[i]) { (Token::Ext(a), Token::Ext(b)) => a < b, (Token::Ext(_), Token::Str(_)) => true, (Token::Str(a), Token::Str(b)) => a < b, _ => false }; }
        check(sorted, "P13 the set of the answer is sorted");
        check((got.total_tokens == want.total_tokens) & (got.scanned_bytes == want.scanned_bytes), "P13 totals equal those of fresh tokenization");
        check(got.initial_size == initial, "P13 the original size is given");
        check(!differ(&got.token_counts, &want.token_counts), "P13 token counts equal those of fresh tokenization");
        check(!differ(&got.seq_counts, &want.seq_counts), "P13 sequence counts equal those of fresh tokenization");
        if pairs { check(!differ(&got.pair_counts, &want.pair_counts), "P13 pair counts equal those of fresh tokenization"); }
        observe(got.total_tokens);
    }
    cover(hits);
}
