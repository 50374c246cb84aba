//! P06: worker threads give the statistics of sequential tokenization.
use super::common::*;
use super::sets::*;
use crate::batch_tokenize::{tokenize_file, tokenize_file_sync};
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;

/// params: samples (lo, hi), kind of set, extra tokens, samples whose first byte is symbolic, sizes (0: around the limit, 1: large)
#[no_mangle]
pub extern "C" fn h06_threads() {
    let n = concretize(range(param(0), param(1))) as usize;
    let ts = with(param(2), EXTRAS[param(3) as usize]);
    let mut samples: Vec<Vec<u8>> = [&b"abab"[..], b"b", b"aab", b"ba", b"\n\na", b"abcd", b"bcbc", b"c"][..n].iter().map(|x| x.to_vec()).collect();
    for k in 0..param(4) as usize { if k < n { samples[k][0] = byte(); assume(samples[k][0] < 128); } }
    let size = if param(5) == 0 { concretize(range((1 << 25) - 1, 1 << 25)) } else { 1 << 26 };
    let s = Fixed { samples, size };
    let initial = if n % 2 == 0 { Some(77) } else { None };
    let tok = FragmentTokenizer::new(ts.clone());
    let mut want = TokenStats::new(ts.clone(), initial);
    let mut buf = Vec::new();
    for x in s.samples.iter() { tok.process_slice(x, &mut want, &mut buf); }
    let stats = tokenize_file(&ts, &s, initial);
    compare(&stats, &want);
    if param(5) == 0 {
        let sync = tokenize_file_sync(&ts, &s, initial);
        compare(&sync, &want);
    }
    cover(n as u64);
    observe(stats.total_tokens);
}
fn differ(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return true; }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d != 0
}
fn compare(stats: &TokenStats, want: &TokenStats) {
    check((stats.total_tokens == want.total_tokens) & (stats.scanned_bytes == want.scanned_bytes), "P06 totals equal those of sequential tokenization");
    check(stats.initial_size == want.initial_size, "P06 the original size is passed on");
    check(!differ(&stats.token_counts, &want.token_counts), "P06 token counts equal those of sequential tokenization");
    check(!differ(&stats.seq_counts, &want.seq_counts), "P06 sequence counts equal those of sequential tokenization");
    check(!differ(&stats.pair_counts, &want.pair_counts), "P06 pair counts equal those of sequential tokenization");
    check(stats.token_set.tokens == want.token_set.tokens, "P06 the set is the one asked for");
}
