//! P20: merging statistics is exact addition; bytes per token.
use super::common::*;
use super::sets::*;
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{TokenSet, TokenType};

const LIM: u64 = 1 << 60;
fn small() -> TokenSet {
    let mut ts = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true);
    let a = ts.add_token(b"a");
    let b = ts.add_token(b"bc");
    ts.add_sequence(vec![b'd'], vec![a, 0]);
    ts.add_sequence(vec![b'e'], vec![a, 1]);
    ts.add_sequence(vec![b'f'], vec![b, 1, 0]);
    ts
}
fn any_stats(ts: &TokenSet, initial: Option<u64>) -> TokenStats {
    let mut s = TokenStats::new(ts.clone(), initial);
    s.total_tokens = range(0, LIM);
    s.scanned_bytes = range(0, LIM);
    for x in s.token_counts.iter_mut() { *x = range(0, LIM); }
    for x in s.seq_counts.iter_mut() { *x = range(0, LIM); }
    for x in s.pair_counts.iter_mut() { *x = range(0, LIM); }
    s
}
fn sum(a: &[u64], b: &[u64], c: &[u64], r: &[u64]) -> bool {
    if r.len() != a.len() { return false; }
    let mut d = 0;
    for i in 0..a.len() { d |= (a[i] + b[i] + c[i]) ^ r[i]; }
    d == 0
}
fn differ(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return true; }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d != 0
}
/// Any counters: every order and grouping of three merges. A fresh record is neutral.
#[no_mangle]
pub extern "C" fn h20_merge() {
    let ts = small();
    let initial = if flag() { Some(range(0, LIM)) } else { None };
    let x = any_stats(&ts, initial);
    let y = any_stats(&ts, if flag() { Some(5) } else { None });
    let z = any_stats(&ts, None);
    let how = concretize(range(0, 5));
    let mut r;
    match how {
        0 => { r = x.clone(); r.merge(&y); r.merge(&z); }
        1 => { r = x.clone(); r.merge(&z); r.merge(&y); }
        2 => { r = x.clone(); let mut t = y.clone(); t.merge(&z); r.merge(&t); }
        3 => { r = x.clone(); let mut t = z.clone(); t.merge(&y); r.merge(&t); }
        4 => { r = TokenStats::new(ts.clone(), initial); r.merge(&z); r.merge(&y); r.merge(&x); }
        _ => { r = TokenStats::new(ts.clone(), initial); let mut t = z.clone(); t.merge(&x); r.merge(&y); r.merge(&t); }
    }
    check(r.total_tokens == x.total_tokens + y.total_tokens + z.total_tokens, "P20 token totals add up");
    check(r.scanned_bytes == x.scanned_bytes + y.scanned_bytes + z.scanned_bytes, "P20 bytes add up");
    check(sum(&x.token_counts, &y.token_counts, &z.token_counts, &r.token_counts), "P20 token counts add up");
    check(sum(&x.seq_counts, &y.seq_counts, &z.seq_counts, &r.seq_counts), "P20 sequence counts add up");
    check(sum(&x.pair_counts, &y.pair_counts, &z.pair_counts, &r.pair_counts), "P20 pair counts add up");
    check(r.initial_size == initial, "P20 the original size is kept");
    check(r.token_set.tokens == ts.tokens && r.token_set.sequences == ts.sequences, "P20 the set is kept");
    cover(how);
    let c = r.clone_without_pairs();
    check(c.pair_counts.is_empty(), "P20 a copy without pairs has no pairs");
    check((c.total_tokens == r.total_tokens) & (c.scanned_bytes == r.scanned_bytes), "P20 a copy without pairs keeps the totals");
    check(c.initial_size == r.initial_size, "P20 a copy without pairs keeps the original size");
    check(!differ(&c.token_counts, &r.token_counts), "P20 a copy without pairs keeps the token counts");
    check(!differ(&c.seq_counts, &r.seq_counts), "P20 a copy without pairs keeps the sequence counts");
    check(c.token_set.tokens == r.token_set.tokens && c.token_set.sequences == r.token_set.sequences && c.token_set.n_ext_tokens == r.token_set.n_ext_tokens, "P20 a copy without pairs keeps the set");
    // merging statistics without pairs: the other figures still add up
    let mut p = c.clone();
    p.merge(&y);
    check(p.total_tokens == r.total_tokens + y.total_tokens && p.pair_counts.is_empty(), "P20 a copy without pairs can be added to");
    observe(r.total_tokens);
    observe(c.seq_counts[2]);
}
/// Parts tokenized separately and merged, or in one go. params: kinds (lo, hi), extra tokens (lo, hi), lengths of the parts (a, b), 0: any byte, n: n letters
#[no_mangle]
pub extern "C" fn h20_parts() {
    let kind = concretize(range(param(0), param(1)));
    let ex = concretize(range(param(2), param(3))) as usize;
    let ts = with(kind, EXTRAS[ex]);
    let mut any = |n: u64| -> Vec<u8> { (0..n).map(|_| if param(6) == 0 { byte() } else { range(b'a' as u64, b'a' as u64 + param(6) - 1) as u8 }).collect() };
    let a = any(param(4));
    let b = any(param(5));
    let tok = FragmentTokenizer::new(ts.clone());
    let mut buf = Vec::new();
    let mut whole = TokenStats::new(ts.clone(), Some(9));
    tok.process_slice(&a, &mut whole, &mut buf);
    tok.process_slice(&b, &mut whole, &mut buf);
    let mut s = TokenStats::new(ts.clone(), Some(9));
    let mut t = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    tok.process_slice(&b, &mut t, &mut buf);
    tok.process_slice(&a, &mut s, &mut buf);
    s.merge(&t);
    check((s.total_tokens == whole.total_tokens) & (s.scanned_bytes == whole.scanned_bytes) & (s.initial_size == whole.initial_size), "P20 merged totals equal those of one go");
    check(!differ(&s.token_counts, &whole.token_counts), "P20 merged token counts equal those of one go");
    check(!differ(&s.seq_counts, &whole.seq_counts), "P20 merged sequence counts equal those of one go");
    check(!differ(&s.pair_counts, &whole.pair_counts), "P20 merged pair counts equal those of one go");
    cover(kind);
    observe(s.total_tokens);
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * b.abs() }
/// The ratios. params: greatest token total, greatest size
#[no_mangle]
pub extern "C" fn h20_ratio() {
    let mut s = TokenStats::new(small(), None);
    let t = concretize(range(1, param(0)));
    let b = concretize(range(0, param(1)));
    let scale = [1u64, 1 << 33, (1 << 53) + 1, 1_000_003][concretize(range(0, 3)) as usize];
    s.total_tokens = t * scale;
    s.scanned_bytes = b * 12_345_678_901;
    check(close(s.bytes_per_token(), s.scanned_bytes as f64 / s.total_tokens as f64), "P20 bytes per token is the bytes scanned by the token total");
    let initial = match concretize(range(0, 2)) { 0 => None, 1 => Some(b), _ => Some(b * 77_777 + 1) };
    s.initial_size = initial;
    let v = s.to_json();
    let st = &v["stats"];
    check(st["ntokens"].as_u64() == Some(4), "P20 the number of tokens is written");
    check(st["total_tokens"].as_u64() == Some(s.total_tokens), "P20 the token total is written");
    check(st["scanned_bytes"].as_u64() == Some(s.scanned_bytes), "P20 the bytes scanned are written");
    match initial {
        None => check(st.get("initial_size").is_none() && st.get("bytes_per_token").is_none(), "P20 no original size, none written"),
        Some(i) => {
            check(st["initial_size"].as_u64() == Some(i), "P20 the original size is written");
            let r = st["bytes_per_token"].as_f64();
            check(r.is_some() && close(r.unwrap(), i as f64 / s.total_tokens as f64), "P20 the ratio written is the original size by the token total");
        }
    }
    cover(if initial.is_some() { 1 } else { 2 });
    observe(s.bytes_per_token().to_bits());
}
