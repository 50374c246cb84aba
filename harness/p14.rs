//! P14, P15, P19: optimization of token sets.
use super::common::*;
use super::sets::*;
use crate::optimize::Optimizer;
use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer};
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenizer2::FragmentTokenizer;
use crate::tokenset::{Token, TokenSet, TokenType};

fn token_type(kind: u64) -> TokenType {
    match kind { 0 => TokenType::Bits1, 1 => TokenType::Bits2, 2 => TokenType::Bits4, 3 => TokenType::Bytes, _ => TokenType::BytesHuff }
}
const ALPHABETS: [&[u8]; 5] = [b"ab\n", b"a\n", b"abc", b"aA1\n", b"a"];
/// Samples of letters of an alphabet.
fn data(samples: u64, lo: u64, hi: u64, alphabet: u64) -> Fixed {
    let mut s = vec![];
    let mut size = 0;
    for _ in 0..samples {
        let n = concretize(range(lo, hi));
        let mut t = vec![];
        for _ in 0..n { t.push(pick(ALPHABETS[alphabet as usize])); }
        size += n;
        if n > 0 { s.push(t); } // samplers give no empty samples
    }
    Fixed { samples: s, size }
}
fn concrete(s: &Fixed) -> Vec<Vec<u8>> {
    s.samples.iter().map(|t| t.iter().map(|b| concretize(*b as u64) as u8).collect()).collect()
}
fn tokenize(ts: &TokenSet, s: &Fixed) -> TokenStats {
    let tok = FragmentTokenizer::new(ts.clone());
    let mut st = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    for x in s.samples.iter() { tok.process_slice(x, &mut st, &mut buf); }
    st
}
/// The fewest tokens, by the definition.
fn minimum(text: &[u8], long: &[Vec<u8>], costs: &[u64; 256]) -> u64 {
    let mut best = vec![0u64; text.len() + 1];
    for i in 1..=text.len() {
        let mut m = best[i - 1] + costs[text[i - 1] as usize];
        for t in long {
            if t.len() <= i && &text[i - t.len()..i] == &t[..] { m = std::cmp::min(m, best[i - t.len()] + 1); }
        }
        best[i] = m;
    }
    best[text.len()]
}
fn total(data: &[Vec<u8>], long: &[Vec<u8>], costs: &[u64; 256]) -> u64 { data.iter().map(|t| minimum(t, long, costs)).sum() }
/// No character but a newline follows a blank line.
fn admissible(t: &[u8]) -> bool {
    for i in 2..t.len() { if t[i - 2] == b'\n' && t[i - 1] == b'\n' && t[i] != b'\n' { return false; } }
    true
}
fn occurs(t: &[u8], data: &[Vec<u8>]) -> bool { data.iter().any(|d| d.windows(t.len()).any(|w| w == t)) }
/// Every byte has exactly one encoding, and no other byte has the same.
fn byte_encodings(ts: &TokenSet) -> bool {
    let mut n = [0u64; 256];
    let mut ok = true;
    let mut codes: Vec<&[usize]> = vec![];
    for t in ts.tokens.iter() { if let Token::Str(s) = t { if s.len() == 1 { n[s[0] as usize] += 1; } } }
    for s in ts.sequences.iter() {
        ok &= s.string.len() == 1 && s.tokens.len() > 1;
        for &t in s.tokens.iter() { ok &= t < ts.tokens.len(); }
        if s.string.len() == 1 { n[s.string[0] as usize] += 1; }
        codes.push(&s.tokens);
    }
    for c in n.iter() { ok &= *c == 1; }
    codes.sort();
    for i in 1..codes.len() { ok &= codes[i] != codes[i - 1]; }
    ok
}
fn pretrained(which: u64, kind: u64) -> Option<TokenSet> {
    let t: &[&[u8]] = match which {
        0 => return None,
        1 => &[b"\n\n"],
        2 => &[b"ab"],
        3 => &[b"\n\n", b"a\n"],
        4 => &[b"xyz"],
        5 => &[b"ab", b"xyz"],
        _ => {
            let mut ts = base(kind);
            for b in 0..=255u8 { if b != b'a' && b != b'\n' && b != 200 { ts.add_token(&[b]); } }
            return Some(ts);
        }
    };
    let mut ts = base(kind);
    for x in t { ts.add_token(x); }
    if which == 2 { ts.sort(); }
    Some(ts)
}
fn optimizer(kind: u64, n: u64) -> Optimizer {
    Optimizer::new(n as usize, Processing::Raw, token_type(kind), Some(77), std::path::Path::new("."))
}

/// params: kinds (lo, hi), sizes (lo, hi; for bytes from 256, for a frequency-based set from 3, else from the number of digits), letters (lo, hi), alphabet, samples, pretrained (lo, hi)
#[no_mangle]
pub extern "C" fn h14_optimize() {
    let kind = concretize(range(param(0), param(1)));
    let n = concretize(range(param(2), param(3))) + [2, 4, 16, 256, 3][kind as usize];
    let pre = concretize(range(param(8), param(9)));
    let s = data(param(7), param(4), param(5), param(6));
    let start = pretrained(pre, kind);
    let given: Vec<Vec<u8>> = start.iter().flat_map(|t| long_tokens(t)).collect();
    assume(start.as_ref().map_or(0, |t| t.ntokens() as u64) <= n);
    let got = optimizer(kind, n).optimize(&s, start.clone());
    let d = concrete(&s);
    let ts = &got.token_set;
    check(ts.ntokens() == ts.tokens.len() && ts.ntokens() as u64 <= n, "P14 at most the requested number of tokens");
    let mut distinct = true;
    for i in 0..ts.tokens.len() { for j in 0..i { distinct &= ts.tokens[i] != ts.tokens[j]; } }
    check(distinct, "P14 no two equal tokens");
    check(byte_encodings(ts), "P14 a unique encoding of every byte");
    let long = long_tokens(ts);
    for t in long.iter() {
        if given.contains(t) { cover(8); continue; }
        check(admissible(t), "P14 nothing but newlines follows a blank line in a token");
        check(occurs(t, &d), "P14 every new token occurs in the data");
        cover(t.len() as u64);
    }
    // true statistics
    let want = tokenize(ts, &s);
    check((got.total_tokens == want.total_tokens) & (got.scanned_bytes == want.scanned_bytes), "P14 the totals are those of tokenizing the data with the set");
    check(got.initial_size == Some(77), "P14 the original size is given");
    let mut same = got.token_counts.len() == want.token_counts.len() && got.seq_counts.len() == want.seq_counts.len();
    if same {
        for i in 0..want.token_counts.len() { same &= got.token_counts[i] == want.token_counts[i]; }
        for i in 0..want.seq_counts.len() { same &= got.seq_counts[i] == want.seq_counts[i]; }
    }
    check(same, "P14 the counts are those of tokenizing the data with the set");
    check(got.total_tokens == total(&d, &long, &byte_costs(ts)), "P14 the total is the smallest number of tokens for the data");
    // no worse than the start
    let first = match (start, kind) {
        (Some(t), _) => t,
        (None, 4) => HuffOptimizer::optimize_bytes(&tokenize(&base(3), &s), n as usize),
        _ => base(kind),
    };
    check(got.total_tokens <= total(&d, &long_tokens(&first), &byte_costs(&first)), "P14 the set needs no more tokens than the initial one");
    observe(ts.ntokens() as u64);
    observe(got.total_tokens);
}

/// P15: any request completes (a crash or endless loop is a violation). params: as above
#[no_mangle]
pub extern "C" fn h15_completes() {
    let kind = concretize(range(param(0), param(1)));
    let n = concretize(range(param(2), param(3))) + [2, 4, 16, 256, 3][kind as usize];
    let pre = concretize(range(param(8), param(9)));
    let start = pretrained(pre, kind);
    assume(start.as_ref().map_or(0, |t| t.ntokens() as u64) <= n);
    let s = data(param(7), param(4), param(5), param(6));
    let got = optimizer(kind, n).optimize(&s, start);
    check(got.scanned_bytes == s.size, "P15 all the data is used");
    if (got.token_set.ntokens() as u64) < n { cover(1); }
    if s.size == 0 { cover(2); }
    observe(got.token_set.ntokens() as u64);
}
/// The same with a growing sample. params: kinds (lo, hi), sizes (lo, hi), letters (lo, hi), alphabet, greatest initial sample
#[no_mangle]
pub extern "C" fn h15_increasing() {
    let kind = concretize(range(param(0), param(1)));
    let n = concretize(range(param(2), param(3))) + [2, 4, 16, 256, 3][kind as usize];
    let s = data(1, param(4), param(5), param(6));
    let text: Vec<u8> = s.samples.iter().flat_map(|t| t.clone()).collect();
    std::fs::write("data.txt", &text).unwrap();
    let min = concretize(range(0, param(7)));
    let start = if flag() { pretrained(0, kind) } else { Some(base(kind)) };
    let got = crate::optimize_with_increasing_data(&optimizer(kind, n), "data.txt", min as usize, start);
    check(got.scanned_bytes == text.len() as u64, "P15 optimization ends with all the data");
    check(got.token_set.ntokens() as u64 <= n, "P15 at most the requested number of tokens");
    if (min as usize) < text.len() { cover(1); }
    if min == 0 { cover(2); }
    observe(got.token_set.ntokens() as u64);
}

/// P19: params: pretrained (lo, hi), letters (lo, hi), alphabet, samples
#[no_mangle]
pub extern "C" fn h19_greedy() {
    let pre = concretize(range(param(0), param(1)));
    let s = data(param(5), param(2), param(3), param(4));
    let start = pretrained(pre, 3);
    let from = start.clone().unwrap_or_else(|| base(3));
    let given = long_tokens(&from);
    let n = from.ntokens() + 1;
    let got = optimizer(3, n as u64).optimize(&s, start);
    let d = concrete(&s);
    let long = long_tokens(&got.token_set);
    // neighbours in the data tokenized with the set at the start
    let st = tokenize(&from, &s);
    let name = |i: usize| match &from.tokens[i] { Token::Str(s) => s.clone(), _ => vec![] };
    let mut pairs: Vec<(Vec<u8>, u64)> = vec![];
    let k = from.ntokens();
    let mut seen: Vec<usize> = vec![];
    for i in 0..k { if st.token_counts[i] > 0 { seen.push(i); } }
    for &i in seen.iter() { for &j in seen.iter() {
        let c = concretize(st.pair_counts[i * k + j]);
        if c == 0 { continue; }
        let mut t = name(i);
        t.extend_from_slice(&name(j));
        if admissible(&t) { pairs.push((t, c)); } else { cover(1); }
    } }
    let max = pairs.iter().map(|p| p.1).max().unwrap_or(0);
    if max == 0 {
        cover(2);
        check(got.token_set.ntokens() == from.ntokens() && long.len() == given.len() && given.iter().all(|t| long.contains(t)), "P19 without an admissible pair no token is added");
    } else {
        check(got.token_set.ntokens() == n, "P19 a token is added when there is an admissible pair");
        let mut added: Vec<&Vec<u8>> = vec![];
        for t in long.iter() { if !given.contains(t) { added.push(t); } }
        if added.len() == 1 {
            cover(3);
            let costs = byte_costs(&from);
            let mine = total(&d, &long, &costs);
            let mut ok = false;
            for (t, c) in pairs.iter() {
                if *c != max { continue; }
                if t == added[0] { ok = true; break; }
                // a pair that was replaced to the better
                let mut with = given.clone();
                with.push(t.clone());
                if !given.is_empty() && total(&d, &with, &costs) > mine { ok = true; cover(5); break; }
            }
            check(ok, "P19 the added token joins a most frequent admissible pair");
        } else {
            cover(4);
            check(!given.is_empty(), "P19 the added token joins a most frequent admissible pair");
        }
    }
    observe(got.token_set.ntokens() as u64);
    for t in long.iter() { observe_bytes(t); }
}

/// P21: the optimize command. params: kinds (lo, hi), sizes (lo, hi), letters (lo, hi), alphabet, processing (lo, hi), greatest initial sample, how it is called (lo, hi; 0: plain, 1: growing sample, 2: from a set, 3: both)
#[no_mangle]
pub extern "C" fn h21_optimize() {
    let kind = concretize(range(param(0), param(1)));
    let n = concretize(range(param(2), param(3))) + [2, 4, 16, 256, 3][kind as usize];
    let marked = concretize(range(param(7), param(8))) == 1;
    let processing = if marked { Processing::CapsWords } else { Processing::Raw };
    let how = concretize(range(param(10), param(11)));
    let min = if how % 2 == 1 { Some(concretize(range(0, param(9))) as usize) } else { None };
    let s = data(1, param(4), param(5), param(6));
    let raw: Vec<u8> = concrete(&s).concat();
    let text = unsafe { String::from_utf8_unchecked(raw.clone()) };
    std::fs::write("raw.txt", &text).unwrap();
    let mut processed = String::new();
    for line in text.lines() { processed += &crate::processing::process(line); processed.push('\n'); }
    let given = flag();
    if given { std::fs::write("processed.txt", if marked { &processed } else { "other" }).unwrap(); }
    let mut first = base(kind);
    first.processing = processing;
    if how >= 2 {
        assume(first.ntokens() as u64 + 1 <= n);
        first.add_token(b"aA");
        std::fs::write("set.json", serde_json::to_string(&first.to_json()).unwrap()).unwrap();
    }
    crate::optimize(n as usize, "raw.txt", if given { Some("processed.txt") } else { None }, ".", processing, token_type(kind), if how >= 2 { Some("set.json") } else { None }, min);
    // the file written: of the sizes possible exactly one is there
    let mut found = None;
    let mut files = 0;
    for k in 2..=n {
        let name = format!("./tokens{}_{}_{}.json", k, if marked { "capswords" } else { "raw" }, ["bits1", "bits2", "bits4", "bytes", "byteshuff"][kind as usize]);
        if let Ok(b) = std::fs::read(&name) { files += 1; found = Some((k, b)); }
    }
    check(files == 1, "P21 one file named after the type, the processing and a size of at most that asked for");
    let (k, b) = found.unwrap();
    let json: serde_json::Value = serde_json::from_slice(&b).unwrap_or(serde_json::Value::Null);
    check(json.is_object(), "P21 the file is JSON");
    let st = &json["stats"];
    let ts = TokenSet::from_json(json.clone());
    check(ts.ntokens() as u64 == k && token_type(kind) as u8 == ts.token_type as u8 && (ts.processing as u8 == 1) == marked, "P21 the set in the file has the type, the processing and the size of its name");
    check(byte_encodings(&ts), "P21 a unique encoding of every byte");
    let d = if marked { processed.into_bytes() } else { raw.clone() };
    let want = total(&[d.clone()], &long_tokens(&ts), &byte_costs(&ts));
    check(st["ntokens"].as_u64() == Some(k) && st["total_tokens"].as_u64() == Some(want), "P21 the token total is that of all the data");
    check(st["scanned_bytes"].as_u64() == Some(d.len() as u64), "P21 the bytes scanned are those of all the data");
    check(st["initial_size"].as_u64() == Some(raw.len() as u64), "P21 the original size is that of the unprocessed data");
    check(want <= total(&[d], &long_tokens(&first), &byte_costs(&first)) || kind == 4 || how % 2 == 1, "P21 the set needs no more tokens than the initial one");
    cover(1 + how);
    if marked { cover(if given { 5 } else { 6 }); }
    observe(k);
    observe(want);
}
