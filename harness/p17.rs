//! P17: convert-tokens.
use super::common::*;
use super::sets::*;
use crate::processing::{process, Processing};
use crate::tokenset::{Token, TokenSet, TokenType};
use serde_json::Value;

const NAMES: [&str; 5] = ["bits1", "bits2", "bits4", "bytes", "byteshuff"];
const LETTERS: [char; 6] = ['a', 'b', '\n', 'A', 'é', ' '];
fn text(n: u64, letters: u64) -> String {
    let mut s = String::new();
    for _ in 0..n {
        if letters <= 4 { s.push(pick(&[b'a', b'b', b'\n', b'A'][..letters as usize]) as char); }
        else { s.push(LETTERS[concretize(range(0, letters - 1)) as usize]); }
    }
    s
}
/// The fewest tokens, by the definition.
fn minimum(text: &[u8], long: &[Vec<u8>], costs: &[u64; 256]) -> u64 {
    let mut best = vec![0u64; text.len() + 1];
    for i in 1..=text.len() {
        let mut m = best[i - 1] + costs[text[i - 1] as usize];
        for t in long {
            if t.len() <= i && same(&text[i - t.len()..i], t) { m = std::cmp::min(m, best[i - t.len()] + 1); }
        }
        best[i] = m;
    }
    best[text.len()]
}
fn kind_of(ts: &TokenSet) -> u64 {
    match ts.token_type { TokenType::Bits1 => 0, TokenType::Bits2 => 1, TokenType::Bits4 => 2, TokenType::Bytes => 3, TokenType::BytesHuff => 4 }
}
fn same_set(a: &TokenSet, b: &TokenSet) -> bool {
    kind_of(a) == kind_of(b) && a.processing as u8 == b.processing as u8 && a.split_paragraphs == b.split_paragraphs && a.n_ext_tokens == b.n_ext_tokens
        && a.tokens == b.tokens && a.sequences.len() == b.sequences.len()
        && a.sequences.iter().zip(b.sequences.iter()).all(|(s, t)| s.string == t.string && s.tokens == t.tokens)
}
/// params: kinds (lo, hi), extra tokens (lo, hi), letters (lo, hi), alphabet, processing (0: raw, 1: raw or with markers), what the file of the set holds (0: a set, 1: or a set with statistics of other data, 2: or is the file written)
#[no_mangle]
pub extern "C" fn h17_convert() {
    let kind = concretize(range(param(0), param(1)));
    let ex = concretize(range(param(2), param(3))) as usize;
    let mut ts = with(kind, EXTRAS[ex]);
    let marked = concretize(range(0, param(7))) == 1;
    if marked { ts.processing = Processing::CapsWords; }
    ts.split_paragraphs = flag();
    let form = concretize(range(0, param(8)));
    let n = concretize(range(param(4), param(5)));
    let raw = text(n, param(6));
    std::fs::write("raw.txt", &raw).unwrap();
    // a processed file may be given; it is used if the set asks for one
    let given = flag();
    let mut processed = String::new();
    for line in raw.lines() { processed += &process(line); processed.push('\n'); }
    if given { std::fs::write("processed.txt", if marked { processed.clone() } else { "other".to_string() }).unwrap(); }
    let name = format!("./tokens{}_{}_{}.json", ts.tokens.len(), if marked { "capswords" } else { "raw" }, NAMES[kind as usize]);
    let mut json = ts.to_json();
    if form > 0 { json["stats"] = serde_json::json!({"ntokens": 1, "total_tokens": 12345, "scanned_bytes": 777, "initial_size": 5, "bytes_per_token": 0.5}); }
    let from: &str = if form == 2 { &name } else { "set.json" };
    std::fs::write(from, serde_json::to_string(&json).unwrap()).unwrap();
    let before = TokenSet::from_json(json);

    crate::load_save_tokens("raw.txt", if given { Some("processed.txt") } else { None }, from, ".");

    let out = std::fs::read(&name);
    check(out.is_ok(), "P17 the file written is named after the set");
    let out: Value = match serde_json::from_slice(&out.unwrap()) { Ok(v) => v, Err(_) => { check(false, "P17 the file written is JSON"); return; } };
    check(same_set(&before, &TokenSet::from_json(out.clone())), "P17 the set written is the one read");
    let data = if marked { processed.as_bytes() } else { raw.as_bytes() };
    let total = minimum(data, &long_tokens(&ts), &byte_costs(&ts));
    let s = &out["stats"];
    check(s["ntokens"].as_u64() == Some(ts.tokens.len() as u64), "P17 the number of tokens is that of the set");
    check(s["total_tokens"].as_u64() == Some(total), "P17 the token total is that of the data");
    check(s["scanned_bytes"].as_u64() == Some(data.len() as u64), "P17 the bytes scanned are those of the data tokenized");
    check(s["initial_size"].as_u64() == Some(raw.len() as u64), "P17 the original size is that of the unprocessed data");
    if total > 0 {
        let b = s["bytes_per_token"].as_f64().unwrap_or(-1.0);
        let want = raw.len() as f64 / total as f64;
        check(b >= want - 1e-9 && b <= want + 1e-9, "P17 bytes per token relates the original size to the total");
    }
    cover(1 + marked as u64);
    if marked && !given { cover(3); }
    if n == 0 { cover(4); }
    observe(total);
}
