//! P12: token sets survive being written as JSON and read back.
use super::common::*;
use super::sets::*;
use crate::processing::Processing;
use crate::stats2::TokenStats;
use crate::tokenset::{Token, TokenSet, TokenType};

fn kind_of(ts: &TokenSet) -> u64 {
    match ts.token_type { TokenType::Bits1 => 0, TokenType::Bits2 => 1, TokenType::Bits4 => 2, TokenType::Bytes => 3, TokenType::BytesHuff => 4 }
}
fn raw(ts: &TokenSet) -> bool { matches!(ts.processing, Processing::Raw) }
fn eq_token(a: &Token, b: &Token) -> bool {
    match (a, b) { (Token::Ext(x), Token::Ext(y)) => x == y, (Token::Str(x), Token::Str(y)) => same(x, y), _ => false }
}
/// The same set: encodings may be listed in another order.
pub fn equivalent(a: &TokenSet, b: &TokenSet) {
    check(kind_of(a) == kind_of(b), "P12 the type is kept");
    check(raw(a) == raw(b), "P12 the processing is kept");
    check(a.split_paragraphs == b.split_paragraphs, "P12 the paragraph flag is kept");
    check(a.n_ext_tokens == b.n_ext_tokens, "P12 the number of extension tokens is kept");
    check(a.tokens.len() == b.tokens.len(), "P12 the number of tokens is kept");
    if a.tokens.len() != b.tokens.len() { return; }
    let mut eq = true;
    for (x, y) in a.tokens.iter().zip(b.tokens.iter()) { eq &= eq_token(x, y); }
    check(eq, "P12 the tokens are kept in order");
    check(a.sequences.len() == b.sequences.len(), "P12 each encoding is there once");
    if a.sequences.len() != b.sequences.len() { return; }
    let aligned = a.sequences.iter().zip(b.sequences.iter()).all(|(s, t)| same(&s.string, &t.string));
    for (i, s) in a.sequences.iter().enumerate() {
        let t = if aligned { Some(&b.sequences[i]) } else { b.sequences.iter().find(|t| same(&s.string, &t.string)) };
        check(t.is_some() && t.unwrap().tokens == s.tokens, "P12 the encodings are kept");
    }
}
fn round(ts: &TokenSet) {
    let text = serde_json::to_string(&ts.to_json()).unwrap();
    let back = TokenSet::from_json(serde_json::from_str(&text).unwrap());
    equivalent(ts, &back);
    let again = serde_json::to_string(&back.to_json()).unwrap();
    check(same(text.as_bytes(), again.as_bytes()), "P12 written again, the text is the same");
    observe(text.len() as u64);
}
fn flags(ts: &mut TokenSet) {
    if flag() { ts.processing = Processing::CapsWords; }
    ts.split_paragraphs = flag();
}
/// The sets of the program. params: kinds (lo, hi), extra tokens (lo, hi)
#[no_mangle]
pub extern "C" fn h12_fixed() {
    let kind = concretize(range(param(0), param(1)));
    let ex = concretize(range(param(2), param(3))) as usize;
    let mut ts = with(kind, EXTRAS[ex]);
    flags(&mut ts);
    match concretize(range(0, 2)) {
        0 => {}
        1 => ts.sort(),
        _ => {
            // remove a token no encoding needs
            let k = ts.tokens.iter().position(|t| matches!(t, Token::Str(s) if s.len() > 1));
            assume(k.is_some());
            ts.remove_token(k.unwrap());
        }
    }
    cover(kind);
    round(&ts);
}
/// Tokens of any bytes. params: kind (5: a set with one string token and sequences that use new tokens), new tokens, their lengths (lo, hi), alphabet (0: any byte, 1: bytes at the limits of UTF-8, 2: escapes)
#[no_mangle]
pub extern "C" fn h12_symbolic() {
    let mut ts = if param(0) < 5 { base(param(0)) } else { TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true) };
    let mut new: Vec<Vec<u8>> = vec![];
    for _ in 0..param(1) {
        let l = concretize(range(param(2), param(3)));
        let mut t = vec![];
        for _ in 0..l {
            t.push(match param(4) {
                0 => byte(),
                1 => pick(&[b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff]),
                _ => pick(&[0, 8, 9, 10, 12, 13, 0x1f, b'"', b'\\', b'/', b'u', b'a', 0xc3, 0xa9]),
            });
        }
        for u in ts.tokens.iter() { if let Token::Str(u) = u { assume(!same(u, &t)); } }
        for u in new.iter() { assume(!same(u, &t)); }
        ts.add_token(&t);
        new.push(t);
    }
    if param(0) == 5 {
        let n = ts.tokens.len() as u64;
        for _ in 0..2 {
            let b = pick(&[b'd', b'"', 0x7f, 0x80, 0xff]);
            assume(!new.iter().any(|t| t.len() == 1 && t[0] == b));
            assume(!ts.sequences.iter().any(|s| s.string[0] == b));
            let t0 = concretize(range(2, n - 1)) as usize;
            let e = concretize(range(0, 1)) as usize;
            let seq = if flag() { vec![t0, e] } else { vec![t0, 1 - e, e] };
            ts.add_sequence(vec![b], seq);
        }
        if flag() { ts.sort(); }
    }
    flags(&mut ts);
    let valid = new.iter().filter(|t| std::str::from_utf8(t).is_ok()).count();
    if valid == new.len() { cover(1); } else { cover(2); }
    round(&ts);
}
/// The file of an optimized set is read back by read_token_set. params: kinds (lo, hi)
#[no_mangle]
pub extern "C" fn h12_file() {
    let kind = concretize(range(param(0), param(1)));
    let mut ts = with(kind, EXTRAS[7]);
    flags(&mut ts);
    let t = [b'a', byte(), b'z'];
    ts.add_token(&t);
    if flag() { ts.sort(); }
    let stats = TokenStats::new(ts.clone(), if flag() { Some(1000) } else { None });
    let mut stats = stats;
    stats.total_tokens = 7;
    crate::save_tokens(&stats, std::path::Path::new("."));
    let name = format!("{}.json", ts.name());
    let back = crate::read_token_set(&name);
    equivalent(&ts, &back);
    cover(kind);
    observe(back.tokens.len() as u64);
}
