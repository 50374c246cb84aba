//! P11: edits of token sets.
use super::common::*;
use super::sets::*;
use crate::processing::Processing;
use crate::tokenset::{Token, TokenSet, TokenType};

/// What a set means: its tokens, and for each encoded string the tokens of its encoding, by name.
struct Model { ext: usize, tokens: Vec<Token>, seqs: Vec<(Vec<u8>, Vec<Token>)> }
fn model(ts: &TokenSet) -> Model {
    Model { ext: ts.n_ext_tokens, tokens: ts.tokens.clone(), seqs: ts.sequences.iter().map(|s| (s.string.clone(), s.tokens.iter().map(|&i| ts.tokens[i].clone()).collect())).collect() }
}
fn eq_token(a: &Token, b: &Token) -> bool {
    match (a, b) { (Token::Ext(x), Token::Ext(y)) => x == y, (Token::Str(x), Token::Str(y)) => same(x, y), _ => false }
}
fn eq_tokens(a: &[Token], b: &[Token]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq_token(x, y)) }
fn small(start: u64) -> TokenSet {
    let mut ts = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true);
    let a = ts.add_token(b"a");
    let bc = ts.add_token(b"bc");
    let c = ts.add_token(b"c");
    if start > 0 {
        ts.add_sequence(vec![b'd'], vec![a, 0]);
        ts.add_sequence(vec![b'b'], vec![c, a, 1, c]);
        if start > 1 { ts.add_sequence(vec![b'e'], vec![c, 1, 0]); ts.add_sequence(vec![b'f'], vec![a, 1]); }
    }
    let _ = bc;
    ts
}
/// Same meaning as the model?
fn compare(ts: &TokenSet, m: &Model) {
    check(ts.n_ext_tokens == m.ext, "P11 the extension tokens stay");
    check(ts.tokens.len() == m.tokens.len() && ts.ntokens() == m.tokens.len(), "P11 number of tokens");
    if ts.tokens.len() != m.tokens.len() { return; }
    for t in m.tokens.iter() {
        let mut n = 0;
        for u in ts.tokens.iter() { if eq_token(t, u) { n += 1; } }
        check(n == 1, "P11 every remaining token is there once");
    }
    check(ts.sequences.len() == m.seqs.len(), "P11 number of encodings");
    let mut ok = true;
    for s in ts.sequences.iter() { for &i in s.tokens.iter() { ok &= i < ts.tokens.len(); } }
    check(ok, "P11 encodings refer to existing tokens");
    if !ok || ts.sequences.len() != m.seqs.len() { return; }
    let aligned = ts.sequences.iter().zip(m.seqs.iter()).all(|(s, (t, _))| same(&s.string, t));
    for (i, (t, toks)) in m.seqs.iter().enumerate() {
        let s = if aligned { Some(&ts.sequences[i]) } else { ts.sequences.iter().find(|s| same(&s.string, t)) };
        check(s.is_some(), "P11 every remaining encoding is there");
        if let Some(s) = s {
            let names: Vec<Token> = s.tokens.iter().map(|&i| ts.tokens[i].clone()).collect();
            check(eq_tokens(&names, toks), "P11 every remaining encoding names the same tokens in the same order");
        }
    }
    let mut long = 0;
    for t in m.tokens.iter() { if let Token::Str(s) = t { if s.len() > 1 { long += 1; } } }
    check(ts.n_long_tokens() == long, "P11 number of multi-byte tokens");
}
fn less(a: &[u8], b: &[u8]) -> bool { a < b }
fn check_sorted(ts: &TokenSet) {
    for i in 1..ts.tokens.len() {
        let ok = match (&ts.tokens[i - 1], &ts.tokens[i]) {
            (Token::Ext(a), Token::Ext(b)) => a < b,
            (Token::Ext(_), Token::Str(_)) => true,
            (Token::Str(_), Token::Ext(_)) => false,
            (Token::Str(a), Token::Str(b)) => less(a, b),
        };
        check(ok, "P11 sorted: extension tokens, then strings by their bytes");
    }
    for i in 1..ts.sequences.len() { check(less(&ts.sequences[i - 1].string, &ts.sequences[i].string), "P11 sorted: encodings by their bytes"); }
}
/// Any operations on a set. params: start (0-2 small sets, 10 + kind: a base set), operations, bytes of the alphabet (0: any byte), longest token
#[no_mangle]
pub extern "C" fn h11_edit() {
    let mut ts = if param(0) < 10 { small(param(0)) } else { with(param(0) - 10, EXTRAS[2]) };
    let mut m = model(&ts);
    for _ in 0..param(1) {
        let op = concretize(range(0, 2));
        match op {
            0 => {
                let l = concretize(range(1, param(3)));
                let mut t = vec![];
                for _ in 0..l { t.push(if param(2) == 0 { byte() } else { range(b'a' as u64, b'a' as u64 + param(2) - 1) as u8 }); }
                for u in m.tokens.iter() { if let Token::Str(u) = u { assume(!same(u, &t)); } }
                let i = ts.add_token(&t);
                check(i < ts.tokens.len() && eq_token(&ts.tokens[i], &Token::Str(t.clone())), "P11 a new token is at the index returned");
                check(ts.find_token(&t) == Some(i), "P11 a new token is found");
                let n = m.seqs.len();
                m.seqs.retain(|s| !same(&s.0, &t));
                if m.seqs.len() < n { cover(4); }
                m.tokens.push(Token::Str(t));
            }
            1 => {
                let i = concretize(range(0, ts.tokens.len() as u64 - 1)) as usize;
                // only string tokens which no encoding needs can be removed
                assume(matches!(ts.tokens[i], Token::Str(_)));
                assume(!ts.sequences.iter().any(|s| s.tokens.contains(&i)));
                let t = ts.tokens[i].clone();
                let last = i + 1 == ts.tokens.len();
                if !last && ts.sequences.iter().any(|s| s.tokens.contains(&(ts.tokens.len() - 1))) { cover(5); }
                ts.remove_token(i);
                m.tokens.retain(|u| !eq_token(u, &t));
                if let Token::Str(t) = &t { check(ts.find_token(t).is_none(), "P11 a removed token is not found"); }
            }
            _ => {
                ts.sort();
                check_sorted(&ts);
                if !m.seqs.is_empty() { cover(6); }
            }
        }
        cover(op + 1);
        compare(&ts, &m);
    }
    observe(ts.tokens.len() as u64);
}
