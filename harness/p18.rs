//! P18: count-chars.
use super::common::*;

fn expected(text: &str) -> String {
    let mut low = [0usize; 256];
    let mut max = 0;
    let mut n = 0;
    for c in text.chars() {
        n += 1;
        let c = c as u32;
        if c < 256 { low[c as usize] += 1; } else if c > max { max = c; }
    }
    let mut s = format!("Total: {}\n", n);
    for c in 0..256usize { if low[c] > 0 { s += &format!("{:?} {}\n", char::from_u32(c as u32).unwrap(), low[c]); } }
    s += &format!("Max char: {:?}\n", char::from_u32(max).unwrap());
    s
}
fn run(text: &str) {
    std::fs::write("text.txt", text).unwrap();
    stdout_take();
    crate::count_chars("text.txt");
    let out = stdout_take();
    let want = expected(text);
    check(same(&out, want.as_bytes()), "P18 the numbers printed are those of the characters of the file");
    observe_bytes(&out);
}
const CLASSES: [char; 16] = ['a', '\n', 'é', 'ÿ', 'Ā', '€', '\r', '\0', '"', '\u{7f}', 'A', '\u{fffd}', '\u{1f600}', '\u{e123}', '\u{301}', '\u{10ffff}'];
/// params: characters (lo, hi), classes, letters before
#[no_mangle]
pub extern "C" fn h18_classes() {
    let n = concretize(range(param(0), param(1)));
    let mut t = String::new();
    for _ in 0..param(3) { t.push('z'); }
    for _ in 0..n { let c = CLASSES[concretize(range(0, param(2) - 1)) as usize]; t.push(c); }
    cover(n);
    run(&t);
}
/// One character of an interval between others. params: lo, hi, text (0: alone, 1: among others)
#[no_mangle]
pub extern "C" fn h18_interval() {
    let c = any_char(param(0) as u32, param(1) as u32);
    let mut t = String::new();
    if param(2) == 1 { t.push_str("ab\nÿ€"); }
    t.push(c);
    if param(2) == 1 { t.push_str("b€\n\n"); }
    if (c as u32) < 256 { cover(1); } else { cover(2); }
    run(&t);
}
/// Any character of an interval among any characters of the classes. params: lo, hi, classes
#[no_mangle]
pub extern "C" fn h18_mixed() {
    let mut t = String::new();
    t.push(CLASSES[concretize(range(0, param(2) - 1)) as usize]);
    let c = any_char(param(0) as u32, param(1) as u32);
    t.push(c);
    t.push(CLASSES[concretize(range(0, param(2) - 1)) as usize]);
    if flag() { t.push(c); }
    cover(1);
    run(&t);
}
