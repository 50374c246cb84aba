//! Reader for LLVM textual IR: globals eagerly, functions lazily; lowered to a flat register code in
//! which every aggregate or vector is a run of consecutive scalar slots.
use crate::expr::{mask128, Op};
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 1 << 30;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => panic!("bits of {:?}", t) } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (n * t.store_size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.size() } }
            Ty::Struct(f, packed) => { let mut o = 0; for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => { let mut o = 0; for (j, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if j as u64 == i { return o; } o += t.size(); } o }
            t => panic!("field_off {:?}", t),
        }
    }
    pub fn elem(&self, i: u64) -> Ty { match self { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), Ty::Struct(f, _) => f[i as usize].clone(), t => panic!("elem {:?}", t) } }
    pub fn nelem(&self) -> u64 { match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n, Ty::Struct(f, _) => f.len() as u64, _ => 0 } }
    /// Scalars with byte offsets.
    pub fn flat(&self) -> Vec<(Ty, u64)> { let mut v = vec![]; self.flat_into(0, &mut v); v }
    fn flat_into(&self, off: u64, v: &mut Vec<(Ty, u64)>) {
        match self {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => for i in 0..self.nelem() { self.elem(i).flat_into(off + self.field_off(i), v) },
            Ty::Void | Ty::Other => {}
            t => v.push((t.clone(), off)),
        }
    }
    pub fn nflat(&self) -> usize { match self { Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nflat(), Ty::Struct(f, _) => f.iter().map(|t| t.nflat()).sum(), Ty::Void | Ty::Other => 0, _ => 1 } }
}

pub const CONST: u32 = 0x8000_0000;
pub type S = u32; // slot or CONST|index

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u16, u32, S, S),
    Cmp(Pred, u16, u32, S, S),
    Sel(u16, u32, S, S, S),
    Zext(u16, u16, u32, S),
    Sext(u16, u16, u32, S),
    Trunc(u16, u32, S), // to width
    Mov(u32, S),
    GepC(u32, S, u64),
    Gep(u32, S, S, u16, u64, u64), // d, base, idx, idx width, scale, const
    Load(u16, u32, S),
    Store(u16, S, S), // width, value, ptr
    Alloca(u32, u64, S),
    Br(u32),
    CondBr(S, u32, u32),
    Switch(u16, S, Rc<HashMap<u64, u32>>, Rc<Vec<(u64, u32)>>, u32),
    Call { callee: Callee, args: Rc<Vec<S>>, widths: Rc<Vec<u16>>, d: u32, nret: u32, rw: u16, cont: u32 },
    Ret(Rc<Vec<S>>),
    Unreachable,
    Rmw(u8, u16, u32, S, S), // op, width, d, ptr, val
    CmpXchg(u16, u32, S, S, S),
    Regroup { d: u32, nd: u32, dw: u16, s: Rc<Vec<S>>, sw: u16 },
    ExtElem { w: u16, d: u32, v: Rc<Vec<S>>, idx: S },
    InsElem { w: u16, d: u32, v: Rc<Vec<S>>, x: S, idx: S },
    FBin(u8, u16, u32, S, S),
    FCmp(u8, u16, u32, S, S),
    FCast(u8, u16, u16, u32, S), // kind, from, to
    FNeg(u16, u32, S),
    Fence,
    Fsh { w: u16, d: u32, a: S, b: S, k: u32 }, // funnel shift left by a constant
    LoadV { w: u16, n: u32, d: u32, p: S },
    CmpV { p: Pred, w: u16, d: u32, a: Rc<Vec<S>>, b: Rc<Vec<S>> },
    MovV(u32, Rc<Vec<S>>),
    Bad(Rc<String>),
}

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ptr(S), Intr(u32), Asm(Rc<String>) }
pub const NOCONT: u32 = u32::MAX;

#[derive(Debug)]
pub struct Edge { pub block: u32, pub pc: u32, pub moves: Vec<(u32, S)> }

#[derive(Debug)]
pub struct Func { pub name: String, pub nparams: u32, pub nslots: u32, pub code: Vec<I>, pub consts: Vec<(u16, u128)>, pub edges: Vec<Edge>, pub nblocks: u32, pub pwidths: Vec<u16> }

pub struct FnDecl { pub name: String, pub start: usize, pub end: usize, pub header: (usize, usize), pub lowered: Option<Rc<Func>>, pub is_decl: bool }

pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub tls: bool, pub constant: bool }

pub struct Module {
    pub text: Rc<String>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub fns: Vec<FnDecl>,
    pub fidx: HashMap<String, u32>,
    pub rel: HashMap<(u32, u32), u64>, // (global obj id, offset) -> absolute address
    pub intrs: Vec<String>,
    pub intr_idx: HashMap<String, u32>,
}

pub struct Cur<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self { Cur { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') { self.i += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    pub fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?} in {:?}", t, self.rest(60), String::from_utf8_lossy(&self.s[..self.s.len().min(300)])) } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).to_string() }
    /// identifier-like word [A-Za-z0-9_.$-]
    pub fn word(&mut self) -> &'a str { self.ws(); let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; } std::str::from_utf8(&self.s[st..self.i]).unwrap() }
    pub fn peek_word(&mut self) -> &'a str { let i = { self.ws(); self.i }; let w = self.word(); self.i = i; w }
    /// name after % or @
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' { let st = self.i + 1; let mut j = st; while self.s[j] != b'"' { j += 1; } self.i = j + 1; String::from_utf8_lossy(&self.s[st..j]).to_string() }
        else { let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; } String::from_utf8_lossy(&self.s[st..self.i]).to_string() }
    }
    fn skip_parens(&mut self) { self.ws(); assert!(self.s[self.i] == b'('); let mut d = 0; loop { match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; } }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let c = self.s[self.i];
        let t = match c {
            b'{' => { self.i += 1; let mut v = vec![]; if self.eat("}") { Ty::Struct(Rc::new(v), false) } else { loop { v.push(self.ty()); if self.eat(",") { continue; } self.expect("}"); break; } Ty::Struct(Rc::new(v), false) } }
            b'[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); self.expect("x"); let t = self.ty(); self.expect("]"); Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                self.i += 1;
                if self.eat("{") { let mut v = vec![]; if !self.eat("}") { loop { v.push(self.ty()); if self.eat(",") { continue; } self.expect("}"); break; } } self.expect(">"); Ty::Struct(Rc::new(v), true) }
                else { let n: u64 = self.word().parse().unwrap(); self.expect("x"); let t = self.ty(); self.expect(">"); Ty::Vec(n, Rc::new(t)) }
            }
            _ => {
                let w = self.word();
                if w == "void" { Ty::Void } else if w == "ptr" { if self.eat("addrspace") { self.skip_parens(); } Ty::Ptr } else if w == "float" { Ty::F32 } else if w == "double" { Ty::F64 }
                else if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) && w.len() > 1 { Ty::Int(w[1..].parse().unwrap()) }
                else if w == "metadata" || w == "label" { Ty::Other }
                else { panic!("type? {:?} at {}", w, self.rest(80)) }
            }
        };
        t
    }
    fn is_ty_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'[' | b'<') { return true; }
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "float" | "double" | "metadata") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    /// Skip attribute words up to a type.
    fn skip_attrs_to_type(&mut self) {
        while !self.is_ty_start() { self.attr(); }
    }
    fn attr(&mut self) {
        if self.peek() == b'#' { self.i += 1; self.word(); return; }
        if self.peek() == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat("=") { self.ws(); self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } return; }
        let w = self.word();
        if w.is_empty() { panic!("attr? {}", self.rest(100)); }
        if w == "align" { let save = self.i; if self.peek() == b'(' { self.skip_parens(); } else { let n = self.word(); if n.is_empty() { self.i = save; } } return; }
        if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens(); }
    }
    fn is_operand_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'%' | b'@' | b'-' | b'+' | b'<' | b'{' | b'[' | b'!') || c.is_ascii_digit() { return true; }
        let w = self.peek_word();
        matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "sub" | "add" | "splat" | "c" | "bitcast" | "none" | "asm") || w.starts_with("f0x")
    }
    fn skip_attrs_to_operand(&mut self) { while !self.is_operand_start() { self.attr(); } }
}

fn parse_int(w: &str) -> u128 { if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))).wrapping_neg() } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?}", w)) } }

pub enum Opd { Local(String), Const(Vec<(u16, u128)>) }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(String::from_utf8_lossy(&std::fs::read(path).expect("read ll")).to_string());
        let mut m = Module { text: text.clone(), globals: vec![], gidx: HashMap::new(), fns: vec![], fidx: HashMap::new(), rel: HashMap::new(), intrs: vec![], intr_idx: HashMap::new() };
        // pass 1: names
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = bytes[pos..].iter().position(|&b| b == b'\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..e];
            if line.starts_with('@') {
                let mut c = Cur::new(line); c.i = 1; let name = c.name();
                let id = m.globals.len() as u32;
                m.globals.push(Global { name: name.clone(), size: 0, data: vec![], tls: false, constant: false });
                m.gidx.insert(name, id);
                gl.push((pos, e));
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut c = Cur::new(line); c.i = at + 1; let name = c.name();
                let id = m.fns.len() as u32;
                let is_decl = line.starts_with("declare ");
                let mut end = e;
                if !is_decl {
                    // find closing "\n}\n"
                    let t = text[e..].find("\n}\n").map(|x| e + x).unwrap_or(bytes.len());
                    end = t;
                }
                m.fidx.insert(name.clone(), id);
                m.fns.push(FnDecl { name, start: e + 1, end, header: (pos, e), lowered: None, is_decl });
                pos = end + 1;
                continue;
            }
            pos = e + 1;
        }
        // pass 2: global initialisers
        for (gi, (s, e)) in gl.iter().enumerate() {
            let line = &text[*s..*e];
            m.parse_global(gi as u32, line);
        }
        m
    }
    pub fn gaddr(&self, g: u32) -> u64 { (g as u64 + 1) << 32 }
    pub fn faddr(&self, f: u32) -> u64 { (FN_BASE + f as u64) << 32 }

    fn parse_global(&mut self, gi: u32, line: &str) {
        let mut c = Cur::new(line);
        c.i = 1; c.name(); c.expect("=");
        let mut ext = false;
        loop {
            let w = c.peek_word();
            match w {
                "constant" | "global" => { c.word(); self.globals[gi as usize].constant = w == "constant"; break; }
                "thread_local" => { c.word(); if c.peek() == b'(' { c.skip_parens(); } self.globals[gi as usize].tls = true; }
                "external" | "extern_weak" => { c.word(); ext = true; }
                "alias" => panic!("alias"),
                _ => { c.word(); if c.peek() == b'(' { c.skip_parens(); } }
            }
        }
        let ty = c.ty();
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        if !ext { let id = gi + 1; self.init_into(&mut c, &ty, &mut data, 0, id); }
        let g = &mut self.globals[gi as usize];
        g.size = size; g.data = data;
    }

    fn init_into(&mut self, c: &mut Cur, ty: &Ty, data: &mut [u8], off: u64, gid: u32) {
        let p = c.peek();
        if p == b'c' && c.s.get(c.i + 1) == Some(&b'"') {
            c.i += 2; let mut o = off as usize;
            while c.s[c.i] != b'"' {
                if c.s[c.i] == b'\\' { if c.s[c.i + 1] == b'\\' { data[o] = b'\\'; c.i += 2; } else { let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap(); data[o] = u8::from_str_radix(h, 16).unwrap(); c.i += 3; } }
                else { data[o] = c.s[c.i]; c.i += 1; }
                o += 1;
            }
            c.i += 1;
            return;
        }
        let w = c.peek_word();
        if matches!(w, "zeroinitializer" | "undef" | "poison") { c.word(); return; }
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let (o, cl) = match ty { Ty::Arr(..) => ("[", "]"), Ty::Vec(..) => ("<", ">"), Ty::Struct(_, true) => ("<{", "}>"), _ => ("{", "}") };
                c.expect(o);
                let n = ty.nelem();
                for i in 0..n { let t = c.ty(); self.init_into(c, &t, data, off + ty.field_off(i), gid); if i + 1 < n { c.expect(","); } }
                c.expect(cl);
            }
            t => {
                let (v, rel) = self.const_scalar_rel(c, t);
                if let Some(a) = rel { self.rel.insert((gid, off as u32), a); }
                let n = t.store_size() as usize;
                for i in 0..n { data[off as usize + i] = (v >> (8 * i)) as u8; }
            }
        }
    }
    fn const_scalar_rel(&self, c: &mut Cur, ty: &Ty) -> (u128, Option<u64>) {
        // trunc (i64 sub (i64 ptrtoint (ptr @A to i64), i64 ptrtoint (ptr @B to i64)) to i32)
        if c.peek_word() == "trunc" {
            let save = c.i;
            c.word(); c.expect("("); let t1 = c.ty();
            if c.peek_word() == "sub" { c.word(); for f in ["nuw", "nsw"] { c.eat(f); } c.expect("("); c.ty(); let a = self.const_scalar(c, &Ty::Int(64)); c.expect(","); c.ty(); let b = self.const_scalar(c, &Ty::Int(64)); c.expect(")"); c.expect("to"); c.ty(); c.expect(")"); return ((a.wrapping_sub(b)) & mask128(32), Some(a as u64)); }
            let _ = t1; c.i = save;
        }
        (self.const_scalar(c, ty), None)
    }
    fn const_scalar(&self, c: &mut Cur, ty: &Ty) -> u128 {
        let p = c.peek();
        if p == b'@' { c.i += 1; let n = c.name(); return self.sym(&n) as u128; }
        if p == b'-' || p.is_ascii_digit() || p == b'+' {
            // integer or float literal
            if matches!(ty, Ty::F32 | Ty::F64) {
                let st = c.i; while c.i < c.s.len() && (c.s[c.i].is_ascii_alphanumeric() || matches!(c.s[c.i], b'.' | b'+' | b'-')) { c.i += 1; }
                let w = std::str::from_utf8(&c.s[st..c.i]).unwrap();
                if let Some(h) = w.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).unwrap(); return if *ty == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }; }
                let d: f64 = match w { "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" => f64::NAN, "-qnan" => -f64::NAN, _ => w.parse().unwrap_or_else(|_| panic!("float {}", w)) };
                return if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 };
            }
            let w = c.word();
            return parse_int(w) & mask128(ty.bits());
        }
        let w = c.word();
        match w {
            "true" => 1, "false" => 0, "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
            "inttoptr" | "ptrtoint" | "bitcast" => { c.expect("("); let t = c.ty(); let v = self.const_scalar(c, &t); c.expect("to"); c.ty(); c.expect(")"); v }
            "trunc" => { c.expect("("); let t = c.ty(); let v = self.const_scalar(c, &t); c.expect("to"); let t2 = c.ty(); c.expect(")"); v & mask128(t2.bits()) }
            "sub" | "add" => { for f in ["nuw", "nsw"] { c.eat(f); } c.expect("("); let t = c.ty(); let a = self.const_scalar(c, &t); c.expect(","); c.ty(); let b = self.const_scalar(c, &t); c.expect(")"); (if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }) & mask128(t.bits()) }
            "getelementptr" => {
                loop { let x = c.peek_word(); if x == "inbounds" || x == "nuw" || x == "nusw" || x == "nsw" { c.word(); } else if x == "inrange" { c.word(); c.skip_parens(); } else { break; } }
                c.expect("("); let st = c.ty(); c.expect(","); let pt = c.ty(); let base = self.const_scalar(c, &pt) as u64;
                let mut off = 0u64; let mut cur = st.clone(); let mut first = true;
                while c.eat(",") { let it = c.ty(); let ix = self.const_scalar(c, &it); let ix = crate::expr::sx128(ix, it.bits()) as i64 as u64; if first { off = off.wrapping_add(ix.wrapping_mul(st.size())); first = false; } else { off = off.wrapping_add(cur.field_off(ix)); cur = cur.elem(ix); } }
                c.expect(")");
                base.wrapping_add(off) as u128
            }
            w if w.starts_with("f0x") => { let b = u64::from_str_radix(&w[3..], 16).unwrap(); b as u128 }
            _ => panic!("const {:?} near {}", w, c.rest(100)),
        }
    }
    fn sym(&self, n: &str) -> u64 {
        if let Some(&g) = self.gidx.get(n) { return self.gaddr(g); }
        if let Some(&f) = self.fidx.get(n) { return self.faddr(f); }
        panic!("unknown symbol @{}", n)
    }
    fn operand(&self, c: &mut Cur, ty: &Ty) -> Opd {
        if c.peek() == b'%' { c.i += 1; return Opd::Local(c.name()); }
        Opd::Const(self.const_val(c, ty))
    }
    fn const_val(&self, c: &mut Cur, ty: &Ty) -> Vec<(u16, u128)> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let zero = || ty.flat().iter().map(|(t, _)| (t.bits(), 0u128)).collect::<Vec<_>>();
                let w = c.peek_word();
                if matches!(w, "zeroinitializer" | "undef" | "poison") { c.word(); return zero(); }
                if w == "splat" { c.word(); c.expect("("); let t = c.ty(); let v = self.const_scalar(c, &t); c.expect(")"); return ty.flat().iter().map(|(t, _)| (t.bits(), v)).collect(); }
                if w == "c" { c.i += 2; let mut v = vec![]; while c.s[c.i] != b'"' { if c.s[c.i] == b'\\' { let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap(); v.push((8, u8::from_str_radix(h, 16).unwrap() as u128)); c.i += 3; } else { v.push((8, c.s[c.i] as u128)); c.i += 1; } } c.i += 1; return v; }
                let (o, cl) = match ty { Ty::Arr(..) => ("[", "]"), Ty::Vec(..) => ("<", ">"), Ty::Struct(_, true) => ("<{", "}>"), _ => ("{", "}") };
                c.expect(o);
                let mut v = vec![];
                let n = ty.nelem();
                for i in 0..n { let t = c.ty(); v.extend(self.const_val(c, &t)); if i + 1 < n { c.expect(","); } }
                c.expect(cl);
                v
            }
            t => vec![(t.bits(), self.const_scalar(c, t))],
        }
    }

    pub fn func(&mut self, f: u32) -> Rc<Func> {
        if let Some(x) = &self.fns[f as usize].lowered { return x.clone(); }
        let x = Rc::new(Lower::run(self, f));
        self.fns[f as usize].lowered = Some(x.clone());
        x
    }
    pub fn intr(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.intr_idx.get(n) { return i; }
        let i = self.intrs.len() as u32;
        self.intrs.push(n.to_string());
        self.intr_idx.insert(n.to_string(), i);
        i
    }
}

struct Phi { d: u32, n: u32, inc: Vec<(Vec<S>, u32)> }

struct Lower<'m> {
    m: &'m mut Module,
    slots: HashMap<String, (u32, u32)>,
    nslots: u32,
    consts: Vec<(u16, u128)>,
    cmap: HashMap<(u16, u128), u32>,
    blocks: HashMap<String, u32>,
    bstart: Vec<u32>,
    phis: Vec<Vec<Phi>>,
    code: Vec<I>,
    edges: Vec<Edge>,
    efrom: Vec<u32>,
    cur: u32,
}

impl<'m> Lower<'m> {
    fn run(m: &'m mut Module, f: u32) -> Func {
        let text = m.text.clone();
        let d = &m.fns[f as usize];
        let (hs, he, s, e) = (d.header.0, d.header.1, d.start, d.end);
        let name = d.name.clone();
        let mut l = Lower { m, slots: HashMap::new(), nslots: 0, consts: vec![], cmap: HashMap::new(), blocks: HashMap::new(), bstart: vec![], phis: vec![], code: vec![], edges: vec![], efrom: vec![], cur: 0 };
        // parameters
        let header = &text[hs..he];
        let at = header.find('@').unwrap();
        let mut c = Cur::new(header);
        c.i = at + 1; c.name(); c.expect("(");
        let mut np = 0u32; let mut unnamed = 0u32; let mut pwidths = vec![];
        if !c.eat(")") {
            loop {
                if c.eat("...") { c.expect(")"); break; }
                let t = c.ty();
                while !matches!(c.peek(), b'%' | b',' | b')') { c.attr(); }
                let nm = if c.peek() == b'%' { c.i += 1; c.name() } else { unnamed.to_string() };
                if nm.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                let n = t.nflat() as u32;
                for (x, _) in t.flat() { pwidths.push(x.bits()); }
                l.slots.insert(nm, (np, n)); np += n;
                if c.eat(",") { continue; }
                c.expect(")"); break;
            }
        }
        l.nslots = np;
        // body: join continuation lines
        let body = &text[s..e];
        let mut stmts: Vec<String> = vec![];
        for line in body.lines() {
            if line.is_empty() { continue; }
            if line.starts_with("    #dbg") { continue; }
            let b = line.as_bytes();
            let is_label = b[0] != b' ' ;
            let new = is_label || (b.len() > 2 && b[0] == b' ' && b[1] == b' ' && b[2] != b' ' && b[2] != b']');
            if new { stmts.push(line.to_string()); } else { let l = stmts.last_mut().unwrap(); l.push(' '); l.push_str(line.trim()); }
        }
        let mut started = false;
        for st in &stmts {
            if !st.starts_with(' ') {
                // label
                let mut c = Cur::new(st);
                let nm = if st.starts_with('"') { c.name() } else { c.word().to_string() };
                let b = l.block(&nm);
                l.begin(b);
                started = true;
                continue;
            }
            if !started { let nm = unnamed.to_string(); let b = l.block(&nm); l.begin(b); started = true; }
            if let Err(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.inst(st))) { eprintln!("while lowering {}: {}", name, &st[..st.len().min(400)]); std::process::exit(2); }
        }
        // resolve edges
        for i in 0..l.edges.len() {
            let from = l.efrom[i];
            let b = l.edges[i].block;
            l.edges[i].pc = l.bstart[b as usize];
            let mut mv = vec![];
            for p in &l.phis[b as usize] {
                let inc = p.inc.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi without edge in {}", name));
                for k in 0..p.n { if inc.0[k as usize] != p.d + k { mv.push((p.d + k, inc.0[k as usize])); } }
            }
            l.edges[i].moves = mv;
        }
        Func { name, nparams: np, nslots: l.nslots, code: l.code, consts: l.consts, edges: l.edges, nblocks: l.bstart.len() as u32, pwidths }
    }
    fn begin(&mut self, b: u32) { self.bstart[b as usize] = self.code.len() as u32; self.cur = b; }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blocks.get(n) { return b; }
        let b = self.bstart.len() as u32;
        self.bstart.push(u32::MAX); self.phis.push(vec![]);
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn edge(&mut self, b: u32) -> u32 { self.edges.push(Edge { block: b, pc: 0, moves: vec![] }); self.efrom.push(self.cur); self.edges.len() as u32 - 1 }
    fn label(&mut self, c: &mut Cur) -> u32 { c.expect("label"); c.expect("%"); let n = c.name(); self.block(&n) }
    fn slot(&mut self, n: &str, cnt: u32) -> u32 {
        if let Some(&(s, k)) = self.slots.get(n) { assert!(k == cnt, "slot {} {} {}", n, k, cnt); return s; }
        let s = self.nslots; self.nslots += cnt.max(1);
        self.slots.insert(n.to_string(), (s, cnt));
        s
    }
    fn tmp(&mut self, cnt: u32) -> u32 { let s = self.nslots; self.nslots += cnt; s }
    fn cst(&mut self, w: u16, v: u128) -> S {
        let v = v & mask128(w);
        if let Some(&i) = self.cmap.get(&(w, v)) { return CONST | i; }
        let i = self.consts.len() as u32; self.consts.push((w, v)); self.cmap.insert((w, v), i); CONST | i
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Vec<S> {
        match self.m.operand(c, ty) {
            Opd::Local(n) => { let k = ty.nflat() as u32; let s = self.slot(&n, k); (0..k).map(|i| s + i).collect() }
            Opd::Const(v) => v.into_iter().map(|(w, x)| self.cst(w, x)).collect(),
        }
    }
    fn val1(&mut self, c: &mut Cur, ty: &Ty) -> S { self.val(c, ty)[0] }

    fn inst(&mut self, st: &str) {
        let mut c = Cur::new(st);
        let mut dst: Option<String> = None;
        if c.peek() == b'%' { c.i += 1; let n = c.name(); c.expect("="); dst = Some(n); }
        let mut op = c.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = c.word(); }
        let skip = |c: &mut Cur, ws: &[&str]| { loop { let w = c.peek_word(); if ws.contains(&w) { c.word(); } else { break; } } };
        const FMF: &[&str] = &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                skip(&mut c, &["nuw", "nsw", "exact", "disjoint"]);
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect(","); let b = self.val(&mut c, &t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                let f = t.flat(); let d = self.slot(&dst.unwrap(), f.len() as u32);
                for (i, (ty, _)) in f.iter().enumerate() { self.code.push(I::Bin(o, ty.bits(), d + i as u32, a[i], b[i])); }
            }
            "icmp" => {
                skip(&mut c, &["samesign"]);
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("icmp {}", x) };
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect(","); let b = self.val(&mut c, &t);
                let f = t.flat(); let d = self.slot(&dst.unwrap(), f.len() as u32);
                if f.len() > 1 && f[0].0.bits() < 64 { self.code.push(I::CmpV { p, w: f[0].0.bits(), d, a: Rc::new(a), b: Rc::new(b) }); return; }
                for (i, (ty, _)) in f.iter().enumerate() { self.code.push(I::Cmp(p, ty.bits(), d + i as u32, a[i], b[i])); }
            }
            "select" => {
                skip(&mut c, FMF);
                let ct = c.ty(); let cv = self.val(&mut c, &ct); c.expect(",");
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect(","); let t2 = c.ty(); let b = self.val(&mut c, &t2);
                let f = t.flat(); let d = self.slot(&dst.unwrap(), f.len() as u32);
                for (i, (ty, _)) in f.iter().enumerate() { let cc = if cv.len() == 1 { cv[0] } else { cv[i] }; self.code.push(I::Sel(ty.bits(), d + i as u32, cc, a[i], b[i])); }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "freeze" | "addrspacecast" => {
                skip(&mut c, &["nneg", "nuw", "nsw"]);
                let t = c.ty(); let a = self.val(&mut c, &t);
                if op == "freeze" { let d = self.slot(&dst.unwrap(), a.len() as u32); for i in 0..a.len() { self.code.push(I::Mov(d + i as u32, a[i])); } return; }
                c.expect("to"); let t2 = c.ty();
                let (f1, f2) = (t.flat(), t2.flat());
                let d = self.slot(&dst.unwrap(), f2.len() as u32);
                if op == "bitcast" {
                    let (w1, w2) = (f1[0].0.bits(), f2[0].0.bits());
                    if w1 == w2 { for i in 0..a.len() { self.code.push(I::Mov(d + i as u32, a[i])); } }
                    else { self.code.push(I::Regroup { d, nd: f2.len() as u32, dw: w2, s: Rc::new(a), sw: w1 }); }
                    return;
                }
                for i in 0..f2.len() {
                    let (w1, w2) = (f1[i].0.bits(), f2[i].0.bits());
                    let di = d + i as u32;
                    self.code.push(match op {
                        "zext" => I::Zext(w1, w2, di, a[i]), "sext" => I::Sext(w1, w2, di, a[i]), "trunc" => I::Trunc(w2, di, a[i]),
                        _ => if w1 == w2 { I::Mov(di, a[i]) } else if w1 < w2 { I::Zext(w1, w2, di, a[i]) } else { I::Trunc(w2, di, a[i]) },
                    });
                }
            }
            "getelementptr" => {
                skip(&mut c, &["inbounds", "nuw", "nusw", "nsw"]);
                let st = c.ty(); c.expect(","); let pt = c.ty(); let base = self.val1(&mut c, &pt);
                let mut cur = st.clone(); let mut first = true; let mut off = 0u64; let mut dynv: Vec<(S, u16, u64)> = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let it = c.ty(); let ix = self.val1(&mut c, &it); let w = it.bits();
                    let cv = if ix & CONST != 0 { Some(crate::expr::sx128(self.consts[(ix & !CONST) as usize].1, w) as i64 as u64) } else { None };
                    if first { first = false; match cv { Some(k) => off = off.wrapping_add(k.wrapping_mul(st.size())), None => dynv.push((ix, w, st.size())) } }
                    else { match cv { Some(k) => { off = off.wrapping_add(cur.field_off(k)); cur = cur.elem(k); } None => { let e = cur.elem(0); dynv.push((ix, w, e.size())); cur = e; } } }
                }
                let d = self.slot(&dst.unwrap(), 1);
                if dynv.is_empty() { self.code.push(I::GepC(d, base, off)); return; }
                let mut b = base; let n = dynv.len();
                for (i, (ix, w, sc)) in dynv.into_iter().enumerate() {
                    let dd = if i + 1 == n { d } else { self.tmp(1) };
                    self.code.push(I::Gep(dd, b, ix, w, sc, if i == 0 { off } else { 0 })); b = dd;
                }
            }
            "load" => {
                skip(&mut c, &["atomic", "volatile"]);
                let t = c.ty(); c.expect(","); let pt = c.ty(); let p = self.val1(&mut c, &pt);
                let f = t.flat(); let d = self.slot(&dst.unwrap(), f.len() as u32);
                if let Ty::Vec(n, e) = &t { if e.bits() % 8 != 0 { // packed
                    let n = *n as u32; let w = e.bits(); let x = self.tmp(1);
                    self.code.push(I::Load(n as u16 * w, x, p));
                    self.code.push(I::Regroup { d, nd: n, dw: w, s: Rc::new(vec![x]), sw: n as u16 * w });
                    return;
                } }
                if let Ty::Vec(_, e) = &t { if matches!(e.bits(), 8 | 16 | 32 | 64) { self.code.push(I::LoadV { w: e.bits(), n: f.len() as u32, d, p }); return; } }
                self.mem_each(&f, p, |w, i, q| I::Load(w, d + i, q));
            }
            "store" => {
                skip(&mut c, &["atomic", "volatile"]);
                let t = c.ty(); let v = self.val(&mut c, &t); c.expect(","); let pt = c.ty(); let p = self.val1(&mut c, &pt);
                if let Ty::Vec(n, e) = &t { if e.bits() % 8 != 0 { // packed
                    let n = *n as u16; let w = e.bits(); let x = self.tmp(1);
                    self.code.push(I::Regroup { d: x, nd: 1, dw: n * w, s: Rc::new(v), sw: w });
                    self.code.push(I::Store(n * w, x, p));
                    return;
                } }
                let f = t.flat();
                self.mem_each(&f, p, |w, i, q| I::Store(w, v[i as usize], q));
            }
            "alloca" => {
                skip(&mut c, &["inalloca"]);
                let t = c.ty(); let mut n = self.cst(64, 1);
                if c.eat(",") { if c.is_ty_start() { let it = c.ty(); n = self.val1(&mut c, &it); } }
                let d = self.slot(&dst.unwrap(), 1);
                self.code.push(I::Alloca(d, t.size(), n));
            }
            "br" => {
                if c.peek_word() == "label" { let b = self.label(&mut c); let e = self.edge(b); self.code.push(I::Br(e)); }
                else { let t = c.ty(); let v = self.val1(&mut c, &t); c.expect(","); let a = self.label(&mut c); c.expect(","); let b = self.label(&mut c); let (ea, eb) = (self.edge(a), self.edge(b)); self.code.push(I::CondBr(v, ea, eb)); }
            }
            "switch" => {
                let t = c.ty(); let v = self.val1(&mut c, &t); c.expect(","); let d = self.label(&mut c); let de = self.edge(d);
                c.expect("[");
                let mut map = HashMap::new(); let mut list = vec![];
                while !c.eat("]") { let ct = c.ty(); let k = self.m.const_scalar(&mut c, &ct) as u64; c.expect(","); let b = self.label(&mut c); let e = self.edge(b); map.insert(k, e); list.push((k, e)); }
                self.code.push(I::Switch(t.bits(), v, Rc::new(map), Rc::new(list), de));
            }
            "ret" => {
                let t = c.ty(); let v = if t == Ty::Void { vec![] } else { self.val(&mut c, &t) };
                self.code.push(I::Ret(Rc::new(v)));
            }
            "unreachable" => self.code.push(I::Unreachable),
            "phi" => {
                skip(&mut c, FMF);
                let t = c.ty(); let n = t.nflat() as u32; let d = self.slot(&dst.unwrap(), n);
                let mut inc = vec![];
                loop { c.expect("["); let v = self.val(&mut c, &t); c.expect(","); c.expect("%"); let bn = c.name(); let b = self.block(&bn); c.expect("]"); inc.push((v, b)); if c.eat(",") { if c.peek() == b'!' { break; } continue; } break; }
                let cur = self.cur as usize;
                self.phis[cur].push(Phi { d, n, inc });
            }
            "extractvalue" => {
                let t = c.ty(); let v = self.val(&mut c, &t);
                let (o, ft) = self.path(&mut c, &t);
                let n = ft.nflat(); let d = self.slot(&dst.unwrap(), n as u32);
                for i in 0..n { self.code.push(I::Mov(d + i as u32, v[o + i])); }
            }
            "insertvalue" => {
                let t = c.ty(); let v = self.val(&mut c, &t); c.expect(","); let t2 = c.ty(); let x = self.val(&mut c, &t2);
                let (o, ft) = self.path(&mut c, &t);
                let n = ft.nflat(); let d = self.slot(&dst.unwrap(), v.len() as u32);
                for i in 0..v.len() { let s = if i >= o && i < o + n { x[i - o] } else { v[i] }; self.code.push(I::Mov(d + i as u32, s)); }
            }
            "extractelement" => {
                let t = c.ty(); let v = self.val(&mut c, &t); c.expect(","); let it = c.ty(); let ix = self.val1(&mut c, &it);
                let d = self.slot(&dst.unwrap(), 1);
                if ix & CONST != 0 { let k = self.consts[(ix & !CONST) as usize].1 as usize; self.code.push(I::Mov(d, v[k])); }
                else { self.code.push(I::ExtElem { w: t.elem(0).bits(), d, v: Rc::new(v), idx: ix }); }
            }
            "insertelement" => {
                let t = c.ty(); let v = self.val(&mut c, &t); c.expect(","); let xt = c.ty(); let x = self.val1(&mut c, &xt); c.expect(","); let it = c.ty(); let ix = self.val1(&mut c, &it);
                let d = self.slot(&dst.unwrap(), v.len() as u32);
                if ix & CONST != 0 { let k = self.consts[(ix & !CONST) as usize].1 as usize; let r = (0..v.len()).map(|i| if i == k { x } else { v[i] }).collect(); self.code.push(I::MovV(d, Rc::new(r))); }
                else { self.code.push(I::InsElem { w: xt.bits(), d, v: Rc::new(v), x, idx: ix }); }
            }
            "shufflevector" => {
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect(","); let t2 = c.ty(); let b = self.val(&mut c, &t2); c.expect(",");
                let mt = c.ty(); let mv = self.m.const_val(&mut c, &mt);
                let d = self.slot(&dst.unwrap(), mv.len() as u32);
                let r = mv.iter().map(|(_, k)| { let k = *k as u32 as usize; if k < a.len() { a[k] } else { b[(k - a.len()) % b.len()] } }).collect();
                self.code.push(I::MovV(d, Rc::new(r)));
            }
            "call" | "invoke" => {
                skip(&mut c, FMF);
                // calling convention and return attributes
                c.skip_attrs_to_type();
                let rt = c.ty();
                if c.peek() == b'(' && rt != Ty::Void || c.peek() == b'(' { c.skip_parens(); }
                let callee = match c.peek() {
                    b'@' => { c.i += 1; let n = c.name();
                        match self.m.fidx.get(&n) { Some(&f) => { if self.m.fns[f as usize].is_decl { Callee::Intr(self.m.intr(&n)) } else { Callee::Fn(f) } } None => panic!("callee @{}", n) } }
                    b'%' => { c.i += 1; let n = c.name(); Callee::Ptr(self.slot(&n, 1)) }
                    _ => {
                        if c.peek_word() == "asm" {
                            c.word(); loop { if c.peek() == b'"' { break; } c.word(); }
                            c.i += 1; let s0 = c.i; while c.s[c.i] != b'"' { c.i += 1; } let a = String::from_utf8_lossy(&c.s[s0..c.i]).to_string(); c.i += 1; c.expect(",");
                            c.ws(); c.i += 1; while c.s[c.i] != b'"' { c.i += 1; } c.i += 1;
                            Callee::Asm(Rc::new(a))
                        } else { let v = self.val1(&mut c, &Ty::Ptr); Callee::Ptr(v) }
                    }
                };
                c.expect("(");
                let mut args = vec![]; let mut widths = vec![];
                let iname = if let Callee::Intr(i) = &callee { self.m.intrs[*i as usize].clone() } else { String::new() };
                if iname.starts_with("llvm.experimental.noalias") || iname.starts_with("llvm.lifetime") || iname.starts_with("llvm.assume") || iname.starts_with("llvm.x86.sse2.pause") || iname.starts_with("llvm.donothing") {
                    if iname.contains("pause") { let i = self.m.intr("llvm.x86.sse2.pause"); self.code.push(I::Call { callee: Callee::Intr(i), args: Rc::new(vec![]), widths: Rc::new(vec![]), d: 0, nret: 0, rw: 0, cont: NOCONT }); }
                    return;
                }
                if !c.eat(")") {
                    loop {
                        let t = c.ty();
                        if t == Ty::Other { // metadata operand
                            while c.peek() != b',' && c.peek() != b')' { c.i += 1; }
                        } else {
                            c.skip_attrs_to_operand();
                            let v = self.val(&mut c, &t);
                            for (x, _) in t.flat() { widths.push(x.bits()); }
                            args.extend(v);
                        }
                        if c.eat(",") { continue; }
                        c.expect(")"); break;
                    }
                }
                let n = rt.nflat() as u32;
                let rw = if n > 0 { rt.flat()[0].0.bits() } else { 0 };
                let d = match &dst { Some(x) => self.slot(x, n), None => self.tmp(n.max(1)) };
                if iname.starts_with("llvm.fshl.i") && n == 1 && rw <= 64 && args[2] & CONST != 0 && op == "call" {
                    let k = (self.consts[(args[2] & !CONST) as usize].1 % rw as u128) as u32;
                    self.code.push(I::Fsh { w: rw, d, a: args[0], b: args[1], k });
                    return;
                }
                let mut cont = NOCONT;
                if op == "invoke" {
                    // ... to label %x unwind label %y
                    let s = std::str::from_utf8(&c.s[c.i..]).unwrap();
                    let k = s.find("to label %").unwrap();
                    c.i += k + 2;
                    let b = self.label(&mut c);
                    cont = self.edge(b);
                }
                self.code.push(I::Call { callee, args: Rc::new(args), widths: Rc::new(widths), d, nret: n, rw, cont });
            }
            "landingpad" => { let _ = self.slot(&dst.unwrap(), 2); self.code.push(I::Bad(Rc::new("landingpad".into()))); }
            "resume" => self.code.push(I::Bad(Rc::new("resume".into()))),
            "fence" => self.code.push(I::Fence),
            "atomicrmw" => {
                skip(&mut c, &["volatile"]);
                let o = match c.word() { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "max" => 6, "min" => 7, "umax" => 8, "umin" => 9, "nand" => 10, x => panic!("atomicrmw {}", x) };
                let pt = c.ty(); let p = self.val1(&mut c, &pt); c.expect(","); let t = c.ty(); let v = self.val1(&mut c, &t);
                let d = self.slot(&dst.unwrap_or("#rmw".into()), 1);
                self.code.push(I::Rmw(o, t.bits(), d, p, v));
            }
            "cmpxchg" => {
                skip(&mut c, &["weak", "volatile"]);
                let pt = c.ty(); let p = self.val1(&mut c, &pt); c.expect(","); let t = c.ty(); let a = self.val1(&mut c, &t); c.expect(","); let t2 = c.ty(); let b = self.val1(&mut c, &t2);
                let d = match dst { Some(x) => self.slot(&x, 2), None => self.tmp(2) };
                self.code.push(I::CmpXchg(t.bits(), d, p, a, b));
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip(&mut c, FMF);
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect(","); let b = self.val(&mut c, &t);
                let o = match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 };
                let f = t.flat(); let d = self.slot(&dst.unwrap(), f.len() as u32);
                for (i, (ty, _)) in f.iter().enumerate() { self.code.push(I::FBin(o, ty.bits(), d + i as u32, a[i], b[i])); }
            }
            "fneg" => { skip(&mut c, FMF); let t = c.ty(); let a = self.val1(&mut c, &t); let d = self.slot(&dst.unwrap(), 1); self.code.push(I::FNeg(t.bits(), d, a)); }
            "fcmp" => {
                skip(&mut c, FMF);
                let p = match c.word() { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "ueq" => 8, "ugt" => 9, "uge" => 10, "ult" => 11, "ule" => 12, "une" => 13, "uno" => 14, _ => 15 };
                let t = c.ty(); let a = self.val1(&mut c, &t); c.expect(","); let b = self.val1(&mut c, &t);
                let d = self.slot(&dst.unwrap(), 1); self.code.push(I::FCmp(p, t.bits(), d, a, b));
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                skip(&mut c, &["nneg"]); skip(&mut c, FMF);
                let t = c.ty(); let a = self.val(&mut c, &t); c.expect("to"); let t2 = c.ty();
                let k = match op { "uitofp" => 0, "sitofp" => 1, "fptoui" => 2, "fptosi" => 3, "fpext" => 4, _ => 5 };
                let (f1, f2) = (t.flat(), t2.flat());
                let d = self.slot(&dst.unwrap(), f2.len() as u32);
                for i in 0..f2.len() { self.code.push(I::FCast(k, f1[i].0.bits(), f2[i].0.bits(), d + i as u32, a[i])); }
            }
            "cleanup" | "catch" | "filter" => {}
            _ => self.code.push(I::Bad(Rc::new(st.to_string()))),
        }
    }
    fn mem_each(&mut self, f: &[(Ty, u64)], p: S, mk: impl Fn(u16, u32, S) -> I) {
        for (i, (t, off)) in f.iter().enumerate() {
            let q = if *off == 0 { p } else { let q = self.tmp(1); self.code.push(I::GepC(q, p, *off)); q };
            self.code.push(mk(t.bits(), i as u32, q));
        }
    }
    fn path(&mut self, c: &mut Cur, t: &Ty) -> (usize, Ty) {
        let mut o = 0; let mut cur = t.clone();
        while c.eat(",") { if c.peek() == b'!' { break; } let i: u64 = c.word().parse().unwrap(); for j in 0..i { o += cur.elem(j).nflat(); } cur = cur.elem(i); }
        (o, cur)
    }
}
