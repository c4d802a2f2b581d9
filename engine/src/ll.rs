//! Textual LLVM IR front end (the subset rustc emits), parsed lazily per function.
use crate::expr::{cst, mask, FxMap};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F16,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Meta,
    Opaque,
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    size: Vec<(u64, u64)>,
    pub offs: Vec<Rc<Vec<u64>>>,
}
impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) { return i; }
        let (sz, offs) = self.layout(&t);
        let id = self.v.len() as TyId;
        self.v.push(t.clone());
        self.size.push(sz);
        self.offs.push(Rc::new(offs));
        self.map.insert(t, id);
        id
    }
    fn layout(&self, t: &Ty) -> ((u64, u64), Vec<u64>) {
        match t {
            Ty::Void | Ty::Meta | Ty::Opaque => ((0, 1), vec![]),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (((b + a - 1) / a * a, a), vec![])
            }
            Ty::Ptr | Ty::F64 => ((8, 8), vec![]),
            Ty::F32 => ((4, 4), vec![]),
            Ty::F16 => ((2, 2), vec![]),
            Ty::Arr(n, e) => { let (s, a) = self.size[*e as usize]; ((s * n, a), vec![]) }
            Ty::Vec(n, e) => {
                let s = match self.v[*e as usize] { Ty::Int(w) => (w as u64 * n + 7) / 8, _ => self.size[*e as usize].0 * n };
                ((s, s.next_power_of_two().max(1)), vec![])
            }
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                let mut offs = vec![];
                for x in f {
                    let (s, a) = self.size[*x as usize];
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += s;
                    al = al.max(a);
                }
                (((off + al - 1) / al * al, al), offs)
            }
        }
    }
    pub fn size(&self, t: TyId) -> u64 { self.size[t as usize].0 }
    pub fn ty(&self, t: TyId) -> &Ty { &self.v[t as usize] }
    pub fn width(&self, t: TyId) -> u32 {
        match self.ty(t) { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::F16 => 16, x => panic!("width of {:?}", x) }
    }
}

/// Values. `U` is wholly undefined (uninitialised / poison).
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(crate::expr::E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, ty: TyId, nuw: bool, nsw: bool, a: Op, b: Op },
    Icmp { p: Pred, ty: TyId, a: Op, b: Op },
    Fcmp { p: String, ty: TyId, a: Op, b: Op },
    FNeg { ty: TyId, a: Op },
    Cast { c: Cast, from: TyId, to: TyId, a: Op },
    Load { ty: TyId, p: Op },
    Store { ty: TyId, v: Op, p: Op },
    Gep { base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Alloca { size: u64, n: Op },
    Select { ty: TyId, c: Op, vecn: u64, a: Op, b: Op },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { ty: TyId, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Call { f: Callee, ret: TyId, args: Vec<(TyId, Op)> },
    ExtractValue { a: Op, path: Vec<u32> },
    InsertValue { ty: TyId, a: Op, v: Op, path: Vec<u32> },
    ExtractElement { a: Op, i: Op },
    InsertElement { ty: TyId, a: Op, v: Op, i: Op },
    Shuffle { ty: TyId, a: Op, b: Op, mask: Vec<i64> },
    Rmw { op: String, ty: TyId, p: Op, v: Op },
    CmpXchg { ty: TyId, p: Op, cmp: Op, new: Op },
    Freeze { ty: TyId, a: Op },
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Op),
    Asm,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub code: Vec<(u32, I)>, // (dst register or NONE, instruction)
}
pub const NONE: u32 = u32::MAX;

pub struct Func {
    pub id: u32,
    pub name: String,
    pub pretty: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub ret: TyId,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub file: String,
    pub text: String,
    types: HashMap<String, (usize, usize)>,
    tycache: HashMap<String, TyId>,
    funcs: HashMap<String, (usize, usize, String)>,
    globals: HashMap<String, (usize, usize)>,
}

pub enum FnBody { Text(u32, usize, usize), Parsed(Rc<Func>), External }
pub struct FnEnt { pub name: String, pub pretty: String, pub body: FnBody }

pub struct GlobalObj { pub name: String, pub bytes: Vec<u8>, pub constant: bool }

pub enum GEnt { Fn(u32), Data { m: u32, range: (usize, usize), init: Option<Rc<GlobalObj>> }, External }

#[derive(Default)]
pub struct Program {
    pub ty: Types,
    pub mods: Vec<Module>,
    pub fns: Vec<FnEnt>,
    fnmap: FxMap<String, u32>,
    /// externally visible definitions
    ext_fn: FxMap<String, (u32, usize, usize)>,
    ext_gl: FxMap<String, u32>,
    /// global number -> entity; address = gid << 24 | 4096
    pub gents: Vec<GEnt>,
    pub gnames: Vec<String>,
    gmap: FxMap<(u32, String), u32>,
}

pub const BASE_OFF: u64 = 4096;
pub fn gaddr(id: u32) -> u64 { ((id as u64) << 24) + BASE_OFF }

fn unquote(s: &str) -> String {
    if s.starts_with('"') { s[1..s.len() - 1].to_string() } else { s.to_string() }
}

/// reads `@name` / `@"name"` at byte p (after '@'), returns (name, end)
fn read_name(t: &str, p: usize) -> (String, usize) {
    let b = t.as_bytes();
    if b[p] == b'"' {
        let mut q = p + 1;
        while b[q] != b'"' { q += 1; }
        (t[p + 1..q].to_string(), q + 1)
    } else {
        let mut q = p;
        while q < b.len() && (b[q].is_ascii_alphanumeric() || matches!(b[q], b'_' | b'.' | b'$' | b'-')) { q += 1; }
        (t[p..q].to_string(), q)
    }
}

impl Program {
    pub fn new() -> Program {
        let mut p = Program::default();
        p.gents.push(GEnt::External); // id 0 reserved: null page
        p.gnames.push("<null>".into());
        p
    }
    pub fn load(&mut self, path: &str) -> std::io::Result<()> {
        let text = std::fs::read(path)?;
        let text = String::from_utf8_lossy(&text).into_owned();
        let mi = self.mods.len() as u32;
        let mut m = Module { file: path.to_string(), text: String::new(), types: HashMap::new(), tycache: HashMap::new(), funcs: HashMap::new(), globals: HashMap::new() };
        let b = text.as_bytes();
        let mut p = 0;
        let mut last_comment = String::new();
        while p < b.len() {
            let e = memchr(b, p, b'\n');
            let line = &text[p..e];
            if line.starts_with("define ") {
                let at = p + line.find(" @").unwrap() + 2;
                let (name, _) = read_name(&text, at);
                // body up to a line "}" (functions are never empty)
                let mut q = e + 1;
                loop {
                    let le = memchr(b, q, b'\n');
                    if b[q] == b'}' { q = le; break; }
                    q = le + 1;
                }
                let local = line.starts_with("define internal") || line.starts_with("define private");
                if !local { self.ext_fn.entry(name.clone()).or_insert((mi, p, q)); }
                m.funcs.insert(name, (p, q, std::mem::take(&mut last_comment)));
                p = q + 1;
                continue;
            } else if line.starts_with('@') {
                let (name, q) = read_name(&text, p + 1);
                let rest = &text[q..e];
                if rest.starts_with(" = ") && !rest.starts_with(" = external") && !rest.starts_with(" = comdat") {
                    let local = rest.starts_with(" = internal") || rest.starts_with(" = private");
                    if !local { self.ext_gl.entry(name.clone()).or_insert(mi); }
                    m.globals.insert(name, (q, e));
                }
            } else if line.starts_with('%') {
                if let Some(i) = line.find(" = type ") {
                    m.types.insert(unquote(&line[1..i]), (p + i + 8, e));
                }
            } else if line.starts_with("; ") && !line.starts_with("; Function Attrs") {
                last_comment = line[2..].to_string();
            }
            p = e + 1;
        }
        m.text = text;
        self.mods.push(m);
        Ok(())
    }

    pub fn has_fn(&self, name: &str) -> bool { self.ext_fn.contains_key(name) || self.mods.iter().any(|m| m.funcs.contains_key(name)) }

    pub fn fn_by_name(&mut self, m: u32, name: &str) -> u32 {
        let (key, body, pretty);
        if let Some((s, e, c)) = self.mods.get(m as usize).and_then(|m| m.funcs.get(name)) {
            // a definition in the module itself; give local definitions their own identity
            let is_ext = self.ext_fn.get(name).map_or(false, |x| x.0 == m);
            key = if is_ext { name.to_string() } else { format!("{}#{}", name, m) };
            pretty = c.clone();
            body = FnBody::Text(m, *s, *e);
        } else if let Some(&(mm, s, e)) = self.ext_fn.get(name) {
            key = name.to_string();
            pretty = self.mods[mm as usize].funcs[name].2.clone();
            body = FnBody::Text(mm, s, e);
        } else {
            key = name.to_string();
            pretty = String::new();
            body = FnBody::External;
        }
        if let Some(&i) = self.fnmap.get(&key) { return i; }
        let id = self.fns.len() as u32;
        self.fns.push(FnEnt { name: name.to_string(), pretty, body });
        self.fnmap.insert(key, id);
        id
    }

    pub fn global(&mut self, m: u32, name: &str) -> u32 {
        let mm = &self.mods[m as usize];
        let (key, ent);
        if let Some(&r) = mm.globals.get(name) {
            let ext = self.ext_gl.get(name) == Some(&m);
            key = (if ext { u32::MAX } else { m }, name.to_string());
            if let Some(&g) = self.gmap.get(&key) { return g; }
            ent = GEnt::Data { m, range: r, init: None };
        } else if let Some(&om) = self.ext_gl.get(name) {
            key = (u32::MAX, name.to_string());
            if let Some(&g) = self.gmap.get(&key) { return g; }
            ent = GEnt::Data { m: om, range: self.mods[om as usize].globals[name], init: None };
        } else {
            let f = self.fn_by_name(m, name);
            key = (u32::MAX - 1, format!("fn{}", f));
            if let Some(&g) = self.gmap.get(&key) { return g; }
            ent = GEnt::Fn(f);
        }
        let id = self.gents.len() as u32;
        assert!(id < 1 << 20);
        self.gents.push(ent);
        self.gnames.push(name.to_string());
        self.gmap.insert(key, id);
        id
    }

    /// materialise the initialiser of a data global
    pub fn global_data(&mut self, gid: u32) -> Option<Rc<GlobalObj>> {
        let (m, range) = match &self.gents[gid as usize] {
            GEnt::Data { init: Some(i), .. } => return Some(i.clone()),
            GEnt::Data { m, range, .. } => (*m, *range),
            _ => return None,
        };
        let text = self.mods[m as usize].text[range.0..range.1].to_string();
        let constant = text.contains(" constant ");
        let kw = text.find(" constant ").map(|i| i + 10).or_else(|| text.find(" global ").map(|i| i + 8));
        let kw = match kw { Some(k) => k, None => panic!("global {}: {}", self.gnames[gid as usize], text) };
        let body = text[kw..].to_string();
        let mut p = Parser { lx: Lexer { s: &body, p: 0 }, m, pr: self, locals: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        let ty = p.ty();
        let v = p.cval(ty);
        let size = self.ty.size(ty) as usize;
        let mut bytes = vec![0u8; size];
        self.put(&mut bytes, 0, ty, &v);
        let o = Rc::new(GlobalObj { name: self.gnames[gid as usize].clone(), bytes, constant });
        if let GEnt::Data { init, .. } = &mut self.gents[gid as usize] { *init = Some(o.clone()); }
        Some(o)
    }
    fn put(&self, out: &mut [u8], off: usize, ty: TyId, v: &V) {
        match (self.ty.ty(ty), v) {
            (_, V::U) => {}
            (Ty::Arr(n, e), V::A(xs)) | (Ty::Vec(n, e), V::A(xs)) => {
                let s = self.ty.size(*e) as usize;
                assert_eq!(*n as usize, xs.len());
                for (i, x) in xs.iter().enumerate() { self.put(out, off + i * s, *e, x); }
            }
            (Ty::Struct(f, _), V::A(xs)) => {
                let offs = self.ty.offs[ty as usize].clone();
                for (i, x) in xs.iter().enumerate() { self.put(out, off + offs[i] as usize, f[i], x); }
            }
            (_, V::C(c)) => {
                let s = self.ty.size(ty) as usize;
                let b = c.to_le_bytes();
                let s2 = s.min(16);
                out[off..off + s2].copy_from_slice(&b[..s2]);
            }
            x => panic!("put {:?}", x),
        }
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        let (m, s, e) = match &self.fns[id as usize].body {
            FnBody::Parsed(f) => return Some(f.clone()),
            FnBody::External => return None,
            FnBody::Text(m, s, e) => (*m, *s, *e),
        };
        let text = self.mods[m as usize].text[s..e].to_string();
        let f = Rc::new(self.parse_fn(id, m, &text));
        self.fns[id as usize].body = FnBody::Parsed(f.clone());
        Some(f)
    }

    fn parse_fn(&mut self, id: u32, m: u32, text: &str) -> Func {
        let name = self.fns[id as usize].name.clone();
        let pretty = self.fns[id as usize].pretty.clone();
        let mut lines: Vec<String> = vec![];
        for l in text.lines() {
            let t = l.trim_end();
            if t.trim_start().starts_with(';') || t.is_empty() { continue; }
            // join switch bodies
            if let Some(last) = lines.last_mut() {
                if last.trim_start().starts_with("switch ") && !last.contains(']') {
                    last.push(' ');
                    last.push_str(t.trim());
                    continue;
                }
            }
            lines.push(t.to_string());
        }
        // blocks
        let mut blocks: HashMap<String, u32> = HashMap::new();
        for l in &lines[1..] {
            if !l.starts_with(' ') && l != "}" {
                if let Some(n) = label(l) { let k = blocks.len() as u32; blocks.insert(n, k); }
            }
        }
        let implicit_entry = lines.len() > 1 && lines[1].starts_with(' ');
        assert!(!implicit_entry, "unlabelled entry in {}", name);
        let nb = blocks.len();
        let mut p = Parser { lx: Lexer { s: "", p: 0 }, m, pr: self, locals: HashMap::new(), nregs: 0, blocks };
        // header
        let h = lines[0].clone();
        let at = h.find(" @").unwrap();
        p.lx = Lexer { s: &h, p: 6 };
        p.skip_attrs();
        let ret = p.ty();
        let (_, q) = read_name(&h, at + 2);
        p.lx.p = q;
        assert!(p.lx.eat('('));
        let mut params = vec![];
        while !p.lx.eat(')') {
            if p.lx.eat_word("...") { continue; }
            let _t = p.ty();
            p.skip_attrs();
            if let Tok::Local(n) = p.lx.peek() { p.lx.next(); let r = p.reg(n); params.push(r); } else { let r = p.nregs; p.nregs += 1; params.push(r); }
            p.lx.eat(',');
        }
        let mut out: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], code: vec![] }).collect();
        let mut cur = 0;
        for l in &lines[1..] {
            if l == "}" { break; }
            if !l.starts_with(' ') { cur = p.blocks[&label(l).unwrap()] as usize; continue; }
            let mut dst = NONE;
            let lt = l.trim_start();
            p.lx = Lexer { s: lt, p: 0 };
            if lt.starts_with('%') {
                if let Tok::Local(n) = p.lx.next() { dst = p.reg(n); }
                assert!(p.lx.eat('='));
            }
            match p.instr() {
                PI::I(I::Nop) => {}
                PI::I(i) => out[cur].code.push((dst, i)),
                PI::Phi(v) => out[cur].phis.push((dst, v)),
            }
        }
        let nregs = p.nregs as usize;
        Func { id, name, pretty, params, nregs, ret, blocks: out }
    }
}

fn label(l: &str) -> Option<String> {
    if l.starts_with('"') {
        let e = l[1..].find('"')? + 1;
        Some(l[1..e].to_string())
    } else {
        Some(l[..l.find(':')?].to_string())
    }
}

fn memchr(b: &[u8], p: usize, c: u8) -> usize {
    match b[p..].iter().position(|&x| x == c) { Some(i) => p + i, None => b.len() }
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Local(String),
    Global(String),
    Meta,
    Word(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Attr,
    End,
}
struct Lexer<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> Lexer<'a> {
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\t') { self.p += 1; }
        if self.p < b.len() && b[self.p] == b';' { self.p = b.len(); }
    }
    fn peek(&mut self) -> Tok { let p = self.p; let t = self.next(); self.p = p; t }
    fn peekc(&mut self) -> char { self.ws(); self.s[self.p..].chars().next().unwrap_or('\0') }
    fn eat(&mut self, c: char) -> bool { if self.peekc() == c { self.p += 1; true } else { false } }
    fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let r = &self.s[self.p..];
        if r.starts_with(w) && !r[w.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.') { self.p += w.len(); true } else { false }
    }
    fn next(&mut self) -> Tok {
        self.ws();
        let b = self.s.as_bytes();
        if self.p >= b.len() { return Tok::End; }
        let c = b[self.p];
        match c {
            b'%' | b'@' => {
                let (n, e) = read_name(self.s, self.p + 1);
                self.p = e;
                if c == b'%' { Tok::Local(n) } else { Tok::Global(n) }
            }
            b'!' => {
                self.p += 1;
                while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || matches!(b[self.p], b'_' | b'.')) { self.p += 1; }
                Tok::Meta
            }
            b'#' => { self.p += 1; while self.p < b.len() && b[self.p].is_ascii_digit() { self.p += 1; } Tok::Attr }
            b'c' if self.p + 1 < b.len() && b[self.p + 1] == b'"' => { self.p += 1; self.string() }
            b'"' => self.string(),
            b'-' | b'0'..=b'9' => {
                let s = self.p;
                self.p += 1;
                while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b[self.p] == b'.' || (b[self.p] == b'+' || b[self.p] == b'-') && b[self.p - 1] == b'e') { self.p += 1; }
                Tok::Num(self.s[s..self.p].to_string())
            }
            b'.' => { while self.p < b.len() && b[self.p] == b'.' { self.p += 1; } Tok::Word("...".into()) }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let s = self.p;
                while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || matches!(b[self.p], b'_' | b'.')) { self.p += 1; }
                Tok::Word(self.s[s..self.p].to_string())
            }
            c => { self.p += 1; Tok::P(c as char) }
        }
    }
    fn string(&mut self) -> Tok {
        let b = self.s.as_bytes();
        let mut out = vec![];
        self.p += 1;
        while b[self.p] != b'"' {
            if b[self.p] == b'\\' {
                if b[self.p + 1] == b'\\' { out.push(b'\\'); self.p += 2; continue; }
                let h = std::str::from_utf8(&b[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else { out.push(b[self.p]); self.p += 1; }
        }
        self.p += 1;
        Tok::Str(out)
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => { d -= 1; if d == 0 { return; } }
                Tok::End => return,
                _ => {}
            }
        }
    }
}

enum PI { I(I), Phi(Vec<(u32, Op)>) }

struct Parser<'a, 'b> {
    lx: Lexer<'a>,
    m: u32,
    pr: &'b mut Program,
    locals: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "half" | "float" | "double" | "metadata" | "label" | "token") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl<'a, 'b> Parser<'a, 'b> {
    fn reg(&mut self, n: String) -> u32 {
        if let Some(&r) = self.locals.get(&n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.locals.insert(n, r);
        r
    }
    /// skips attribute words (linkage, calling convention, return/parameter attributes)
    fn skip_attrs(&mut self) {
        loop {
            let save = self.lx.p;
            match self.lx.next() {
                Tok::Word(w) if !is_type_word(&w) && !matches!(w.as_str(), "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "splat" | "asm" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "sub" | "add" | "bitcast" | "xor" | "mul" | "none" | "ptrtoaddr") => {
                    if self.lx.peekc() == '(' { self.lx.skip_parens(); }
                    else if w == "align" { self.lx.next(); }
                }
                Tok::Str(_) => { if self.lx.eat('=') { self.lx.next(); } }
                Tok::Attr => {}
                _ => { self.lx.p = save; return; }
            }
        }
    }
    fn ty(&mut self) -> TyId {
        match self.lx.next() {
            Tok::Word(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => { if self.lx.eat_word("addrspace") { self.lx.skip_parens(); } Ty::Ptr }
                    "half" => Ty::F16,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" => Ty::Meta,
                    "opaque" => Ty::Opaque,
                    _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {}", w, self.lx.s))),
                };
                self.pr.ty.get(t)
            }
            Tok::P('{') => self.struct_ty(false),
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.lx.eat_word("x"));
                let e = self.ty();
                assert!(self.lx.eat(']'));
                self.pr.ty.get(Ty::Arr(n, e))
            }
            Tok::P('<') => {
                if self.lx.eat('{') { let t = self.struct_ty(true); assert!(self.lx.eat('>')); return t; }
                let n = self.num() as u64;
                assert!(self.lx.eat_word("x"));
                let e = self.ty();
                assert!(self.lx.eat('>'));
                self.pr.ty.get(Ty::Vec(n, e))
            }
            Tok::Local(n) => self.named(&n),
            t => panic!("type expected, got {:?} in {}", t, self.lx.s),
        }
    }
    fn named(&mut self, n: &str) -> TyId {
        if let Some(&t) = self.pr.mods[self.m as usize].tycache.get(n) { return t; }
        let (s, e) = *self.pr.mods[self.m as usize].types.get(n).unwrap_or_else(|| panic!("unknown type {}", n));
        let text = self.pr.mods[self.m as usize].text[s..e].to_string();
        let mut p = Parser { lx: Lexer { s: &text, p: 0 }, m: self.m, pr: self.pr, locals: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        let t = p.ty();
        self.pr.mods[self.m as usize].tycache.insert(n.to_string(), t);
        t
    }
    fn struct_ty(&mut self, packed: bool) -> TyId {
        let mut f = vec![];
        while !self.lx.eat('}') { f.push(self.ty()); self.lx.eat(','); }
        self.pr.ty.get(Ty::Struct(f, packed))
    }
    fn num(&mut self) -> i128 {
        match self.lx.next() { Tok::Num(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)), t => panic!("num expected {:?} in {}", t, self.lx.s) }
    }
    fn zero(&mut self, ty: TyId) -> V {
        match self.pr.ty.ty(ty).clone() {
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let z = self.zero(e); V::A(Rc::new(vec![z; n as usize])) }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|&t| self.zero(t)).collect())),
            _ => V::C(0),
        }
    }
    fn cval(&mut self, ty: TyId) -> V {
        match self.op(ty) { Op::K(v) => v, Op::R(_) => panic!("constant expected in {}", self.lx.s) }
    }
    /// operand of known type
    fn op(&mut self, ty: TyId) -> Op {
        match self.lx.next() {
            Tok::Local(n) => Op::R(self.reg(n)),
            Tok::Global(n) => { let g = self.pr.global(self.m, &n); Op::K(V::C(gaddr(g) as u128)) }
            Tok::Num(n) => Op::K(V::C(self.numconst(ty, &n))),
            Tok::Str(s) => Op::K(V::A(Rc::new(s.iter().map(|&b| V::C(b as u128)).collect()))),
            Tok::Meta => { if self.lx.peekc() == '{' { self.lx.next(); while !self.lx.eat('}') { self.lx.next(); } } Op::K(V::U) }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.lx.eat('}') { let t = self.ty(); v.push(self.cval(t)); self.lx.eat(','); }
                Op::K(V::A(Rc::new(v)))
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.lx.eat(']') { let t = self.ty(); v.push(self.cval(t)); self.lx.eat(','); }
                Op::K(V::A(Rc::new(v)))
            }
            Tok::P('<') => {
                let mut v = vec![];
                let st = self.lx.eat('{');
                while !self.lx.eat(if st { '}' } else { '>' }) { let t = self.ty(); v.push(self.cval(t)); self.lx.eat(','); }
                if st { self.lx.eat('>'); }
                Op::K(V::A(Rc::new(v)))
            }
            Tok::Word(w) => match w.as_str() {
                "null" | "none" => Op::K(V::C(0)),
                "true" => Op::K(V::C(1)),
                "false" => Op::K(V::C(0)),
                "undef" | "poison" => Op::K(V::U),
                "zeroinitializer" => Op::K(self.zero(ty)),
                "splat" => {
                    assert!(self.lx.eat('('));
                    let t = self.ty();
                    let v = self.cval(t);
                    assert!(self.lx.eat(')'));
                    match self.pr.ty.ty(ty) { Ty::Vec(n, _) => Op::K(V::A(Rc::new(vec![v; *n as usize]))), _ => panic!() }
                }
                "getelementptr" => {
                    while matches!(self.lx.peek(), Tok::Word(_)) { self.lx.next(); if self.lx.peekc() == '(' { let p = self.lx.p; if let Tok::P('(') = self.lx.next() { if matches!(self.lx.peek(), Tok::Num(_)) { self.lx.p = p; self.lx.skip_parens(); } else { self.lx.p = p; break; } } } }
                    assert!(self.lx.eat('('));
                    let g = self.gep_tail(Some(')'));
                    match g { I::Gep { base: Op::K(V::C(b)), off, idx } => {
                        let mut a = (b as u64).wrapping_add(off as u64);
                        for (o, w, s) in idx { if let Op::K(V::C(k)) = o { a = a.wrapping_add((crate::expr::sx(k, w) as i64).wrapping_mul(s) as u64); } }
                        Op::K(V::C(a as u128))
                    } g => panic!("const gep {:?}", g) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    assert!(self.lx.eat('('));
                    let t = self.ty();
                    let v = self.cval(t);
                    assert!(self.lx.eat_word("to"));
                    let t2 = self.ty();
                    assert!(self.lx.eat(')'));
                    match v { V::C(c) => Op::K(V::C(c & mask(self.pr.ty.width(t2)))), v => Op::K(v) }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while matches!(self.lx.peek(), Tok::Word(_)) { self.lx.next(); }
                    assert!(self.lx.eat('('));
                    let t = self.ty();
                    let a = self.cval(t);
                    self.lx.eat(',');
                    let t2 = self.ty();
                    let b = self.cval(t2);
                    assert!(self.lx.eat(')'));
                    match (a, b) { (V::C(a), V::C(b)) => {
                        let m = mask(self.pr.ty.width(t));
                        Op::K(V::C(match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b } & m))
                    } _ => panic!() }
                }
                _ => panic!("operand {} in {}", w, self.lx.s),
            },
            t => panic!("operand {:?} in {}", t, self.lx.s),
        }
    }
    fn numconst(&mut self, ty: TyId, n: &str) -> u128 {
        match self.pr.ty.ty(ty) {
            Ty::F64 => if n.starts_with("0x") { u64::from_str_radix(&n[2..], 16).unwrap() as u128 } else { n.parse::<f64>().unwrap().to_bits() as u128 },
            Ty::F32 => if n.starts_with("0x") { (f64::from_bits(u64::from_str_radix(&n[2..], 16).unwrap()) as f32).to_bits() as u128 } else { n.parse::<f32>().unwrap().to_bits() as u128 },
            Ty::F16 => 0,
            _ => {
                let w = self.pr.ty.width(ty);
                let v: u128 = if let Some(x) = n.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() } else { n.parse::<u128>().unwrap_or_else(|_| panic!("const {} in {}", n, self.lx.s)) };
                v & mask(w)
            }
        }
    }
    fn tyop(&mut self) -> (TyId, Op) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.op(t);
        (t, o)
    }
    fn lbl(&mut self) -> u32 {
        assert!(self.lx.eat_word("label"));
        match self.lx.next() { Tok::Local(n) => self.blocks[&n], t => panic!("label {:?}", t) }
    }
    fn path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.lx.eat(',') {
            match self.lx.peek() { Tok::Num(n) => { self.lx.next(); v.push(n.parse().unwrap()); } _ => break }
        }
        v
    }
    fn gep_tail(&mut self, end: Option<char>) -> I {
        let sty = self.ty();
        assert!(self.lx.eat(','));
        let (_, base) = self.tyop();
        let mut off = 0i64;
        let mut idx = vec![];
        let mut cur: Option<TyId> = None; // None: first index scales by sty
        while self.lx.eat(',') {
            if matches!(self.lx.peek(), Tok::Meta) { break; }
            if let Tok::Word(w) = self.lx.peek() { if w == "inrange" { break; } }
            let (it, o) = self.tyop();
            let w = self.pr.ty.width(it);
            let (scale, next) = match cur {
                None => (self.pr.ty.size(sty) as i64, sty),
                Some(t) => match self.pr.ty.ty(t).clone() {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => (self.pr.ty.size(e) as i64, e),
                    Ty::Struct(f, _) => {
                        let k = match &o { Op::K(V::C(k)) => *k as usize, _ => panic!("struct index") };
                        off += self.pr.ty.offs[t as usize][k] as i64;
                        cur = Some(f[k]);
                        continue;
                    }
                    x => panic!("gep into {:?}", x),
                },
            };
            cur = Some(next);
            match o {
                Op::K(V::C(k)) => off = off.wrapping_add((crate::expr::sx(k, w) as i64).wrapping_mul(scale)),
                o => idx.push((o, w, scale)),
            }
        }
        if let Some(c) = end { assert!(self.lx.eat(c)); }
        I::Gep { base, off, idx }
    }

    fn instr(&mut self) -> PI {
        let w = match self.lx.next() { Tok::Word(w) => w, t => panic!("instr {:?} in {}", t, self.lx.s) };
        PI::I(match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w.as_str() {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
                    "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem,
                };
                let (mut nuw, mut nsw) = (false, false);
                loop {
                    if self.lx.eat_word("nuw") { nuw = true; } else if self.lx.eat_word("nsw") { nsw = true; }
                    else if self.lx.eat_word("exact") || self.lx.eat_word("disjoint") || self.lx.eat_word("fast") || self.lx.eat_word("nnan") || self.lx.eat_word("ninf") || self.lx.eat_word("nsz") || self.lx.eat_word("arcp") || self.lx.eat_word("contract") || self.lx.eat_word("afn") || self.lx.eat_word("reassoc") {}
                    else { break; }
                }
                let ty = self.ty();
                let a = self.op(ty);
                self.lx.eat(',');
                let b = self.op(ty);
                I::Bin { op, ty, nuw, nsw, a, b }
            }
            "icmp" => {
                self.lx.eat_word("samesign");
                let p = match self.lx.next() { Tok::Word(p) => match p.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() }, _ => panic!() };
                let ty = self.ty();
                let a = self.op(ty);
                self.lx.eat(',');
                let b = self.op(ty);
                I::Icmp { p, ty, a, b }
            }
            "fcmp" => {
                let p = match self.lx.next() { Tok::Word(p) => p, _ => panic!() };
                let ty = self.ty();
                let a = self.op(ty);
                self.lx.eat(',');
                let b = self.op(ty);
                I::Fcmp { p, ty, a, b }
            }
            "fneg" => { let (ty, a) = self.tyop(); I::FNeg { ty, a } }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::BitCast,
                    "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptrunc" => Cast::FpTrunc, _ => Cast::FpExt,
                };
                while self.lx.eat_word("nuw") || self.lx.eat_word("nsw") || self.lx.eat_word("nneg") {}
                let from = self.ty();
                let a = self.op(from);
                assert!(self.lx.eat_word("to"));
                let to = self.ty();
                I::Cast { c, from, to, a }
            }
            "load" => {
                while self.lx.eat_word("atomic") || self.lx.eat_word("volatile") {}
                let ty = self.ty();
                self.lx.eat(',');
                let (_, p) = self.tyop();
                I::Load { ty, p }
            }
            "store" => {
                while self.lx.eat_word("atomic") || self.lx.eat_word("volatile") {}
                let (ty, v) = self.tyop();
                self.lx.eat(',');
                let (_, p) = self.tyop();
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                loop {
                    if self.lx.eat_word("inbounds") || self.lx.eat_word("nuw") || self.lx.eat_word("nusw") {} else { break; }
                }
                self.gep_tail(None)
            }
            "alloca" => {
                let ty = self.ty();
                let mut n = Op::K(V::C(1));
                if self.lx.eat(',') && self.lx.peek() != Tok::Word("align".into()) { n = self.tyop().1; }
                I::Alloca { size: self.pr.ty.size(ty), n }
            }
            "phi" => {
                let ty = self.ty();
                let mut v = vec![];
                while self.lx.eat('[') {
                    let o = self.op(ty);
                    self.lx.eat(',');
                    let b = match self.lx.next() { Tok::Local(n) => self.blocks[&n], t => panic!("{:?}", t) };
                    self.lx.eat(']');
                    self.lx.eat(',');
                    v.push((b, o));
                }
                return PI::Phi(v);
            }
            "select" => {
                let (ct, c) = self.tyop();
                let vecn = match self.pr.ty.ty(ct) { Ty::Vec(n, _) => *n, _ => 0 };
                self.lx.eat(',');
                let (ty, a) = self.tyop();
                self.lx.eat(',');
                let (_, b) = self.tyop();
                I::Select { ty, c, vecn, a, b }
            }
            "br" => {
                if self.lx.peek() == Tok::Word("label".into()) { I::Br(self.lbl()) } else {
                    let (_, c) = self.tyop();
                    self.lx.eat(',');
                    let a = self.lbl();
                    self.lx.eat(',');
                    let b = self.lbl();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyop();
                self.lx.eat(',');
                let def = self.lbl();
                assert!(self.lx.eat('['));
                let mut cases = vec![];
                while !self.lx.eat(']') {
                    let t = self.ty();
                    let k = match self.cval(t) { V::C(k) => k, _ => panic!() };
                    self.lx.eat(',');
                    cases.push((k, self.lbl()));
                }
                I::Switch { ty, v, def, cases }
            }
            "ret" => { if self.lx.eat_word("void") { I::Ret(None) } else { I::Ret(Some(self.tyop().1)) } }
            "unreachable" => I::Unreachable,
            "tail" | "musttail" | "notail" => { assert!(self.lx.eat_word("call")); self.call() }
            "call" => self.call(),
            "extractvalue" => { let (_, a) = self.tyop(); let path = self.path(); I::ExtractValue { a, path } }
            "insertvalue" => {
                let (ty, a) = self.tyop();
                self.lx.eat(',');
                let (_, v) = self.tyop();
                let path = self.path();
                I::InsertValue { ty, a, v, path }
            }
            "extractelement" => { let (_, a) = self.tyop(); self.lx.eat(','); let (_, i) = self.tyop(); I::ExtractElement { a, i } }
            "insertelement" => { let (ty, a) = self.tyop(); self.lx.eat(','); let (_, v) = self.tyop(); self.lx.eat(','); let (_, i) = self.tyop(); I::InsertElement { ty, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.tyop();
                self.lx.eat(',');
                let (_, b) = self.tyop();
                self.lx.eat(',');
                let mt = self.ty();
                let m = self.cval(mt);
                let mask: Vec<i64> = match m { V::A(x) => x.iter().map(|v| match v { V::C(c) => *c as i64, _ => -1 }).collect(), _ => match self.pr.ty.ty(mt) { Ty::Vec(n, _) => vec![-1; *n as usize], _ => panic!() } };
                I::Shuffle { ty: t, a, b, mask }
            }
            "atomicrmw" => {
                self.lx.eat_word("volatile");
                let op = match self.lx.next() { Tok::Word(w) => w, _ => panic!() };
                let (_, p) = self.tyop();
                self.lx.eat(',');
                let (ty, v) = self.tyop();
                I::Rmw { op, ty, p, v }
            }
            "cmpxchg" => {
                while self.lx.eat_word("weak") || self.lx.eat_word("volatile") {}
                let (_, p) = self.tyop();
                self.lx.eat(',');
                let (ty, cmp) = self.tyop();
                self.lx.eat(',');
                let (_, new) = self.tyop();
                I::CmpXchg { ty, p, cmp, new }
            }
            "freeze" => { let (ty, a) = self.tyop(); I::Freeze { ty, a } }
            "fence" => I::Nop,
            _ => panic!("unsupported instruction {} in {}", w, self.lx.s),
        })
    }
    fn call(&mut self) -> I {
        self.skip_attrs();
        let ret = self.ty();
        // optional function type for varargs: "(ptr, ...)"
        if self.lx.peekc() == '(' { self.lx.skip_parens(); }
        if self.lx.eat_word("asm") {
            return if matches!(self.pr.ty.ty(ret), Ty::Void) { I::Nop } else { I::Call { f: Callee::Asm, ret, args: vec![] } };
        }
        let f = match self.lx.next() {
            Tok::Global(n) => {
                if n.starts_with("llvm.") && (n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant")) { return I::Nop; }
                Callee::Fn(self.pr.fn_by_name(self.m, &n))
            }
            Tok::Local(n) => Callee::Ptr(Op::R(self.reg(n))),
            t => panic!("callee {:?} in {}", t, self.lx.s),
        };
        assert!(self.lx.eat('('));
        let mut args = vec![];
        while !self.lx.eat(')') {
            let t = self.ty();
            self.skip_attrs();
            let o = self.op(t);
            args.push((t, o));
            self.lx.eat(',');
        }
        I::Call { f, ret, args }
    }
}

pub fn kc(w: u32, v: u128) -> crate::expr::E { cst(w, v) }
