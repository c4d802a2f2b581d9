//! Path-forking symbolic executor.
use crate::expr::{self as x, *};
use crate::ll::{Bin, Callee, Cast, Func, GEnt, Op as Opn, Pred, Program, Ty, TyId, BASE_OFF, I, NONE, V};
use crate::mem::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub gover: Rc<FxMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub eqs: Rc<FxMap<E, u128>>,
    pub defd: Rc<FxMap<E, E>>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    pub obs: Vec<V>,
    pub expect_panic: Option<u32>,
    pub steps: u64,
    pub depth: u32,
    pub nund: u32,
    pub reached: Vec<u32>,
    pub asserts: u32,
    pub h: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Fail { kind: String, id: u32, msg: String },
    Panic { msg: String, nounwind: bool },
    Incomplete(String),
    Forked,
}
type R<T> = Result<T, Stop>;

fn fail<T>(kind: &str, msg: String) -> R<T> { Err(Stop::Fail { kind: kind.into(), id: 0, msg }) }
fn inc<T>(msg: String) -> R<T> { Err(Stop::Incomplete(msg)) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    None, Alloc, AllocZ, Dealloc, Realloc, Nop, Panic, PanicNounwind, AllocErr, Abort, RandKeys, SipFinish, SipWrite,
    Memcpy, Memmove, Memset, Memcmp, Strlen, Intrinsic,
    VsIn, VsAssume, VsAssert, VsReach, VsExpectPanic, VsObserve, VsConc, VsHeap, VsLog,
}

pub struct Loc { id: u32, off: u64 }
pub enum Where { Conc(Loc), Sym { id: u32, off: E, cands: Vec<u64> } }

pub struct Engine {
    pub pr: Program,
    pub sv: Solver,
    pub ext: Vec<Option<Ext>>,
    pub work: Vec<State>,
    gobj: FxMap<u32, Rc<Obj>>,
    invars: BTreeMap<(u32, u32, bool), E>,
    pub funcs_hit: FxMap<u32, u64>,
    pub blocks_hit: FxMap<(u32, u32), ()>,
    pub insts: u64,
    pub forks: u64,
    pub max_steps: u64,
    pub sip_zero: bool,
    pub max_cands: usize,
    pub min_cands: usize,
    pub trace: bool,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub par: crate::par::Par,
}

fn c(v: u128) -> V { V::C(v) }
fn from_e(e: E) -> V { match is_const(e) { Some(k) => V::C(k), None => V::S(e) } }
fn to_e(v: &V, w: u32) -> Option<E> {
    match v { V::C(k) => Some(cst(w, *k)), V::S(e) => { debug_assert_eq!(width(*e), w); Some(*e) } _ => None }
}

impl Engine {
    pub fn new(pr: Program, solver_rlimit: u32) -> Engine {
        Engine {
            pr, sv: Solver::new(solver_rlimit), ext: vec![], work: vec![], gobj: Default::default(), invars: Default::default(),
            funcs_hit: Default::default(), blocks_hit: Default::default(), insts: 0, forks: 0, max_steps: 200_000_000, sip_zero: true, max_cands: 4096, min_cands: std::env::var("IRSYM_ITE").map_or(16, |v| v.parse().unwrap()),
            trace: std::env::var("IRSYM_TRACE").is_ok(), checks_const: 0, checks_solver: 0, par: Default::default(),
        }
    }

    pub fn classify(&mut self, f: u32) -> Ext {
        if self.ext.len() <= f as usize { self.ext.resize(f as usize + 64, None); }
        if let Some(e) = self.ext[f as usize] { return e; }
        let n = self.pr.fns[f as usize].name.as_str();
        let e = if n.starts_with("llvm.") { Ext::Intrinsic }
        else if n.contains("7___rustc") {
            if n.ends_with("12___rust_alloc") { Ext::Alloc } else if n.ends_with("19___rust_alloc_zeroed") { Ext::AllocZ }
            else if n.ends_with("14___rust_dealloc") { Ext::Dealloc } else if n.ends_with("14___rust_realloc") { Ext::Realloc }
            else if n.contains("no_alloc_shim") { Ext::Nop } else if n.ends_with("17rust_begin_unwind") || n.ends_with("10rust_panic") { Ext::Panic } else { Ext::None }
        }
        else if n.starts_with("vs_") {
            match n { "vs_in" => Ext::VsIn, "vs_assume" => Ext::VsAssume, "vs_assert" => Ext::VsAssert, "vs_reach" => Ext::VsReach,
                "vs_expect_panic" => Ext::VsExpectPanic, "vs_observe" => Ext::VsObserve, "vs_conc" => Ext::VsConc, "vs_heap" => Ext::VsHeap, "vs_log" => Ext::VsLog, _ => Ext::None }
        }
        else if n == "memcpy" { Ext::Memcpy } else if n == "memmove" { Ext::Memmove } else if n == "memset" { Ext::Memset }
        else if n == "memcmp" || n == "bcmp" { Ext::Memcmp } else if n == "strlen" { Ext::Strlen } else if n == "abort" { Ext::Abort }
        else if n.contains("4core9panicking") {
            if n.contains("nounwind") || n.contains("panic_misaligned") || n.contains("panic_null") || n.contains("panic_invalid") || n.contains("cannot_unwind") || n.contains("in_cleanup") { Ext::PanicNounwind } else { Ext::Panic }
        }
        else if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook") || n.contains("panic_count")) { Ext::Panic }
        else if n.contains("18handle_alloc_error") { Ext::AllocErr }
        else if n.contains("19hashmap_random_keys") { Ext::RandKeys }
        else if n.contains("13DefaultHasher") && n.contains("Hasher6finish") || n.contains("13DefaultHasherNt") && n.contains("6finish") { Ext::SipFinish }
        else if n.starts_with("_RNvX") && n.contains("13DefaultHasherNtNt") && n.contains("6Hasher5write") || n.starts_with("_RNvX") && n.contains("13DefaultHasher") && n.contains("6Hasher9write_str") { Ext::SipWrite }
        else { Ext::None };
        let e = if !self.sip_zero && matches!(e, Ext::SipFinish | Ext::SipWrite) { Ext::None } else { e };
        self.ext[f as usize] = Some(e);
        e
    }

    pub fn start(&mut self, fname: &str) -> R<State> {
        let f = self.pr.fn_by_name(u32::MAX, fname);
        let f = match self.pr.func(f) { Some(f) => f, None => return inc(format!("harness {} not found", fname)) };
        let regs = vec![V::U; f.nregs];
        Ok(State {
            frames: vec![Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst: NONE }],
            mem: Mem::default(), gover: Default::default(), pc: vec![], eqs: Default::default(), defd: Default::default(), model: Rc::new(Model::new(vec![])),
            inputs: vec![], obs: vec![], expect_panic: None, steps: 0, depth: 0, nund: 0, reached: vec![], asserts: 0, h: 0,
        })
    }

    // ---------------------------------------------------------------- decisions

    fn slice(&self, s: &State, e: E) -> Vec<E> {
        let mut vs = meta(e).vars;
        let mut out = vec![];
        let mut rest: Vec<(E, VarSet)> = s.pc.iter().map(|&p| (p, meta(p).vars)).collect();
        loop {
            let n = rest.len();
            rest.retain(|&(p, v)| {
                if v[0] & vs[0] != 0 || v[1] & vs[1] != 0 { vs[0] |= v[0]; vs[1] |= v[1]; out.push(p); false } else { true }
            });
            if rest.len() == n { break; }
        }
        out
    }

    /// model of pc ∧ e, if satisfiable
    fn feasible(&mut self, s: &State, e: E) -> R<Option<Rc<Model>>> {
        if let Some(k) = is_const(e) { return Ok(if k == 1 { Some(s.model.clone()) } else { None }); }
        let mut cs = self.slice(s, e);
        cs.push(e);
        match self.sv.check(&cs) {
            Res::Unsat => Ok(None),
            Res::Unknown => inc("solver returned unknown".into()),
            Res::Sat(vals) => {
                let need = cs.iter().fold([0u128; 2], |a, &e| { let m = meta(e); [a[0] | m.vars[0], a[1] | m.vars[1]] });
                let mut nv = s.model.vals.clone();
                if nv.len() < vals.len() { nv.resize(vals.len(), 0); }
                for i in 0..vals.len() { if need[(i / 128) & 1] >> (i % 128) & 1 == 1 { nv[i] = vals[i]; } }
                let m = Model::new(nv);
                for &p in cs.iter() {
                    if m.eval(p) != 1 { return inc(format!("solver model does not satisfy constraint {}", show(p, 4))); }
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    fn learn(&self, s: &mut State, e: E, v: u128) { Rc::make_mut(&mut s.eqs).insert(e, v); }

    fn assert_pc(&self, s: &mut State, e: E, truth: bool) {
        let k = if truth { e } else { x::not(e) };
        if is_const(k).is_none() { s.pc.push(k); }
        self.learn(s, e, truth as u128);
        let ne = x::not(e);
        self.learn(s, ne, !truth as u128);
        // x == const gives a value for x
        if truth {
            let n = node(e);
            if n.op == x::Op::Eq { if let Some(kv) = is_const(n.b) { self.learn(s, n.a, kv); } }
        }
    }

    /// e without the undefined bytes in it, if its value does not depend on them on this path
    fn defined(&mut self, s: &mut State, e: E, what: &str) -> R<E> {
        if !meta(e).undef { return Ok(e); }
        if let Some(&z) = s.defd.get(&e) { return Ok(z); }
        let z = x::undef_to_zero(e);
        let ne = x::ne(e, z);
        if let Some(m) = self.feasible(s, ne)? { s.model = m; return fail("uninit", what.to_string()); }
        Rc::make_mut(&mut s.defd).insert(e, z);
        Ok(z)
    }

    /// decide a width-1 expression on this path, forking when both outcomes are possible
    fn decide(&mut self, s: &mut State, e: E) -> R<bool> {
        if let Some(k) = is_const(e) { return Ok(k == 1); }
        if let Some(&k) = s.eqs.get(&e) { return Ok(k == 1); }
        if meta(e).undef { let z = self.defined(s, e, "branch on uninitialised or undefined value")?; return self.decide(s, z); }
        let v = s.model.eval(e) == 1;
        let other = if v { x::not(e) } else { e };
        match self.feasible(s, other)? {
            None => { self.learn(s, e, v as u128); let ne = x::not(e); self.learn(s, ne, !v as u128); }
            Some(m) => {
                let mut sib = s.clone();
                sib.model = m;
                sib.depth += 1;
                self.assert_pc(&mut sib, e, !v);
                self.work.push(sib);
                self.forks += 1;
                s.depth += 1;
                self.assert_pc(s, e, v);
            }
        }
        Ok(v)
    }
    fn decide_v(&mut self, s: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(k) => Ok(*k & 1 == 1),
            V::S(e) => self.decide(s, *e),
            _ => fail("uninit", "branch on uninitialised or undefined value".into()),
        }
    }
    /// a concrete value for e on this path (forks over the other values)
    fn conc(&mut self, s: &mut State, v: &V) -> R<u128> {
        let e = match v { V::C(k) => return Ok(*k), V::S(e) => *e, _ => return fail("uninit", "uninitialised value used as address, length or count".into()) };
        if let Some(&k) = s.eqs.get(&e) { return Ok(k); }
        if meta(e).undef { let z = self.defined(s, e, "undefined value used as address, length or count")?; return self.conc(s, &from_e(z)); }
        let w = width(e);
        let k = s.model.eval(e);
        let q = x::eq(e, cst(w, k));
        match self.feasible(s, x::not(q))? {
            None => { self.learn(s, e, k); }
            Some(m) => {
                let mut sib = s.clone();
                sib.model = m;
                sib.depth += 1;
                self.assert_pc(&mut sib, q, false);
                self.work.push(sib);
                self.forks += 1;
                s.depth += 1;
                self.assert_pc(s, q, true);
                self.learn(s, e, k);
            }
        }
        Ok(k)
    }

    // ---------------------------------------------------------------- memory

    fn gobj(&mut self, s: &State, gid: u32) -> Option<Rc<Obj>> {
        if let Some(o) = s.gover.get(&gid) { return Some(o.clone()); }
        if let Some(o) = self.gobj.get(&gid) { return Some(o.clone()); }
        if gid as usize >= self.pr.gents.len() { return None; }
        let g = self.pr.global_data(gid)?;
        let n = g.bytes.len();
        let o = Rc::new(Obj { size: n as u64, data: g.bytes.clone(), st: vec![0; n], sym: Default::default(), kind: Kind::Global, ro: g.constant, align: 4096 });
        self.gobj.insert(gid, o.clone());
        Some(o)
    }
    fn obj(&mut self, s: &State, id: u32) -> Option<Rc<Obj>> {
        if id >= DYN { s.mem.get(id).cloned() } else { self.gobj(s, id) }
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, id: u32) -> &'a mut Obj {
        if id >= DYN { return s.mem.get_mut(id).unwrap(); }
        if !s.gover.contains_key(&id) {
            let o = self.gobj(s, id).unwrap();
            Rc::make_mut(&mut s.gover).insert(id, o);
        }
        Rc::make_mut(Rc::make_mut(&mut s.gover).get_mut(&id).unwrap())
    }
    fn bad_addr<T>(&self, s: &State, a: u64, n: u64, what: &str) -> R<T> {
        let id = (a >> 24) as u32;
        let d = if a < 1 << 24 { "null or dangling pointer".to_string() } else if s.mem.was_allocated(id) {
            match s.mem.get(id) { None => "memory that is no longer allocated".into(), Some(o) => format!("offset {} of a {:?} object of {} bytes", a as i64 - addr_of(id) as i64, o.kind, o.size) }
        } else { format!("outside every object (near {})", self.pr.gnames.get(id as usize).cloned().unwrap_or_default()) };
        fail("memory", format!("{} of {} bytes at {:#x}: {}", what, n, a, d))
    }

    fn resolve(&mut self, s: &mut State, a: &V, n: u64, write: bool) -> R<Where> {
        let what = if write { "write" } else { "read" };
        let e = match a {
            V::C(k) => return self.resolve_c(s, *k as u64, n, write).map(Where::Conc),
            V::S(e) => *e,
            _ => return fail("uninit", format!("{} through an uninitialised pointer", what)),
        };
        if let Some(&k) = s.eqs.get(&e) { return self.resolve_c(s, k as u64, n, write).map(Where::Conc); }
        if meta(e).undef { let z = self.defined(s, e, &format!("{} through an undefined pointer", what))?; return self.resolve(s, &from_e(z), n, write); }
        let k = s.model.eval(e) as u64;
        let l = self.resolve_c(s, k, n, write)?; // the model reaches this address: a failure is real
        let base = addr_of(l.id);
        let size = self.obj(s, l.id).unwrap().size;
        let off = x::sub(e, cst(64, base as u128));
        let inb = x::ult(off, cst(64, (size - n + 1) as u128));
        if !self.decide(s, inb)? { return inc("resolve: model outside".into()); }
        let m = meta(off);
        let stride = 1u64 << x::trailing_zeros(off, 12).min(20);
        let lo = (m.lo.min(size as u128) as u64 + stride - 1) / stride * stride;
        let hi = (m.hi.min((size - n) as u128)) as u64;
        let mut cands = vec![];
        let mut o = lo;
        while o <= hi { cands.push(o); o += stride; if cands.len() > self.max_cands { break; } }
        if cands.len() > self.max_cands || cands.len() < self.min_cands || stride == 1 && n > 1 && cands.len() > 64 {
            // unknown stride or huge table: enumerate values
            let k = self.conc(s, a)? as u64;
            return self.resolve_c(s, k, n, write).map(Where::Conc);
        }
        if cands.len() == 1 { return Ok(Where::Conc(Loc { id: l.id, off: cands[0] })); }
        // single-valued on this path?
        let q = x::eq(e, cst(64, k as u128));
        if self.feasible(s, x::not(q))?.is_none() {
            self.learn(s, e, k as u128);
            return Ok(Where::Conc(l));
        }
        Ok(Where::Sym { id: l.id, off, cands })
    }
    fn resolve_c(&mut self, s: &State, a: u64, n: u64, write: bool) -> R<Loc> {
        let what = if write { "write" } else { "read" };
        let id = (a >> 24) as u32;
        let o = if a < 1 << 24 { None } else if id >= DYN { s.mem.get(id).cloned() } else { self.gobj(s, id) };
        match o {
            Some(o) => {
                let off = a.wrapping_sub(addr_of(id));
                if off.checked_add(n).map_or(true, |e| e > o.size) { return self.bad_addr(s, a, n, what); }
                if write && o.ro { return fail("memory", format!("write to read-only {}", self.pr.gnames.get(id as usize).cloned().unwrap_or_default())); }
                Ok(Loc { id, off })
            }
            None => self.bad_addr(s, a, n, what),
        }
    }

    fn undef_byte(nund: &mut u32, invars: &mut BTreeMap<(u32, u32, bool), E>) -> E {
        *nund += 1;
        let k = (*nund, 8, true);
        *invars.entry(k).or_insert_with(|| fresh_var(8, true).1)
    }

    fn undef(&mut self, s: &mut State, w: u32) -> E {
        if w % 8 != 0 {
            s.nund += 1;
            return *self.invars.entry((s.nund, w, true)).or_insert_with(|| fresh_var(w, true).1);
        }
        let mut e = Self::undef_byte(&mut s.nund, &mut self.invars);
        for _ in 1..w / 8 { e = cat(Self::undef_byte(&mut s.nund, &mut self.invars), e); }
        e
    }
    fn load_scalar(&mut self, s: &mut State, a: &V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let wh = self.resolve(s, a, n, false)?;
        let v = match wh {
            Where::Conc(l) => {
                let o = self.obj(s, l.id).unwrap();
                let (nu, iv) = (&mut s.nund, &mut self.invars);
                o.read(l.off, n, &mut || Self::undef_byte(nu, iv))
            }
            Where::Sym { id, off, cands } => {
                let o = self.obj(s, id).unwrap();
                let mut groups: Vec<(E, E)> = vec![]; // value -> condition
                let mut index: FxMap<E, usize> = Default::default();
                for &k in &cands {
                    let cond = x::eq(off, cst(64, k as u128));
                    if is_const(cond) == Some(0) || s.eqs.get(&cond) == Some(&0) { continue; }
                    if o.uninit_in(k, n) && self.feasible(s, cond)?.is_none() { self.learn(s, cond, 0); continue; }
                    let (nu, iv) = (&mut s.nund, &mut self.invars);
                    let v = match o.read(k, n, &mut || Self::undef_byte(nu, iv)) {
                        V::U => { let mut e = Self::undef_byte(nu, iv); for _ in 1..n { e = cat(Self::undef_byte(nu, iv), e); } e }
                        v => to_e(&v, 8 * n as u32).unwrap(),
                    };
                    match index.get(&v) { Some(&g) => { groups[g].1 = x::or(groups[g].1, cond); } None => { index.insert(v, groups.len()); groups.push((v, cond)); } }
                }
                let mut it = groups.into_iter().rev();
                let mut e = match it.next() { Some((v, _)) => v, None => return inc("symbolic load without candidates".into()) };
                for (v, cond) in it { e = x::ite(cond, v, e); }
                from_e(e)
            }
        };
        Ok(if w % 8 != 0 { match v { V::S(e) => from_e(extract(e, 0, w)), V::C(k) => V::C(k & mask(w)), v => v } } else { v })
    }
    fn store_scalar(&mut self, s: &mut State, a: &V, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let v = match v { V::S(e) if w % 8 != 0 => V::S(zext(*e, 8 * n as u32)), v => v.clone() };
        match self.resolve(s, a, n, true)? {
            Where::Conc(l) => { self.obj_mut(s, l.id).write(l.off, n, &v); }
            Where::Sym { id, off, cands } => {
                let mut upd = vec![];
                {
                    let o = self.obj(s, id).unwrap();
                    for &k in &cands {
                        let cond = x::eq(off, cst(64, k as u128));
                        if is_const(cond) == Some(0) || s.eqs.get(&cond) == Some(&0) { continue; }
                        for i in 0..n {
                            let nb = match &v { V::U => { let (nu, iv) = (&mut s.nund, &mut self.invars); Self::undef_byte(nu, iv) } v => extract(to_e(v, 8 * n as u32).unwrap(), 8 * i as u32, 8) };
                            let ob = match o.byte(k + i) { Some(b) => b, None => { let (nu, iv) = (&mut s.nund, &mut self.invars); Self::undef_byte(nu, iv) } };
                            upd.push((k + i, x::ite(cond, nb, ob)));
                        }
                    }
                }
                // overlapping candidates cannot occur: stride >= n or single byte accesses
                let mut seen = std::collections::BTreeSet::new();
                for (k, _) in &upd { if !seen.insert(*k) { return inc("overlapping symbolic store".into()); } }
                let o = self.obj_mut(s, id);
                for (k, e) in upd { o.set_byte(k, Some(e)); }
            }
        }
        Ok(())
    }

    fn padd(&self, a: &V, off: u64) -> V {
        if off == 0 { return a.clone(); }
        match a { V::C(k) => V::C((*k as u64).wrapping_add(off) as u128), V::S(e) => from_e(x::add(*e, cst(64, off as u128))), v => v.clone() }
    }
    fn load(&mut self, s: &mut State, a: &V, ty: TyId) -> R<V> {
        match self.pr.ty.ty(ty).clone() {
            Ty::Int(w) => self.load_scalar(s, a, w),
            Ty::Ptr | Ty::F64 => self.load_scalar(s, a, 64),
            Ty::F32 => self.load_scalar(s, a, 32),
            Ty::F16 => self.load_scalar(s, a, 16),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let Ty::Int(w) = self.pr.ty.ty(e) { if w % 8 != 0 && matches!(self.pr.ty.ty(ty), Ty::Vec(..)) { return inc("load of bit vector".into()); } }
                let sz = self.pr.ty.size(e);
                let mut v = vec![];
                for i in 0..n { let p = self.padd(a, i * sz); v.push(self.load(s, &p, e)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let offs = self.pr.ty.offs[ty as usize].clone();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() { let p = self.padd(a, offs[i]); v.push(self.load(s, &p, *t)?); }
                Ok(V::A(Rc::new(v)))
            }
            t => inc(format!("load of {:?}", t)),
        }
    }
    fn store(&mut self, s: &mut State, a: &V, ty: TyId, v: &V) -> R<()> {
        match self.pr.ty.ty(ty).clone() {
            Ty::Int(w) => self.store_scalar(s, a, w, v),
            Ty::Ptr | Ty::F64 => self.store_scalar(s, a, 64, v),
            Ty::F32 => self.store_scalar(s, a, 32, v),
            Ty::F16 => self.store_scalar(s, a, 16, v),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let sz = self.pr.ty.size(e);
                for i in 0..n {
                    let p = self.padd(a, i * sz);
                    let el = match v { V::A(xs) => xs[i as usize].clone(), _ => V::U };
                    self.store(s, &p, e, &el)?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let offs = self.pr.ty.offs[ty as usize].clone();
                for (i, t) in f.iter().enumerate() {
                    let p = self.padd(a, offs[i]);
                    let el = match v { V::A(xs) => xs[i].clone(), _ => V::U };
                    self.store(s, &p, *t, &el)?;
                }
                Ok(())
            }
            t => inc(format!("store of {:?}", t)),
        }
    }

    fn copy(&mut self, s: &mut State, d: &V, src: &V, n: &V, overlap_ok: bool) -> R<()> {
        let n = self.conc(s, n)? as u64;
        if n == 0 { return Ok(()); }
        let ws = self.resolve(s, src, n, false)?;
        let wd = self.resolve(s, d, n, true)?;
        match (ws, wd) {
            (Where::Conc(a), Where::Conc(b)) => {
                if !overlap_ok && a.id == b.id && a.off < b.off + n && b.off < a.off + n && a.off != b.off { return fail("memory", "memcpy of overlapping ranges".into()); }
                if a.id == b.id {
                    let t = self.obj_mut(s, b.id);
                    let (so, to, k) = (a.off as usize, b.off as usize, n as usize);
                    let sy: Vec<(u32, E)> = t.sym.range(so as u32..(so + k) as u32).map(|x| (*x.0, *x.1)).collect();
                    let ks: Vec<u32> = t.sym.range(to as u32..(to + k) as u32).map(|x| *x.0).collect();
                    for q in ks { t.sym.remove(&q); }
                    t.data.copy_within(so..so + k, to);
                    t.st.copy_within(so..so + k, to);
                    for (q, e) in sy { t.sym.insert(q - so as u32 + to as u32, e); }
                    return Ok(());
                }
                let o = self.obj(s, a.id).unwrap();
                let t = self.obj_mut(s, b.id);
                let (so, to, k) = (a.off as usize, b.off as usize, n as usize);
                if !t.sym.is_empty() { let ks: Vec<u32> = t.sym.range(to as u32..(to + k) as u32).map(|x| *x.0).collect(); for q in ks { t.sym.remove(&q); } }
                t.data[to..to + k].copy_from_slice(&o.data[so..so + k]);
                t.st[to..to + k].copy_from_slice(&o.st[so..so + k]);
                for (q, e) in o.sym.range(so as u32..(so + k) as u32) { t.sym.insert(q - so as u32 + to as u32, *e); }
                Ok(())
            }
            _ => {
                // word-wise where aligned strides allow it
                let mut vals = vec![];
                let step = if n % 8 == 0 { 8 } else if n % 4 == 0 { 4 } else { 1 };
                if n / step > 64 {
                    let k = self.conc(s, src)?;
                    let k2 = self.conc(s, d)?;
                    return self.copy(s, &c(k2), &c(k), &c(n as u128), overlap_ok);
                }
                let mut i = 0;
                while i < n { let p = self.padd(src, i); vals.push(self.load_scalar(s, &p, 8 * step as u32)?); i += step; }
                let mut i = 0;
                for v in vals { let p = self.padd(d, i); self.store_scalar(s, &p, 8 * step as u32, &v)?; i += step; }
                Ok(())
            }
        }
    }
    fn bytes(&mut self, s: &mut State, p: &V, n: u64) -> R<Vec<E>> {
        let mut out = vec![];
        for i in 0..n {
            let q = self.padd(p, i);
            let v = self.load_scalar(s, &q, 8)?;
            match to_e(&v, 8) { Some(e) => out.push(e), None => return fail("uninit", "uninitialised byte compared".into()) }
        }
        Ok(out)
    }

    // ---------------------------------------------------------------- arithmetic

    fn bin(&mut self, s: &mut State, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        use Bin::*;
        if let (V::C(p), V::C(q)) = (a, b) {
            let (p, q) = (*p, *q);
            let m = mask(w);
            return Ok(V::C(match op {
                Add => p.wrapping_add(q) & m, Sub => p.wrapping_sub(q) & m, Mul => p.wrapping_mul(q) & m,
                And => p & q, Or => p | q, Xor => p ^ q,
                UDiv | URem | SDiv | SRem => {
                    if q == 0 { return fail("div", "division by zero".into()); }
                    match op { UDiv => p / q, URem => p % q, SDiv => sx(p, w).wrapping_div(sx(q, w)) as u128 & m, _ => sx(p, w).wrapping_rem(sx(q, w)) as u128 & m }
                }
                Shl | LShr | AShr => {
                    if q >= w as u128 { return Ok(V::U); }
                    match op { Shl => (p << q) & m, LShr => p >> q, _ => (sx(p, w) >> q) as u128 & m }
                }
                FAdd | FSub | FMul | FDiv | FRem => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(p as u64), f64::from_bits(q as u64));
                        (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits() as u128
                    } else {
                        let (p, q) = (f32::from_bits(p as u32), f32::from_bits(q as u32));
                        (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits() as u128
                    }
                }
            }));
        }
        match (a, b) {
            (V::U, V::C(0)) | (V::C(0), V::U) if op == And || op == Mul => return Ok(c(0)),
            (V::U, V::U) => return Ok(V::U),
            // bit by bit operations keep the bits that are defined
            (V::U, o) | (o, V::U) if matches!(op, And | Or) => {
                let u = V::S(self.undef(s, w));
                return self.bin(s, op, w, &u, &o.clone());
            }
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let (ea, eb) = (to_e(a, w).unwrap(), to_e(b, w).unwrap());
        let o = match op {
            Add => x::Op::Add, Sub => x::Op::Sub, Mul => x::Op::Mul, And => x::Op::And, Or => x::Op::Or, Xor => x::Op::Xor,
            Shl => x::Op::Shl, LShr => x::Op::LShr, AShr => x::Op::AShr,
            UDiv | URem | SDiv | SRem => {
                let z = x::eq(eb, cst(w, 0));
                if self.decide(s, z)? { return fail("div", "division by zero".into()); }
                match op { UDiv => x::Op::UDiv, URem => x::Op::URem, SDiv => x::Op::SDiv, _ => x::Op::SRem }
            }
            _ => return inc("symbolic floating point".into()),
        };
        Ok(from_e(x::bin(o, ea, eb)))
    }
    fn icmp(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(m), V::C(n)) = (a, b) {
            let (m, n) = (*m, *n);
            let (sm, sn) = (sx(m, w), sx(n, w));
            return c(match p { Pred::Eq => m == n, Pred::Ne => m != n, Pred::Ugt => m > n, Pred::Uge => m >= n, Pred::Ult => m < n, Pred::Ule => m <= n,
                Pred::Sgt => sm > sn, Pred::Sge => sm >= sn, Pred::Slt => sm < sn, Pred::Sle => sm <= sn } as u128);
        }
        let (m, n) = match (to_e(a, w), to_e(b, w)) { (Some(m), Some(n)) => (m, n), _ => return V::U };
        from_e(match p {
            Pred::Eq => x::eq(m, n), Pred::Ne => x::ne(m, n), Pred::Ugt => x::ult(n, m), Pred::Uge => x::not(x::ult(m, n)), Pred::Ult => x::ult(m, n),
            Pred::Ule => x::not(x::ult(n, m)), Pred::Sgt => x::slt(n, m), Pred::Sge => x::not(x::slt(m, n)), Pred::Slt => x::slt(m, n), Pred::Sle => x::not(x::slt(n, m)),
        })
    }
    fn lanes(&self, ty: TyId) -> (Option<u64>, TyId) { match self.pr.ty.ty(ty) { Ty::Vec(n, e) => (Some(*n), *e), _ => (None, ty) } }
    fn lane(v: &V, i: u64) -> V { match v { V::A(x) => x[i as usize].clone(), v => v.clone() } }

    fn select(&mut self, s: &mut State, w: Option<u32>, cnd: &V, a: &V, b: &V) -> R<V> {
        match cnd {
            V::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => {
                if let Some(&k) = s.eqs.get(e) { return Ok(if k == 1 { a.clone() } else { b.clone() }); }
                if let (Some(w), Some(p), Some(q)) = (w, w.and_then(|w| to_e(a, w)), w.and_then(|w| to_e(b, w))) { let _ = w; return Ok(from_e(x::ite(*e, p, q))); }
                if self.decide(s, *e)? { Ok(a.clone()) } else { Ok(b.clone()) }
            }
            _ => Ok(V::U),
        }
    }

    fn cast(&mut self, s: &mut State, cc: Cast, from: TyId, to: TyId, a: &V) -> R<V> {
        let (ln, fe) = self.lanes(from);
        let (lt, te) = self.lanes(to);
        if cc == Cast::BitCast {
            // vector <-> scalar
            if ln.is_none() && lt.is_none() { return Ok(a.clone()); }
            if let V::U = a { return Ok(V::U); }
            let fw = self.pr.ty.width(fe);
            let tw = self.pr.ty.width(te);
            let src: Vec<V> = match ln { Some(n) => (0..n).map(|i| Self::lane(a, i)).collect(), None => vec![a.clone()] };
            if ln.is_some() && lt.is_some() && fw == tw { return Ok(a.clone()); }
            // via bits
            let mut bits: Option<E> = None;
            if src.len() as u32 * fw > 128 { return inc("wide bitcast".into()); }
            for v in &src {
                let e = match to_e(v, fw) { Some(e) => e, None => return Ok(V::U) };
                bits = Some(match bits { None => e, Some(l) => cat(e, l) });
            }
            let bits = bits.unwrap();
            return Ok(match lt {
                None => from_e(bits),
                Some(n) => V::A(Rc::new((0..n).map(|i| from_e(extract(bits, i as u32 * tw, tw))).collect())),
            });
        }
        if let Some(n) = ln {
            let mut out = vec![];
            for i in 0..n { out.push(self.cast(s, cc, fe, te, &Self::lane(a, i))?); }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (self.pr.ty.width(from), self.pr.ty.width(to));
        Ok(match (cc, a) {
            (Cast::ZExt | Cast::SExt, V::U) => { let e = self.undef(s, fw); from_e(if cc == Cast::ZExt { zext(e, tw) } else { sext(e, tw) }) }
            (_, V::U) => V::U,
            (Cast::Trunc, V::C(k)) => c(k & mask(tw)),
            (Cast::ZExt, V::C(k)) => c(*k),
            (Cast::SExt, V::C(k)) => c(sx(*k, fw) as u128 & mask(tw)),
            (Cast::Trunc, V::S(e)) => from_e(extract(*e, 0, tw)),
            (Cast::ZExt, V::S(e)) => from_e(zext(*e, tw)),
            (Cast::SExt, V::S(e)) => from_e(sext(*e, tw)),
            (Cast::PtrToInt | Cast::IntToPtr, V::C(k)) => c(k & mask(tw)),
            (Cast::PtrToInt | Cast::IntToPtr, V::S(e)) => from_e(if tw < fw { extract(*e, 0, tw) } else { zext(*e, tw) }),
            (Cast::UiToFp, V::C(k)) => if tw == 64 { c((*k as f64).to_bits() as u128) } else { c((*k as f32).to_bits() as u128) },
            (Cast::SiToFp, V::C(k)) => if tw == 64 { c((sx(*k, fw) as f64).to_bits() as u128) } else { c((sx(*k, fw) as f32).to_bits() as u128) },
            (Cast::FpToUi, V::C(k)) => c((if fw == 64 { f64::from_bits(*k as u64) } else { f32::from_bits(*k as u32) as f64 }) as u128 & mask(tw)),
            (Cast::FpToSi, V::C(k)) => c((if fw == 64 { f64::from_bits(*k as u64) } else { f32::from_bits(*k as u32) as f64 }) as i128 as u128 & mask(tw)),
            (Cast::FpExt, V::C(k)) => c((f32::from_bits(*k as u32) as f64).to_bits() as u128),
            (Cast::FpTrunc, V::C(k)) => c((f64::from_bits(*k as u64) as f32).to_bits() as u128),
            (cc, _) => return inc(format!("symbolic {:?}", cc)),
        })
    }

    // ---------------------------------------------------------------- intrinsics

    fn intrinsic(&mut self, s: &mut State, name: &str, ret: TyId, tys: &[TyId], a: &[V]) -> R<V> {
        let n = &name[5..];
        let w = |me: &Self, i: usize| me.pr.ty.width(tys[i]);
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            self.copy(s, &a[0], &a[1], &a[2], n.starts_with("memmove"))?;
            return Ok(V::U);
        }
        if n.starts_with("memset") { return self.memset(s, &a[0], &a[1], &a[2]); }
        if n.starts_with("assume") {
            match &a[0] {
                V::C(1) => {}
                V::S(e) => { if !self.decide(s, *e)? { return fail("ub", "llvm.assume of a false condition".into()); } }
                V::C(_) => return fail("ub", "llvm.assume of a false condition".into()),
                _ => {}
            }
            return Ok(V::U);
        }
        if n.starts_with("expect") { return Ok(a[0].clone()); }
        if n == "trap" || n == "debugtrap" || n == "ubsantrap" { return Err(Stop::Panic { msg: "abort (trap)".into(), nounwind: true }); }
        if n.starts_with("threadlocal.address") { return Ok(a[0].clone()); }
        if n.starts_with("is.constant") { return Ok(c(0)); }
        if n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("va_") || n.starts_with("assume") { return Ok(V::U); }
        if n.starts_with("load.relative") {
            let k = self.conc(s, &a[1])? as u64; let p = self.padd(&a[0], k);
            let o = self.load_scalar(s, &p, 32)?;
            let o = self.conc(s, &o)?;
            return Ok(self.padd(&a[0], sx(o, 32) as u64));
        }
        // element-wise on vectors
        let (ln, _) = self.lanes(ret);
        if let (Some(k), false) = (ln, n.contains("with.overflow") || n.contains("reduce")) {
            let (_, et) = self.lanes(ret);
            let ets: Vec<TyId> = tys.iter().map(|&t| self.lanes(t).1).collect();
            let mut out = vec![];
            for i in 0..k { let args: Vec<V> = a.iter().map(|v| Self::lane(v, i)).collect(); out.push(self.intrinsic(s, name, et, &ets, &args)?); }
            return Ok(V::A(Rc::new(out)));
        }
        if n.contains("with.overflow") {
            let w = w(self, 0);
            let (p, q) = match (to_e(&a[0], w), to_e(&a[1], w)) { (Some(p), Some(q)) => (p, q), _ => return Ok(V::A(Rc::new(vec![V::U, V::U]))) };
            let (r, o) = match &n[..4] {
                "uadd" => { let r = x::add(p, q); (r, x::ult(r, p)) }
                "usub" => (x::sub(p, q), x::ult(p, q)),
                "umul" => {
                    let r = x::mul(p, q);
                    let o = if let (Some(m), Some(k)) = (is_const(p), is_const(q)) { cst(1, m.checked_mul(k).map_or(true, |v| v > mask(w)) as u128) }
                    else if let Some(k) = is_const(q) { if k == 0 { fls() } else { x::ult(cst(w, mask(w) / k), p) } }
                    else if let Some(k) = is_const(p) { if k == 0 { fls() } else { x::ult(cst(w, mask(w) / k), q) } }
                    else if w <= 64 { let m = x::mul(zext(p, 2 * w), zext(q, 2 * w)); x::ne(extract(m, w, w), cst(w, 0)) }
                    else { return inc("symbolic 128-bit umul overflow".into()) };
                    (r, o)
                }
                "sadd" | "ssub" => {
                    let sub = n.starts_with("ssub");
                    if w == 128 {
                        // overflow iff the operands' signs agree (sub: differ) and the result's sign differs from p's
                        let r = if sub { x::sub(p, q) } else { x::add(p, q) };
                        let (sp, sq, sr) = (extract(p, 127, 1), extract(q, 127, 1), extract(r, 127, 1));
                        let d = x::ne(sp, sr);
                        (r, x::and(d, if sub { x::ne(sp, sq) } else { x::eq(sp, sq) }))
                    } else {
                        let (pe, qe) = (sext(p, w + 1), sext(q, w + 1));
                        let r = if sub { x::sub(pe, qe) } else { x::add(pe, qe) };
                        (extract(r, 0, w), x::ne(extract(r, w, 1), extract(r, w - 1, 1)))
                    }
                }
                "smul" => {
                    if w <= 64 {
                        let r = x::mul(sext(p, 2 * w), sext(q, 2 * w));
                        let lo = extract(r, 0, w);
                        (lo, x::ne(r, sext(lo, 2 * w)))
                    } else {
                        match (is_const(p), is_const(q)) { (Some(m), Some(k)) => { let (r, o) = (m as i128).overflowing_mul(k as i128); (cst(w, r as u128), cst(1, o as u128)) } _ => return inc("symbolic 128-bit overflow".into()) }
                    }
                }
                _ => return inc(format!("intrinsic {}", name)),
            };
            return Ok(V::A(Rc::new(vec![from_e(r), from_e(o)])));
        }
        if a.iter().any(|v| matches!(v, V::U)) { return Ok(V::U); }
        let base = n.split('.').next().unwrap();
        if n.starts_with("vector.reduce") {
            let (k, et) = self.lanes(tys[0]);
            let ew = self.pr.ty.width(et);
            let mut acc = to_e(&Self::lane(&a[0], 0), ew).unwrap();
            for i in 1..k.unwrap() {
                let v = to_e(&Self::lane(&a[0], i), ew).unwrap();
                acc = if n.contains("reduce.add") { x::add(acc, v) } else if n.contains("reduce.or") { x::or(acc, v) } else if n.contains("reduce.and") { x::and(acc, v) } else if n.contains("reduce.xor") { x::xor(acc, v) } else { return inc(format!("intrinsic {}", name)) };
            }
            return Ok(from_e(acc));
        }
        let e = |me: &Self, i: usize| to_e(&a[i], me.pr.ty.width(tys[i])).unwrap();
        let r = match base {
            "umin" => { let (p, q) = (e(self, 0), e(self, 1)); x::ite(x::ult(p, q), p, q) }
            "umax" => { let (p, q) = (e(self, 0), e(self, 1)); x::ite(x::ult(p, q), q, p) }
            "smin" => { let (p, q) = (e(self, 0), e(self, 1)); x::ite(x::slt(p, q), p, q) }
            "smax" => { let (p, q) = (e(self, 0), e(self, 1)); x::ite(x::slt(p, q), q, p) }
            "abs" => { let p = e(self, 0); let w = width(p); x::ite(x::slt(p, cst(w, 0)), x::sub(cst(w, 0), p), p) }
            "usub" => { let (p, q) = (e(self, 0), e(self, 1)); x::ite(x::ult(p, q), cst(width(p), 0), x::sub(p, q)) }
            "uadd" => { let (p, q) = (e(self, 0), e(self, 1)); let r = x::add(p, q); x::ite(x::ult(r, p), cst(width(p), mask(width(p))), r) }
            "ucmp" | "scmp" => {
                let (p, q) = (e(self, 0), e(self, 1));
                let rw = self.pr.ty.width(ret);
                let (l, g) = if base == "ucmp" { (x::ult(p, q), x::ult(q, p)) } else { (x::slt(p, q), x::slt(q, p)) };
                x::ite(l, cst(rw, mask(rw)), x::ite(g, cst(rw, 1), cst(rw, 0)))
            }
            "ctpop" => { let p = e(self, 0); let w = width(p); let mut r = cst(w, 0); for i in 0..w { r = x::add(r, zext1(extract(p, i, 1), w)); } r }
            "ctlz" => { let p = e(self, 0); let w = width(p); let mut r = cst(w, w as u128); for i in 0..w { r = x::ite(extract(p, i, 1), cst(w, (w - 1 - i) as u128), r); } r }
            "cttz" => { let p = e(self, 0); let w = width(p); let mut r = cst(w, w as u128); for i in (0..w).rev() { r = x::ite(extract(p, i, 1), cst(w, i as u128), r); } r }
            "bswap" => { let p = e(self, 0); let w = width(p); let mut r = extract(p, 0, 8); for i in 1..w / 8 { r = cat(r, extract(p, 8 * i, 8)); } r }
            "bitreverse" => { let p = e(self, 0); let w = width(p); let mut r = extract(p, 0, 1); for i in 1..w { r = cat(r, extract(p, i, 1)); } r }
            "fshl" | "fshr" => {
                let (p, q, sh) = (e(self, 0), e(self, 1), &a[2]);
                let w = width(p);
                let k = self.conc(s, sh)? as u32 % w;
                if k == 0 { if base == "fshl" { p } else { q } }
                else if base == "fshl" { cat(extract(p, 0, w - k), extract(q, w - k, k)) }
                else { cat(extract(p, 0, k), extract(q, k, w - k)) }
            }
            "ptrmask" => { let (p, q) = (e(self, 0), e(self, 1)); x::and(p, q) }
            "sqrt" | "fabs" | "floor" | "ceil" | "trunc" | "rint" | "round" => {
                let p = self.conc(s, &a[0])?;
                if self.pr.ty.width(ret) == 64 {
                    let f = f64::from_bits(p as u64);
                    cst(64, match base { "sqrt" => f.sqrt(), "fabs" => f.abs(), "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), _ => f.round() }.to_bits() as u128)
                } else {
                    let f = f32::from_bits(p as u32);
                    cst(32, match base { "sqrt" => f.sqrt(), "fabs" => f.abs(), "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), _ => f.round() }.to_bits() as u128)
                }
            }
            "fptoui" | "fptosi" => {
                let p = self.conc(s, &a[0])?;
                let f = if w(self, 0) == 64 { f64::from_bits(p as u64) } else { f32::from_bits(p as u32) as f64 };
                let rw = self.pr.ty.width(ret);
                if base == "fptoui" { cst(rw, (f as u128).min(mask(rw))) } else { let h = (mask(rw) >> 1) as i128; cst(rw, (f as i128).clamp(-h - 1, h) as u128) }
            }
            _ => return inc(format!("intrinsic {}", name)),
        };
        Ok(from_e(r))
    }

    fn memset(&mut self, s: &mut State, p: &V, b: &V, n: &V) -> R<V> {
        let n = self.conc(s, n)? as u64;
        if n == 0 { return Ok(V::U); }
        let pa = self.conc(s, p)?;
        let l = self.resolve_c(s, pa as u64, n, true)?;
        let o = self.obj_mut(s, l.id);
        if let V::C(k) = b {
            for i in l.off..l.off + n { if o.st[i as usize] == 2 { o.sym.remove(&(i as u32)); } }
            o.data[l.off as usize..(l.off + n) as usize].fill(*k as u8);
            o.st[l.off as usize..(l.off + n) as usize].fill(0);
        } else {
            let e = to_e(b, 8);
            for i in 0..n { o.set_byte(l.off + i, e); }
        }
        Ok(V::U)
    }

    fn text(&mut self, s: &State, p: &V, n: &V) -> Option<String> {
        let (p, n) = match (p, n) { (V::C(p), V::C(n)) => (*p as u64, *n as u64), _ => return None };
        if n > 4096 { return None; }
        let l = self.resolve_c(s, p, n, false).ok()?;
        let o = self.obj(s, l.id)?;
        Some(String::from_utf8_lossy(&o.data[l.off as usize..(l.off + n) as usize]).into_owned())
    }
    fn location(&mut self, s: &State, p: &V) -> Option<String> {
        let a = if let V::C(a) = p { *a as u64 } else { return None };
        let l = self.resolve_c(s, a, 24, false).ok()?;
        if l.id >= DYN { return None; }
        let o = self.obj(s, l.id)?;
        let rd = |k: usize| u64::from_le_bytes(o.data[l.off as usize + k..l.off as usize + k + 8].try_into().unwrap());
        let f = self.text(s, &c(rd(0) as u128), &c(rd(8) as u128))?;
        let lc = rd(16);
        if !f.contains(".rs") { return None; }
        Some(format!("{}:{}:{}", f, lc & 0xffff_ffff, lc >> 32))
    }
    pub fn backtrace(&self, s: &State) -> String {
        let v: Vec<String> = s.frames.iter().rev().take(6).map(|f| if f.f.pretty.is_empty() { f.f.name.clone() } else { f.f.pretty.clone() }).collect();
        v.join(" <- ")
    }

    // ---------------------------------------------------------------- external models

    fn call_ext(&mut self, s: &mut State, e: Ext, f: u32, ret: TyId, tys: &[TyId], a: &[V]) -> R<V> {
        Ok(match e {
            Ext::Nop => V::U,
            Ext::Alloc | Ext::AllocZ => {
                let n = self.conc(s, &a[0])? as u64;
                let al = self.conc(s, &a[1])? as u64;
                if n > 1 << 23 { return inc(format!("allocation of {} bytes", n)); }
                let id = s.mem.alloc(Obj::new(n, Kind::Heap, e == Ext::AllocZ, al));
                c(addr_of(id) as u128)
            }
            Ext::Dealloc => {
                let p = self.conc(s, &a[0])? as u64;
                let n = self.conc(s, &a[1])? as u64;
                let al = self.conc(s, &a[2])? as u64;
                self.free_check(s, p, n, al, "dealloc")?;
                s.mem.free((p >> 24) as u32);
                V::U
            }
            Ext::Realloc => {
                let p = self.conc(s, &a[0])? as u64;
                let n = self.conc(s, &a[1])? as u64;
                let al = self.conc(s, &a[2])? as u64;
                let nn = self.conc(s, &a[3])? as u64;
                if nn > 1 << 23 { return inc(format!("allocation of {} bytes", nn)); }
                self.free_check(s, p, n, al, "realloc")?;
                let id = s.mem.alloc(Obj::new(nn, Kind::Heap, false, al));
                let np = c(addr_of(id) as u128);
                self.copy(s, &np, &c(p as u128), &c(n.min(nn) as u128), false)?;
                s.mem.free((p >> 24) as u32);
                np
            }
            Ext::Panic | Ext::PanicNounwind => {
                let mut msg = self.pr.fns[f as usize].pretty.clone();
                if msg.is_empty() { msg = self.pr.fns[f as usize].name.clone(); }
                for i in 0..a.len() {
                    if i + 1 < a.len() { if let Some(t) = self.text(s, &a[i], &a[i + 1]) { if t.len() > 3 && t.is_ascii() && !t.contains('\0') { msg = t; break; } } }
                }
                if let Some(l) = a.last().and_then(|l| self.location(s, l)) { msg = format!("{} at {}", msg, l); }
                msg = format!("{} [{}]", msg, self.backtrace(s));
                return Err(Stop::Panic { msg, nounwind: e == Ext::PanicNounwind });
            }
            Ext::AllocErr => return Err(Stop::Panic { msg: "allocation error".into(), nounwind: true }),
            Ext::Abort => return Err(Stop::Panic { msg: "abort".into(), nounwind: true }),
            Ext::RandKeys => V::A(Rc::new(vec![c(0x0123_4567_89ab_cdef), c(0x0fed_cba9_8765_4321)])),
            Ext::SipFinish => c(0),
            Ext::SipWrite => V::U,
            Ext::Memcpy | Ext::Memmove => { self.copy(s, &a[0], &a[1], &a[2], e == Ext::Memmove)?; a[0].clone() }
            Ext::Memset => { let b = match &a[1] { V::S(e) => from_e(extract(*e, 0, 8)), V::C(k) => c(k & 255), v => v.clone() }; self.memset(s, &a[0], &b, &a[2])?; a[0].clone() }
            Ext::Memcmp => {
                let n = self.conc(s, &a[2])? as u64;
                let p = self.bytes(s, &a[0], n)?;
                let q = self.bytes(s, &a[1], n)?;
                let mut r = cst(32, 0);
                if self.pr.fns[f as usize].name == "bcmp" {
                    let mut eqs = tru();
                    for i in 0..n as usize { eqs = x::and(eqs, x::eq(p[i], q[i])); }
                    r = x::ite(eqs, cst(32, 0), cst(32, 1));
                } else {
                    for i in (0..n as usize).rev() {
                        r = x::ite(x::eq(p[i], q[i]), r, x::ite(x::ult(p[i], q[i]), cst(32, mask(32)), cst(32, 1)));
                    }
                }
                from_e(r)
            }
            Ext::Intrinsic => { let n = self.pr.fns[f as usize].name.clone(); return self.intrinsic(s, &n, ret, tys, a); }
            Ext::VsIn => {
                let w = self.conc(s, &a[0])? as u32;
                let k = (s.inputs.len() as u32, w, false);
                let v = *self.invars.entry(k).or_insert_with(|| fresh_var(w, false).1);
                s.inputs.push(v);
                from_e(zext(v, 64))
            }
            Ext::VsAssume => {
                match &a[0] {
                    V::C(k) => if k & 1 == 0 { return Err(Stop::Infeasible); },
                    V::S(e0) => {
                        let e = &self.defined(s, *e0, "assume on undefined value")?;
                        if let Some(k) = is_const(*e) { if k == 0 { return Err(Stop::Infeasible); } }
                        else if let Some(&k) = s.eqs.get(e) { if k == 0 { return Err(Stop::Infeasible); } }
                        else if s.model.eval(*e) == 1 { self.assert_pc(s, *e, true); }
                        else { match self.feasible(s, *e)? { None => return Err(Stop::Infeasible), Some(m) => { s.model = m; self.assert_pc(s, *e, true); } } }
                    }
                    _ => return fail("uninit", "assume on undefined value".into()),
                }
                V::U
            }
            Ext::VsAssert => {
                let id = self.conc(s, &a[1])? as u32;
                s.asserts += 1;
                let ok = match &a[0] {
                    V::C(k) => { self.checks_const += 1; k & 1 == 1 }
                    V::S(e0) => {
                        self.checks_solver += 1;
                        let e = &self.defined(s, *e0, "assertion on undefined value")?;
                        if let Some(k) = is_const(*e) { k == 1 } else if s.eqs.get(e) == Some(&1) { true } else {
                            let ne = x::not(*e);
                            match self.feasible(s, ne)? { None => { self.learn(s, *e, 1); true } Some(m) => { s.model = m; self.assert_pc(s, *e, false); false } }
                        }
                    }
                    _ => return fail("uninit", "assertion on undefined value".into()),
                };
                if !ok { return Err(Stop::Fail { kind: "assert".into(), id, msg: format!("assertion {} violated", id) }); }
                V::U
            }
            Ext::VsReach => { let id = self.conc(s, &a[0])? as u32; if !s.reached.contains(&id) { s.reached.push(id); } V::U }
            Ext::VsExpectPanic => { let id = self.conc(s, &a[0])? as u32; s.expect_panic = if id == 0 { None } else { Some(id) }; V::U }
            Ext::VsObserve => { s.obs.push(a[0].clone()); V::U }
            Ext::VsConc => c(self.conc(s, &a[0])?),
            Ext::VsHeap => c(s.mem.heap_live as u128),
            Ext::VsLog => { eprintln!("vs_log {:?} {}", a, match &a[0] { V::S(e) => show(*e, 6), _ => String::new() }); V::U }
            Ext::Strlen | Ext::None => return inc(format!("external function {} [{}]", self.pr.fns[f as usize].name, self.backtrace(s))),
        })
    }
    fn free_check(&mut self, s: &State, p: u64, n: u64, al: u64, what: &str) -> R<()> {
        let id = (p >> 24) as u32;
        match if id >= DYN { s.mem.get(id) } else { None } {
            Some(o) if o.kind == Kind::Heap => {
                if p != addr_of(id) { return fail("memory", format!("{} of an interior pointer", what)); }
                if o.size != n || o.align != al { return fail("memory", format!("{} with size {} align {} of a block of size {} align {}", what, n, al, o.size, o.align)); }
                Ok(())
            }
            _ => fail("memory", format!("{} of {:#x}, which is not a live heap block (double free?)", what, p)),
        }
    }

    // ---------------------------------------------------------------- interpreter

    fn opv(fr: &Frame, o: &Opn) -> V { match o { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(v) => v.clone() } }

    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<(u32, V)> = b.phis.iter().map(|(d, inc)| {
                let o = &inc.iter().find(|x| x.0 == from).expect("phi predecessor").1;
                (*d, Self::opv(fr, o))
            }).collect();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
        self.blocks_hit.insert((f.id, to), ());
    }

    pub fn push_frame(&mut self, s: &mut State, f: Rc<Func>, args: Vec<V>, dst: u32) -> R<()> {
        if s.frames.len() > 2000 { return inc("call depth".into()); }
        let mut regs = vec![V::U; f.nregs];
        for (p, v) in f.params.iter().zip(args) { regs[*p as usize] = v; }
        *self.funcs_hit.entry(f.id).or_insert(0) += 1;
        self.blocks_hit.insert((f.id, 0), ());
        s.frames.push(Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst });
        Ok(())
    }

    /// run one state until it stops
    pub fn run(&mut self, s: &mut State) -> Stop {
        loop {
            match self.step(s) {
                Ok(()) => {}
                Err(st) => return st,
            }
            s.steps += 1;
            self.insts += 1;
            if s.steps & 1023 == 0 && self.poll() { return Stop::Forked; }
            if s.steps > self.max_steps * if self.par.names.get(s.h as usize).is_some_and(|n| n.contains("_huge")) { 40 } else { 1 } { return Stop::Incomplete("step budget exhausted on a path".into()); }
        }
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let (dst, ins) = &f.blocks[fr.bb as usize].code[fr.ip as usize];
        let dst = *dst;
        if self.trace { eprintln!("{} bb{} ip{} {:?}", if f.pretty.is_empty() { &f.name } else { &f.pretty }, fr.bb, fr.ip, ins); }
        macro_rules! op { ($o:expr) => { Self::opv(s.frames.last().unwrap(), $o) } }
        let v: V = match ins {
            I::Bin { op, ty, a, b, .. } => {
                let (a, b) = (op!(a), op!(b));
                match self.lanes(*ty) {
                    (None, _) => { let w = self.pr.ty.width(*ty); self.bin(s, *op, w, &a, &b)? }
                    (Some(n), e) => {
                        let w = self.pr.ty.width(e);
                        let mut out = vec![];
                        for i in 0..n { out.push(self.bin(s, *op, w, &Self::lane(&a, i), &Self::lane(&b, i))?); }
                        V::A(Rc::new(out))
                    }
                }
            }
            I::Icmp { p, ty, a, b } => {
                let (a, b) = (op!(a), op!(b));
                match self.lanes(*ty) {
                    (None, _) => self.icmp(*p, self.pr.ty.width(*ty), &a, &b),
                    (Some(n), e) => { let w = self.pr.ty.width(e); V::A(Rc::new((0..n).map(|i| self.icmp(*p, w, &Self::lane(&a, i), &Self::lane(&b, i))).collect())) }
                }
            }
            I::Fcmp { p, ty, a, b } => {
                let (a, b) = (op!(a), op!(b));
                let (a, b) = (self.conc(s, &a)?, self.conc(s, &b)?);
                let (a, b) = if self.pr.ty.width(*ty) == 64 { (f64::from_bits(a as u64), f64::from_bits(b as u64)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
                let un = a.is_nan() || b.is_nan();
                c(match p.as_str() { "oeq" => a == b, "ogt" => a > b, "oge" => a >= b, "olt" => a < b, "ole" => a <= b, "one" => !un && a != b, "ord" => !un, "uno" => un,
                    "ueq" => un || a == b, "ugt" => un || a > b, "uge" => un || a >= b, "ult" => un || a < b, "ule" => un || a <= b, "une" => un || a != b, "true" => true, _ => false } as u128)
            }
            I::FNeg { ty, a } => { let a = op!(a); let k = self.conc(s, &a)?; c(k ^ (1u128 << (self.pr.ty.width(*ty) - 1))) }
            I::Cast { c: cc, from, to, a } => { let a = op!(a); self.cast(s, *cc, *from, *to, &a)? }
            I::Load { ty, p } => { let p = op!(p); self.load(s, &p, *ty)? }
            I::Store { ty, v, p } => { let (v, p) = (op!(v), op!(p)); self.store(s, &p, *ty, &v)?; V::U }
            I::Gep { base, off, idx } => {
                let b = op!(base);
                let mut k = match b { V::C(k) => V::C((k as u64).wrapping_add(*off as u64) as u128), V::S(e) => from_e(x::add(e, cst(64, *off as u128))), v => v };
                for (o, w, sc) in idx {
                    let i = op!(o);
                    k = match (&k, &i) {
                        (V::C(a), V::C(i)) => V::C((*a as u64).wrapping_add((sx(*i, *w) as i64).wrapping_mul(*sc) as u64) as u128),
                        (V::U, _) | (_, V::U) => V::U,
                        (a, i) => { let ie = x::mul(sext(to_e(i, *w).unwrap(), 64), cst(64, *sc as i128 as u128)); from_e(x::add(to_e(a, 64).unwrap(), ie)) }
                    };
                }
                k
            }
            I::Alloca { size, n } => {
                let n = op!(n);
                let n = self.conc(s, &n)? as u64;
                let id = s.mem.alloc(Obj::new(size * n, Kind::Stack, false, 16));
                s.frames.last_mut().unwrap().allocas.push(id);
                c(addr_of(id) as u128)
            }
            I::Select { ty, c: cn, vecn, a, b } => {
                let (cn, a, b) = (op!(cn), op!(a), op!(b));
                if *vecn > 0 {
                    let (_, e) = self.lanes(*ty);
                    let w = self.pr.ty.width(e);
                    let mut out = vec![];
                    for i in 0..*vecn { out.push(self.select(s, Some(w), &Self::lane(&cn, i), &Self::lane(&a, i), &Self::lane(&b, i))?); }
                    V::A(Rc::new(out))
                } else {
                    let w = match self.pr.ty.ty(*ty) { Ty::Int(w) => Some(*w), _ => None }; // pointers: fork
                    self.select(s, w, &cn, &a, &b)?
                }
            }
            I::Br(t) => { self.jump(s, *t); return Ok(()); }
            I::CondBr(cn, a, b) => {
                let cn = op!(cn);
                let t = if self.decide_v(s, &cn)? { *a } else { *b };
                self.jump(s, t);
                return Ok(());
            }
            I::Switch { ty, v, def, cases } => {
                let v = op!(v);
                let t = match &v {
                    V::C(k) => cases.iter().find(|x| x.0 == *k).map_or(*def, |x| x.1),
                    V::S(e) => {
                        let w = self.pr.ty.width(*ty);
                        let mut t = *def;
                        for (k, b) in cases {
                            let q = x::eq(*e, cst(w, *k));
                            if self.decide(s, q)? { t = *b; break; }
                        }
                        t
                    }
                    _ => return fail("uninit", "switch on uninitialised value".into()),
                };
                self.jump(s, t);
                return Ok(());
            }
            I::Ret(o) => {
                let v = match o { Some(o) => op!(o), None => V::U };
                let fr = s.frames.pop().unwrap();
                for id in fr.allocas { s.mem.free(id); }
                match s.frames.last_mut() {
                    None => return Err(Stop::Done),
                    Some(p) => { if fr.dst != NONE { p.regs[fr.dst as usize] = v; } p.ip += 1; }
                }
                return Ok(());
            }
            I::Unreachable => return fail("ub", format!("unreachable code reached [{}]", self.backtrace(s))),
            I::Call { f: callee, ret, args } => {
                let fid = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Asm => return inc("inline assembly".into()),
                    Callee::Ptr(p) => {
                        let p = op!(p);
                        let a = self.conc(s, &p)? as u64;
                        let id = (a >> 24) as usize;
                        match self.pr.gents.get(id) { Some(GEnt::Fn(f)) if a == ((id as u64) << 24) + BASE_OFF => *f, _ => return fail("memory", format!("call through a bad function pointer {:#x}", a)) }
                    }
                };
                let av: Vec<V> = args.iter().map(|(_, o)| op!(o)).collect();
                let e = self.classify(fid);
                if e == Ext::None {
                    match self.pr.func(fid) {
                        Some(nf) => { self.push_frame(s, nf, av, dst)?; return Ok(()); }
                        None => return inc(format!("external function {} [{}]", self.pr.fns[fid as usize].name, self.backtrace(s))),
                    }
                }
                let tys: Vec<TyId> = args.iter().map(|x| x.0).collect();
                self.call_ext(s, e, fid, *ret, &tys, &av)?
            }
            I::ExtractValue { a, path } => {
                let mut v = op!(a);
                for &p in path { v = match v { V::A(x) => x[p as usize].clone(), v => v }; }
                v
            }
            I::InsertValue { ty, a, v, path } => {
                let (a, v) = (op!(a), op!(v));
                self.insert(*ty, &a, &v, path)
            }
            I::ExtractElement { a, i } => { let (a, i) = (op!(a), op!(i)); let i = self.conc(s, &i)? as u64; Self::lane(&a, i) }
            I::InsertElement { ty, a, v, i } => { let (a, v, i) = (op!(a), op!(v), op!(i)); let i = self.conc(s, &i)? as u32; self.insert(*ty, &a, &v, &[i]) }
            I::Shuffle { ty, a, b, mask } => {
                let (a, b) = (op!(a), op!(b));
                let n = match self.pr.ty.ty(*ty) { Ty::Vec(n, _) => *n as i64, _ => 0 };
                V::A(Rc::new(mask.iter().map(|&m| if m < 0 { V::U } else if m < n { Self::lane(&a, m as u64) } else { Self::lane(&b, (m - n) as u64) }).collect()))
            }
            I::Rmw { op, ty, p, v } => {
                let (p, v) = (op!(p), op!(v));
                let old = self.load(s, &p, *ty)?;
                let w = self.pr.ty.width(*ty);
                let new = match op.as_str() {
                    "xchg" => v, "add" => self.bin(s, Bin::Add, w, &old, &v)?, "sub" => self.bin(s, Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(s, Bin::And, w, &old, &v)?, "or" => self.bin(s, Bin::Or, w, &old, &v)?, "xor" => self.bin(s, Bin::Xor, w, &old, &v)?,
                    o => return inc(format!("atomicrmw {}", o)),
                };
                self.store(s, &p, *ty, &new)?;
                old
            }
            I::CmpXchg { ty, p, cmp, new } => {
                let (p, cmp, new) = (op!(p), op!(cmp), op!(new));
                let old = self.load(s, &p, *ty)?;
                let w = self.pr.ty.width(*ty);
                let q = self.icmp(Pred::Eq, w, &old, &cmp);
                let ok = self.decide_v(s, &q)?;
                if ok { self.store(s, &p, *ty, &new)?; }
                V::A(Rc::new(vec![old, c(ok as u128)]))
            }
            I::Freeze { ty, a } => { let a = op!(a); match a { V::U => match self.pr.ty.ty(*ty) { Ty::Int(_) | Ty::Ptr => c(0), _ => V::U }, v => v } }
            I::Nop => V::U,
        };
        let fr = s.frames.last_mut().unwrap();
        if dst != NONE { fr.regs[dst as usize] = v; }
        fr.ip += 1;
        Ok(())
    }

    fn insert(&self, ty: TyId, a: &V, v: &V, path: &[u32]) -> V {
        if path.is_empty() { return v.clone(); }
        let i = path[0] as usize;
        let (n, et) = match self.pr.ty.ty(ty) {
            Ty::Struct(f, _) => (f.len(), f[i]),
            Ty::Arr(n, e) | Ty::Vec(n, e) => (*n as usize, *e),
            _ => panic!("insert into scalar"),
        };
        let mut xs: Vec<V> = match a { V::A(x) => x.to_vec(), _ => vec![V::U; n] };
        xs[i] = self.insert(et, &xs[i], v, &path[1..]);
        V::A(Rc::new(xs))
    }
}

fn zext1(e: E, w: u32) -> E { if w == 1 { e } else { zext(e, w) } }
