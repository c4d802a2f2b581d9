//! z3 back end. Every path constraint and query becomes one indicator literal in a single
//! incremental bit-vector solver; a query is a set of assumed literals.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_model_inc_ref(c: P, s: P);
    fn Z3_model_dec_ref(c: P, s: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    ctx: P,
    s: P,
    logic: CString,
    bv: Vec<P>,
    bl: Vec<P>,
    ind: FxMap<E, P>,
    asserted: usize,
    vars_used: Vec<(u32, P)>,
    pub st: Stats,
    rlimit: u32,
    bool_sort: P,
    debug_dump: bool,
    reset_at: usize,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg); // legacy (GC-free) mode: ASTs live as long as the context
            Z3_set_error_handler(ctx, std::ptr::null());
            let logic = CString::new(std::env::var("IRSYM_LOGIC").unwrap_or("QF_FD".into())).unwrap();
            let mut s = Solver {
                ctx, s: std::ptr::null_mut(), logic, bv: vec![], bl: vec![], ind: Default::default(), asserted: 0,
                vars_used: vec![], st: Default::default(), rlimit, bool_sort: Z3_mk_bool_sort(ctx),
                debug_dump: std::env::var("IRSYM_DUMPQ").is_ok(), reset_at: std::env::var("IRSYM_RESET").map_or(0, |v| v.parse().unwrap()),
            };
            s.reset();
            s
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

    fn reset(&mut self) {
        unsafe {
            if !self.s.is_null() { Z3_solver_dec_ref(self.ctx, self.s); }
            self.s = if self.logic.to_bytes() == b"simple" { Z3_mk_simple_solver(self.ctx) } else { Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, self.logic.as_ptr())) };
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.ctx, self.s, p);
            self.ind.clear();
            self.asserted = 0;
        }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.ctx, w);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, so) } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), so)
            }
        }
    }

    fn tr_bv(&mut self, e: E) -> P {
        self.ensure(e);
        let p = self.bv[e as usize];
        if !p.is_null() { return p; }
        // build bottom-up with explicit stack
        let mut st = vec![(e, false)];
        while let Some((x, exp)) = st.pop() {
            self.ensure(x);
            let n = node(x);
            let boolean = n.w == 1;
            let done = if boolean { !self.bl[x as usize].is_null() } else { !self.bv[x as usize].is_null() };
            if done { continue; }
            if !exp {
                st.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::ZExt | Op::SExt | Op::Ext => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let w = n.w as u32;
            let c = self.ctx;
            unsafe {
                if boolean {
                    let r = match n.op {
                        Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                        Op::Var => {
                            let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 1));
                            self.vars_used.push((n.k as u32, v));
                            Z3_mk_eq(c, v, self.num(1, 1))
                        }
                        Op::And => { let a = [self.gb(n.a), self.gb(n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                        Op::Or => { let a = [self.gb(n.a), self.gb(n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                        Op::Xor => if let Some(1) = is_const(n.b) { Z3_mk_not(c, self.gb(n.a)) } else { Z3_mk_xor(c, self.gb(n.a), self.gb(n.b)) },
                        Op::Eq => if width(n.a) == 1 { Z3_mk_eq(c, self.gb(n.a), self.gb(n.b)) } else { Z3_mk_eq(c, self.gv(n.a), self.gv(n.b)) },
                        Op::Ult => Z3_mk_bvult(c, self.gv(n.a), self.gv(n.b)),
                        Op::Slt => Z3_mk_bvslt(c, self.gv(n.a), self.gv(n.b)),
                        Op::Ite => Z3_mk_ite(c, self.gb(n.a), self.gb(n.b), self.gb(n.c)),
                        Op::Ext => {
                            let v = Z3_mk_extract(c, n.k as c_uint, n.k as c_uint, self.gv(n.a));
                            Z3_mk_eq(c, v, self.num(1, 1))
                        }
                        op => panic!("width-1 op {:?}", op),
                    };
                    self.bl[x as usize] = r;
                } else {
                    let r = match n.op {
                        Op::Const => self.num(n.k, w),
                        Op::Var => {
                            let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w));
                            self.vars_used.push((n.k as u32, v));
                            v
                        }
                        Op::Ite => Z3_mk_ite(c, self.gb(n.a), self.gv(n.b), self.gv(n.c)),
                        Op::ZExt => { let a = self.gv(n.a); Z3_mk_zero_ext(c, w - width(n.a), a) }
                        Op::SExt => { let a = self.gv(n.a); Z3_mk_sign_ext(c, w - width(n.a), a) }
                        Op::Ext => Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, self.gv(n.a)),
                        Op::URem | Op::UDiv if is_const(n.b).map_or(false, |k| k > 1 && k < 1 << 24) => {
                            // long division by a small constant, one dividend bit at a time
                            let k = is_const(n.b).unwrap();
                            let m = 128 - k.leading_zeros();
                            let a = self.gv(n.a);
                            let top = 128 - meta(n.a).hi.leading_zeros();
                            let kv = self.num(k, m + 1);
                            let mut r = self.num(0, m + 1);
                            let mut q: P = std::ptr::null_mut();
                            let (one, zero) = (self.num(1, 1), self.num(0, 1));
                            for i in (0..top.min(w).max(1)).rev() {
                                let bit = Z3_mk_extract(c, i, i, a);
                                r = Z3_mk_concat(c, Z3_mk_extract(c, m - 1, 0, r), bit);
                                let lt = Z3_mk_bvult(c, r, kv);
                                r = Z3_mk_ite(c, lt, r, Z3_mk_bvsub(c, r, kv));
                                let qb = Z3_mk_ite(c, lt, zero, one);
                                q = if q.is_null() { qb } else { Z3_mk_concat(c, q, qb) };
                            }
                            if n.op == Op::URem { if w > m + 1 { Z3_mk_zero_ext(c, w - m - 1, r) } else { Z3_mk_extract(c, w - 1, 0, r) } }
                            else { let qw = top.min(w).max(1); if w > qw { Z3_mk_zero_ext(c, w - qw, q) } else { q } }
                        }
                        op => {
                            let (a, b) = (self.gv(n.a), self.gv(n.b));
                            match op {
                                Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::SRem => Z3_mk_bvsrem(c, a, b), Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b),
                                Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b),
                                Op::AShr => Z3_mk_bvashr(c, a, b), Op::Cat => Z3_mk_concat(c, a, b),
                                op => panic!("op {:?}", op),
                            }
                        }
                    };
                    assert!(!r.is_null());
                    self.bv[x as usize] = r;
                }
            }
        }
        if node(e).w == 1 { self.bl[e as usize] } else { self.bv[e as usize] }
    }
    fn ensure(&mut self, e: E) {
        let n = (e as usize + 1).max(self.bv.len());
        if self.bv.len() < n { self.bv.resize(n + 1024, std::ptr::null_mut()); self.bl.resize(n + 1024, std::ptr::null_mut()); }
    }
    fn gb(&self, e: E) -> P { let p = self.bl[e as usize]; assert!(!p.is_null()); p }
    fn gv(&self, e: E) -> P {
        if node(e).w == 1 { unsafe { return Z3_mk_ite(self.ctx, self.gb(e), self.num(1, 1), self.num(0, 1)); } }
        let p = self.bv[e as usize];
        assert!(!p.is_null());
        p
    }

    fn indicator(&mut self, e: E) -> P {
        if let Some(&p) = self.ind.get(&e) { return p; }
        let b = self.tr_bv(e);
        unsafe {
            let p = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, 1_000_000 + e as c_int), self.bool_sort);
            Z3_solver_assert(self.ctx, self.s, Z3_mk_implies(self.ctx, p, b));
            self.asserted += 1;
            self.ind.insert(e, p);
            p
        }
    }

    /// are all the (width 1) constraints jointly satisfiable?
    pub fn check(&mut self, cs: &[E]) -> Res {
        if self.reset_at > 0 && self.asserted > self.reset_at { self.reset(); }
        let t = Instant::now();
        let r = if self.reset_at == 0 {
            // one fresh solver per query: the constraints of other paths never get in the way
            self.reset();
            for &e in cs { let b = self.tr_bv(e); unsafe { Z3_solver_assert(self.ctx, self.s, b); } }
            unsafe { Z3_solver_check(self.ctx, self.s) }
        } else {
            let lits: Vec<P> = cs.iter().map(|&e| self.indicator(e)).collect();
            unsafe { Z3_solver_check_assumptions(self.ctx, self.s, lits.len() as c_uint, lits.as_ptr()) }
        };
        let ec = unsafe { Z3_get_error_code(self.ctx) };
        let res = if ec != 0 {
            eprintln!("z3 error code {}", ec);
            Res::Unknown
        } else {
            match r {
                1 => {
                    let need = cs.iter().fold([0u128; 2], |a, &e| { let m = meta(e); [a[0] | m.vars[0], a[1] | m.vars[1]] });
                    let nv = AR.with(|a| a.borrow().nvars) as usize;
                    let mut vals = vec![0u128; nv];
                    unsafe {
                        let m = Z3_solver_get_model(self.ctx, self.s);
                        Z3_model_inc_ref(self.ctx, m);
                        for &(i, p) in &self.vars_used {
                            if need[(i as usize / 128) & 1] >> (i % 128) & 1 == 0 { continue; }
                            let mut out: P = std::ptr::null_mut();
                            if Z3_model_eval(self.ctx, m, p, true, &mut out) {
                                let mut v = 0u64;
                                vals[i as usize] = if Z3_get_numeral_uint64(self.ctx, out, &mut v) { v as u128 } else {
                                    CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_str().unwrap().parse().unwrap()
                                };
                            }
                        }
                        Z3_model_dec_ref(self.ctx, m);
                    }
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        let dt = t.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > self.st.max_time { self.st.max_time = dt; }
        match &res { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        if self.debug_dump && dt > 0.5 { eprintln!("slow query {:.2}s: {}", dt, cs.iter().map(|&e| show(e, 6)).collect::<Vec<_>>().join(" & ")); }
        res
    }
}
