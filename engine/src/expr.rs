//! Hash-consed bit-vector expression DAG with simplification, unsigned interval analysis and
//! evaluation under a model. Widths 1..=128.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt,
    Ite, ZExt, SExt, Ext, Cat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type VarSet = [u128; 2];

#[derive(Clone, Copy)]
pub struct Meta {
    pub lo: u128,
    pub hi: u128,
    pub vars: VarSet,
    pub undef: bool,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: FxMap<Node, E>,
    pub nvars: u32,
    pub var_undef: Vec<bool>,
    pub var_w: Vec<u16>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena { nodes: vec![], meta: vec![], map: Default::default(), nvars: 0, var_undef: vec![], var_w: vec![] });
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

#[inline]
pub fn node(e: E) -> Node { AR.with(|a| a.borrow().nodes[e as usize]) }
#[inline]
pub fn meta(e: E) -> Meta { AR.with(|a| a.borrow().meta[e as usize]) }
#[inline]
pub fn width(e: E) -> u32 { node(e).w as u32 }
#[inline]
pub fn is_const(e: E) -> Option<u128> { let n = node(e); if n.op == Op::Const { Some(n.k) } else { None } }
pub fn count() -> usize { AR.with(|a| a.borrow().nodes.len()) }

fn intern(n: Node) -> E {
    AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        if let Some(&e) = ar.map.get(&n) { return e; }
        let m = compute_meta(&ar, &n);
        let id = ar.nodes.len() as E;
        // interval collapses to a single value => still keep node (caller folds with fold_iv)
        ar.nodes.push(n);
        ar.meta.push(m);
        ar.map.insert(n, id);
        id
    })
}

fn compute_meta(ar: &Arena, n: &Node) -> Meta {
    let w = n.w as u32;
    let full = (0u128, mask(w));
    let m = |e: E| ar.meta[e as usize];
    let mut vars: VarSet = [0, 0];
    let mut undef = false;
    {
        let mut add = |e: E| { let x = m(e); vars[0] |= x.vars[0]; vars[1] |= x.vars[1]; undef |= x.undef; };
        match n.op {
            Op::Const => {}
            Op::Var => {}
            Op::Ite => { add(n.a); add(n.b); add(n.c); }
            Op::ZExt | Op::SExt | Op::Ext => add(n.a),
            _ => { add(n.a); add(n.b); }
        }
    }
    let (lo, hi) = match n.op {
        Op::Const => (n.k, n.k),
        Op::Var => {
            let i = n.k as usize;
            vars[(i / 128) & 1] |= 1u128 << (i % 128);
            undef = ar.var_undef[i];
            full
        }
        Op::Add => {
            let (x, y) = (m(n.a), m(n.b));
            match (x.lo.checked_add(y.lo), x.hi.checked_add(y.hi)) {
                (Some(l), Some(h)) if h <= mask(w) => (l, h),
                (Some(l), Some(h)) if w < 128 && l > mask(w) && h <= 2 * mask(w) + 1 => (l - mask(w) - 1, h - mask(w) - 1),
                _ => full,
            }
        }
        Op::Sub => {
            let (x, y) = (m(n.a), m(n.b));
            if x.lo >= y.hi { (x.lo - y.hi, x.hi - y.lo) } else { full }
        }
        Op::Mul => {
            let (x, y) = (m(n.a), m(n.b));
            match x.hi.checked_mul(y.hi) { Some(h) if h <= mask(w) => (x.lo * y.lo, h), _ => full }
        }
        Op::UDiv => {
            let (x, y) = (m(n.a), m(n.b));
            if y.lo > 0 { (x.lo / y.hi, x.hi / y.lo) } else { full }
        }
        Op::URem => {
            let (x, y) = (m(n.a), m(n.b));
            if y.lo > 0 {
                if x.hi < y.lo { (x.lo, x.hi) } else { (0, x.hi.min(y.hi - 1)) }
            } else { full }
        }
        Op::And => { let (x, y) = (m(n.a), m(n.b)); (0, x.hi.min(y.hi)) }
        Op::Or | Op::Xor => {
            let (x, y) = (m(n.a), m(n.b));
            let b = 128 - (x.hi | y.hi).leading_zeros();
            let lo = if n.op == Op::Or { x.lo.max(y.lo) } else { 0 };
            (lo, mask(b))
        }
        Op::Shl => full,
        Op::LShr => { let x = m(n.a); (0, x.hi) }
        Op::AShr | Op::SDiv | Op::SRem => full,
        Op::Eq | Op::Ult | Op::Slt => (0, 1),
        Op::Ite => { let (x, y) = (m(n.b), m(n.c)); (x.lo.min(y.lo), x.hi.max(y.hi)) }
        Op::ZExt => { let x = m(n.a); (x.lo, x.hi) }
        Op::SExt => {
            let x = m(n.a);
            let aw = ar.nodes[n.a as usize].w as u32;
            if x.hi <= mask(aw) >> 1 { (x.lo, x.hi) } else { full }
        }
        Op::Ext => {
            let x = m(n.a);
            let lowbit = n.k as u32;
            let (l, h) = (x.lo >> lowbit, x.hi >> lowbit);
            if h <= mask(w) { (l, h) } else { full }
        }
        Op::Cat => {
            let (x, y) = (m(n.a), m(n.b));
            let bw = ar.nodes[n.b as usize].w as u32;
            ((x.lo << bw) | y.lo, (x.hi << bw) | y.hi)
        }
    };
    Meta { lo, hi, vars, undef }
}

fn mk(op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
    let e = intern(Node { op, w: w as u16, a, b, c, k });
    let m = meta(e);
    if m.lo == m.hi && op != Op::Const { return cst(w, m.lo); }
    e
}

pub fn cst(w: u32, v: u128) -> E { intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) }) }
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(1, 0) }

/// variables are canonical by sequence number, so that the n-th input of every path is the same node
pub fn var(idx: u32, w: u32, undef: bool) -> E {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        while a.var_undef.len() <= idx as usize { a.var_undef.push(false); a.var_w.push(0); }
        a.var_undef[idx as usize] = undef;
        a.nvars = a.nvars.max(idx + 1);
    });
    intern(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: idx as u128 })
}
pub fn fresh_var(w: u32, undef: bool) -> (u32, E) {
    let i = AR.with(|a| a.borrow().nvars);
    (i, var(i, w, undef))
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => { if y == 0 { return None } x / y }
        Op::URem => { if y == 0 { return None } x % y }
        Op::SDiv => { if y == 0 { return None } (sx(x, w).wrapping_div(sx(y, w))) as u128 & m }
        Op::SRem => { if y == 0 { return None } (sx(x, w).wrapping_rem(sx(y, w))) as u128 & m }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = (y as u32).min(w - 1).min(127); let s = if y >= w as u128 { w - 1 } else { s }; (sx(x, w) >> s) as u128 & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        _ => return None,
    })
}

pub fn not(a: E) -> E {
    let w = width(a);
    xor(a, cst(w, mask(w)))
}

fn bits_needed(v: u128) -> u32 { (128 - v.leading_zeros()).max(1) }

pub fn bin(op: Op, a: E, b: E) -> E {
    match op {
        Op::Add => add(a, b),
        Op::Sub => sub(a, b),
        Op::Mul => mul(a, b),
        Op::UDiv | Op::URem => udivrem(op, a, b),
        Op::SDiv | Op::SRem => sdivrem(op, a, b),
        Op::And => and(a, b),
        Op::Or => or(a, b),
        Op::Xor => xor(a, b),
        Op::Shl => shl(a, b),
        Op::LShr => lshr(a, b),
        Op::AShr => ashr(a, b),
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Slt => slt(a, b),
        _ => panic!("bin {:?}", op),
    }
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 { return xor(a, b); }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(w, x.wrapping_add(y)); }
    if ca.is_some() { return add(b, a); }
    if let Some(y) = cb {
        if y == 0 { return a; }
        let n = node(a);
        if n.op == Op::Add { if let Some(z) = is_const(n.b) { return add(n.a, cst(w, y.wrapping_add(z))); } }
        if n.op == Op::Sub { if let Some(z) = is_const(n.a) { return sub(cst(w, z.wrapping_add(y)), n.b); } }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() { return ite(n.a, add(n.b, b), add(n.c, b)); }
        return mk(Op::Add, w, a, b, 0, 0);
    }
    // pull constants out
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Add { if let Some(_) = is_const(na.b) { return add(add(na.a, b), na.b); } }
    if nb.op == Op::Add { if let Some(_) = is_const(nb.b) { return add(add(a, nb.a), nb.b); } }
    if nb.op == Op::Sub && nb.b == a { return nb.a; } // a + (x - a)
    if na.op == Op::Sub && na.b == b { return na.a; }
    if w == 1 { return xor(a, b); }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::Add, w, a, b, 0, 0)
}

pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 { return xor(a, b); }
    if a == b { return cst(w, 0); }
    if let Some(y) = is_const(b) { return add(a, cst(w, y.wrapping_neg())); }
    let (na, nb) = (node(a), node(b));
    // (x + c) - x ; (x+c1) - (x+c2)
    if na.op == Op::Add {
        if na.a == b { return na.b; }
        if na.b == b { return na.a; }
        if let Some(c1) = is_const(na.b) {
            if nb.op == Op::Add { if let Some(c2) = is_const(nb.b) { return add(sub(na.a, nb.a), cst(w, c1.wrapping_sub(c2))); } }
            return add(sub(na.a, b), na.b);
        }
    }
    if nb.op == Op::Add {
        if let Some(c2) = is_const(nb.b) { return add(sub(a, nb.a), cst(w, c2.wrapping_neg())); }
        if nb.a == a { return sub(cst(w, 0), nb.b); }
        if nb.b == a { return sub(cst(w, 0), nb.a); }
    }
    if w == 1 { return xor(a, b); }
    if is_const(a).is_some() && nb.op == Op::Ite && is_const(nb.b).is_some() && is_const(nb.c).is_some() {
        return ite(nb.a, sub(a, nb.b), sub(a, nb.c));
    }
    mk(Op::Sub, w, a, b, 0, 0)
}

pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 { return and(a, b); }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(w, x.wrapping_mul(y)); }
    if ca.is_some() { return mul(b, a); }
    if let Some(y) = cb {
        if y == 0 { return b; }
        if y == 1 { return a; }
        if y.is_power_of_two() { return shl(a, cst(w, y.trailing_zeros() as u128)); }
        let n = node(a);
        if n.op == Op::Mul { if let Some(z) = is_const(n.b) { return mul(n.a, cst(w, y.wrapping_mul(z))); } }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() { return ite(n.a, mul(n.b, b), mul(n.c, b)); }
    }
    // narrow
    let (ma, mb) = (meta(a), meta(b));
    if let Some(p) = ma.hi.checked_mul(mb.hi) {
        let need = bits_needed(p).max(bits_needed(ma.hi)).max(bits_needed(mb.hi));
        if need == 1 { return zext(and(extract(a, 0, 1), extract(b, 0, 1)), w); }
        if need < w { return zext(mk(Op::Mul, need, extract(a, 0, need), extract(b, 0, need), 0, 0), w); }
    }
    mk(Op::Mul, w, a, b, 0, 0)
}

/// an if-then-else tree whose leaves are all constants
fn const_leaves(e: E, seen: &mut FxMap<E, E>, fuel: &mut u32) -> bool {
    if seen.contains_key(&e) { return true; }
    if *fuel == 0 { return false; }
    *fuel -= 1;
    let n = node(e);
    let r = match n.op { Op::Const => true, Op::Ite => const_leaves(n.b, seen, fuel) && const_leaves(n.c, seen, fuel), _ => false };
    if r { seen.insert(e, e); }
    r
}
fn map_leaves(e: E, memo: &mut FxMap<E, E>, f: &dyn Fn(u128) -> E) -> E {
    if let Some(&r) = memo.get(&e) { return r; }
    let n = node(e);
    let r = if n.op == Op::Const { f(n.k) } else { let (b, c) = (map_leaves(n.b, memo, f), map_leaves(n.c, memo, f)); ite(n.a, b, c) };
    memo.insert(e, r);
    r
}
fn udivrem(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) { if let Some(r) = fold(op, w, x, y) { return cst(w, r); } }
    let (ma, mb) = (meta(a), meta(b));
    if ma.hi < mb.lo { return if op == Op::UDiv { cst(w, 0) } else { a }; }
    if let Some(y) = is_const(b) {
        if y.is_power_of_two() {
            let s = y.trailing_zeros();
            return if op == Op::UDiv { lshr(a, cst(w, s as u128)) } else if s == 0 { cst(w, 0) } else { zext(extract(a, 0, s), w) };
        }
        if node(a).op == Op::Ite {
            let mut memo: FxMap<E, E> = Default::default();
            if const_leaves(a, &mut Default::default(), &mut 4096) { return map_leaves(a, &mut memo, &|k| cst(w, fold(op, w, k, y).unwrap())); }
        }
    }
    let need = bits_needed(ma.hi).max(bits_needed(mb.hi));
    if need < w && mb.lo > 0 {
        return zext(udivrem(op, extract(a, 0, need), extract(b, 0, need)), w);
    }
    mk(op, w, a, b, 0, 0)
}
fn sdivrem(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) { if let Some(r) = fold(op, w, x, y) { return cst(w, r); } }
    let half = mask(w) >> 1;
    if meta(a).hi <= half && meta(b).hi <= half { return udivrem(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
    mk(op, w, a, b, 0, 0)
}

pub fn and(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return a; }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(w, x & y); }
    if ca.is_some() { return and(b, a); }
    if let Some(y) = cb {
        if y == 0 { return b; }
        if y == mask(w) { return a; }
        // contiguous mask => extract
        let tz = y.trailing_zeros();
        let run = (!(y >> tz)).trailing_zeros();
        if tz + run == 128 - y.leading_zeros() {
            // bits [tz, tz+run)
            let x = extract(a, tz, run);
            let x = if tz > 0 { cat(x, cst(tz, 0)) } else { x };
            return zext(x, w);
        }
        let n = node(a);
        if n.op == Op::And { if let Some(z) = is_const(n.b) { return and(n.a, cst(w, y & z)); } }
        if n.op == Op::ZExt {
            let aw = width(n.a);
            return zext(and(n.a, cst(aw, y)), w);
        }
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() { return ite(n.a, and(n.b, b), and(n.c, b)); }
        // split a mask of several runs into concatenation only for narrow use: keep as And
        return mk(Op::And, w, a, b, 0, 0);
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let (x, y) = (na.a, nb.a);
        let (wx, wy) = (width(x), width(y));
        let m = wx.min(wy);
        return zext(and(extract(x, 0, m), extract(y, 0, m)), w);
    }
    if w == 1 {
        // absorption: a & !a
        if not(a) == b { return fls(); }
        if na.op == Op::And && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::And, w, a, b, 0, 0)
}
pub fn or(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return a; }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(w, x | y); }
    if ca.is_some() { return or(b, a); }
    if let Some(y) = cb {
        if y == 0 { return a; }
        if y == mask(w) { return b; }
        let n = node(a);
        if n.op == Op::Ite && is_const(n.b).is_some() && is_const(n.c).is_some() { return ite(n.a, or(n.b, b), or(n.c, b)); }
        return mk(Op::Or, w, a, b, 0, 0);
    }
    let (na, nb) = (node(a), node(b));
    // disjoint or => concatenation
    for (p, q) in [(a, b), (b, a)] {
        let k = bits_needed(meta(p).hi);
        if k < w && k > 0 && trailing_zeros(q, 8) >= k { return cat(extract(q, k, w - k), extract(p, 0, k)); }
    }
    for (p, q) in [(na, nb), (nb, na)] {
        if p.op == Op::ZExt {
            let xw = width(p.a);
            if q.op == Op::Cat {
                if let Some(0) = is_const(q.b) {
                    let zw = width(q.b);
                    if xw <= zw { return cat(q.a, zext(p.a, zw)); }
                }
            }
            if q.op == Op::ZExt {
                let qn = node(q.a);
                let qw = qn.w as u32;
                if qn.op == Op::Cat { if let Some(0) = is_const(qn.b) {
                    let zw = width(qn.b);
                    if xw <= zw { return zext(cat(qn.a, zext(p.a, zw)), w); }
                } }
                let m = xw.max(qw);
                if m < w { return zext(or(zext(p.a, m), zext(q.a, m)), w); }
            }
        }
    }
    if w == 1 {
        if not(a) == b { return tru(); }
        if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::Or, w, a, b, 0, 0)
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return cst(w, 0); }
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(w, x ^ y); }
    if ca.is_some() { return xor(b, a); }
    if let Some(y) = cb {
        if y == 0 { return a; }
        let n = node(a);
        if n.op == Op::Xor { if let Some(z) = is_const(n.b) { return xor(n.a, cst(w, y ^ z)); } }
        if n.op == Op::Ite && ((is_const(n.b).is_some() && is_const(n.c).is_some()) || w == 1 && (is_const(n.b).is_some() || is_const(n.c).is_some())) {
            return ite(n.a, xor(n.b, b), xor(n.c, b));
        }
        return mk(Op::Xor, w, a, b, 0, 0);
    }
    let (na, nb) = (node(a), node(b));
    if w == 1 {
        if na.op == Op::Xor && is_const(na.b).is_some() { return xor(xor(na.a, b), na.b); }
        if nb.op == Op::Xor && is_const(nb.b).is_some() { return xor(xor(a, nb.a), nb.b); }
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    mk(Op::Xor, w, a, b, 0, 0)
}

pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(s) = is_const(b) {
        if s == 0 { return a; }
        if s >= w as u128 { return cst(w, 0); }
        let s = s as u32;
        if let Some(x) = is_const(a) { return cst(w, x << s); }
        return cat(extract(a, 0, w - s), cst(s, 0));
    }
    if let Some(0) = is_const(a) { return a; }
    if w == 1 { return and(a, not(b)); }
    mk(Op::Shl, w, a, b, 0, 0)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(s) = is_const(b) {
        if s == 0 { return a; }
        if s >= w as u128 { return cst(w, 0); }
        let s = s as u32;
        return zext(extract(a, s, w - s), w);
    }
    if let Some(0) = is_const(a) { return a; }
    if w == 1 { return and(a, not(b)); }
    mk(Op::LShr, w, a, b, 0, 0)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(s) = is_const(b) {
        if s == 0 { return a; }
        let s = if s >= w as u128 { w - 1 } else { s as u32 };
        return sext(extract(a, s, w - s), w);
    }
    if w == 1 { return a; }
    mk(Op::AShr, w, a, b, 0, 0)
}

pub fn zext(a: E, w: u32) -> E {
    let n = node(a);
    let aw = n.w as u32;
    if aw == w { return a; }
    debug_assert!(aw < w);
    match n.op {
        Op::Const => cst(w, n.k),
        Op::ZExt => zext(n.a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() && aw > 1 => ite(n.a, zext(n.b, w), zext(n.c, w)),
        _ => mk(Op::ZExt, w, a, 0, 0, 0),
    }
}
pub fn sext(a: E, w: u32) -> E {
    let n = node(a);
    let aw = n.w as u32;
    if aw == w { return a; }
    if n.op == Op::Const { return cst(w, sx(n.k, aw) as u128); }
    if meta(a).hi <= mask(aw) >> 1 { return zext(a, w); }
    if n.op == Op::SExt { return sext(n.a, w); }
    if aw == 1 { return ite(a, cst(w, mask(w)), cst(w, 0)); }
    mk(Op::SExt, w, a, 0, 0, 0)
}
/// bits [low, low+len)
pub fn extract(a: E, low: u32, len: u32) -> E {
    let n = node(a);
    let aw = n.w as u32;
    debug_assert!(low + len <= aw && len > 0, "extract {} {} of {}", low, len, aw);
    if low == 0 && len == aw { return a; }
    match n.op {
        Op::Const => return cst(len, n.k >> low),
        Op::Ext => return extract(n.a, low + n.k as u32, len),
        Op::Cat => {
            let bw = width(n.b);
            if low >= bw { return extract(n.a, low - bw, len); }
            if low + len <= bw { return extract(n.b, low, len); }
            return cat(extract(n.a, 0, low + len - bw), extract(n.b, low, bw - low));
        }
        Op::ZExt => {
            let xw = width(n.a);
            if low >= xw { return cst(len, 0); }
            if low + len <= xw { return extract(n.a, low, len); }
            return zext(extract(n.a, low, xw - low), len);
        }
        Op::SExt => {
            let xw = width(n.a);
            if low + len <= xw { return extract(n.a, low, len); }
            if low == 0 { return sext(n.a, len); }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(n.op, extract(n.a, low, len), extract(n.b, low, len));
        }
        Op::Ite => {
            if is_const(n.b).is_some() || is_const(n.c).is_some() {
                return ite(n.a, extract(n.b, low, len), extract(n.c, low, len));
            }
        }
        Op::Add | Op::Sub | Op::Mul if low == 0 => {
            return bin(n.op, extract(n.a, 0, len), extract(n.b, 0, len));
        }
        _ => {}
    }
    let m = meta(a);
    if low > 0 && (m.hi >> low) == 0 { return cst(len, 0); }
    mk(Op::Ext, len, a, 0, 0, low as u128)
}
/// a is the high part
pub fn cat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let (wa, wb) = (na.w as u32, nb.w as u32);
    let w = wa + wb;
    if na.op == Op::Const && nb.op == Op::Const { return cst(w, (na.k << wb) | nb.k); }
    if na.op == Op::Const && na.k == 0 { return zext(b, w); }
    if na.op == Op::ZExt {
        let x = na.a;
        return zext(cat(x, b), w);
    }
    // adjacent extracts of one source
    if na.op == Op::Ext {
        if nb.op == Op::Ext && na.a == nb.a && na.k == nb.k + wb as u128 { return extract(na.a, nb.k as u32, w); }
        if na.a == b && na.k == wb as u128 { /* ext(b) with lower part whole b: impossible (b is full) */ }
        if nb.op == Op::Cat {
            let h = node(nb.a);
            if h.op == Op::Ext && h.a == na.a && na.k == h.k + h.w as u128 { return cat(extract(na.a, h.k as u32, wa + h.w as u32), nb.b); }
        }
    }
    // ite over same condition
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        return ite(na.a, cat(na.b, nb.b), cat(na.c, nb.c));
    }
    if na.op == Op::Cat {
        // right-assoc
        return cat(na.a, cat(na.b, b));
    }
    mk(Op::Cat, w, a, b, 0, 0)
}

pub fn eq(a: E, b: E) -> E {
    if a == b { return tru(); }
    let w = width(a);
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(1, (x == y) as u128); }
    if ca.is_some() { return eq(b, a); }
    let (ma, mb) = (meta(a), meta(b));
    if ma.hi < mb.lo || mb.hi < ma.lo { return fls(); }
    if w == 1 {
        if let Some(y) = cb { return if y == 1 { a } else { not(a) }; }
        return not(xor(a, b));
    }
    let na = node(a);
    if let Some(y) = cb {
        match na.op {
            Op::ZExt => {
                let xw = width(na.a);
                return if y > mask(xw) { fls() } else { eq(na.a, cst(xw, y)) };
            }
            Op::SExt => {
                let xw = width(na.a);
                return if sx(y & mask(xw), xw) as u128 & mask(w) == y { eq(na.a, cst(xw, y)) } else { fls() };
            }
            Op::Add => if let Some(z) = is_const(na.b) { return eq(na.a, cst(w, y.wrapping_sub(z))); },
            Op::Sub => if let Some(z) = is_const(na.a) { return eq(na.b, cst(w, z.wrapping_sub(y))); } else if y == 0 { return eq(na.a, na.b); },
            Op::Xor => if let Some(z) = is_const(na.b) { return eq(na.a, cst(w, y ^ z)); },
            Op::And if y == 0 => {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    let n = node(q);
                    if n.op == Op::Shl && is_const(n.a) == Some(1) && meta(n.b).hi < w as u128 { return not(bit_at(p, n.b)); }
                }
            }
            Op::Cat => {
                let bw = width(na.b);
                return and(eq(na.a, cst(w - bw, y >> bw)), eq(na.b, cst(bw, y)));
            }
            Op::Ite => {
                let (p, q) = (is_const(na.b), is_const(na.c));
                if p.is_some() || q.is_some() {
                    return ite(na.a, eq(na.b, b), eq(na.c, b));
                }
                let (m1, m2) = (meta(na.b), meta(na.c));
                if y < m1.lo || y > m1.hi || y < m2.lo || y > m2.hi { return ite(na.a, eq(na.b, b), eq(na.c, b)); }
            }
            Op::Mul => if let Some(z) = is_const(na.b) {
                if meta(na.a).hi.checked_mul(z).map_or(false, |p| p <= mask(w)) {
                    return if y % z != 0 { fls() } else { eq(na.a, cst(w, y / z)) };
                }
            },
            _ => {}
        }
    } else {
        let nb = node(b);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (xw, yw) = (width(na.a), width(nb.a));
            let m = xw.max(yw);
            if m < w { return eq(zext(na.a, m), zext(nb.a, m)); }
        }
        if na.op == Op::Cat && nb.op == Op::Cat && width(na.b) == width(nb.b) {
            return and(eq(na.a, nb.a), eq(na.b, nb.b));
        }
        if na.op == Op::Add && nb.op == Op::Add {
            if let (Some(x), Some(y)) = (is_const(na.b), is_const(nb.b)) { return eq(na.a, add(nb.a, cst(w, y.wrapping_sub(x)))); }
        }
        if na.op == Op::Add && nb.op != Op::Add { if is_const(na.b).is_some() && na.a == b { return fls(); } }
        if nb.op == Op::Add && na.op != Op::Add { if is_const(nb.b).is_some() && nb.a == a { return fls(); } }
        if na.op == Op::Sub && nb.op == Op::Sub {
            if na.a == nb.a { return eq(na.b, nb.b); }
            if na.b == nb.b { return eq(na.a, nb.a); }
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { return ite(na.a, eq(na.b, nb.b), eq(na.c, nb.c)); }
    }
    let (a, b) = if cb.is_some() || a <= b { (a, b) } else { (b, a) };
    mk(Op::Eq, 1, a, b, 0, 0)
}
/// bit i of x (i < width)
fn bit_at(x: E, i: E) -> E {
    let n = node(x);
    let w = width(x);
    match n.op {
        Op::Const => {
            if n.k == 0 { return fls(); }
            if n.k == mask(w) { return tru(); }
            if n.k.count_ones() <= 4 {
                let mut r = fls();
                for b in 0..w { if n.k >> b & 1 == 1 { r = or(r, eq(i, cst(w, b as u128))); } }
                return r;
            }
        }
        Op::Or => return or(bit_at(n.a, i), bit_at(n.b, i)),
        Op::And => return and(bit_at(n.a, i), bit_at(n.b, i)),
        Op::Xor => return xor(bit_at(n.a, i), bit_at(n.b, i)),
        Op::Ite => return ite(n.a, bit_at(n.b, i), bit_at(n.c, i)),
        Op::Shl if is_const(n.a) == Some(1) && meta(n.b).hi < w as u128 => return eq(n.b, i),
        _ => {}
    }
    extract(lshr(x, i), 0, 1)
}
pub fn ne(a: E, b: E) -> E { not(eq(a, b)) }
pub fn ult(a: E, b: E) -> E {
    if a == b { return fls(); }
    let w = width(a);
    let (ma, mb) = (meta(a), meta(b));
    if ma.hi < mb.lo { return tru(); }
    if ma.lo >= mb.hi { return fls(); }
    if w == 1 { return and(not(a), b); }
    let (na, nb) = (node(a), node(b));
    if let Some(y) = is_const(b) {
        if y == 1 { return eq(a, cst(w, 0)); }
        if y == mask(w) { return ne(a, b); }
        if na.op == Op::ZExt { let xw = width(na.a); return if y > mask(xw) { tru() } else { ult(na.a, cst(xw, y)) }; }
        if na.op == Op::Ite && (is_const(na.b).is_some() || is_const(na.c).is_some()) { return ite(na.a, ult(na.b, b), ult(na.c, b)); }
        if na.op == Op::Cat { if y & mask(width(na.b)) == 0 { let bw = width(na.b); return ult(na.a, cst(w - bw, y >> bw)); } }
    }
    if let Some(x) = is_const(a) {
        if x == 0 { return ne(b, a); }
        if nb.op == Op::ZExt { let yw = width(nb.a); return if x > mask(yw) { fls() } else { ult(cst(yw, x), nb.a) }; }
        if nb.op == Op::Ite && (is_const(nb.b).is_some() || is_const(nb.c).is_some()) { return ite(nb.a, ult(a, nb.b), ult(a, nb.c)); }
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let m = width(na.a).max(width(nb.a));
        if m < w { return ult(zext(na.a, m), zext(nb.a, m)); }
    }
    mk(Op::Ult, 1, a, b, 0, 0)
}
pub fn slt(a: E, b: E) -> E {
    if a == b { return fls(); }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) { return cst(1, (sx(x, w) < sx(y, w)) as u128); }
    let half = mask(w) >> 1;
    let (ma, mb) = (meta(a), meta(b));
    let (an, bn) = (ma.hi <= half, mb.hi <= half); // non-negative
    let (ag, bg) = (ma.lo > half, mb.lo > half); // negative
    if (an && bn) || (ag && bg) { return ult(a, b); }
    if an && bg { return fls(); }
    if ag && bn { return tru(); }
    let (na, nb) = (node(a), node(b));
    if is_const(b).is_some() && na.op == Op::Ite && (is_const(na.b).is_some() || is_const(na.c).is_some()) { return ite(na.a, slt(na.b, b), slt(na.c, b)); }
    if is_const(a).is_some() && nb.op == Op::Ite && (is_const(nb.b).is_some() || is_const(nb.c).is_some()) { return ite(nb.a, slt(a, nb.b), slt(a, nb.c)); }
    if let Some(0) = is_const(b) { return extract(a, w - 1, 1); }
    mk(Op::Slt, 1, a, b, 0, 0)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b { return a; }
    if let Some(x) = is_const(c) { return if x == 1 { a } else { b }; }
    let nc = node(c);
    if nc.op == Op::Xor { if let Some(1) = is_const(nc.b) { return ite(nc.a, b, a); } }
    let w = width(a);
    let (na, nb) = (node(a), node(b));
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    // ite(c1, x, ite(c2, x, y)) => ite(c1|c2, x, y)
    if nb.op == Op::Ite && nb.b == a { return ite(or(c, nb.a), a, nb.c); }
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return zext(ite(c, na.a, nb.a), w); }
    mk(Op::Ite, w, c, a, b, 0)
}

/// e with every undefined byte taken to be 0
pub fn undef_to_zero(root: E) -> E {
    let mut memo: FxMap<E, E> = Default::default();
    let mut stack = vec![root];
    while let Some(&e) = stack.last() {
        if memo.contains_key(&e) { stack.pop(); continue; }
        if !meta(e).undef { memo.insert(e, e); stack.pop(); continue; }
        let n = node(e);
        macro_rules! need { ($x:expr) => {{ let x = $x; match memo.get(&x) { Some(&v) => v, None => { stack.push(x); continue; } } }} }
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => e,
            Op::Var => cst(w, 0),
            Op::Ite => { let a = need!(n.a); let b = need!(n.b); let c = need!(n.c); ite(a, b, c) }
            Op::ZExt => { let a = need!(n.a); zext(a, w) }
            Op::SExt => { let a = need!(n.a); sext(a, w) }
            Op::Ext => { let a = need!(n.a); extract(a, n.k as u32, w) }
            Op::Cat => { let a = need!(n.a); let b = need!(n.b); cat(a, b) }
            op => {
                let a = need!(n.a);
                let b = need!(n.b);
                match op {
                    Op::Add => add(a, b), Op::Sub => sub(a, b), Op::Mul => mul(a, b), Op::And => and(a, b), Op::Or => or(a, b), Op::Xor => xor(a, b),
                    Op::Shl => shl(a, b), Op::LShr => lshr(a, b), Op::AShr => ashr(a, b), Op::Eq => eq(a, b), Op::Ult => ult(a, b), Op::Slt => slt(a, b),
                    op => bin(op, a, b),
                }
            }
        };
        memo.insert(e, r);
        stack.pop();
    }
    memo[&root]
}

pub fn trailing_zeros(e: E, depth: u32) -> u32 {
    let n = node(e);
    if depth == 0 { return 0; }
    match n.op {
        Op::Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
        Op::Mul => (trailing_zeros(n.a, depth - 1) + trailing_zeros(n.b, depth - 1)).min(n.w as u32),
        Op::Add | Op::Sub | Op::Or | Op::Xor => trailing_zeros(n.a, depth - 1).min(trailing_zeros(n.b, depth - 1)),
        Op::And => trailing_zeros(n.a, depth - 1).max(trailing_zeros(n.b, depth - 1)),
        Op::Ite => trailing_zeros(n.b, depth - 1).min(trailing_zeros(n.c, depth - 1)),
        Op::Cat => {
            let l = trailing_zeros(n.b, depth - 1);
            if l == width(n.b) { l + trailing_zeros(n.a, depth - 1) } else { l }
        }
        Op::ZExt | Op::SExt => { let l = trailing_zeros(n.a, depth - 1); if l == width(n.a) { n.w as u32 } else { l } }
        _ => 0,
    }
}

/// A total assignment of the variables, with memoised evaluation.
pub struct Model {
    pub vals: Vec<u128>,
    memo: RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model { Model { vals, memo: RefCell::new(Default::default()) } }
    pub fn eval(&self, e: E) -> u128 {
        AR.with(|ar| {
            let ar = ar.borrow();
            let mut memo = self.memo.borrow_mut();
            self.ev(&ar, &mut memo, e)
        })
    }
    fn ev(&self, ar: &Arena, memo: &mut FxMap<E, u128>, root: E) -> u128 {
        // explicit stack: ite chains over large tables are deep
        let leaf = |e: E| -> Option<u128> {
            let n = &ar.nodes[e as usize];
            match n.op {
                Op::Const => Some(n.k),
                Op::Var => Some(self.vals.get(n.k as usize).copied().unwrap_or(0) & mask(n.w as u32)),
                _ => None,
            }
        };
        if let Some(v) = leaf(root) { return v; }
        if let Some(&v) = memo.get(&root) { return v; }
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if memo.contains_key(&e) { stack.pop(); continue; }
            let n = ar.nodes[e as usize];
            let w = n.w as u32;
            macro_rules! need { ($x:expr) => {{ let x = $x; match leaf(x) { Some(v) => v, None => match memo.get(&x) { Some(&v) => v, None => { stack.push(x); continue; } } } }} }
            let r = match n.op {
                Op::Const | Op::Var => leaf(e).unwrap(),
                Op::Ite => { let c = need!(n.a); if c == 1 { need!(n.b) } else { need!(n.c) } }
                Op::ZExt => need!(n.a),
                Op::SExt => { let x = need!(n.a); sx(x, ar.nodes[n.a as usize].w as u32) as u128 & mask(w) }
                Op::Ext => { let x = need!(n.a); (x >> (n.k as u32)) & mask(w) }
                Op::Cat => { let x = need!(n.a); let y = need!(n.b); (x << ar.nodes[n.b as usize].w) | y }
                op => {
                    let x = need!(n.a);
                    let y = need!(n.b);
                    let ow = ar.nodes[n.a as usize].w as u32;
                    match fold(op, ow, x, y) {
                        Some(v) => v,
                        // SMT-LIB division by zero semantics
                        None => match op { Op::UDiv => mask(w), Op::SDiv => if sx(x, w) < 0 { 1 } else { mask(w) }, _ => x },
                    }
                }
            };
            memo.insert(e, r);
            stack.pop();
        }
        memo[&root]
    }
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Op::Const => format!("{}", n.k),
        Op::Var => format!("v{}:{}", n.k, n.w),
        _ if depth == 0 => format!("#{}", e),
        Op::Ite => format!("ite({},{},{})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        Op::ZExt => format!("z{}({})", n.w, show(n.a, depth - 1)),
        Op::SExt => format!("s{}({})", n.w, show(n.a, depth - 1)),
        Op::Ext => format!("{}[{}+:{}]", show(n.a, depth - 1), n.k, n.w),
        op => format!("{:?}({},{})", op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}
