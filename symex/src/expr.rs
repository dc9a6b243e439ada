//! Hash-consed bit-vector expression DAG with local simplification.
//!
//! A runtime value is a `Val`: either concrete (`e == 0`, bits in `v`) or symbolic (`e` is an
//! expression id).  Expression id 0 is reserved.  Every expression has a width of 1..=128 bits.

use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    pub v: u128,
    pub e: Eid,
}

impl Val {
    #[inline(always)]
    pub fn c(v: u128) -> Val {
        Val { v, e: 0 }
    }
    #[inline(always)]
    pub fn sym(e: Eid) -> Val {
        Val { v: 0, e }
    }
    #[inline(always)]
    pub fn is_sym(self) -> bool {
        self.e != 0
    }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline(always)]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract,
    Concat,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub const NV: usize = 8; // 64*NV symbolic variables at most
pub type VarSet = [u64; NV];

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub lo: u128,
    pub hi: u128,
    /// bits known to be zero
    pub kz: u128,
    pub vars: VarSet,
}

pub fn vs_or(a: &VarSet, b: &VarSet) -> VarSet {
    let mut r = *a;
    for i in 0..NV {
        r[i] |= b[i];
    }
    r
}
pub fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    (0..NV).any(|i| a[i] & b[i] != 0)
}
pub fn vs_count(a: &VarSet) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn vs_iter(a: &VarSet) -> Vec<u32> {
    let mut r = vec![];
    for i in 0..NV {
        let mut x = a[i];
        while x != 0 {
            r.push(i as u32 * 64 + x.trailing_zeros());
            x &= x - 1;
        }
    }
    r
}

#[derive(Clone)]
pub struct VarInfo {
    pub w: u32,
    pub name: String,
    /// domain bitmap when w <= 8
    pub dom: [u64; 4],
    /// true while every constraint on this variable mentions this variable only
    pub unary_only: bool,
    pub eid: Eid,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Key, Eid>,
    pub vars: Vec<VarInfo>,
    /// expressions known (on this path) to equal a constant
    pub fixed: HashMap<Eid, u128>,
    pub gen: u32,
    memo: HashMap<Eid, (u32, Eid)>,
}

fn bits_for(v: u128) -> u128 {
    // mask of all bits that may be set for values <= v
    if v == 0 {
        0
    } else {
        let n = 128 - v.leading_zeros();
        mask(n)
    }
}

impl Exprs {
    pub fn new() -> Exprs {
        let dummy = Node {
            key: Key { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 },
            lo: 0,
            hi: 0,
            kz: 0,
            vars: [0; NV],
        };
        Exprs {
            nodes: vec![dummy],
            map: HashMap::new(),
            vars: vec![],
            fixed: HashMap::new(),
            gen: 0,
            memo: HashMap::new(),
        }
    }

    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].key.w as u32
    }
    #[inline]
    pub fn key(&self, e: Eid) -> Key {
        self.nodes[e as usize].key
    }
    #[inline]
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let k = &self.nodes[e as usize].key;
        if k.op == Op::Const {
            Some(k.k)
        } else {
            None
        }
    }

    fn raw(&mut self, key: Key) -> Eid {
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let w = key.w as u32;
        let m = mask(w);
        let (mut lo, mut hi, mut kz) = (0u128, m, 0u128);
        let mut vars = [0u64; NV];
        let n = |s: &Self, e: u32| s.nodes[e as usize];
        match key.op {
            Op::Const => {
                lo = key.k;
                hi = key.k;
                kz = !key.k & m;
            }
            Op::Var => {
                vars[key.a as usize / 64] |= 1 << (key.a % 64);
            }
            Op::Ite => {
                let (c, a, b) = (n(self, key.a), n(self, key.b), n(self, key.c));
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
                kz = a.kz & b.kz;
                vars = vs_or(&c.vars, &vs_or(&a.vars, &b.vars));
            }
            Op::Extract => {
                let a = n(self, key.a);
                let sh = key.b;
                vars = a.vars;
                kz = (a.kz >> sh) & m;
                if a.hi >> sh <= m {
                    lo = a.lo >> sh;
                    hi = a.hi >> sh;
                }
            }
            Op::ZExt => {
                let a = n(self, key.a);
                vars = a.vars;
                lo = a.lo;
                hi = a.hi;
                kz = a.kz | (m & !mask(a.key.w as u32));
            }
            Op::SExt => {
                let a = n(self, key.a);
                vars = a.vars;
                let aw = a.key.w as u32;
                if a.kz >> (aw - 1) & 1 == 1 {
                    lo = a.lo;
                    hi = a.hi;
                    kz = a.kz | (m & !mask(aw));
                }
            }
            Op::Concat => {
                let (a, b) = (n(self, key.a), n(self, key.b));
                vars = vs_or(&a.vars, &b.vars);
                let bw = b.key.w as u32;
                kz = (a.kz << bw) | b.kz;
                lo = (a.lo << bw) + b.lo;
                hi = (a.hi << bw) + b.hi;
            }
            _ => {
                let (a, b) = (n(self, key.a), n(self, key.b));
                vars = vs_or(&a.vars, &b.vars);
                match key.op {
                    Op::Add => {
                        if let (Some(l), Some(h)) = (a.lo.checked_add(b.lo), a.hi.checked_add(b.hi)) {
                            if h <= m {
                                lo = l;
                                hi = h;
                            }
                        }
                    }
                    Op::Sub => {
                        if a.lo >= b.hi {
                            lo = a.lo - b.hi;
                            hi = a.hi - b.lo;
                        }
                    }
                    Op::Mul => {
                        if let Some(h) = a.hi.checked_mul(b.hi) {
                            if h <= m {
                                lo = a.lo * b.lo;
                                hi = h;
                            }
                        }
                    }
                    Op::UDiv => {
                        if b.lo > 0 {
                            lo = a.lo / b.hi;
                            hi = a.hi / b.lo;
                        }
                    }
                    Op::URem => {
                        if b.lo > 0 {
                            hi = a.hi.min(b.hi - 1);
                        }
                    }
                    Op::And => {
                        kz = a.kz | b.kz;
                        hi = a.hi.min(b.hi);
                    }
                    Op::Or => {
                        kz = a.kz & b.kz;
                        lo = a.lo.max(b.lo);
                        hi = bits_for(a.hi | b.hi).min(m);
                    }
                    Op::Xor => {
                        kz = a.kz & b.kz;
                        hi = bits_for(a.hi | b.hi).min(m);
                    }
                    Op::Shl => {
                        if b.lo == b.hi && b.lo < w as u128 {
                            let s = b.lo as u32;
                            kz = ((a.kz << s) | mask(s)) & m;
                            if a.hi <= m >> s {
                                lo = a.lo << s;
                                hi = a.hi << s;
                            }
                        }
                    }
                    Op::LShr => {
                        if b.lo == b.hi && b.lo < w as u128 {
                            let s = b.lo as u32;
                            kz = (a.kz >> s) | (m & !(m >> s));
                            lo = a.lo >> s;
                            hi = a.hi >> s;
                        } else {
                            hi = a.hi;
                        }
                    }
                    _ => {}
                }
            }
        }
        // combine known-zero and range
        kz |= m & !bits_for(hi);
        kz &= m;
        hi = hi.min(m & !kz);
        if lo > hi {
            lo = hi;
        }
        let id = self.nodes.len() as Eid;
        self.nodes.push(Node { key, lo, hi, kz, vars });
        self.map.insert(key, id);
        id
    }

    pub fn konst(&mut self, w: u32, v: u128) -> Eid {
        self.raw(Key { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }

    pub fn new_var(&mut self, w: u32, name: String) -> Eid {
        let id = self.vars.len() as u32;
        if id as usize >= 64 * NV {
            panic!("too many symbolic variables");
        }
        let e = self.raw(Key { op: Op::Var, w: w as u16, a: id, b: 0, c: 0, k: 0 });
        let mut dom = [0u64; 4];
        if w <= 8 {
            for i in 0..(1usize << w) {
                dom[i / 64] |= 1 << (i % 64);
            }
        }
        self.vars.push(VarInfo { w, name, dom, unary_only: true, eid: e });
        e
    }

    #[inline]
    pub fn id(&mut self, w: u32, v: Val) -> Eid {
        if v.e != 0 {
            v.e
        } else {
            self.konst(w, v.v)
        }
    }

    /// Turn an expression id into a Val, folding constants and facts known on this path.
    #[inline]
    pub fn val(&self, e: Eid) -> Val {
        let n = &self.nodes[e as usize];
        if n.key.op == Op::Const {
            return Val::c(n.key.k);
        }
        if n.lo == n.hi {
            return Val::c(n.lo);
        }
        if !self.fixed.is_empty() {
            if let Some(&k) = self.fixed.get(&e) {
                return Val::c(k);
            }
        }
        Val::sym(e)
    }

    pub fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            return Val::c(fold(op, w, a.v, b.v));
        }
        let (a, b) = (self.id(w, a), self.id(w, b));
        let e = self.mk_bin(op, a, b);
        self.val(e)
    }

    pub fn mk_not(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        let ones = self.konst(w, mask(w));
        self.mk_bin(Op::Xor, a, ones)
    }

    fn is_cmp(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }

    fn all_const_ite(&self, e: Eid, depth: u32) -> bool {
        let k = self.key(e);
        match k.op {
            Op::Const => true,
            Op::Ite => {
                depth > 0 && self.all_const_ite(k.b, depth - 1) && self.all_const_ite(k.c, depth - 1)
            }
            _ => false,
        }
    }
    fn has_const_arm(&self, e: Eid) -> bool {
        let k = self.key(e);
        k.op == Op::Ite && (self.cval(k.b).is_some() || self.cval(k.c).is_some())
    }

    pub fn mk_bin(&mut self, op: Op, mut a: Eid, mut b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (mut ca, mut cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        // canonical: constants on the right of commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca.is_some() || (cb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.key.op == Op::Add {
                        if let Some(x) = self.cval(na.key.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.mk_bin(Op::Add, na.key.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, (m - y).wrapping_add(1));
                    return self.mk_bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.mk_bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.mk_bin(Op::LShr, a, k);
                    }
                    if na.hi < y && y != 0 {
                        return self.konst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.mk_bin(Op::And, a, k);
                    }
                    if na.hi < y {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if (m & !na.kz) & !y == 0 {
                        return a;
                    }
                    if (m & !na.kz) & y == 0 {
                        return self.konst(w, 0);
                    }
                    if na.key.op == Op::And {
                        if let Some(x) = self.cval(na.key.b) {
                            let k = self.konst(w, x & y);
                            return self.mk_bin(Op::And, na.key.a, k);
                        }
                    }
                    // low mask -> zext(extract)
                    if (y + 1).is_power_of_two() && w > 1 {
                        let n = (y + 1).trailing_zeros();
                        if n < w {
                            let x = self.mk_extract(a, 0, n);
                            return self.mk_zext(x, w);
                        }
                    }
                }
                if w == 1 && self.complementary(a, b) {
                    return self.konst(1, 0);
                }
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && self.complementary(a, b) {
                    return self.konst(1, 1);
                }
                // disjoint shifted pieces: (zext x) | (y << k)  ->  concat
                if w > 1 && cb.is_none() {
                    if let Some(r) = self.or_concat(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    if na.key.op == Op::Xor {
                        if let Some(x) = self.cval(na.key.b) {
                            let k = self.konst(w, x ^ y);
                            return self.mk_bin(Op::Xor, na.key.a, k);
                        }
                    }
                    if w == 1 && y == 1 {
                        // negated comparisons
                        match na.key.op {
                            Op::Ult => return self.mk_bin(Op::Ule, na.key.b, na.key.a),
                            Op::Ule => return self.mk_bin(Op::Ult, na.key.b, na.key.a),
                            Op::Slt => return self.mk_bin(Op::Sle, na.key.b, na.key.a),
                            Op::Sle => return self.mk_bin(Op::Slt, na.key.b, na.key.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op != Op::AShr {
                            return self.konst(w, 0);
                        }
                    } else {
                        let s = y as u32;
                        match op {
                            Op::LShr => {
                                let x = self.mk_extract(a, s, w - s);
                                return self.mk_zext(x, w);
                            }
                            Op::Shl => {
                                let x = self.mk_extract(a, 0, w - s);
                                let z = self.konst(s, 0);
                                return self.mk_concat(x, z);
                            }
                            _ => {
                                let x = self.mk_extract(a, s, w - s);
                                return self.mk_sext(x, w);
                            }
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if na.hi < nb.lo || nb.hi < na.lo {
                    return self.konst(1, 0);
                }
                if let Some(y) = cb {
                    if na.kz & y != 0 {
                        return self.konst(1, 0);
                    }
                    if w == 1 {
                        return if y == 1 { a } else { self.mk_not(a) };
                    }
                    match na.key.op {
                        Op::ZExt => {
                            let aw = self.w(na.key.a);
                            if y > mask(aw) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(aw, y);
                            return self.mk_bin(Op::Eq, na.key.a, k);
                        }
                        Op::SExt => {
                            let aw = self.w(na.key.a);
                            let t = y & mask(aw);
                            if (sext(t, aw) as u128) & m != y {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(aw, t);
                            return self.mk_bin(Op::Eq, na.key.a, k);
                        }
                        Op::Concat => {
                            let bw = self.w(na.key.b);
                            let aw = self.w(na.key.a);
                            let k1 = self.konst(aw, y >> bw);
                            let k2 = self.konst(bw, y & mask(bw));
                            let e1 = self.mk_bin(Op::Eq, na.key.a, k1);
                            let e2 = self.mk_bin(Op::Eq, na.key.b, k2);
                            return self.mk_bin(Op::And, e1, e2);
                        }
                        Op::Add => {
                            if let Some(x) = self.cval(na.key.b) {
                                let k = self.konst(w, y.wrapping_sub(x));
                                return self.mk_bin(Op::Eq, na.key.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.cval(na.key.b) {
                                let k = self.konst(w, y ^ x);
                                return self.mk_bin(Op::Eq, na.key.a, k);
                            }
                        }
                        Op::Sub if y == 0 => {
                            return self.mk_bin(Op::Eq, na.key.a, na.key.b);
                        }
                        _ => {}
                    }
                }
                if na.key.op == Op::ZExt && nb.key.op == Op::ZExt && self.w(na.key.a) == self.w(nb.key.a) {
                    return self.mk_bin(Op::Eq, na.key.a, nb.key.a);
                }
            }
            Op::Ult => {
                if na.hi < nb.lo {
                    return self.konst(1, 1);
                }
                if na.lo >= nb.hi || a == b {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.mk_bin(Op::Eq, a, z);
                }
                if na.key.op == Op::ZExt {
                    let aw = self.w(na.key.a);
                    if let Some(y) = cb {
                        if y <= mask(aw) {
                            let k = self.konst(aw, y);
                            return self.mk_bin(Op::Ult, na.key.a, k);
                        }
                    }
                    if nb.key.op == Op::ZExt && self.w(nb.key.a) == aw {
                        return self.mk_bin(Op::Ult, na.key.a, nb.key.a);
                    }
                }
                if nb.key.op == Op::ZExt {
                    let bw = self.w(nb.key.a);
                    if let Some(x) = ca {
                        if x <= mask(bw) {
                            let k = self.konst(bw, x);
                            return self.mk_bin(Op::Ult, k, nb.key.a);
                        }
                    }
                }
            }
            Op::Ule => {
                if na.hi <= nb.lo || a == b {
                    return self.konst(1, 1);
                }
                if na.lo > nb.hi {
                    return self.konst(1, 0);
                }
                if cb == Some(0) {
                    return self.mk_bin(Op::Eq, a, b);
                }
                if na.key.op == Op::ZExt {
                    let aw = self.w(na.key.a);
                    if let Some(y) = cb {
                        if y <= mask(aw) {
                            let k = self.konst(aw, y);
                            return self.mk_bin(Op::Ule, na.key.a, k);
                        }
                    }
                    if nb.key.op == Op::ZExt && self.w(nb.key.a) == aw {
                        return self.mk_bin(Op::Ule, na.key.a, nb.key.a);
                    }
                }
                if nb.key.op == Op::ZExt {
                    let bw = self.w(nb.key.a);
                    if let Some(x) = ca {
                        if x <= mask(bw) {
                            let k = self.konst(bw, x);
                            return self.mk_bin(Op::Ule, k, nb.key.a);
                        }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                // both non-negative -> unsigned
                let s = w - 1;
                if na.kz >> s & 1 == 1 && nb.kz >> s & 1 == 1 {
                    return self.mk_bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        // push operations with a constant operand through ite trees with constant arms
        if cb.is_some() && na.key.op == Op::Ite && (self.all_const_ite(a, 6) || (Self::is_cmp(op) && self.has_const_arm(a))) {
            let x = self.mk_bin(op, na.key.b, b);
            let y = self.mk_bin(op, na.key.c, b);
            return self.mk_ite(na.key.a, x, y);
        }
        if ca.is_some() && nb.key.op == Op::Ite && (self.all_const_ite(b, 6) || (Self::is_cmp(op) && self.has_const_arm(b))) {
            let x = self.mk_bin(op, a, nb.key.b);
            let y = self.mk_bin(op, a, nb.key.c);
            return self.mk_ite(nb.key.a, x, y);
        }
        self.raw(Key { op, w: rw as u16, a, b, c: 0, k: 0 })
    }

    fn complementary(&mut self, a: Eid, b: Eid) -> bool {
        let ka = self.key(a);
        let kb = self.key(b);
        (ka.op == Op::Xor && ka.a == b && self.cval(ka.b) == Some(1))
            || (kb.op == Op::Xor && kb.a == a && self.cval(kb.b) == Some(1))
            || (ka.op == Op::Ult && kb.op == Op::Ule && ka.a == kb.b && ka.b == kb.a)
            || (ka.op == Op::Ule && kb.op == Op::Ult && ka.a == kb.b && ka.b == kb.a)
            || (ka.op == Op::Slt && kb.op == Op::Sle && ka.a == kb.b && ka.b == kb.a)
            || (ka.op == Op::Sle && kb.op == Op::Slt && ka.a == kb.b && ka.b == kb.a)
    }

    /// hi | lo where hi = concat(x, 0_n) and lo fits in n bits
    fn or_concat(&mut self, hi: Eid, lo: Eid) -> Option<Eid> {
        let kh = self.key(hi);
        let w = self.w(hi);
        if kh.op == Op::ZExt {
            // zext(concat(x,0)) | lo
            let ik = self.key(kh.a);
            if ik.op == Op::Concat {
                if self.cval(ik.b) == Some(0) {
                    let n = self.w(ik.b);
                    if self.nodes[lo as usize].hi <= mask(n) {
                        let l = self.mk_extract(lo, 0, n);
                        let c = self.mk_concat(ik.a, l);
                        return Some(self.mk_zext(c, w));
                    }
                }
            }
            return None;
        }
        if kh.op != Op::Concat {
            return None;
        }
        if self.cval(kh.b) == Some(0) {
            let n = self.w(kh.b);
            if self.nodes[lo as usize].hi <= mask(n) {
                let l = self.mk_extract(lo, 0, n);
                return Some(self.mk_concat(kh.a, l));
            }
        }
        None
    }

    pub fn mk_ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let kc = self.key(c);
        if kc.op == Op::Xor && self.cval(kc.b) == Some(1) {
            return self.mk_ite(kc.a, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.mk_not(c),
                (Some(1), None) => return self.mk_bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.mk_not(c);
                    return self.mk_bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.mk_bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.mk_not(c);
                    return self.mk_bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.op == Op::Ite && ka.a == c {
            return self.mk_ite(c, ka.b, b);
        }
        if kb.op == Op::Ite && kb.a == c {
            return self.mk_ite(c, a, kb.c);
        }
        if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) {
            let x = self.mk_ite(c, ka.a, kb.a);
            return self.mk_zext(x, w);
        }
        self.raw(Key { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn mk_zext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let k = self.key(a);
        match k.op {
            Op::Const => return self.konst(w, k.k),
            Op::ZExt => return self.mk_zext(k.a, w),
            Op::Ite if self.all_const_ite(a, 6) => {
                let x = self.mk_zext(k.b, w);
                let y = self.mk_zext(k.c, w);
                return self.raw_ite(k.a, x, y);
            }
            _ => {}
        }
        self.raw(Key { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    fn raw_ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b {
            return a;
        }
        let w = self.w(a) as u16;
        self.raw(Key { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn mk_sext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.key.op {
            Op::Const => {
                let v = sext(n.key.k, aw) as u128;
                return self.konst(w, v);
            }
            Op::Ite if self.all_const_ite(a, 6) => {
                let x = self.mk_sext(n.key.b, w);
                let y = self.mk_sext(n.key.c, w);
                return self.mk_ite(n.key.a, x, y);
            }
            _ => {}
        }
        if n.kz >> (aw - 1) & 1 == 1 {
            return self.mk_zext(a, w);
        }
        if aw == 1 {
            let x = self.konst(w, mask(w));
            let y = self.konst(w, 0);
            return self.mk_ite(a, x, y);
        }
        self.raw(Key { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }

    /// bits [lo, lo+n) of a
    pub fn mk_extract(&mut self, a: Eid, lo: u32, n: u32) -> Eid {
        let aw = self.w(a);
        debug_assert!(lo + n <= aw);
        if lo == 0 && n == aw {
            return a;
        }
        let k = self.key(a);
        match k.op {
            Op::Const => return self.konst(n, k.k >> lo),
            Op::Extract => return self.mk_extract(k.a, k.b + lo, n),
            Op::ZExt => {
                let iw = self.w(k.a);
                if lo >= iw {
                    return self.konst(n, 0);
                }
                if lo + n <= iw {
                    return self.mk_extract(k.a, lo, n);
                }
                let x = self.mk_extract(k.a, lo, iw - lo);
                return self.mk_zext(x, n);
            }
            Op::SExt => {
                let iw = self.w(k.a);
                if lo + n <= iw {
                    return self.mk_extract(k.a, lo, n);
                }
            }
            Op::Concat => {
                let bw = self.w(k.b);
                if lo + n <= bw {
                    return self.mk_extract(k.b, lo, n);
                }
                if lo >= bw {
                    return self.mk_extract(k.a, lo - bw, n);
                }
                let h = self.mk_extract(k.a, 0, lo + n - bw);
                let l = self.mk_extract(k.b, lo, bw - lo);
                return self.mk_concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                // bitwise operators distribute; keeps byte-wise structure visible
                if self.cval(k.b).is_some() {
                    let x = self.mk_extract(k.a, lo, n);
                    let y = self.mk_extract(k.b, lo, n);
                    return self.mk_bin(k.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.mk_extract(k.a, 0, n);
                let y = self.mk_extract(k.b, 0, n);
                return self.mk_bin(k.op, x, y);
            }
            Op::Ite => {
                if self.all_const_ite(a, 6) || self.has_const_arm(a) {
                    let x = self.mk_extract(k.b, lo, n);
                    let y = self.mk_extract(k.c, lo, n);
                    return self.mk_ite(k.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(Key { op: Op::Extract, w: n as u16, a, b: lo, c: 0, k: 0 })
    }

    pub fn mk_concat(&mut self, a: Eid, b: Eid) -> Eid {
        let (wa, wb) = (self.w(a), self.w(b));
        let (ka, kb) = (self.key(a), self.key(b));
        if let (Op::Const, Op::Const) = (ka.op, kb.op) {
            return self.konst(wa + wb, (ka.k << wb) | kb.k);
        }
        if ka.op == Op::Const && ka.k == 0 {
            return self.mk_zext(b, wa + wb);
        }
        if ka.op == Op::Extract && kb.op == Op::Extract && ka.a == kb.a && ka.b == kb.b + wb {
            return self.mk_extract(ka.a, kb.b, wa + wb);
        }
        // extract(x, n..) ++ x[0..n] where the low part simplified to something else
        if ka.op == Op::Extract && ka.b == wb {
            let low = self.mk_extract(ka.a, 0, wb);
            if low == b {
                return self.mk_extract(ka.a, 0, wa + wb);
            }
        }
        // right-associate so that adjacent extracts meet:  a ++ (b1 ++ b2)
        if kb.op == Op::Concat {
            let b1 = kb.a;
            let kb1 = self.key(b1);
            if ka.op == Op::Extract && kb1.op == Op::Extract && ka.a == kb1.a && ka.b == kb1.b + self.w(b1) {
                let x = self.mk_concat(a, b1);
                return self.mk_concat(x, kb.b);
            }
        }
        // concat of matching-condition ites with constant arms (bytes of a select)
        if ka.op == Op::Ite && kb.op == Op::Ite && ka.a == kb.a {
            let x = self.mk_concat(ka.b, kb.b);
            let y = self.mk_concat(ka.c, kb.c);
            return self.mk_ite(ka.a, x, y);
        }
        if ka.op == Op::ZExt {
            let i = self.mk_concat(ka.a, b);
            return self.mk_zext(i, wa + wb);
        }
        self.raw(Key { op: Op::Concat, w: (wa + wb) as u16, a, b, c: 0, k: 0 })
    }

    /// Rebuild `e` using the facts in `fixed`.
    pub fn simplify(&mut self, e: Eid) -> Eid {
        if let Some(&k) = self.fixed.get(&e) {
            let w = self.w(e);
            return self.konst(w, k);
        }
        let n = self.nodes[e as usize];
        if matches!(n.key.op, Op::Const | Op::Var) {
            return e;
        }
        if n.lo == n.hi {
            return self.konst(n.key.w as u32, n.lo);
        }
        if let Some(&(g, r)) = self.memo.get(&e) {
            if g == self.gen {
                return r;
            }
        }
        let k = n.key;
        let r = match k.op {
            Op::Ite => {
                let c = self.simplify(k.a);
                if let Some(v) = self.cval(c) {
                    if v == 1 {
                        self.simplify(k.b)
                    } else {
                        self.simplify(k.c)
                    }
                } else {
                    let a = self.simplify(k.b);
                    let b = self.simplify(k.c);
                    self.mk_ite(c, a, b)
                }
            }
            Op::Extract => {
                let a = self.simplify(k.a);
                self.mk_extract(a, k.b, k.w as u32)
            }
            Op::ZExt => {
                let a = self.simplify(k.a);
                self.mk_zext(a, k.w as u32)
            }
            Op::SExt => {
                let a = self.simplify(k.a);
                self.mk_sext(a, k.w as u32)
            }
            Op::Concat => {
                let a = self.simplify(k.a);
                let b = self.simplify(k.b);
                self.mk_concat(a, b)
            }
            _ => {
                let a = self.simplify(k.a);
                let b = self.simplify(k.b);
                self.mk_bin(k.op, a, b)
            }
        };
        let r = match self.fixed.get(&r) {
            Some(&v) => {
                let w = self.w(r);
                self.konst(w, v)
            }
            None => r,
        };
        self.memo.insert(e, (self.gen, r));
        r
    }

    /// Concrete evaluation under an assignment of the variables.
    pub fn eval(&self, e: Eid, asg: &[u128], memo: &mut HashMap<Eid, u128>) -> u128 {
        let k = self.nodes[e as usize].key;
        match k.op {
            Op::Const => return k.k,
            Op::Var => return asg.get(k.a as usize).copied().unwrap_or(0) & mask(k.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = k.w as u32;
        let r = match k.op {
            Op::Ite => {
                if self.eval(k.a, asg, memo) == 1 {
                    self.eval(k.b, asg, memo)
                } else {
                    self.eval(k.c, asg, memo)
                }
            }
            Op::Extract => (self.eval(k.a, asg, memo) >> k.b) & mask(w),
            Op::ZExt => self.eval(k.a, asg, memo),
            Op::SExt => (sext(self.eval(k.a, asg, memo), self.w(k.a)) as u128) & mask(w),
            Op::Concat => {
                let wb = self.w(k.b);
                (self.eval(k.a, asg, memo) << wb) | self.eval(k.b, asg, memo)
            }
            _ => {
                let a = self.eval(k.a, asg, memo);
                let b = self.eval(k.b, asg, memo);
                fold(k.op, self.w(k.a), a, b)
            }
        };
        memo.insert(e, r);
        r
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1);
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}
