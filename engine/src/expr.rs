//! Hash-consed bit-vector expressions with a canonicalising simplifier.
//! Widths are 1..=128 bits; booleans are 1-bit vectors.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Undef,
    /// msb-first parts
    Concat(Box<[E]>),
    Extract(E, u32),
    Not(E), // only used for width-1 and as canonical xor-with-ones is not wanted there
    And(E, E),
    Or(E, E),
    /// n-ary, sorted, no duplicates, at most one constant (kept last as separate u128)
    Xor(Box<[E]>, u128),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    /// (kind, output word, args): kind 0 = SHA-1 compress, 1 = MD5 transform
    Uf(u8, u8, Rc<[E]>),
}

pub struct Info {
    pub n: N,
    pub w: u32,
    pub undef: bool,
    pub umax: u128,
}

pub struct Arena {
    pub v: Vec<Info>,
    map: HashMap<(N, u32), E>,
    vars_memo: HashMap<E, Rc<[u64]>>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    uf_memo: HashMap<(u8, Vec<u32>), [u32; 5]>,
    pub uf_nodes: u64,
    var_ids: HashMap<u32, E>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub type Model = HashMap<u32, u128>;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            v: Vec::new(),
            map: HashMap::new(),
            vars_memo: HashMap::new(),
            stamp: vec![],
            memo: vec![],
            cur: 0,
            uf_memo: HashMap::new(),
            uf_nodes: 0,
            var_ids: HashMap::new(),
        };
        // id 0 is reserved (means "concrete byte" in memory), id 1 the undefined byte
        a.intern(N::Const(0), 1);
        let u = a.intern(N::Undef, 8);
        assert!(u == 1);
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.v[e as usize].w
    }
    fn n(&self, e: E) -> &N {
        &self.v[e as usize].n
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::Const(c) => Some(*c),
            _ => None,
        }
    }
    pub fn undef(&self, e: E) -> bool {
        self.v[e as usize].undef
    }
    fn intern(&mut self, n: N, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&e) = self.map.get(&(n.clone(), w)) {
            return e;
        }
        let id = self.v.len() as E;
        let un = |e: &E| self.v[*e as usize].undef;
        let um = |e: &E| self.v[*e as usize].umax;
        let undef = match &n {
            N::Undef => true,
            N::Const(_) | N::Var(_) => false,
            N::Concat(p) => p.iter().any(un),
            N::Xor(p, _) => p.iter().any(un),
            N::Extract(a, _) | N::Not(a) => un(a),
            N::Ite(a, b, c) => un(a) || un(b) || un(c),
            N::Uf(_, _, p) => p.iter().any(un),
            N::And(a, b) | N::Or(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => un(a) || un(b),
        };
        let umax = match &n {
            N::Const(c) => *c,
            N::Concat(p) => {
                let mut r: u128 = 0;
                for e in p.iter() {
                    r = (if self.w(*e) >= 128 { 0 } else { r << self.w(*e) }) | um(e);
                }
                r
            }
            N::And(a, b) => um(a).min(um(b)),
            N::Or(a, b) => {
                let m = um(a) | um(b);
                if m == 0 {
                    0
                } else {
                    mask(128 - m.leading_zeros())
                }
            }
            N::Add(a, b) => match um(a).checked_add(um(b)) {
                Some(s) if s <= mask(w) => s,
                _ => mask(w),
            },
            N::Mul(a, b) => match um(a).checked_mul(um(b)) {
                Some(s) if s <= mask(w) => s,
                _ => mask(w),
            },
            N::URem(_, b) => {
                if let Some(c) = self.cst(*b) {
                    c.saturating_sub(1)
                } else {
                    mask(w)
                }
            }
            N::UDiv(a, b) => match self.cst(*b) {
                Some(c) if c > 0 => um(a) / c,
                _ => mask(w),
            },
            N::LShr(a, _) => um(a),
            N::Ite(_, b, c) => um(b).max(um(c)),
            _ => mask(w),
        };
        self.v.push(Info { n: n.clone(), w, undef, umax });
        self.map.insert((n, w), id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.intern(N::Const(v & mask(w)), w)
    }
    /// Variable ids are unique per (input index, width) pair.
    pub fn var(&mut self, id: u32, w: u32) -> E {
        let e = self.intern(N::Var(id), w);
        self.var_ids.insert(id, e);
        e
    }
    pub fn var_expr(&self, id: u32) -> E {
        self.var_ids[&id]
    }
    pub fn undef_of(&mut self, w: u32) -> E {
        if w == 8 {
            1
        } else {
            self.intern(N::Undef, w)
        }
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.c(0, 1)
    }

    // ------------------------------------------------------------ structure
    pub fn concat(&mut self, parts: &[E]) -> E {
        // parts msb-first
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        let mut stack: Vec<E> = parts.iter().rev().copied().collect();
        while let Some(e) = stack.pop() {
            if let N::Concat(p) = self.n(e) {
                for x in p.iter().rev() {
                    stack.push(*x);
                }
                continue;
            }
            if let Some(&last) = out.last() {
                // merge constants / adjacent extracts
                if let (Some(a), Some(b)) = (self.cst(last), self.cst(e)) {
                    let wb = self.w(e);
                    let w = self.w(last) + wb;
                    let m = self.c(a << wb | b, w);
                    *out.last_mut().unwrap() = m;
                    continue;
                }
                if let (N::Extract(x, lx), N::Extract(y, ly)) = (self.n(last), self.n(e)) {
                    let (x, lx, y, ly) = (*x, *lx, *y, *ly);
                    if x == y && lx == ly + self.w(e) {
                        let w = self.w(last) + self.w(e);
                        let m = self.extract(x, ly, w);
                        out.pop();
                        stack.push(m);
                        continue;
                    }
                }
                // Extract of var low part + whole? (var is never an Extract): handled by extract()
                // merge xors over adjacent extracts with same shape is not attempted
            }
            out.push(e);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|e| self.w(*e)).sum();
        assert!(w <= 128, "concat too wide");
        self.intern(N::Concat(out.into_boxed_slice()), w)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let z = self.c(0, w - we);
        self.concat(&[z, e])
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let s = self.extract(e, we - 1, 1);
        let mut p = vec![s; (w - we) as usize];
        p.push(e);
        self.concat(&p)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        if self.v[e as usize].umax >> lo == 0 {
            return self.c(0, w);
        }
        match self.n(e).clone() {
            N::Const(c) => self.c(c >> lo, w),
            N::Undef => self.undef_of(w),
            N::Extract(x, l) => self.extract(x, l + lo, w),
            N::Concat(p) => {
                let mut out = vec![];
                let mut pos = we;
                for x in p.iter() {
                    let wx = self.w(*x);
                    let l = pos - wx; // bits [l, pos)
                    let a = l.max(lo);
                    let b = pos.min(lo + w);
                    if a < b {
                        out.push(self.extract(*x, a - l, b - a));
                    }
                    pos = l;
                }
                self.concat(&out)
            }
            N::And(a, b) => {
                let (a, b) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.and(a, b)
            }
            N::Or(a, b) => {
                let (a, b) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.or(a, b)
            }
            N::Xor(p, c) => {
                let mut acc = self.c(c >> lo, w);
                for x in p.iter() {
                    let y = self.extract(*x, lo, w);
                    acc = self.xor(acc, y);
                }
                acc
            }
            N::Ite(c, a, b) => {
                let (a, b) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.ite(c, a, b)
            }
            N::Add(a, b) if lo == 0 => {
                let (a, b) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.add(a, b)
            }
            N::Sub(a, b) if lo == 0 => {
                let (a, b) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.sub(a, b)
            }
            N::Mul(a, b) if lo == 0 => {
                let (a, b) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.mul(a, b)
            }
            _ => self.intern(N::Extract(e, lo), w),
        }
    }
    fn segs(&self, e: E) -> Option<Vec<u32>> {
        // boundaries (bit positions from lsb) of a concat, excluding 0 and w
        match self.n(e) {
            N::Concat(p) => {
                let mut v = vec![];
                let mut pos = 0;
                for x in p.iter().rev() {
                    pos += self.w(*x);
                    v.push(pos);
                }
                v.pop();
                Some(v)
            }
            _ => None,
        }
    }
    fn split_bin(&mut self, a: E, b: E, f: fn(&mut Arena, E, E) -> E) -> Option<E> {
        let sa = self.segs(a);
        let sb = self.segs(b);
        if sa.is_none() && sb.is_none() {
            return None;
        }
        let w = self.w(a);
        let mut cuts: Vec<u32> = sa.unwrap_or_default();
        cuts.extend(sb.unwrap_or_default());
        cuts.sort();
        cuts.dedup();
        cuts.push(w);
        let mut parts = vec![];
        let mut lo = 0;
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            parts.push(f(self, x, y));
            lo = c;
        }
        parts.reverse();
        Some(self.concat(&parts))
    }
    /// split by runs of equal bits of constant c: returns Concat of f(run value, extract)
    fn split_const(&mut self, e: E, c: u128, and: bool) -> E {
        let w = self.w(e);
        let mut parts = vec![];
        let mut lo = 0;
        while lo < w {
            let bit = c >> lo & 1;
            let mut hi = lo + 1;
            while hi < w && c >> hi & 1 == bit {
                hi += 1;
            }
            let keep = (bit == 1) == and;
            let p = if keep {
                self.extract(e, lo, hi - lo)
            } else if and {
                self.c(0, hi - lo)
            } else {
                self.c(u128::MAX, hi - lo)
            };
            parts.push(p);
            lo = hi;
        }
        parts.reverse();
        self.concat(&parts)
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        if w == 1 {
            match self.n(e).clone() {
                N::Const(c) => return self.c(c ^ 1, 1),
                N::Not(x) => return x,
                N::Xor(p, c) => return self.mk_xor(p.to_vec(), c ^ 1, 1),
                _ => return self.intern(N::Not(e), 1),
            }
        }
        let ones = self.c(u128::MAX, w);
        self.xor(e, ones)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cst(b) {
            if let Some(d) = self.cst(a) {
                return self.c(c & d, w);
            }
            if c == 0 {
                return b;
            }
            if c == mask(w) {
                return a;
            }
            return self.split_const(a, c, true);
        }
        if w == 1 {
            if self.is_neg(a, b) {
                return self.c(0, 1);
            }
            // absorption
            if let N::And(x, y) = self.n(a) {
                if *x == b || *y == b {
                    return a;
                }
            }
            if let N::And(x, y) = self.n(b) {
                if *x == a || *y == a {
                    return b;
                }
            }
        } else if let Some(r) = self.split_bin(a, b, Arena::and) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(N::And(a, b), w)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        match (self.n(a), self.n(b)) {
            (N::Not(x), _) if *x == b => true,
            (_, N::Not(x)) if *x == a => true,
            _ => false,
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cst(b) {
            if let Some(d) = self.cst(a) {
                return self.c(c | d, w);
            }
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
            return self.split_const(a, c, false);
        }
        if w == 1 {
            if self.is_neg(a, b) {
                return self.c(1, 1);
            }
            if let N::Or(x, y) = self.n(a) {
                if *x == b || *y == b {
                    return a;
                }
            }
            if let N::Or(x, y) = self.n(b) {
                if *x == a || *y == a {
                    return b;
                }
            }
        } else if let Some(r) = self.split_bin(a, b, Arena::or) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.intern(N::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(x ^ y, w);
        }
        if self.cst(a) == Some(0) {
            return b;
        }
        if self.cst(b) == Some(0) {
            return a;
        }
        if w > 1 {
            if let Some(r) = self.split_bin(a, b, Arena::xor) {
                return r;
            }
        }
        let mut terms = vec![];
        let mut k = 0u128;
        for e in [a, b] {
            match self.n(e) {
                N::Const(c) => k ^= *c,
                N::Xor(p, c) => {
                    k ^= *c;
                    terms.extend_from_slice(p);
                }
                N::Not(x) => {
                    k ^= 1;
                    match self.n(*x) {
                        N::Xor(p, c) => {
                            k ^= *c;
                            terms.extend_from_slice(p);
                        }
                        _ => terms.push(*x),
                    }
                }
                _ => terms.push(e),
            }
        }
        self.mk_xor(terms, k, w)
    }
    fn mk_xor(&mut self, mut terms: Vec<E>, k: u128, w: u32) -> E {
        let k = k & mask(w);
        terms.sort();
        let mut out: Vec<E> = Vec::with_capacity(terms.len());
        for t in terms {
            if out.last() == Some(&t) {
                out.pop();
            } else {
                out.push(t);
            }
        }
        if out.is_empty() {
            return self.c(k, w);
        }
        if out.len() == 1 {
            if k == 0 {
                return out[0];
            }
            if w == 1 {
                return self.not(out[0]);
            }
        }
        // a remaining term may be a concat only through cancellation; re-split
        if w > 1 && out.iter().any(|e| matches!(self.n(*e), N::Concat(_))) {
            let mut acc = self.c(k, w);
            for t in out {
                acc = self.xor(acc, t);
            }
            return acc;
        }
        self.intern(N::Xor(out.into_boxed_slice(), k), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cst(b) {
            if let Some(d) = self.cst(a) {
                return self.c(c.wrapping_add(d), w);
            }
            if c == 0 {
                return a;
            }
            if let N::Add(x, y) = *self.n(a) {
                if let Some(d) = self.cst(y) {
                    let k = self.c(c.wrapping_add(d), w);
                    return self.add(x, k);
                }
            }
            if let N::Sub(x, y) = *self.n(a) {
                if let Some(d) = self.cst(x) {
                    let k = self.c(c.wrapping_add(d), w);
                    return self.sub(k, y);
                }
            }
            if let N::Xor(p, k) = self.n(a).clone() {
                // (~x) + 1 = -x
                if p.len() == 1 && k == mask(w) && c == 1 {
                    let z = self.c(0, w);
                    return self.sub(z, p[0]);
                }
            }
        } else {
            // pull constants out
            if let N::Add(x, y) = *self.n(a) {
                if self.cst(y).is_some() {
                    let s = self.add(x, b);
                    return self.add(s, y);
                }
            }
            if let N::Add(x, y) = *self.n(b) {
                if self.cst(y).is_some() {
                    let s = self.add(a, x);
                    return self.add(s, y);
                }
            }
            if let N::Sub(x, y) = *self.n(a) {
                if y == b {
                    return x;
                }
            }
            if let N::Sub(x, y) = *self.n(b) {
                if y == a {
                    return x;
                }
            }
        }
        // low zero bits on one side allow bitwise or when disjoint
        if self.disjoint(a, b) {
            return self.or(a, b);
        }
        let (x, y) = if self.cst(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(N::Add(x, y), w)
    }
    fn known_zero(&self, e: E) -> u128 {
        let w = self.w(e);
        match self.n(e) {
            N::Const(c) => !*c & mask(w),
            N::Concat(p) => {
                let mut r = 0u128;
                for x in p.iter() {
                    let wx = self.w(*x);
                    r = (if wx >= 128 { 0 } else { r << wx }) | self.known_zero(*x);
                }
                r
            }
            _ => {
                let m = self.v[e as usize].umax;
                let hi = 128 - m.leading_zeros();
                mask(w) & !mask0(hi)
            }
        }
    }
    fn disjoint(&self, a: E, b: E) -> bool {
        let w = self.w(a);
        (self.known_zero(a) | self.known_zero(b)) == mask(w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(c) = self.cst(b) {
            let k = self.c(c.wrapping_neg(), w);
            return self.add(a, k);
        }
        if let N::Add(x, y) = *self.n(a) {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
            if self.cst(y).is_some() {
                let s = self.sub(x, b);
                return self.add(s, y);
            }
        }
        if let N::Add(x, y) = *self.n(b) {
            if x == a {
                let z = self.c(0, w);
                return self.sub(z, y);
            }
            if let Some(c) = self.cst(y) {
                let k = self.c(c.wrapping_neg(), w);
                let s = self.sub(a, x);
                return self.add(s, k);
            }
        }
        if self.cst(a) == Some(0) {
            // 0 - zext(bit) = sext(bit)
            if let N::Concat(p) = self.n(b).clone() {
                if p.len() == 2 && self.cst(p[0]) == Some(0) && self.w(p[1]) == 1 {
                    return self.sext(p[1], w);
                }
            }
            if w == 1 {
                return b;
            }
            if let N::Sub(x, y) = *self.n(b) {
                return self.sub(y, x);
            }
        }
        self.intern(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cst(b) {
            if let Some(d) = self.cst(a) {
                return self.c(c.wrapping_mul(d), w);
            }
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            if c.is_power_of_two() {
                let k = c.trailing_zeros();
                return self.shl_c(a, k);
            }
        }
        let (a, b) = if self.cst(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(N::Mul(a, b), w)
    }
    pub fn shl_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(0, w);
        }
        let x = self.extract(a, 0, w - k);
        let z = self.c(0, k);
        self.concat(&[x, z])
    }
    pub fn lshr_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(0, w);
        }
        let x = self.extract(a, k, w - k);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        if let Some(c) = self.cst(b) {
            return self.shl_c(a, c.min(200) as u32);
        }
        if self.cst(a) == Some(0) {
            return a;
        }
        let w = self.w(a);
        self.intern(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        if let Some(c) = self.cst(b) {
            return self.lshr_c(a, c.min(200) as u32);
        }
        if self.cst(a) == Some(0) {
            return a;
        }
        let w = self.w(a);
        self.intern(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            let k = (c.min(200) as u32).min(w - 1);
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.intern(N::AShr(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if c != 0 {
                if let Some(d) = self.cst(a) {
                    return self.c(d / c, w);
                }
                if c.is_power_of_two() {
                    return self.lshr_c(a, c.trailing_zeros());
                }
            }
        }
        self.intern(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if c != 0 {
                if let Some(d) = self.cst(a) {
                    return self.c(d % c, w);
                }
                if c.is_power_of_two() {
                    let m = self.c(c - 1, w);
                    return self.and(a, m);
                }
                if self.v[a as usize].umax < c {
                    return a;
                }
            }
        }
        self.intern(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if y != 0 {
                let (x, y) = (sx(x, w), sx(y, w));
                return self.c(x.wrapping_div(y) as u128, w);
            }
        }
        self.intern(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if y != 0 {
                let (x, y) = (sx(x, w), sx(y, w));
                return self.c(x.wrapping_rem(y) as u128, w);
            }
        }
        self.intern(N::SRem(a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        let (a, b) = if self.cst(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((x == y) as u128, 1);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(c) = self.cst(b) {
            if c > self.v[a as usize].umax {
                return self.fls();
            }
        }
        // segment-wise
        let sa = self.segs(a);
        let sb = self.segs(b);
        if sa.is_some() || sb.is_some() {
            let mut cuts = sa.unwrap_or_default();
            cuts.extend(sb.unwrap_or_default());
            cuts.sort();
            cuts.dedup();
            cuts.push(w);
            let mut lo = 0;
            let mut acc = self.tru();
            for c in cuts {
                let x = self.extract(a, lo, c - lo);
                let y = self.extract(b, lo, c - lo);
                let e = self.eq(x, y);
                if self.cst(e) == Some(0) {
                    return e;
                }
                acc = self.and(acc, e);
                lo = c;
            }
            return acc;
        }
        let has_xor = matches!(self.n(a), N::Xor(..)) || matches!(self.n(b), N::Xor(..));
        if has_xor {
            let x = self.xor(a, b);
            match self.n(x).clone() {
                N::Const(c) => return self.c((c == 0) as u128, 1),
                N::Xor(p, k) => {
                    if p.len() == 1 {
                        let kk = self.c(k, w);
                        return self.eq(p[0], kk);
                    }
                    if p.len() == 2 && k == 0 {
                        let (a, b) = if p[0] < p[1] { (p[0], p[1]) } else { (p[1], p[0]) };
                        return self.intern(N::Eq(a, b), 1);
                    }
                    let t = self.intern(N::Xor(p, 0), w);
                    let kk = self.c(k, w);
                    return self.intern(N::Eq(t, kk), 1);
                }
                N::Concat(_) => {
                    let z = self.c(0, w);
                    return self.eq(x, z);
                }
                _ => {
                    let z = self.c(0, w);
                    return self.eq(x, z);
                }
            }
        }
        if let Some(c) = self.cst(b) {
            match self.n(a).clone() {
                N::Add(x, y) => {
                    if let Some(d) = self.cst(y) {
                        let k = self.c(c.wrapping_sub(d), w);
                        return self.eq(x, k);
                    }
                }
                N::Sub(x, y) => {
                    if let Some(d) = self.cst(x) {
                        let k = self.c(d.wrapping_sub(c), w);
                        return self.eq(y, k);
                    }
                    if c == 0 {
                        return self.eq(x, y);
                    }
                }
                N::Ite(cc, x, y) => {
                    if self.cst(x).is_some() || self.cst(y).is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(cc, p, q);
                    }
                }
                _ => {}
            }
        }
        let (a, b) = if self.cst(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(y) = cb {
            if y == 0 {
                return self.fls();
            }
            if self.v[a as usize].umax < y {
                return self.tru();
            }
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
        }
        if let Some(x) = ca {
            if x >= self.v[b as usize].umax {
                return self.fls();
            }
            if x == 0 {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
        }
        // strip equal leading parts
        let top = |s: &Arena, e: E| -> (u32, bool) {
            match s.n(e) {
                N::Concat(p) => (s.w(p[0]), true),
                _ => (s.w(e), false),
            }
        };
        let (ta, fa) = top(self, a);
        let (tb, fb) = top(self, b);
        if fa || fb {
            let k = ta.min(tb);
            if k < w {
                let x = self.extract(a, w - k, k);
                let y = self.extract(b, w - k, k);
                let (xl, yl) = (self.extract(a, 0, w - k), self.extract(b, 0, w - k));
                let e = self.eq(x, y);
                if self.cst(e) == Some(1) {
                    return self.ult(xl, yl);
                }
                let l = self.ult(x, y);
                if let Some(v) = self.cst(l) {
                    if v == 1 {
                        return l;
                    }
                }
                if self.cst(e) == Some(0) {
                    return l;
                }
                // when the low side is constant-decidable, split further
                let r = self.ult(xl, yl);
                if self.cst(r).is_some() || ca.is_some() || cb.is_some() {
                    let t = self.and(e, r);
                    return self.or(l, t);
                }
            }
        }
        self.intern(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        let s = |s: &Arena, e: E| s.v[e as usize].umax < (1u128 << (w - 1));
        if s(self, a) && s(self, b) {
            return self.ult(a, b);
        }
        // x <s 0  /  -1 <s x
        if self.cst(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cst(a) == Some(mask(w)) {
            let m = self.extract(b, w - 1, 1);
            return self.not(m);
        }
        self.intern(N::Slt(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        } else {
            // common leading zero part
            let (ua, ub) = (self.v[a as usize].umax, self.v[b as usize].umax);
            let m = ua.max(ub);
            let hi = 128 - m.leading_zeros();
            if hi < w && hi > 0 {
                let (x, y) = (self.extract(a, 0, hi), self.extract(b, 0, hi));
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn uf(&mut self, kind: u8, word: u8, args: Rc<[E]>) -> E {
        self.uf_nodes += 1;
        self.intern(N::Uf(kind, word, args), 32)
    }

    // ------------------------------------------------------------ variables
    /// bit set of variable ids
    pub fn vars(&mut self, e: E) -> Rc<[u64]> {
        if let Some(r) = self.vars_memo.get(&e) {
            return r.clone();
        }
        let mut bits: Vec<u64> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if x != e {
                if let Some(r) = self.vars_memo.get(&x) {
                    or_bits(&mut bits, r);
                    continue;
                }
            }
            match self.n(x) {
                N::Var(i) => {
                    let k = *i as usize;
                    if bits.len() <= k / 64 {
                        bits.resize(k / 64 + 1, 0);
                    }
                    bits[k / 64] |= 1 << (k % 64);
                }
                _ => self.for_kids(x, |k| st.push(k)),
            }
        }
        let r: Rc<[u64]> = bits.into();
        self.vars_memo.insert(e, r.clone());
        r
    }
    pub fn for_kids(&self, e: E, mut f: impl FnMut(E)) {
        match self.n(e) {
            N::Const(_) | N::Var(_) | N::Undef => {}
            N::Concat(p) => p.iter().for_each(|x| f(*x)),
            N::Xor(p, _) => p.iter().for_each(|x| f(*x)),
            N::Uf(_, _, p) => p.iter().for_each(|x| f(*x)),
            N::Extract(a, _) | N::Not(a) => f(*a),
            N::Ite(a, b, c) => {
                f(*a);
                f(*b);
                f(*c)
            }
            N::And(a, b) | N::Or(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => {
                f(*a);
                f(*b)
            }
        }
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval_begin(&mut self) {
        self.cur += 1;
    }
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        self.eval_begin();
        self.eval_in(e, m)
    }
    pub fn eval_in(&mut self, root: E, m: &Model) -> u128 {
        let n = self.v.len();
        if self.stamp.len() < n {
            self.stamp.resize(n + n / 2, 0);
            self.memo.resize(n + n / 2, 0);
        }
        let mut st = vec![(root, false)];
        while let Some((e, ready)) = st.pop() {
            let i = e as usize;
            if self.stamp[i] == self.cur {
                continue;
            }
            if !ready {
                match self.n(e) {
                    N::Const(c) => {
                        self.memo[i] = *c;
                        self.stamp[i] = self.cur;
                        continue;
                    }
                    N::Var(v) => {
                        self.memo[i] = m.get(v).copied().unwrap_or(0) & mask(self.v[i].w);
                        self.stamp[i] = self.cur;
                        continue;
                    }
                    N::Undef => {
                        self.memo[i] = 0;
                        self.stamp[i] = self.cur;
                        continue;
                    }
                    _ => {}
                }
                st.push((e, true));
                let (stamp, cur) = (&self.stamp, self.cur);
                self.for_kids(e, |k| {
                    if stamp[k as usize] != cur {
                        st.push((k, false))
                    }
                });
                continue;
            }
            let g = |x: &E| self.memo[*x as usize];
            let w = self.v[i].w;
            let r = match &self.v[i].n {
                N::Const(_) | N::Var(_) | N::Undef => unreachable!(),
                N::Concat(p) => {
                    let mut r = 0u128;
                    for x in p.iter() {
                        let wx = self.v[*x as usize].w;
                        r = (if wx >= 128 { 0 } else { r << wx }) | g(x);
                    }
                    r
                }
                N::Extract(a, lo) => g(a) >> lo,
                N::Not(a) => g(a) ^ 1,
                N::And(a, b) => g(a) & g(b),
                N::Or(a, b) => g(a) | g(b),
                N::Xor(p, k) => p.iter().fold(*k, |s, x| s ^ g(x)),
                N::Add(a, b) => g(a).wrapping_add(g(b)),
                N::Sub(a, b) => g(a).wrapping_sub(g(b)),
                N::Mul(a, b) => g(a).wrapping_mul(g(b)),
                N::UDiv(a, b) => g(a).checked_div(g(b)).unwrap_or(u128::MAX),
                N::URem(a, b) => g(a).checked_rem(g(b)).unwrap_or(g(a)),
                N::SDiv(a, b) => {
                    let (x, y) = (sx(g(a), w), sx(g(b), w));
                    if y == 0 {
                        if x < 0 {
                            1
                        } else {
                            u128::MAX
                        }
                    } else {
                        x.wrapping_div(y) as u128
                    }
                }
                N::SRem(a, b) => {
                    let (x, y) = (sx(g(a), w), sx(g(b), w));
                    if y == 0 {
                        x as u128
                    } else {
                        x.wrapping_rem(y) as u128
                    }
                }
                N::Shl(a, b) => {
                    if g(b) >= w as u128 {
                        0
                    } else {
                        g(a) << g(b)
                    }
                }
                N::LShr(a, b) => {
                    if g(b) >= w as u128 {
                        0
                    } else {
                        g(a) >> g(b)
                    }
                }
                N::AShr(a, b) => {
                    let k = g(b).min(w as u128 - 1);
                    (sx(g(a), w) >> k) as u128
                }
                N::Eq(a, b) => (g(a) == g(b)) as u128,
                N::Ult(a, b) => (g(a) < g(b)) as u128,
                N::Slt(a, b) => {
                    let wa = self.v[*a as usize].w;
                    (sx(g(a), wa) < sx(g(b), wa)) as u128
                }
                N::Ite(c, a, b) => {
                    if g(c) == 1 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                N::Uf(k, word, p) => {
                    let args: Vec<u32> = p.iter().map(|x| g(x) as u32).collect();
                    let key = (*k, args);
                    let word = *word as usize;
                    let out = match self.uf_memo.get(&key) {
                        Some(o) => *o,
                        None => {
                            let o = crate::hashes::apply(key.0, &key.1);
                            self.uf_memo.insert(key, o);
                            o
                        }
                    };
                    out[word] as u128
                }
            };
            self.memo[i] = r & mask(w);
            self.stamp[i] = self.cur;
        }
        self.memo[root as usize]
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return format!("#{}", e);
        }
        let s = |x: &E| self.show(*x, depth - 1);
        match self.n(e) {
            N::Const(c) => format!("{:#x}", c),
            N::Var(v) => format!("v{}", v),
            N::Undef => "undef".into(),
            N::Concat(p) => format!("({})", p.iter().map(|x| s(x)).collect::<Vec<_>>().join(".")),
            N::Xor(p, k) => format!("({}^{:#x})", p.iter().map(|x| s(x)).collect::<Vec<_>>().join("^"), k),
            N::Extract(a, l) => format!("{}[{}+{}]", s(a), l, self.w(e)),
            N::Not(a) => format!("!{}", s(a)),
            N::Ite(a, b, c) => format!("ite({},{},{})", s(a), s(b), s(c)),
            N::Uf(k, w, _) => format!("uf{}_{}#{}", k, w, e),
            N::And(a, b) => format!("({}&{})", s(a), s(b)),
            N::Or(a, b) => format!("({}|{})", s(a), s(b)),
            N::Add(a, b) => format!("({}+{})", s(a), s(b)),
            N::Sub(a, b) => format!("({}-{})", s(a), s(b)),
            N::Mul(a, b) => format!("({}*{})", s(a), s(b)),
            N::Eq(a, b) => format!("({}=={})", s(a), s(b)),
            N::Ult(a, b) => format!("({}<u{})", s(a), s(b)),
            N::Slt(a, b) => format!("({}<s{})", s(a), s(b)),
            x => format!("{:?}", x),
        }
    }
}

fn mask0(w: u32) -> u128 {
    if w == 0 {
        0
    } else {
        mask(w)
    }
}

pub fn sx(x: u128, w: u32) -> i128 {
    if w >= 128 {
        return x as i128;
    }
    let s = 128 - w;
    ((x << s) as i128) >> s
}

pub fn or_bits(a: &mut Vec<u64>, b: &[u64]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (i, x) in b.iter().enumerate() {
        a[i] |= x;
    }
}
pub fn bits_meet(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b.iter()).any(|(x, y)| x & y != 0)
}
