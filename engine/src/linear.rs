//! Linear equations over GF(2) (CRC-32) are brought into reduced row echelon form before they
//! are given to the SMT solver, which is bad at them.  The rewritten constraints are
//! equivalent to the given ones.

use crate::expr::*;
use std::collections::HashMap;

type Row = Vec<u64>; // bit i = atom i; the last word holds the constant

struct Lin<'a> {
    a: &'a mut Arena,
    ix: HashMap<E, u32>,
    atoms: Vec<E>,
    memo: HashMap<(E, u32), (Vec<E>, bool)>,
}

fn xor_sets(x: &[E], y: &[E]) -> Vec<E> {
    let (mut i, mut j) = (0, 0);
    let mut out = Vec::with_capacity(x.len() + y.len());
    while i < x.len() && j < y.len() {
        if x[i] == y[j] {
            i += 1;
            j += 1;
        } else if x[i] < y[j] {
            out.push(x[i]);
            i += 1;
        } else {
            out.push(y[j]);
            j += 1;
        }
    }
    out.extend_from_slice(&x[i..]);
    out.extend_from_slice(&y[j..]);
    out
}

impl<'a> Lin<'a> {
    fn lin(&mut self, e: E, bit: u32) -> (Vec<E>, bool) {
        if let Some(r) = self.memo.get(&(e, bit)) {
            return r.clone();
        }
        let w = self.a.w(e);
        let n = self.a.v[e as usize].n.clone();
        let r = match n {
            N::Const(c) => (vec![], (c >> bit) & 1 == 1),
            N::Xor(p, k) => {
                let mut acc = vec![];
                let mut c = (k >> bit) & 1 == 1;
                for x in p.iter() {
                    let (s, d) = self.lin(*x, bit);
                    acc = xor_sets(&acc, &s);
                    c ^= d;
                }
                (acc, c)
            }
            N::Concat(p) => {
                let mut lo = 0;
                let mut r = None;
                for x in p.iter().rev() {
                    let xw = self.a.w(*x);
                    if bit < lo + xw {
                        r = Some(self.lin(*x, bit - lo));
                        break;
                    }
                    lo += xw;
                }
                r.unwrap()
            }
            N::Extract(x, lo) if !matches!(self.a.v[x as usize].n, N::Var(_)) => self.lin(x, lo + bit),
            N::Not(x) => {
                let (s, c) = self.lin(x, bit);
                (s, !c)
            }
            N::And(x, y) if self.a.cst(x).is_some() || self.a.cst(y).is_some() => {
                let (k, z) = match self.a.cst(x) {
                    Some(k) => (k, y),
                    None => (self.a.cst(y).unwrap(), x),
                };
                if (k >> bit) & 1 == 1 {
                    self.lin(z, bit)
                } else {
                    (vec![], false)
                }
            }
            N::Ite(c, x, y) if self.a.cst(x).is_some() && self.a.cst(y).is_some() => {
                let (p, q) = (self.a.cst(x).unwrap() >> bit & 1, self.a.cst(y).unwrap() >> bit & 1);
                if p == q {
                    (vec![], p == 1)
                } else {
                    let (s, d) = self.lin(c, 0);
                    (s, d ^ (p == 0))
                }
            }
            N::Eq(x, y) if self.a.w(x) == 1 => {
                let (s, c) = self.lin(x, 0);
                let (t, d) = self.lin(y, 0);
                (xor_sets(&s, &t), !(c ^ d))
            }
            _ => {
                let at = if w == 1 { e } else { self.a.extract(e, bit, 1) };
                if at != e && !matches!(self.a.v[at as usize].n, N::Extract(..)) {
                    // simplified to something else
                    self.lin(at, 0)
                } else {
                    (vec![at], false)
                }
            }
        };
        self.memo.insert((e, bit), r.clone());
        r
    }
    fn atom(&mut self, e: E) -> u32 {
        let n = self.atoms.len() as u32;
        let k = *self.ix.entry(e).or_insert(n);
        if k == n {
            self.atoms.push(e);
        }
        k
    }
    /// bits that are all zero if and only if the constraint holds; None: not a linear constraint
    fn zero_bits(&mut self, e: E) -> Option<Vec<(Vec<E>, bool)>> {
        match self.a.v[e as usize].n.clone() {
            N::Xor(..) => {
                let (s, c) = self.lin(e, 0);
                Some(vec![(s, !c)])
            }
            N::Eq(x, y) => {
                let w = self.a.w(x);
                if w > 64 {
                    return None;
                }
                let mut out = vec![];
                for b in 0..w {
                    let (s, c) = self.lin(x, b);
                    let (t, d) = self.lin(y, b);
                    out.push((xor_sets(&s, &t), c ^ d));
                }
                Some(out)
            }
            N::And(x, y) if self.a.w(e) == 1 => {
                let mut p = self.zero_bits(x)?;
                p.extend(self.zero_bits(y)?);
                Some(p)
            }
            N::Not(x) => match self.a.v[x as usize].n.clone() {
                N::Xor(..) => {
                    let (s, c) = self.lin(x, 0);
                    Some(vec![(s, c)])
                }
                N::Or(p, q) => {
                    let (p, q) = (self.a.not(p), self.a.not(q));
                    let mut r = self.zero_bits(p)?;
                    r.extend(self.zero_bits(q)?);
                    Some(r)
                }
                N::Extract(..) | N::Var(_) => {
                    let (s, c) = self.lin(x, 0);
                    Some(vec![(s, c)])
                }
                _ => None,
            },
            N::Extract(..) | N::Var(_) if self.a.w(e) == 1 => {
                let (s, c) = self.lin(e, 0);
                Some(vec![(s, !c)])
            }
            _ => None,
        }
    }
    fn row(&mut self, s: &(Vec<E>, bool), words: usize) -> Row {
        let mut r = vec![0u64; words + 1];
        for e in &s.0 {
            let k = self.ix[e];
            r[k as usize / 64] |= 1 << (k % 64);
        }
        r[words] = s.1 as u64;
        r
    }
    fn expr(&mut self, r: &Row, words: usize) -> E {
        let mut e = self.a.c((r[words] & 1) as u128, 1);
        for i in 0..words {
            let mut b = r[i];
            while b != 0 {
                let k = b.trailing_zeros();
                b &= b - 1;
                let at = self.atoms[i * 64 + k as usize];
                e = self.a.xor(e, at);
            }
        }
        e
    }
}

/// Equivalent constraints, or None if there is nothing to gain.  An unsatisfiable system comes
/// back as a constraint `false`.
pub fn reduce(a: &mut Arena, cs: &[E]) -> Option<Vec<E>> {
    // cheap test: are there enough long xor constraints at all?
    if !cs.iter().any(|e| has_xor(a, *e)) {
        return None;
    }
    let mut l = Lin { a, ix: HashMap::new(), atoms: vec![], memo: HashMap::new() };
    let mut eqs: Vec<(Vec<E>, bool)> = vec![];
    let mut neqs: Vec<(E, Vec<(Vec<E>, bool)>)> = vec![];
    let mut rest: Vec<E> = vec![];
    let mut long = 0;
    for e in cs {
        if let Some(z) = l.zero_bits(*e) {
            long += z.iter().filter(|x| x.0.len() > 2).count();
            eqs.extend(z);
            continue;
        }
        let n = l.a.not(*e);
        if let Some(z) = l.zero_bits(n) {
            if z.iter().any(|x| x.0.len() > 2) {
                neqs.push((*e, z));
                continue;
            }
        }
        rest.push(*e);
    }
    if long < 4 || eqs.len() > 4000 {
        return None;
    }
    let mut count: HashMap<E, usize> = HashMap::new();
    for (s, _) in eqs.iter() {
        for e in s {
            *count.entry(*e).or_insert(0) += 1;
        }
    }
    // atoms that occur rarely come first: they become pivots
    let mut order: Vec<(usize, E)> = count.iter().map(|(e, n)| (*n, *e)).collect();
    order.sort();
    for (_, e) in order {
        l.atom(e);
    }
    for (_, z) in &neqs {
        for (s, _) in z {
            for e in s {
                l.atom(*e);
            }
        }
    }
    let words = (l.atoms.len() + 63) / 64;
    let mut rows: Vec<Row> = vec![];
    for z in &eqs {
        let r = l.row(z, words);
        rows.push(r);
    }
    // reduced row echelon form
    let mut done: Vec<(usize, Row)> = vec![];
    let has = |r: &Row, k: usize| r[k / 64] >> (k % 64) & 1 == 1;
    let lead = |r: &Row| (0..words).find(|i| r[*i] != 0).map(|i| i * 64 + r[i].trailing_zeros() as usize);
    let mut bad = false;
    for mut r in rows {
        for (p, q) in &done {
            if has(&r, *p) {
                for i in 0..=words {
                    r[i] ^= q[i];
                }
            }
        }
        match lead(&r) {
            None => {
                if r[words] == 1 {
                    bad = true;
                    break;
                }
            }
            Some(p) => {
                for (_, q) in done.iter_mut() {
                    if has(q, p) {
                        for i in 0..=words {
                            q[i] ^= r[i];
                        }
                    }
                }
                done.push((p, r));
            }
        }
    }
    if bad {
        return Some(vec![l.a.fls()]);
    }
    let mut out = rest;
    for (_, r) in &done {
        let e = l.expr(r, words);
        let e = l.a.not(e);
        out.push(e);
    }
    for (_, z) in &neqs {
        let mut any = l.a.fls();
        for s in z {
            let mut r = l.row(s, words);
            for (p, q) in &done {
                if has(&r, *p) {
                    for i in 0..=words {
                        r[i] ^= q[i];
                    }
                }
            }
            let e = l.expr(&r, words);
            any = l.a.or(any, e);
            if l.a.cst(any) == Some(1) {
                break;
            }
        }
        match l.a.cst(any) {
            Some(1) => {}
            Some(_) => return Some(vec![any]),
            None => out.push(any),
        }
    }
    Some(out)
}

fn has_xor(a: &Arena, e: E) -> bool {
    match &a.v[e as usize].n {
        N::Xor(p, _) => p.len() > 2,
        N::Not(x) => has_xor(a, *x),
        N::And(x, y) | N::Or(x, y) if a.v[e as usize].w == 1 => has_xor(a, *x) || has_xor(a, *y),
        N::Eq(x, y) => lin_deep(a, *x, 3) || lin_deep(a, *y, 3),
        _ => false,
    }
}
fn lin_deep(a: &Arena, e: E, d: u32) -> bool {
    match &a.v[e as usize].n {
        N::Xor(p, _) => p.len() > 2,
        N::Concat(p) if d > 0 => p.iter().any(|x| lin_deep(a, *x, d - 1)),
        _ => false,
    }
}
