//! SMT back end: Z3 through its C API (system libz3), one context per job.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;
type Decl = *mut c_void;
type Solver = *mut c_void;
type ZModel = *mut c_void;
type Params = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_func_decl(c: Ctx, s: Sym, n: c_uint, d: *const Sort, r: Sort) -> Decl;
    fn Z3_mk_app(c: Ctx, d: Decl, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> ZModel;
    fn Z3_model_inc_ref(c: Ctx, m: ZModel);
    fn Z3_model_dec_ref(c: Ctx, m: ZModel);
    fn Z3_model_eval(c: Ctx, m: ZModel, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) }.to_string_lossy().to_string();
    eprintln!("z3 error: {}", m);
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub linear: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    ast: Vec<Option<Ast>>,   // bv form
    bast: Vec<Option<Ast>>,  // bool form (width 1)
    sorts: HashMap<u32, Sort>,
    ufs: HashMap<(u8, u8), Decl>,
    cache: HashMap<Vec<E>, Res>,
    pub stats: Stats,
    pub dump: Option<String>,
    dumped: u64,
    timeout_ms: u32,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let z = Z3 {
                c,
                s,
                ast: vec![],
                bast: vec![],
                sorts: HashMap::new(),
                ufs: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                dump: None,
                dumped: 0,
                timeout_ms,
            };
            z.set_timeout(s, (timeout_ms / 4).max(1000));
            z
        }
    }
    /// no query takes longer than this from now on
    pub fn limit(&mut self, ms: u32) {
        self.timeout_ms = self.timeout_ms.min(ms);
        self.set_timeout(self.s, self.timeout_ms);
    }
    fn set_timeout(&self, s: Solver, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> Ast {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn ensure(&mut self, a: &Arena, root: E) {
        if self.ast.len() < a.v.len() {
            self.ast.resize(a.v.len() * 3 / 2 + 16, None);
            self.bast.resize(a.v.len() * 3 / 2 + 16, None);
        }
        let mut st = vec![(root, false)];
        while let Some((e, ready)) = st.pop() {
            if self.ast[e as usize].is_some() || self.bast[e as usize].is_some() {
                continue;
            }
            if !ready {
                st.push((e, true));
                a.for_kids(e, |k| st.push((k, false)));
                continue;
            }
            self.build(a, e);
        }
    }
    fn bv(&mut self, a: &Arena, e: E) -> Ast {
        let i = e as usize;
        if let Some(x) = self.ast[i] {
            return x;
        }
        // from bool
        let b = self.bast[i].expect("bool form");
        let one = self.num(1, 1);
        let zero = self.num(0, 1);
        let r = unsafe { Z3_mk_ite(self.c, b, one, zero) };
        self.ast[i] = Some(r);
        let _ = a;
        r
    }
    fn bl(&mut self, e: E) -> Ast {
        let i = e as usize;
        if let Some(x) = self.bast[i] {
            return x;
        }
        let x = self.ast[i].expect("bv form");
        let one = self.num(1, 1);
        let r = unsafe { Z3_mk_eq(self.c, x, one) };
        self.bast[i] = Some(r);
        r
    }
    fn build(&mut self, a: &Arena, e: E) {
        let c = self.c;
        let i = e as usize;
        let w = a.v[i].w;
        let n = a.v[i].n.clone();
        unsafe {
            if w == 1 {
                let b = match &n {
                    N::Const(0) => Some(Z3_mk_false(c)),
                    N::Const(_) => Some(Z3_mk_true(c)),
                    N::Not(x) => {
                        let x = self.bl(*x);
                        Some(Z3_mk_not(c, x))
                    }
                    N::And(x, y) => {
                        let v = [self.bl(*x), self.bl(*y)];
                        Some(Z3_mk_and(c, 2, v.as_ptr()))
                    }
                    N::Or(x, y) => {
                        let v = [self.bl(*x), self.bl(*y)];
                        Some(Z3_mk_or(c, 2, v.as_ptr()))
                    }
                    N::Xor(p, k) => {
                        let mut acc = self.bl(p[0]);
                        for x in p[1..].iter() {
                            let y = self.bl(*x);
                            acc = Z3_mk_xor(c, acc, y);
                        }
                        if *k == 1 {
                            acc = Z3_mk_not(c, acc);
                        }
                        Some(acc)
                    }
                    N::Ite(x, y, z) => {
                        let (x, y, z) = (self.bl(*x), self.bl(*y), self.bl(*z));
                        Some(Z3_mk_ite(c, x, y, z))
                    }
                    N::Eq(x, y) => {
                        let (x, y) = (self.bv(a, *x), self.bv(a, *y));
                        Some(Z3_mk_eq(c, x, y))
                    }
                    N::Ult(x, y) => {
                        let (x, y) = (self.bv(a, *x), self.bv(a, *y));
                        Some(Z3_mk_bvult(c, x, y))
                    }
                    N::Slt(x, y) => {
                        let (x, y) = (self.bv(a, *x), self.bv(a, *y));
                        Some(Z3_mk_bvslt(c, x, y))
                    }
                    _ => None,
                };
                if let Some(b) = b {
                    self.bast[i] = Some(b);
                    return;
                }
            }
            macro_rules! bin {
                ($f:ident,$x:expr,$y:expr) => {{
                    let (x, y) = (self.bv(a, *$x), self.bv(a, *$y));
                    $f(c, x, y)
                }};
            }
            let r = match &n {
                N::Const(v) => self.num(*v, w),
                N::Var(id) => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, *id as c_int), s)
                }
                N::Undef => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, 1_000_000 + e as c_int), s)
                }
                N::Concat(p) => {
                    let mut acc = self.bv(a, p[0]);
                    for x in p[1..].iter() {
                        let y = self.bv(a, *x);
                        acc = Z3_mk_concat(c, acc, y);
                    }
                    acc
                }
                N::Extract(x, lo) => {
                    let x = self.bv(a, *x);
                    Z3_mk_extract(c, lo + w - 1, *lo, x)
                }
                N::Not(x) => {
                    let x = self.bv(a, *x);
                    Z3_mk_bvnot(c, x)
                }
                N::And(x, y) => bin!(Z3_mk_bvand, x, y),
                N::Or(x, y) => bin!(Z3_mk_bvor, x, y),
                N::Xor(p, k) => {
                    let mut acc = self.bv(a, p[0]);
                    for x in p[1..].iter() {
                        let y = self.bv(a, *x);
                        acc = Z3_mk_bvxor(c, acc, y);
                    }
                    if *k != 0 {
                        let kk = self.num(*k, w);
                        acc = Z3_mk_bvxor(c, acc, kk);
                    }
                    acc
                }
                N::Add(x, y) => bin!(Z3_mk_bvadd, x, y),
                N::Sub(x, y) => {
                    // x + ~y + 1: z3 would otherwise rewrite to a multiplication by -1
                    let (x, y) = (self.bv(a, *x), self.bv(a, *y));
                    let ny = Z3_mk_bvnot(c, y);
                    let one = self.num(1, w);
                    let t = Z3_mk_bvadd(c, x, ny);
                    Z3_mk_bvadd(c, t, one)
                }
                N::Mul(x, y) => bin!(Z3_mk_bvmul, x, y),
                N::UDiv(x, y) => bin!(Z3_mk_bvudiv, x, y),
                N::URem(x, y) => bin!(Z3_mk_bvurem, x, y),
                N::SDiv(x, y) => bin!(Z3_mk_bvsdiv, x, y),
                N::SRem(x, y) => bin!(Z3_mk_bvsrem, x, y),
                N::Shl(x, y) => bin!(Z3_mk_bvshl, x, y),
                N::LShr(x, y) => bin!(Z3_mk_bvlshr, x, y),
                N::AShr(x, y) => bin!(Z3_mk_bvashr, x, y),
                N::Ite(x, y, z) => {
                    let x = self.bl(*x);
                    let (y, z) = (self.bv(a, *y), self.bv(a, *z));
                    Z3_mk_ite(c, x, y, z)
                }
                N::Uf(k, word, p) => {
                    let s32 = self.sort(32);
                    let d = match self.ufs.get(&(*k, *word)) {
                        Some(d) => *d,
                        None => {
                            let nm = CString::new(format!("uf_{}_{}", k, word)).unwrap();
                            let dom = vec![s32; p.len()];
                            let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), dom.len() as c_uint, dom.as_ptr(), s32);
                            self.ufs.insert((*k, *word), d);
                            d
                        }
                    };
                    let args: Vec<Ast> = p.iter().map(|x| self.bv(a, *x)).collect();
                    Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr())
                }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => unreachable!(),
            };
            self.ast[i] = Some(r);
        }
    }
    /// Is the conjunction of `cs` satisfiable?  Returns values for all variables in it.
    pub fn check(&mut self, a: &mut Arena, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return r.clone();
        }
        for e in &key {
            self.ensure(a, *e);
        }
        let t0 = Instant::now();
        let mut bits = vec![];
        for e in &key {
            let v = a.vars(*e);
            or_bits(&mut bits, &v);
        }
        let orig = key.clone();
        if let Some(k) = crate::linear::reduce(a, &key) {
            self.stats.linear += 1;
            key = k;
            for e in &key {
                self.ensure(a, *e);
            }
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in &key {
                let b = self.bl(*e);
                Z3_solver_assert(self.c, self.s, b);
            }
            if let Some(dir) = &self.dump {
                if self.dumped < 400 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let f = format!("{}/q{}_{}.smt2", dir, std::thread::current().name().unwrap_or("t").replace('/', "_"), self.stats.queries);
                    let _ = std::fs::write(f, txt);
                    self.dumped += 1;
                }
            }
            let mut r = Z3_solver_check(self.c, self.s);
            let mut which = self.s;
            let mut tmp = None;
            if r == 0 {
                // undecided: retry with a fresh tactic-based solver
                let l = CString::new(if self.ufs.is_empty() { "QF_BV" } else { "QF_UFBV" }).unwrap();
                let s2 = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, s2);
                self.set_timeout(s2, self.timeout_ms);
                for e in &key {
                    let b = self.bl(*e);
                    Z3_solver_assert(self.c, s2, b);
                }
                r = Z3_solver_check(self.c, s2);
                which = s2;
                tmp = Some(s2);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, which);
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = vec![];
                    for (wi, word) in bits.iter().enumerate() {
                        let mut b = *word;
                        while b != 0 {
                            let k = b.trailing_zeros();
                            b &= b - 1;
                            let id = (wi * 64) as u32 + k;
                            let e = a.var_expr(id);
                            let ast = self.ast[e as usize].unwrap();
                            let mut o: Ast = std::ptr::null_mut();
                            if Z3_model_eval(self.c, m, ast, true, &mut o) {
                                let mut x = 0u64;
                                let v = if a.w(e) <= 64 && Z3_get_numeral_uint64(self.c, o, &mut x) {
                                    x as u128
                                } else {
                                    CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse().unwrap()
                                };
                                vals.push((id, v));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(Rc::new(vals))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(s2) = tmp {
                Z3_solver_dec_ref(self.c, s2);
            }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > 0.5 {
            if let Ok(dir) = std::env::var("SYMEX_SLOW") {
                let mut t = String::new();
                unsafe {
                    Z3_solver_push(self.c, self.s);
                    for e in &key {
                        let b = self.bl(*e);
                        Z3_solver_assert(self.c, self.s, b);
                    }
                    t.push_str(&CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy());
                    Z3_solver_pop(self.c, self.s, 1);
                }
                let _ = std::fs::write(format!("{}/slow_{}_{:.1}.smt2", dir, self.stats.queries, dt), t);
            }
        }
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(orig, r.clone());
        r
    }
}
