//! Path-wise symbolic execution of the IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    /// empty = every byte concrete; otherwise 0 = concrete, 1 = uninitialised, else an 8-bit expression
    sym: Vec<E>,
    kind: u8, // 0 stack 1 heap 2 global
    ro: bool,
    align: u64,
}

#[derive(Clone)]
struct Slot {
    gen: u32,
    obj: Option<Rc<Obj>>,
}

#[derive(Clone)]
struct Group {
    vars: Rc<[u64]>,
    cs: Rc<Vec<E>>,
}

#[derive(Clone)]
struct Frame {
    f: *const Func,
    fi: u32,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub enum Input {
    Sym(E),
    Bytes(Rc<Vec<E>>),
    Conc(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    slots: Vec<Slot>,
    free: Vec<u32>,
    globals: Rc<HashMap<u32, Rc<Obj>>>,
    groups: Vec<Group>,
    known: Rc<HashMap<E, u64>>,
    model: Rc<Model>,
    model_ok: bool,
    ninp: u32,
    inputs: Vec<Input>,
    outs: Vec<E>,
    covers: Rc<BTreeSet<String>>,
    expect_panic: Option<String>,
    steps: u64,
    depth: u32,
    /// applications of uninterpreted functions made on this path
    ufs: Rc<Vec<(u8, Rc<[E]>)>>,
    /// constraints added on this path
    nadd: u64,
    /// forks of this path, by branch (function, block)
    hot: Rc<HashMap<(u32, u32), u32>>,
}

pub enum Stop {
    /// both sides feasible: condition, model when true, model when false
    Fork(E, (Rc<Model>, bool), (Rc<Model>, bool)),
    Violation(String, String),
    Infeasible,
    Done,
    /// the block where two sides of a branch meet again has been reached
    Join,
    Err(String),
}

type X<T> = Result<T, Stop>;

pub struct Violation {
    pub site: String,
    pub detail: String,
    pub script: Option<String>,
    pub faithful: bool,
}

pub struct Sample {
    pub script: String,
    pub outs: Vec<u64>,
    pub panic: bool,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub checks: u64,
    pub max_constraints: usize,
    pub violations: Vec<Violation>,
    pub viol_count: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub check_sites: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub error: Option<String>,
    /// undecided paths: what went wrong, and inputs leading there
    pub errors: Vec<(String, String)>,
    pub nerrors: u64,
    pub fns: BTreeSet<u32>,
    pub exprs: usize,
    pub uf_nodes: u64,
    pub fork_sites: HashMap<String, u64>,
    pub solver: Stats,
    pub wall: f64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Special {
    No,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    CRealloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    Panic,
    PanicUb,
    Abort,
    Format,
    Sha1,
    Md5,
    Memcpy,
    Memset,
    VpSym,
    VpBytes,
    VpAssume,
    VpCheck,
    VpCover,
    VpConc,
    VpParam,
    VpOut,
    VpExpectPanic,
    VpNative,
    VpLive,
    ExternUnsupported,
    GetRandom,
}

fn special(name: &str, has_body: bool) -> Special {
    use Special::*;
    let e = |s: &str| name.ends_with(s);
    match name {
        "vp_sym" => return VpSym,
        "vp_bytes" => return VpBytes,
        "vp_assume" => return VpAssume,
        "vp_check" => return VpCheck,
        "vp_cover" => return VpCover,
        "vp_concretize" => return VpConc,
        "vp_param" => return VpParam,
        "vp_out" => return VpOut,
        "vp_expect_panic" => return VpExpectPanic,
        "vp_native" => return VpNative,
        "vp_live" => return VpLive,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return CRealloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "bcmp" => return Bcmp,
        "memcmp" => return Memcmp,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "strlen" => return Strlen,
        "abort" | "rust_eh_personality" => return Abort,
        "getrandom" => return GetRandom,
        _ => {}
    }
    if e("___rustc12___rust_alloc") || e("___rustc11___rdl_alloc") {
        return Alloc;
    }
    if e("___rustc19___rust_alloc_zeroed") || e("___rustc18___rdl_alloc_zeroed") {
        return AllocZeroed;
    }
    if e("___rustc14___rust_dealloc") || e("___rustc13___rdl_dealloc") {
        return Dealloc;
    }
    if e("___rustc14___rust_realloc") || e("___rustc13___rdl_realloc") {
        return Realloc;
    }
    if e("9panicking9panic_fmt") || name.contains("9panicking11begin_panic") || e("15panic_with_hook") {
        return Panic;
    }
    if e("18panic_nounwind_fmt") || e("14panic_nounwind") || e("26panic_nounwind_nobacktrace") || e("19panic_cannot_unwind") || e("32panic_null_reference_constructed") || e("36panic_misaligned_pointer_dereference") {
        return PanicUb;
    }
    if e("3fmt6format12format_inner") {
        return Format;
    }
    if name.starts_with("_RN") && e("4sha18compress8compress") {
        return Sha1;
    }
    if name.starts_with("_RN") && e("3md59transform") {
        return Md5;
    }
    if !has_body {
        return ExternUnsupported;
    }
    No
}

/// set when enough violations have been found: running jobs end, no new ones start
/// (jobs with a new violation, time of the first): enough of them end the run
pub static FOUND: std::sync::Mutex<(usize, Option<Instant>)> = std::sync::Mutex::new((0, None));
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Memory is short (set by a watching thread): the biggest job is given up.
pub static SHORT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static WEIGHT: [std::sync::atomic::AtomicUsize; 64] = [const { std::sync::atomic::AtomicUsize::new(0) }; 64];

pub struct Cfg {
    pub max_paths: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub slot: usize,
    pub known: bool,
    pub max_sites: usize,
    pub samples: usize,
    pub solver_ms: u32,
    /// execute `format!` instead of returning an empty string
    pub real_fmt: bool,
}

pub struct Exec<'m> {
    m: &'m Module,
    sp: Vec<Special>,
    pub a: Arena,
    pub z: Z3,
    gcache: HashMap<u32, Rc<Obj>>,
    varids: HashMap<(u32, u32), u32>,
    params: Vec<u64>,
    cfg: Cfg,
    pub rep: Report,
    work: Vec<State>,
    fmt_fn: Option<u32>,
    pub profile: bool,
    /// where `steps` has to stop: (number of frames, block)
    join: Option<(usize, u32)>,
    join_ix: HashMap<(u32, u32), Option<u32>>,
    merge_fail: HashMap<(u32, u32), u32>,
    merge_hot: u32,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn s64(x: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((x << s) as i64) >> s
}

const DYN: u32 = 0x2000_0000;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, params: Vec<u64>, cfg: Cfg) -> Exec<'m> {
        let mut sp: Vec<Special> = m.fns.iter().map(|f| special(&f.name, f.body.is_some())).collect();
        if cfg.real_fmt {
            for s in sp.iter_mut().filter(|s| **s == Special::Format) {
                *s = Special::No;
            }
        }
        let fmt_fn = if cfg.real_fmt { None } else { m.fn_ix.get("vp_empty_string").copied() };
        let z = Z3::new(cfg.solver_ms);
        Exec { m, sp, a: Arena::new(), z, gcache: HashMap::new(), varids: HashMap::new(), params, cfg, rep: Report::default(), work: vec![], fmt_fn, profile: std::env::var("SYMEX_PROFILE").is_ok(), join: None, join_ix: HashMap::new(), merge_fail: HashMap::new(), merge_hot: std::env::var("SYMEX_MERGE").ok().and_then(|x| x.parse().ok()).unwrap_or(0) }
    }

    // ------------------------------------------------------------ values
    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.a.c(*c as u128, w),
            Val::S(e) => {
                debug_assert_eq!(self.a.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        if self.a.w(e) <= 64 {
            if let Some(c) = self.a.cst(e) {
                return Val::C(c as u64);
            }
        }
        Val::S(e)
    }
    fn kv(&mut self, c: &Const) -> Val {
        match c {
            Const::Int(x) => Val::C(*x),
            Const::Wide(x, w) => Val::S(self.a.c(*x, *w)),
            Const::Undef(w) => {
                if *w > 128 {
                    return Val::C(0);
                }
                Val::S(self.a.undef_of(*w))
            }
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.kv(x)).collect())),
        }
    }
    #[inline]
    fn op(&mut self, st: &State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::K(k) => self.kv(k),
        }
    }

    // ------------------------------------------------------------ constraints
    fn known(&self, st: &State, e: E) -> Option<u64> {
        st.known.get(&e).copied()
    }
    fn learn(&mut self, st: &mut State, e: E, v: u64) {
        let n = self.a.not(e);
        let k = Rc::make_mut(&mut st.known);
        k.insert(e, v);
        k.insert(n, v ^ 1);
    }
    fn add(&mut self, st: &mut State, e: E) {
        if self.a.cst(e).is_some() {
            return;
        }
        st.nadd += 1;
        if let N::And(x, y) = self.a.v[e as usize].n {
            self.learn(st, e, 1);
            self.add(st, x);
            self.add(st, y);
            return;
        }
        if self.known(st, e) == Some(1) && st.groups.iter().any(|g| g.cs.contains(&e)) {
            return;
        }
        self.learn(st, e, 1);
        let vars = self.a.vars(e);
        let mut bits: Vec<u64> = vars.to_vec();
        let mut cs = vec![];
        let mut i = 0;
        let mut touched = 0;
        let mut single = None;
        while i < st.groups.len() {
            if bits_meet(&st.groups[i].vars, &vars) {
                let g = st.groups.swap_remove(i);
                or_bits(&mut bits, &g.vars);
                touched += 1;
                if touched == 1 {
                    single = Some(g);
                } else {
                    if let Some(s) = single.take() {
                        cs.extend_from_slice(&s.cs);
                    }
                    cs.extend_from_slice(&g.cs);
                }
            } else {
                i += 1;
            }
        }
        let g = if let Some(mut s) = single {
            Rc::make_mut(&mut s.cs).push(e);
            Group { vars: bits.into(), cs: s.cs }
        } else {
            cs.push(e);
            Group { vars: bits.into(), cs: Rc::new(cs) }
        };
        self.rep.max_constraints = self.rep.max_constraints.max(g.cs.len());
        st.groups.push(g);
    }
    /// Satisfiability of path condition and e.  Some((model, faithful)) if satisfiable.
    fn feasible(&mut self, st: &State, e: E) -> X<Option<(Rc<Model>, bool)>> {
        if let Some(c) = self.a.cst(e) {
            return Ok(if c == 1 { Some((st.model.clone(), st.model_ok)) } else { None });
        }
        if st.model_ok && self.a.eval(e, &st.model) == 1 {
            return Ok(Some((st.model.clone(), true)));
        }
        let vars = self.a.vars(e);
        let mut cs = vec![e];
        for g in &st.groups {
            if bits_meet(&g.vars, &vars) {
                cs.extend_from_slice(&g.cs);
            }
        }
        match self.z.check(&mut self.a, &cs) {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Err("solver returned unknown".into())),
            Res::Sat(vals) => {
                let mut m: Model = (*st.model).clone();
                for (k, v) in vals.iter() {
                    m.insert(*k, *v);
                }
                self.a.eval_begin();
                let mut ok = true;
                for c in &cs {
                    if self.a.eval_in(*c, &m) != 1 {
                        ok = false;
                        break;
                    }
                }
                // constraints of untouched groups held under the old model
                let ok = ok && st.model_ok;
                Ok(Some((Rc::new(m), ok)))
            }
        }
    }
    /// Decide a condition on this path, forking if both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.a.cst(c) {
            return Ok(k == 1);
        }
        if let Some(k) = self.known(st, c) {
            return Ok(k == 1);
        }
        if self.a.undef(c) {
            return Err(Stop::Violation("uninit".into(), "branch depends on uninitialised memory".into()));
        }
        let nc = self.a.not(c);
        let t = self.feasible(st, c)?;
        let f = self.feasible(st, nc)?;
        match (t, f) {
            (Some(a), Some(b)) => Err(Stop::Fork(c, a, b)),
            (Some(_), None) => {
                self.learn(st, c, 1);
                Ok(true)
            }
            (None, Some(_)) => {
                self.learn(st, c, 0);
                Ok(false)
            }
            (None, None) => Err(Stop::Err("path condition unsatisfiable".into())),
        }
    }
    /// Concrete value of an expression, forking over all feasible values.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> X<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => *e,
            Val::A(_) => return Err(Stop::Err("concretising an aggregate".into())),
        };
        if let Some(c) = self.a.cst(e) {
            return Ok(c as u64);
        }
        if let Some(k) = self.known(st, e) {
            return Ok(k);
        }
        if self.a.undef(e) {
            return Err(Stop::Violation("uninit".into(), "address/size depends on uninitialised memory".into()));
        }
        let mv = self.a.eval(e, &st.model);
        let k = self.a.c(mv, w);
        let c = self.a.eq(e, k);
        if self.decide(st, c)? {
            if w > 1 {
                Rc::make_mut(&mut st.known).insert(e, mv as u64);
            }
            return Ok(mv as u64);
        }
        // only when the model was not faithful
        Err(Stop::Err("cannot concretise".into()))
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8, zero: bool) -> X<(u64, u32)> {
        if size > 1 << 27 {
            return Err(Stop::Err(format!("allocation of {} bytes", size)));
        }
        let n = size as usize;
        let obj = Obj { data: vec![0; n], sym: if zero { vec![] } else { vec![1; n] }, kind, ro: false, align };
        let s = match st.free.pop() {
            Some(s) => s,
            None => {
                st.slots.push(Slot { gen: 0, obj: None });
                (st.slots.len() - 1) as u32
            }
        };
        let sl = &mut st.slots[s as usize];
        sl.obj = Some(Rc::new(obj));
        let hi = DYN | (sl.gen & 0xff) << 20 | s;
        Ok(((hi as u64) << 32, s))
    }
    fn free_slot(&mut self, st: &mut State, s: u32) {
        let sl = &mut st.slots[s as usize];
        sl.obj = None;
        sl.gen = sl.gen.wrapping_add(1);
        st.free.push(s);
    }
    fn gobj(&mut self, ix: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&ix) {
            return Ok(o.clone());
        }
        let g = &self.m.globals[ix as usize];
        let init = self.m.global(ix).map_err(Stop::Err)?;
        let mut sym = vec![];
        if !init.undef.is_empty() {
            sym = vec![0; init.bytes.len()];
            for (a, b) in &init.undef {
                for x in sym[*a..*b].iter_mut() {
                    *x = 1;
                }
            }
        }
        let o = Rc::new(Obj { data: init.bytes.clone(), sym, kind: 2, ro: g.constant, align: init.align });
        self.gcache.insert(ix, o.clone());
        Ok(o)
    }
    fn memerr<T>(&self, what: &str, addr: u64, n: u64) -> X<T> {
        Err(Stop::Violation("memory".into(), format!("{} of {} bytes at {:#x}", what, n, addr)))
    }
    fn obj(&mut self, st: &State, addr: u64, n: u64, what: &str) -> X<(Rc<Obj>, usize)> {
        let hi = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let o = if hi >= DYN && hi < DYN + 0x1000_0000 {
            let s = hi & 0xf_ffff;
            let gen = (hi >> 20) & 0xff;
            match st.slots.get(s as usize) {
                Some(sl) if sl.gen & 0xff == gen => match &sl.obj {
                    Some(o) => o.clone(),
                    None => return self.memerr(&format!("{} after free:", what), addr, n),
                },
                Some(_) => return self.memerr(&format!("{} after free:", what), addr, n),
                None => return self.memerr(&format!("wild {}", what), addr, n),
            }
        } else if hi >= 1 && (hi as usize) <= self.m.globals.len() {
            let ix = hi - 1;
            match st.globals.get(&ix) {
                Some(o) => o.clone(),
                None => self.gobj(ix)?,
            }
        } else {
            return self.memerr(&format!("wild/null {}", what), addr, n);
        };
        if off + n > o.data.len() as u64 {
            return self.memerr(&format!("out-of-bounds {} (object of {} bytes)", what, o.data.len()), addr, n);
        }
        Ok((o, off as usize))
    }
    fn with_mut<T>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> X<T> {
        let hi = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        if hi >= DYN && hi < DYN + 0x1000_0000 {
            let s = (hi & 0xf_ffff) as usize;
            let gen = (hi >> 20) & 0xff;
            if s >= st.slots.len() || st.slots[s].gen & 0xff != gen || st.slots[s].obj.is_none() {
                return self.memerr("write after free / wild write", addr, n);
            }
            let rc = st.slots[s].obj.as_mut().unwrap();
            if off + n > rc.data.len() as u64 {
                let l = rc.data.len();
                return self.memerr(&format!("out-of-bounds write (object of {} bytes)", l), addr, n);
            }
            return Ok(f(Rc::make_mut(rc), off as usize));
        }
        let (o, _) = self.obj(st, addr, n, "write")?;
        if o.ro {
            return self.memerr("write to constant memory", addr, n);
        }
        let ix = hi - 1;
        let g = Rc::make_mut(&mut st.globals);
        let e = g.entry(ix).or_insert_with(|| o.clone());
        drop(o);
        Ok(f(Rc::make_mut(e), off as usize))
    }
    fn byte(&mut self, o: &Obj, i: usize) -> E {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            return o.sym[i];
        }
        self.a.c(o.data[i] as u128, 8)
    }
    fn rd(&mut self, o: &Obj, off: usize, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Fp(_) => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                if w <= 64 && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0)) {
                    let mut v = 0u64;
                    for k in (0..n).rev() {
                        v = v << 8 | o.data[off + k] as u64;
                    }
                    return Ok(Val::C(v & m64(w)));
                }
                if w > 128 {
                    return Err(Stop::Err(format!("load of i{}", w)));
                }
                let mut parts: Vec<E> = Vec::with_capacity(n);
                for k in (0..n).rev() {
                    let b = self.byte(o, off + k);
                    parts.push(b);
                }
                let mut e = self.a.concat(&parts);
                if w % 8 != 0 {
                    e = self.a.extract(e, 0, w);
                }
                Ok(self.v(e))
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..) => {
                if let Ty::Vect(n, t) = ty {
                    if let Ty::Int(w) = **t {
                        if w % 8 != 0 {
                            let iv = self.rd(o, off, &Ty::Int((*n as u32) * w))?;
                            let e = self.ex(&iv, *n as u32 * w);
                            let mut out = vec![];
                            for k in 0..*n as u32 {
                                let x = self.a.extract(e, k * w, w);
                                out.push(self.v(x));
                            }
                            return Ok(Val::A(Rc::new(out)));
                        }
                    }
                }
                let mut out = vec![];
                for i in 0..ty.count() {
                    let x = self.rd(o, off + ty.field_offset(i) as usize, ty.elem(i))?;
                    out.push(x);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => Err(Stop::Err(format!("load type {:?}", ty))),
        }
    }
    fn wr(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Fp(_), Val::C(c)) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                let c = *c;
                self.with_mut(st, addr, n as u64, |o, off| {
                    for k in 0..n {
                        o.data[off + k] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 };
                    }
                    if !o.sym.is_empty() {
                        for k in 0..n {
                            o.sym[off + k] = 0;
                        }
                    }
                })
            }
            (Ty::Int(_) | Ty::Ptr | Ty::Fp(_), Val::S(e)) => {
                let w = ty.bits();
                let n = (w + 7) / 8;
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.a.zext(e, n * 8);
                }
                let mut bs: Vec<(E, u8)> = Vec::with_capacity(n as usize);
                for k in 0..n {
                    let b = self.a.extract(e, 8 * k, 8);
                    match self.a.cst(b) {
                        Some(c) => bs.push((0, c as u8)),
                        None if self.a.undef(b) && matches!(self.a.v[b as usize].n, N::Undef) => bs.push((1, 0)),
                        None => bs.push((b, 0)),
                    }
                }
                self.with_mut(st, addr, n as u64, |o, off| {
                    if o.sym.is_empty() && bs.iter().any(|b| b.0 != 0) {
                        o.sym = vec![0; o.data.len()];
                    }
                    for (k, (b, c)) in bs.iter().enumerate() {
                        o.data[off + k] = *c;
                        if !o.sym.is_empty() {
                            o.sym[off + k] = *b;
                        }
                    }
                })
            }
            (Ty::Vect(n, t), Val::A(v)) if t.bits() % 8 != 0 => {
                let w = t.bits();
                let mut parts = vec![];
                for x in v.iter().rev() {
                    let e = self.ex(x, w);
                    parts.push(e);
                }
                let e = self.a.concat(&parts);
                let x = self.v(e);
                self.wr(st, addr, &Ty::Int(w * *n as u32), &x)
            }
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..), Val::A(v)) => {
                for i in 0..ty.count() {
                    self.wr(st, addr.wrapping_add(ty.field_offset(i)), ty.elem(i), &v[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store type {:?}", ty))),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(st, src, n, "read")?;
        let n = n as usize;
        // a copy of the source range (memmove semantics)
        let data = o.data[off..off + n].to_vec();
        let sym: Vec<E> = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
        drop(o);
        let conc = sym.iter().all(|x| *x == 0);
        self.with_mut(st, dst, n as u64, |o, off| {
            o.data[off..off + n].copy_from_slice(&data);
            if conc {
                if !o.sym.is_empty() {
                    for x in o.sym[off..off + n].iter_mut() {
                        *x = 0;
                    }
                }
            } else {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + n].copy_from_slice(&sym);
            }
        })
    }
    fn fill(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let e = match v {
            Val::C(_) => 0,
            Val::S(e) => *e,
            _ => return Err(Stop::Err("memset".into())),
        };
        let c = if let Val::C(c) = v { *c as u8 } else { 0 };
        self.with_mut(st, dst, n as u64, |o, off| {
            if e != 0 && o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            for k in off..off + n {
                o.data[k] = c;
                if !o.sym.is_empty() {
                    o.sym[k] = e;
                }
            }
        })
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        let sz = ty.store_size();
        let addr = match p {
            Val::C(a) => *a,
            Val::S(e) => {
                if let Some(r) = self.load_table(st, *e, ty)? {
                    return Ok(r);
                }
                self.conc(st, p, 64)?
            }
            _ => return Err(Stop::Err("pointer".into())),
        };
        if sz == 0 {
            return self.rd(&Obj { data: vec![], sym: vec![], kind: 0, ro: false, align: 1 }, 0, ty);
        }
        let (o, off) = self.obj(st, addr, sz, "read")?;
        self.rd(&o, off, ty)
    }
    /// Load through a symbolic index of at most 8 bits: becomes a multiplexer, or an
    /// affine GF(2) form when the table is affine (CRC tables).
    fn load_table(&mut self, st: &mut State, e: E, ty: &Ty) -> X<Option<Val>> {
        if !ty.is_scalar() || ty.bits() > 64 {
            return Ok(None);
        }
        if self.known(st, e).is_some() || self.a.undef(e) {
            return Ok(None);
        }
        // e = k + concat of constants and at most 8 symbolic bits
        let (x, k) = match self.a.v[e as usize].n {
            N::Add(x, y) => match self.a.cst(y) {
                Some(c) => (x, c as u64),
                None => return Ok(None),
            },
            _ => (e, 0),
        };
        let parts: Vec<E> = match &self.a.v[x as usize].n {
            N::Concat(p) => p.to_vec(),
            _ => vec![x],
        };
        let mut base = 0u64;
        let mut bits: Vec<(E, u32)> = vec![]; // (1-bit expr, position)
        let mut pos = 64;
        for p in parts {
            let w = self.a.w(p);
            pos -= w;
            match self.a.cst(p) {
                Some(c) => base |= (c as u64) << pos,
                None => {
                    if bits.len() + w as usize > 8 {
                        return Ok(None);
                    }
                    for k in (0..w).rev() {
                        let b = self.a.extract(p, k, 1);
                        bits.push((b, pos + k));
                    }
                }
            }
        }
        bits.reverse(); // lsb first
        let n = 1usize << bits.len();
        let sz = ty.store_size();
        let mut vals: Vec<E> = Vec::with_capacity(n);
        let w = ty.bits();
        let hi = base.wrapping_add(k) >> 32;
        let (o, _) = match self.obj(st, hi << 32, 0, "read") {
            Ok(x) => x,
            Err(_) => return Ok(None),
        };
        for i in 0..n {
            let mut a = base;
            for (k, (_, p)) in bits.iter().enumerate() {
                if i >> k & 1 == 1 {
                    a |= 1 << p;
                }
            }
            let a = a.wrapping_add(k);
            if a >> 32 != hi || (a & 0xffff_ffff) + sz > o.data.len() as u64 {
                return Ok(None); // some candidates out of bounds: enumerate feasible ones instead
            }
            let v = self.rd(&o, (a & 0xffff_ffff) as usize, ty)?;
            let v = self.ex(&v, w);
            vals.push(v);
        }
        // affine?
        let cs: Option<Vec<u64>> = vals.iter().map(|v| self.a.cst(*v).map(|c| c as u64)).collect();
        if let Some(cs) = cs {
            let t0 = cs[0];
            let ok = (0..n).all(|i| {
                let mut r = t0;
                for k in 0..bits.len() {
                    if i >> k & 1 == 1 {
                        r ^= cs[1 << k] ^ t0;
                    }
                }
                r == cs[i]
            });
            if ok {
                let mut out = vec![];
                for b in (0..w).rev() {
                    let mut acc = self.a.c((t0 >> b & 1) as u128, 1);
                    for (k, (bit, _)) in bits.iter().enumerate() {
                        if (cs[1 << k] ^ t0) >> b & 1 == 1 {
                            acc = self.a.xor(acc, *bit);
                        }
                    }
                    out.push(acc);
                }
                let r = self.a.concat(&out);
                return Ok(Some(self.v(r)));
            }
        }
        // multiplexer
        let mut layer = vals;
        for (b, _) in bits {
            let mut next = Vec::with_capacity(layer.len() / 2);
            for p in layer.chunks(2) {
                next.push(self.a.ite(b, p[1], p[0]));
            }
            layer = next;
        }
        Ok(Some(self.v(layer[0])))
    }
    fn read_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, addr, n, "read")?;
        Ok((0..n as usize).map(|k| self.byte(&o, off + k)).collect())
    }
    fn read_str(&mut self, st: &mut State, p: &Val, n: &Val) -> X<String> {
        let p = self.conc(st, p, 64)?;
        let n = self.conc(st, n, 64)?;
        let (o, off) = self.obj(st, p, n, "read")?;
        Ok(String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string())
    }

    // ------------------------------------------------------------ arithmetic
    fn bin(&mut self, k: BinK, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match k {
                BinK::Add => x.wrapping_add(y),
                BinK::Sub => x.wrapping_sub(y),
                BinK::Mul => x.wrapping_mul(y),
                BinK::And => x & y,
                BinK::Or => x | y,
                BinK::Xor => x ^ y,
                BinK::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinK::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinK::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                    if y == 0 {
                        return Err(Stop::Violation("ub".into(), "division by zero".into()));
                    }
                    match k {
                        BinK::UDiv => x / y,
                        BinK::URem => x % y,
                        BinK::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                        _ => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                    }
                }
            };
            return Ok(Val::C(r & m));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match k {
            BinK::Add => self.a.add(x, y),
            BinK::Sub => self.a.sub(x, y),
            BinK::Mul => self.a.mul(x, y),
            BinK::And => self.a.and(x, y),
            BinK::Or => self.a.or(x, y),
            BinK::Xor => self.a.xor(x, y),
            BinK::Shl => self.a.shl(x, y),
            BinK::LShr => self.a.lshr(x, y),
            BinK::AShr => self.a.ashr(x, y),
            BinK::UDiv => self.a.udiv(x, y),
            BinK::URem => self.a.urem(x, y),
            BinK::SDiv => self.a.sdiv(x, y),
            BinK::SRem => self.a.srem(x, y),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (i, j) = (s64(x, w), s64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => i > j,
                Pred::Sge => i >= j,
                Pred::Slt => i < j,
                Pred::Sle => i <= j,
            };
            return Val::C(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let a = &mut self.a;
        let r = match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => {
                let e = a.eq(x, y);
                a.not(e)
            }
            Pred::Ugt => a.ult(y, x),
            Pred::Uge => {
                let e = a.ult(x, y);
                a.not(e)
            }
            Pred::Ult => a.ult(x, y),
            Pred::Ule => {
                let e = a.ult(y, x);
                a.not(e)
            }
            Pred::Sgt => a.slt(y, x),
            Pred::Sge => {
                let e = a.slt(x, y);
                a.not(e)
            }
            Pred::Slt => a.slt(x, y),
            Pred::Sle => {
                let e = a.slt(y, x);
                a.not(e)
            }
        };
        self.v(r)
    }
    fn cast1(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            if tw <= 64 && fw <= 64 {
                return Val::C(match k {
                    CastK::Trunc => x & m64(tw),
                    CastK::Zext | CastK::Bitcast => *x,
                    CastK::Sext => s64(*x, fw) as u64 & m64(tw),
                });
            }
        }
        let x = self.ex(a, fw);
        let r = match k {
            CastK::Trunc => self.a.extract(x, 0, tw),
            CastK::Zext => self.a.zext(x, tw),
            CastK::Sext => self.a.sext(x, tw),
            CastK::Bitcast => x,
        };
        self.v(r)
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str) {
        let t0 = Instant::now();
        if let Err(e) = self.run_inner(entry) {
            self.rep.error = Some(e);
        }
        self.rep.wall = t0.elapsed().as_secs_f64();
        self.rep.exprs = self.a.v.len();
        self.rep.uf_nodes = self.a.uf_nodes;
        self.rep.solver = self.z.stats.clone();
    }
    fn run_inner(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fn_ix.get(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.func(fi)?;
        let st = State {
            frames: vec![Frame { f, fi, block: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], dst: None, normal: None, allocas: vec![] }],
            slots: vec![],
            free: vec![],
            globals: Rc::new(HashMap::new()),
            groups: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(HashMap::new()),
            model_ok: true,
            ninp: 0,
            inputs: vec![],
            outs: vec![],
            covers: Rc::new(BTreeSet::new()),
            expect_panic: None,
            steps: 0,
            depth: 0,
            ufs: Rc::new(vec![]),
            nadd: 0,
            hot: Rc::new(HashMap::new()),
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            self.rep.fns.insert(st.frames[0].fi);
            loop {
                let r = self.steps(&mut st);
                match r {
                    Ok(()) => {}
                    Err(Stop::Fork(c, t, f)) => {
                        let site = (st.frames.last().unwrap().fi, st.frames.last().unwrap().block);
                        let hot = st.hot.get(&site).copied().unwrap_or(0);
                        if hot >= self.merge_hot && self.merge_fail.get(&site).copied().unwrap_or(0) < 200 {
                            let mut fuel = 2000;
                            if let Some(m) = self.try_merge(&st, c, &t, &f, &mut fuel, 0) {
                                st = m;
                                self.rep.merges += 1;
                                continue;
                            }
                            *self.merge_fail.entry(site).or_insert(0) += 1;
                        }
                        *Rc::make_mut(&mut st.hot).entry(site).or_insert(0) += 1;
                        self.rep.forks += 1;
                        if self.profile {
                            let k: Vec<String> = st.frames.iter().rev().take(4).map(|f| { let s = crate::short(&self.m.fns[f.fi as usize].name); if f.ip > 0 || true { format!("{}#{}.{}", s, f.block, f.ip) } else { s } }).collect();
                            *self.rep.fork_sites.entry(k.join(" < ")).or_insert(0) += 1;
                        }
                        st.depth += 1;
                        let nc = self.a.not(c);
                        let mut other = st.clone();
                        // keep going on the side the current model satisfies
                        let cur_true = Rc::ptr_eq(&t.0, &st.model);
                        if cur_true {
                            self.add(&mut st, c);
                            self.add(&mut other, nc);
                            other.model = f.0;
                            other.model_ok = f.1;
                        } else {
                            self.add(&mut st, nc);
                            st.model = f.0;
                            st.model_ok = f.1;
                            self.add(&mut other, c);
                            other.model = t.0;
                            other.model_ok = t.1;
                        }
                        self.work.push(other);
                    }
                    Err(Stop::Infeasible) => {
                        self.rep.infeasible += 1;
                        break;
                    }
                    Err(Stop::Join) => unreachable!(),
                    Err(Stop::Done) => {
                        self.end_path(&st, false);
                        break;
                    }
                    Err(Stop::Violation(k, d)) => {
                        if k == "panic" && st.expect_panic.is_some() {
                            self.end_path(&st, true);
                            break;
                        }
                        self.rep.paths += 1;
                        self.rep.steps += st.steps;
                        let site = if k == "panic" || k == "ub" || k == "memory" || k == "uninit" || k == "unreachable" {
                            format!("{}@{}", k, self.where_(&st))
                        } else {
                            k
                        };
                        let d = format!("{} | stack: {}", d, self.stack(&st));
                        let (m, ok) = (st.model.clone(), st.model_ok);
                        self.violation(&st, site, d, &m, ok);
                        break;
                    }
                    Err(Stop::Err(e)) => {
                        // this path is undecided; the others still count
                        let e = format!("{} | stack: {}", e, self.stack(&st));
                        self.rep.nerrors += 1;
                        self.rep.steps += st.steps;
                        if self.rep.errors.len() < 4 {
                            let m = st.model.clone();
                            let s = self.script(&st, &m);
                            self.rep.errors.push((e.clone(), s));
                        }
                        if self.rep.nerrors >= 12 {
                            return Err(e);
                        }
                        break;
                    }
                }
                let why = if Instant::now() > self.cfg.deadline {
                    "time budget exhausted"
                } else if self.too_big() {
                    "memory budget exhausted"
                } else {
                    continue;
                };
                let m = st.model.clone();
                let s = self.script(&st, &m);
                self.rep.errors.push((why.into(), s));
                self.work.clear();
                return Err(why.into());
            }
            if STOP.load(std::sync::atomic::Ordering::Relaxed) {
                return Err("stopped".into());
            }
            if self.a.v.len() > 100_000_000 {
                return Err("expression budget exhausted".into());
            }
            if self.rep.paths > self.cfg.max_paths {
                return Err("path budget exhausted".into());
            }
            if self.rep.viol_count.len() >= self.cfg.max_sites {
                return Err("stopped: too many distinct violations".into());
            }
            if self.rep.viol_count.values().sum::<u64>() >= 400 {
                return Err("stopped: too many violations".into());
            }
        }
        match self.rep.errors.first() {
            Some(e) => Err(e.0.clone()),
            None => Ok(()),
        }
    }
    fn too_big(&self) -> bool {
        use std::sync::atomic::Ordering::Relaxed;
        let w = self.work.len() * 64 + self.a.v.len();
        let me = &WEIGHT[self.cfg.slot % WEIGHT.len()];
        me.store(w, Relaxed);
        if !SHORT.load(Relaxed) || WEIGHT.iter().any(|x| x.load(Relaxed) > w) {
            return false;
        }
        me.store(0, Relaxed);
        SHORT.store(false, Relaxed);
        true
    }
    // ------------------------------------------------------------ merging
    /// The block where the sides of the branch ending block `b` meet again, if the blocks in
    /// between form no loop (blocks from which the function cannot return are ignored).
    fn join_block(&mut self, fi: u32, b: u32) -> Option<u32> {
        if let Some(j) = self.join_ix.get(&(fi, b)) {
            return *j;
        }
        let f = match self.m.func(fi) {
            Ok(f) => f,
            Err(_) => return None,
        };
        let n = f.blocks.len();
        let succ: Vec<Vec<u32>> = f
            .blocks
            .iter()
            .map(|b| {
                let mut v = vec![];
                match b.ins.last() {
                    Some(Ins::Br(x)) => v.push(*x),
                    Some(Ins::CondBr(_, x, y)) => {
                        v.push(*x);
                        v.push(*y)
                    }
                    Some(Ins::Switch { def, cases, .. }) => {
                        v.push(*def);
                        v.extend(cases.iter().map(|c| c.1));
                    }
                    Some(Ins::Call(c)) => v.extend(c.normal),
                    _ => {}
                }
                v.sort();
                v.dedup();
                v
            })
            .collect();
        let mut live: Vec<bool> = f.blocks.iter().map(|b| matches!(b.ins.last(), Some(Ins::Ret(_)))).collect();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|s| live[*s as usize]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // every candidate: reachable from b, and removing it cuts b off from every return
        let reach = |start: u32, cut: Option<u32>| -> (Vec<bool>, bool) {
            let mut seen = vec![false; n];
            let mut todo: Vec<u32> = succ[start as usize].clone();
            let mut ret = false;
            while let Some(x) = todo.pop() {
                if seen[x as usize] || !live[x as usize] || Some(x) == cut {
                    continue;
                }
                seen[x as usize] = true;
                ret |= succ[x as usize].is_empty();
                todo.extend(&succ[x as usize]);
            }
            (seen, ret)
        };
        let all = reach(b, None).0;
        let mut best: Option<(usize, u32)> = None;
        for j in 0..n as u32 {
            if all[j as usize] && j != b {
                let (region, ret) = reach(b, Some(j));
                let k = region.iter().filter(|x| **x).count();
                if !ret && !region[b as usize] && k <= 60 && best.map_or(true, |x| k < x.0) {
                    // acyclic?
                    let cyc = (0..n as u32).any(|x| region[x as usize] && reach(x, Some(j)).0[x as usize]);
                    if !cyc {
                        best = Some((k, j));
                    }
                }
            }
        }
        let j = best.map(|x| x.1);
        self.join_ix.insert((fi, b), j);
        j
    }
    /// Runs both sides of a branch to where they meet and makes one state of them.
    /// None: not possible (the caller forks).
    fn try_merge(&mut self, st: &State, c: E, t: &(Rc<Model>, bool), f: &(Rc<Model>, bool), fuel: &mut u32, depth: u32) -> Option<State> {
        if depth > 10 {
            return None;
        }
        let fr = st.frames.last().unwrap();
        let func: &'m Func = unsafe { &*fr.f };
        match func.blocks[fr.block as usize].ins[fr.ip as usize] {
            Ins::CondBr(..) | Ins::Switch { .. } => {}
            _ => return None,
        }
        let (fi, b) = (fr.fi, fr.block);
        let j = self.join_block(fi, b)?;
        let nc = self.a.not(c);
        let mut sides = vec![];
        for (cond, m) in [(c, t), (nc, f)] {
            let mut s = st.clone();
            self.add(&mut s, cond);
            let nadd = s.nadd;
            s.model = m.0.clone();
            s.model_ok = m.1;
            loop {
                let old = self.join.replace((st.frames.len(), j));
                let before = s.steps;
                let r = self.steps(&mut s);
                self.join = old;
                let used = (s.steps - before) as u32 + 1;
                if used > *fuel {
                    *fuel = 0;
                    return None;
                }
                *fuel -= used;
                match r {
                    Ok(()) => {}
                    Err(Stop::Join) => break,
                    Err(Stop::Fork(c2, t2, f2)) => s = self.try_merge(&s, c2, &t2, &f2, fuel, depth + 1)?,
                    Err(_) => return None,
                }
                if s.frames.len() < st.frames.len() {
                    return None;
                }
            }
            if s.nadd != nadd {
                return None;
            }
            sides.push(s);
        }
        let y = sides.pop().unwrap();
        let x = sides.pop().unwrap();
        self.merge(st, c, x, y, &func.blocks[j as usize])
    }
    fn merge_val(&mut self, c: E, ty: &Ty, x: &Val, y: &Val) -> Option<Val> {
        match (ty, x, y) {
            (_, Val::C(a), Val::C(b)) if a == b => Some(x.clone()),
            (_, Val::S(a), Val::S(b)) if a == b => Some(x.clone()),
            // sizes and indices stay concrete
            (Ty::Int(w), Val::C(_), Val::C(_)) if *w >= 64 => None,
            (Ty::Int(w), Val::C(_) | Val::S(_), Val::C(_) | Val::S(_)) => {
                let (p, q) = (self.ex(x, *w), self.ex(y, *w));
                if self.a.undef(p) || self.a.undef(q) {
                    return None;
                }
                let e = self.a.ite(c, p, q);
                Some(self.v(e))
            }
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..), Val::A(p), Val::A(q)) if p.len() == q.len() => {
                let mut out = vec![];
                for i in 0..p.len() {
                    out.push(self.merge_val(c, ty.elem(i), &p[i], &q[i])?);
                }
                Some(Val::A(Rc::new(out)))
            }
            _ => None,
        }
    }
    fn merge(&mut self, st: &State, c: E, mut x: State, y: State, j: &Block) -> Option<State> {
        if x.frames.len() != y.frames.len() || x.ninp != y.ninp || x.inputs.len() != y.inputs.len() || x.outs.len() != y.outs.len() || !Rc::ptr_eq(&x.covers, &y.covers) || x.expect_panic != y.expect_panic || !Rc::ptr_eq(&x.ufs, &y.ufs) || !Rc::ptr_eq(&x.globals, &y.globals) {
            return None;
        }
        if x.ninp != st.ninp || x.outs.len() != st.outs.len() {
            return None;
        }
        let (fx, fy) = (x.frames.last().unwrap(), y.frames.last().unwrap());
        if fx.allocas != fy.allocas {
            return None;
        }
        let mut phis = vec![];
        for (d, ty, _) in &j.phis {
            let (a, b) = (fx.regs[*d as usize].clone(), fy.regs[*d as usize].clone());
            phis.push((*d, ty, a, b));
        }
        let mut regs = vec![];
        for (d, ty, a, b) in phis {
            regs.push((d, self.merge_val(c, ty, &a, &b)?));
        }
        // memory
        let n = x.slots.len().max(y.slots.len());
        for i in 0..n {
            if i >= x.slots.len() {
                if y.slots[i].obj.is_some() {
                    return None;
                }
                x.slots.push(y.slots[i].clone());
                continue;
            }
            if i >= y.slots.len() {
                if x.slots[i].obj.is_some() {
                    return None;
                }
                continue;
            }
            let q = &y.slots[i];
            match (&x.slots[i].obj, &q.obj) {
                (None, None) => {
                    let g = x.slots[i].gen.max(q.gen);
                    x.slots[i].gen = g;
                }
                (Some(a), Some(b)) if x.slots[i].gen == q.gen => {
                    if Rc::ptr_eq(a, b) {
                        continue;
                    }
                    let (a, b) = (a.clone(), b.clone());
                    if a.data.len() != b.data.len() || a.kind != b.kind || a.align != b.align {
                        return None;
                    }
                    let mut o = (*a).clone();
                    for k in 0..a.data.len() {
                        let sa = if a.sym.is_empty() { 0 } else { a.sym[k] };
                        let sb = if b.sym.is_empty() { 0 } else { b.sym[k] };
                        if sa == sb && (sa != 0 || a.data[k] == b.data[k]) {
                            continue;
                        }
                        // lengths, tags and pointers stay concrete; uninitialised bytes stay apart
                        if sa == 0 && sb == 0 || sa == 1 || sb == 1 {
                            return None;
                        }
                        let (p, q) = (self.byte(&a, k), self.byte(&b, k));
                        if self.a.undef(p) || self.a.undef(q) {
                            return None;
                        }
                        let e = self.a.ite(c, p, q);
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        match self.a.cst(e) {
                            Some(v) => {
                                o.data[k] = v as u8;
                                o.sym[k] = 0;
                            }
                            None => {
                                o.data[k] = 0;
                                o.sym[k] = e;
                            }
                        }
                    }
                    x.slots[i].obj = Some(Rc::new(o));
                }
                _ => return None,
            }
        }
        x.free = (0..n as u32).rev().filter(|i| x.slots[*i as usize].obj.is_none()).collect();
        let fr = x.frames.last_mut().unwrap();
        for (d, v) in regs {
            fr.regs[d as usize] = v;
        }
        // what held before the branch still holds; nothing was added on either side
        x.groups = st.groups.clone();
        x.known = st.known.clone();
        x.model = st.model.clone();
        x.model_ok = st.model_ok;
        x.nadd = st.nadd;
        x.hot = st.hot.clone();
        x.depth = st.depth;
        x.steps += y.steps - st.steps;
        Some(x)
    }
    fn end_path(&mut self, st: &State, panic: bool) {
        self.rep.paths += 1;
        self.rep.steps += st.steps;
        for c in st.covers.iter() {
            *self.rep.covers.entry(c.clone()).or_insert(0) += 1;
        }
        if !panic {
            if let Some(s) = &st.expect_panic {
                let (m, ok) = (st.model.clone(), st.model_ok);
                self.violation(st, s.clone(), "expected a panic, none happened".into(), &m, ok);
                return;
            }
        }
        let p = self.rep.paths;
        let want = self.cfg.samples;
        if want > 0 && (self.rep.samples.len() < want / 2 || (p.is_power_of_two() && self.rep.samples.len() < want)) && st.model_ok {
            let script = self.script(st, &st.model.clone());
            self.a.eval_begin();
            let outs = st.outs.iter().map(|e| self.a.eval_in(*e, &st.model) as u64).collect();
            self.rep.samples.push(Sample { script, outs, panic });
        }
    }
    fn script(&mut self, st: &State, m: &Rc<Model>) -> String {
        let mut s = String::new();
        self.a.eval_begin();
        for i in &st.inputs {
            match i {
                Input::Sym(e) => s.push_str(&format!("s {:x}\n", self.a.eval_in(*e, m))),
                Input::Conc(c) => s.push_str(&format!("s {:x}\n", c)),
                Input::Bytes(v) => {
                    s.push_str("b ");
                    for e in v.iter() {
                        s.push_str(&format!("{:02x}", self.a.eval_in(*e, m)));
                    }
                    s.push('\n');
                }
            }
        }
        s
    }
    fn violation(&mut self, st: &State, site: String, detail: String, m: &Rc<Model>, ok: bool) {
        *self.rep.viol_count.entry(site.clone()).or_insert(0) += 1;
        // up to three witnesses per site, faithful ones (consistent with the real hash functions) first
        let have: Vec<usize> = (0..self.rep.violations.len()).filter(|i| self.rep.violations[*i].site == site).collect();
        let script = self.script(st, m);
        let v = Violation { site, detail, script: Some(script), faithful: ok };
        if ok && !self.cfg.known && !self.rep.violations.iter().any(|v| v.faithful) {
            // the property is refuted: this job goes on only a little
            self.cfg.deadline = self.cfg.deadline.min(Instant::now() + std::time::Duration::from_secs(40));
            self.z.limit(3000);
            let mut f = FOUND.lock().unwrap();
            f.0 += 1;
            f.1.get_or_insert(Instant::now());
        }
        if have.len() < 3 {
            self.rep.violations.push(v);
        } else if ok {
            if let Some(i) = have.iter().find(|i| !self.rep.violations[**i].faithful) {
                self.rep.violations[*i] = v;
            }
        }
    }
    /// Congruence: arguments that are provably equal, on this path, to those of an earlier
    /// application of the same function are replaced by them.
    fn same_args(&mut self, st: &mut State, k: u8, args: Rc<[E]>) -> X<Rc<[E]>> {
        if st.ufs.iter().any(|(x, b)| *x == k && *b == args) {
            return Ok(args);
        }
        let ufs = st.ufs.clone();
        for (x, b) in ufs.iter().rev() {
            if *x != k {
                continue;
            }
            self.a.eval_begin();
            if (0..args.len()).any(|i| args[i] != b[i] && self.a.eval_in(args[i], &st.model) != self.a.eval_in(b[i], &st.model)) {
                continue;
            }
            let mut differ = self.a.c(0, 1);
            for i in 0..args.len() {
                let e = self.a.eq(args[i], b[i]);
                let ne = self.a.not(e);
                differ = self.a.or(differ, ne);
            }
            match self.feasible(st, differ) {
                Ok(None) => return Ok(b.clone()),
                Ok(Some(_)) | Err(Stop::Err(_)) => {}
                Err(e) => return Err(e),
            }
        }
        Rc::make_mut(&mut st.ufs).push((k, args.clone()));
        Ok(args)
    }
    fn where_(&self, st: &State) -> String {
        // innermost frame belonging to the crate under test, else innermost
        for fr in st.frames.iter().rev() {
            let n = &self.m.fns[fr.fi as usize].name;
            if crate::in_target(n) {
                return crate::short(n);
            }
        }
        crate::short(&self.m.fns[st.frames.last().unwrap().fi as usize].name)
    }
    fn stack(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| crate::short(&self.m.fns[f.fi as usize].name)).collect::<Vec<_>>().join(" < ")
    }

    fn goto(&mut self, st: &mut State, b: u32) -> X<()> {
        let fr = st.frames.last().unwrap();
        let f = unsafe { &*fr.f };
        let from = fr.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, _, inc) in &blk.phis {
                let o = match inc.iter().find(|(p, _)| *p == from) {
                    Some((_, o)) => o,
                    None => return Err(Stop::Err("phi without predecessor".into())),
                };
                let v = self.op(st, o);
                vals.push((*d, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = b;
        fr.ip = 0;
        Ok(())
    }
    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    /// Runs until something needs the scheduler (fork, end, ...).  ip is advanced only
    /// after an instruction completed, so a Fork re-executes the instruction.
    fn steps(&mut self, st: &mut State) -> X<()> {
        for _ in 0..20000 {
            st.steps += 1;
            if let Some((d, b)) = self.join {
                if st.frames.len() == d {
                    let fr = st.frames.last().unwrap();
                    if fr.block == b && fr.ip == 0 {
                        return Err(Stop::Join);
                    }
                }
                if st.steps & 63 == 0 {
                    return Ok(());
                }
            }
            let fr = st.frames.last_mut().unwrap();
            let f: &'m Func = unsafe { &*fr.f };
            let ins = &f.blocks[fr.block as usize].ins[fr.ip as usize];
            match ins {
                Ins::Br(b) => {
                    self.goto(st, *b)?;
                    continue;
                }
                Ins::CondBr(c, x, y) => {
                    let v = self.op(st, c);
                    let t = match v {
                        Val::C(c) => c & 1 == 1,
                        Val::S(e) => self.decide(st, e)?,
                        _ => return Err(Stop::Err("br".into())),
                    };
                    self.goto(st, if t { *x } else { *y })?;
                    continue;
                }
                Ins::Switch { w, v, def, cases } => {
                    let v = self.op(st, v);
                    let b = self.switch(st, &v, *w, *def, cases)?;
                    self.goto(st, b)?;
                    continue;
                }
                Ins::Ret(o) => {
                    let v = match o {
                        Some(o) => Some(self.op(st, o)),
                        None => None,
                    };
                    self.ret(st, v)?;
                    continue;
                }
                Ins::Call(c) => {
                    self.call(st, c)?;
                    continue;
                }
                Ins::Unreachable => return Err(Stop::Violation("unreachable".into(), "unreachable code executed".into())),
                Ins::Unsupported(e) => return Err(Stop::Err(format!("unsupported instruction: {}", e))),
                _ => {}
            }
            self.simple(st, ins)?;
            st.frames.last_mut().unwrap().ip += 1;
        }
        if st.steps > self.cfg.max_steps {
            return Err(Stop::Err("step budget exhausted on one path".into()));
        }
        Ok(())
    }
    fn switch(&mut self, st: &mut State, v: &Val, w: u32, def: u32, cases: &[(u64, u32)]) -> X<u32> {
        let e = match v {
            Val::C(c) => return Ok(cases.iter().find(|x| x.0 == *c).map(|x| x.1).unwrap_or(def)),
            Val::S(e) => *e,
            _ => return Err(Stop::Err("switch".into())),
        };
        if let Some(k) = self.known(st, e) {
            return Ok(cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(def));
        }
        // start with the destination the current model takes
        let mut dests: Vec<u32> = vec![];
        for c in cases {
            if !dests.contains(&c.1) {
                dests.push(c.1);
            }
        }
        if st.model_ok {
            let mv = self.a.eval(e, &st.model) as u64;
            let b = cases.iter().find(|x| x.0 == mv).map(|x| x.1).unwrap_or(def);
            if let Some(p) = dests.iter().position(|d| *d == b) {
                dests.swap(0, p);
            } else {
                dests.insert(0, def);
            }
        }
        for d in dests {
            let mut c = self.a.fls();
            for (k, t) in cases {
                if *t == d {
                    let kk = self.a.c(*k as u128, w);
                    let q = self.a.eq(e, kk);
                    c = self.a.or(c, q);
                }
            }
            if d == def {
                let mut n = self.a.tru();
                for (k, t) in cases {
                    if *t != def {
                        let kk = self.a.c(*k as u128, w);
                        let q = self.a.eq(e, kk);
                        let q = self.a.not(q);
                        n = self.a.and(n, q);
                    }
                }
                c = n;
            }
            if self.decide(st, c)? {
                return Ok(d);
            }
        }
        Ok(def)
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for s in fr.allocas.iter().rev() {
            self.free_slot(st, *s);
        }
        if st.frames.is_empty() {
            st.frames.push(Frame { allocas: vec![], ..fr });
            return Err(Stop::Done);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(st, d, v);
        }
        self.after_call(st, fr.normal)
    }
    fn after_call(&mut self, st: &mut State, normal: Option<u32>) -> X<()> {
        match normal {
            Some(b) => self.goto(st, b),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn simple(&mut self, st: &mut State, ins: &Ins) -> X<()> {
        match ins {
            Ins::Alloca { dst, size, cnt } => {
                let n = self.op(st, cnt);
                let n = self.conc(st, &n, 64)?;
                let (p, s) = self.alloc(st, size * n, 16, 0, false)?;
                st.frames.last_mut().unwrap().allocas.push(s);
                self.set(st, *dst, Val::C(p));
            }
            Ins::Load { dst, ty, p } => {
                let p = self.op(st, p);
                let v = self.load(st, &p, ty)?;
                self.set(st, *dst, v);
            }
            Ins::Store { ty, v, p } => {
                let p = self.op(st, p);
                let a = self.conc(st, &p, 64)?;
                let v = self.op(st, v);
                self.wr(st, a, ty, &v)?;
            }
            Ins::Gep { dst, base, off, terms } => {
                let b = self.op(st, base);
                let mut r = self.bin(BinK::Add, 64, &b, &Val::C(*off))?;
                for (t, w, sc) in terms {
                    let v = self.op(st, t);
                    let v = if *w < 64 { self.cast1(CastK::Sext, *w, 64, &v) } else { v };
                    let v = self.bin(BinK::Mul, 64, &v, &Val::C(*sc))?;
                    r = self.bin(BinK::Add, 64, &r, &v)?;
                }
                self.set(st, *dst, r);
            }
            Ins::Bin { dst, k, w, n, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                // symbolic divisors: exclude zero explicitly
                if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) {
                    if let Val::S(e) = &y {
                        let z = self.a.c(0, *w);
                        let c = self.a.eq(*e, z);
                        if self.decide(st, c)? {
                            return Err(Stop::Violation("ub".into(), "division by zero".into()));
                        }
                    }
                }
                let r = if *n == 0 {
                    self.bin(*k, *w, &x, &y)?
                } else {
                    match (&x, &y) {
                        (Val::A(p), Val::A(q)) => {
                            let mut out = vec![];
                            for i in 0..p.len() {
                                out.push(self.bin(*k, *w, &p[i], &q[i])?);
                            }
                            Val::A(Rc::new(out))
                        }
                        _ => return Err(Stop::Err("vector bin".into())),
                    }
                };
                self.set(st, *dst, r);
            }
            Ins::Icmp { dst, p, w, n, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = if *n == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    match (&x, &y) {
                        (Val::A(u), Val::A(v)) => {
                            let mut out = vec![];
                            for i in 0..u.len() {
                                out.push(self.icmp(*p, *w, &u[i], &v[i]));
                            }
                            Val::A(Rc::new(out))
                        }
                        _ => return Err(Stop::Err("vector icmp".into())),
                    }
                };
                self.set(st, *dst, r);
            }
            Ins::Cast { dst, k, from, to, a } => {
                let x = self.op(st, a);
                let r = self.cast(*k, from, to, &x)?;
                self.set(st, *dst, r);
            }
            Ins::Select { dst, ty, vc, c, a, b } => {
                let cv = self.op(st, c);
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = if *vc {
                    match (&cv, &x, &y) {
                        (Val::A(c), Val::A(x), Val::A(y)) => {
                            let w = ty.elem(0).bits();
                            let mut out = vec![];
                            for i in 0..c.len() {
                                let r = match &c[i] {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    Val::S(e) => {
                                        let (p, q) = (self.ex(&x[i], w), self.ex(&y[i], w));
                                        let r = self.a.ite(*e, p, q);
                                        self.v(r)
                                    }
                                    _ => return Err(Stop::Err("select".into())),
                                };
                                out.push(r);
                            }
                            Val::A(Rc::new(out))
                        }
                        _ => return Err(Stop::Err("vector select".into())),
                    }
                } else {
                    match cv {
                        Val::C(c) => {
                            if c & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::S(e) => {
                            let scalar = matches!(ty, Ty::Int(_)) && ty.bits() != 64;
                            let und = |s: &Exec, v: &Val| matches!(v, Val::S(e) if s.a.undef(*e));
                            if scalar && !self.a.undef(e) && !und(self, &x) && !und(self, &y) && self.known(st, e).is_none() {
                                let w = ty.bits();
                                let (p, q) = (self.ex(&x, w), self.ex(&y, w));
                                let r = self.a.ite(e, p, q);
                                self.v(r)
                            } else if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return Err(Stop::Err("select".into())),
                    }
                };
                self.set(st, *dst, r);
            }
            Ins::Extract { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match v {
                        Val::A(p) => p[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *dst, v);
            }
            Ins::Insert { dst, ty, a, v, idx } => {
                let x = self.op(st, a);
                let v = self.op(st, v);
                let _ = ty;
                fn ins(x: Val, idx: &[u32], v: Val) -> Option<Val> {
                    match x {
                        Val::A(mut p) => {
                            let q = Rc::make_mut(&mut p);
                            let i = idx[0] as usize;
                            if idx.len() == 1 {
                                q[i] = v;
                            } else {
                                let old = std::mem::replace(&mut q[i], Val::C(0));
                                q[i] = ins(old, &idx[1..], v)?;
                            }
                            Some(Val::A(p))
                        }
                        _ => None,
                    }
                }
                let r = ins(x, idx, v).ok_or(Stop::Err("insertvalue".into()))?;
                self.set(st, *dst, r);
            }
            Ins::ExtElem { dst, a, i } => {
                let x = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc(st, &i, 64)?;
                match x {
                    Val::A(p) => {
                        let v = p.get(i as usize).cloned().ok_or(Stop::Err("extractelement".into()))?;
                        self.set(st, *dst, v)
                    }
                    _ => return Err(Stop::Err("extractelement".into())),
                }
            }
            Ins::InsElem { dst, ty: _, a, v, i } => {
                let x = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let i = self.conc(st, &i, 64)?;
                match x {
                    Val::A(mut p) => {
                        Rc::make_mut(&mut p)[i as usize] = v;
                        self.set(st, *dst, Val::A(p))
                    }
                    _ => return Err(Stop::Err("insertelement".into())),
                }
            }
            Ins::Shuffle { dst, n, w, a, b, mask } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                match (&x, &y) {
                    (Val::A(p), Val::A(q)) => {
                        let mut out = vec![];
                        for m in mask {
                            out.push(match m {
                                Some(i) if (*i as usize) < *n as usize => p[*i as usize].clone(),
                                Some(i) => q[*i as usize - *n as usize].clone(),
                                None => Val::S(self.a.undef_of(*w)),
                            });
                        }
                        self.set(st, *dst, Val::A(Rc::new(out)));
                    }
                    _ => return Err(Stop::Err("shufflevector".into())),
                }
            }
            Ins::Rmw { dst, op, ty, p, v } => {
                let p = self.op(st, p);
                let a = self.conc(st, &p, 64)?;
                let v = self.op(st, v);
                let old = self.load(st, &Val::C(a), ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "add" => self.bin(BinK::Add, w, &old, &v)?,
                    "sub" => self.bin(BinK::Sub, w, &old, &v)?,
                    "and" => self.bin(BinK::And, w, &old, &v)?,
                    "or" => self.bin(BinK::Or, w, &old, &v)?,
                    "xor" => self.bin(BinK::Xor, w, &old, &v)?,
                    "xchg" => v,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.wr(st, a, ty, &new)?;
                self.set(st, *dst, old);
            }
            Ins::CmpXchg { dst, ty, p, c, n } => {
                let p = self.op(st, p);
                let a = self.conc(st, &p, 64)?;
                let c = self.op(st, c);
                let n = self.op(st, n);
                let old = self.load(st, &Val::C(a), ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let ok = match &eq {
                    Val::C(x) => *x == 1,
                    Val::S(e) => self.decide(st, *e)?,
                    _ => false,
                };
                if ok {
                    self.wr(st, a, ty, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            Ins::Freeze { dst, ty, a } => {
                let x = self.op(st, a);
                let r = match &x {
                    Val::S(e) if self.a.undef(*e) && ty.is_scalar() && matches!(self.a.v[*e as usize].n, N::Undef) => Val::C(0),
                    _ => x,
                };
                self.set(st, *dst, r);
            }
            _ => return Err(Stop::Err("unexpected instruction".into())),
        }
        Ok(())
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, x: &Val) -> X<Val> {
        match (from, to) {
            (Ty::Vect(n, f), Ty::Vect(m, t)) if n == m => {
                let (fw, tw) = (f.bits(), t.bits());
                match x {
                    Val::A(p) => {
                        let mut out = vec![];
                        for v in p.iter() {
                            out.push(self.cast1(k, fw, tw, v));
                        }
                        Ok(Val::A(Rc::new(out)))
                    }
                    _ => Err(Stop::Err("vector cast".into())),
                }
            }
            (Ty::Vect(..), _) | (_, Ty::Vect(..)) => {
                // bit reinterpretation
                let e = match from {
                    Ty::Vect(_, f) => {
                        let w = f.bits();
                        match x {
                            Val::A(p) => {
                                let mut parts = vec![];
                                for v in p.iter().rev() {
                                    let e = self.ex(v, w);
                                    parts.push(e);
                                }
                                self.a.concat(&parts)
                            }
                            _ => return Err(Stop::Err("vector bitcast".into())),
                        }
                    }
                    t => self.ex(x, t.bits()),
                };
                match to {
                    Ty::Vect(n, t) => {
                        let w = t.bits();
                        let mut out = vec![];
                        for i in 0..*n as u32 {
                            let y = self.a.extract(e, i * w, w);
                            out.push(self.v(y));
                        }
                        Ok(Val::A(Rc::new(out)))
                    }
                    _ => Ok(self.v(e)),
                }
            }
            (f, t) => {
                if !f.is_scalar() || !t.is_scalar() {
                    return Err(Stop::Err("cast".into()));
                }
                if f.bits() > 128 || t.bits() > 128 {
                    return Err(Stop::Err("cast beyond 128 bits".into()));
                }
                Ok(self.cast1(k, f.bits(), t.bits(), x))
            }
        }
    }

    fn call(&mut self, st: &mut State, c: &Call) -> X<()> {
        let fi = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => {
                let v = self.op(st, o);
                let a = self.conc(st, &v, 64)?;
                let hi = a >> 32;
                if hi < FN_BASE || (hi - FN_BASE) as usize >= self.m.fns.len() || a & 0xffff_ffff != 0 {
                    return self.memerr("call through a bad pointer", a, 0);
                }
                (hi - FN_BASE) as u32
            }
            Callee::Intr(i, w) => {
                let r = self.intrinsic(st, c, *i, *w)?;
                if let (Some(d), Some(r)) = (c.dst, r) {
                    self.set(st, d, r);
                }
                return self.after_call(st, c.normal);
            }
            Callee::Asm => {
                // only empty asm bodies (optimisation barriers)
                if c.name.starts_with('|') {
                    if let Some(d) = c.dst {
                        let v = match c.args.first() {
                            Some((_, o)) => self.op(st, o),
                            None => return Err(Stop::Err("asm result".into())),
                        };
                        self.set(st, d, v);
                    }
                    return self.after_call(st, c.normal);
                }
                return Err(Stop::Err(format!("inline asm {}", c.name)));
            }
        };
        let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            let v = self.op(st, o);
            args.push(v);
        }
        let sp = self.sp[fi as usize];
        if sp != Special::No {
            let target = if sp == Special::Format { self.fmt_fn } else { None };
            if let Some(t) = target {
                args.truncate(1);
                return self.push(st, t, args, c);
            }
            let r = self.special_call(st, sp, fi, &args)?;
            if let (Some(d), Some(r)) = (c.dst, r) {
                self.set(st, d, r);
            }
            return self.after_call(st, c.normal);
        }
        self.push(st, fi, args, c)
    }
    fn push(&mut self, st: &mut State, fi: u32, args: Vec<Val>, c: &Call) -> X<()> {
        let f = self.m.func(fi).map_err(Stop::Err)?;
        if st.frames.len() > 400 {
            return Err(Stop::Err("call depth".into()));
        }
        self.rep.fns.insert(fi);
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(0));
        st.frames.push(Frame { f, fi, block: 0, ip: 0, regs, dst: c.dst, normal: c.normal, allocas: vec![] });
        Ok(())
    }
    fn new_var(&mut self, st: &mut State, w: u32) -> E {
        let n = self.varids.len() as u32;
        let id = *self.varids.entry((st.ninp, w)).or_insert(n);
        st.ninp += 1;
        self.a.var(id, w)
    }
    fn check_feasible_or_stop(&mut self, st: &mut State, e: E) -> X<()> {
        // assume e
        match self.a.cst(e) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Infeasible),
            None => {}
        }
        match self.known(st, e) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Infeasible),
            None => {}
        }
        match self.feasible(st, e)? {
            None => Err(Stop::Infeasible),
            Some((m, ok)) => {
                st.model = m;
                st.model_ok = ok;
                self.add(st, e);
                Ok(())
            }
        }
    }
    fn special_call(&mut self, st: &mut State, sp: Special, fi: u32, a: &[Val]) -> X<Option<Val>> {
        use Special::*;
        Ok(match sp {
            Alloc | AllocZeroed => {
                let n = self.conc(st, &a[0], 64)?;
                let al = self.conc(st, &a[1], 64)?;
                let (p, _) = self.alloc(st, n, al, 1, sp == AllocZeroed)?;
                Some(Val::C(p))
            }
            Malloc => {
                let n = self.conc(st, &a[0], 64)?;
                Some(Val::C(self.alloc(st, n, 16, 1, false)?.0))
            }
            Calloc => {
                let n = self.conc(st, &a[0], 64)?;
                let k = self.conc(st, &a[1], 64)?;
                Some(Val::C(self.alloc(st, n.wrapping_mul(k), 16, 1, true)?.0))
            }
            Dealloc | Free => {
                let p = self.conc(st, &a[0], 64)?;
                if sp == Free && p == 0 {
                    return Ok(None);
                }
                let want = if sp == Dealloc { Some((self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?)) } else { None };
                let (o, off) = self.obj(st, p, 0, "free")?;
                if off != 0 || o.kind != 1 {
                    return self.memerr("invalid free", p, 0);
                }
                if let Some((n, al)) = want {
                    if n != o.data.len() as u64 || al != o.align {
                        return self.memerr(&format!("free with size {} align {} of an allocation of {} bytes, align {}", n, al, o.data.len(), o.align), p, n);
                    }
                }
                drop(o);
                self.free_slot(st, (p >> 32) as u32 & 0xf_ffff);
                None
            }
            Realloc | CRealloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, if sp == Realloc { &a[3] } else { &a[1] }, 64)?;
                if p == 0 {
                    return Ok(Some(Val::C(self.alloc(st, n, 16, 1, false)?.0)));
                }
                let (o, off) = self.obj(st, p, 0, "realloc")?;
                if off != 0 || o.kind != 1 {
                    return self.memerr("invalid realloc", p, 0);
                }
                let old = o.data.len() as u64;
                let al = o.align;
                if sp == Realloc {
                    let decl = self.conc(st, &a[1], 64)?;
                    if decl != old {
                        return self.memerr("realloc with wrong size", p, decl);
                    }
                }
                drop(o);
                let (q, _) = self.alloc(st, n, al, 1, false)?;
                self.copy(st, q, p, old.min(n))?;
                self.free_slot(st, (p >> 32) as u32 & 0xf_ffff);
                Some(Val::C(q))
            }
            PosixMemalign => {
                let p = self.conc(st, &a[0], 64)?;
                let al = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let (q, _) = self.alloc(st, n, al, 1, false)?;
                self.wr(st, p, &Ty::Ptr, &Val::C(q))?;
                Some(Val::C(0))
            }
            Bcmp | Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if sp == Bcmp {
                    let mut acc = self.a.tru();
                    let mut i = 0;
                    while i < x.len() {
                        let j = (i + 16).min(x.len());
                        let u = self.a.concat(&x[i..j]);
                        let v = self.a.concat(&y[i..j]);
                        let e = self.a.eq(u, v);
                        acc = self.a.and(acc, e);
                        i = j;
                    }
                    let ne = self.a.not(acc);
                    let r = self.a.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut r = self.a.c(0, 32);
                    let one = self.a.c(1, 32);
                    let neg = self.a.c(u128::MAX, 32);
                    for i in (0..x.len()).rev() {
                        let e = self.a.eq(x[i], y[i]);
                        let l = self.a.ult(x[i], y[i]);
                        let d = self.a.ite(l, neg, one);
                        r = self.a.ite(e, r, d);
                    }
                    Some(self.v(r))
                }
            }
            Memcpy => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                self.copy(st, d, s, n)?;
                Some(a[0].clone())
            }
            Memset => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let b = self.cast1(CastK::Trunc, 32, 8, &a[1]);
                self.fill(st, d, &b, n)?;
                Some(a[0].clone())
            }
            Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let b = self.load(st, &Val::C(p + n), &Ty::Int(8))?;
                    let b = self.conc(st, &b, 8)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Panic | PanicUb => {
                let mut loc = String::new();
                // the last pointer argument is &Location { file: &str, line, col }
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let Ok((o, off)) = self.obj(st, *p, 24, "read") {
                            if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) = (self.rd(&o, off, &Ty::Ptr), self.rd(&o, off + 8, &Ty::Int(64)), self.rd(&o, off + 16, &Ty::Int(32))) {
                                if n < 400 {
                                    if let Ok((fo, fof)) = self.obj(st, f, n, "read") {
                                        loc = format!("{}:{}", String::from_utf8_lossy(&fo.data[fof..fof + n as usize]), l);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                return Err(Stop::Violation(if sp == Panic { "panic" } else { "ub" }.into(), format!("panic at {}", loc)));
            }
            Abort => return Err(Stop::Violation("panic".into(), "abort".into())),
            Sha1 | Md5 => {
                let sha = sp == Sha1;
                let (k, ns) = if sha { (0u8, 5u64) } else { (1u8, 4u64) };
                let sp_ = self.conc(st, &a[0], 64)?;
                let bp = self.conc(st, &a[1], 64)?;
                let nblk = if sha { self.conc(st, &a[2], 64)? } else { 1 };
                for blk in 0..nblk {
                    let mut args: Vec<E> = vec![];
                    for i in 0..ns {
                        let v = self.load(st, &Val::C(sp_ + 4 * i), &Ty::Int(32))?;
                        args.push(self.ex(&v, 32));
                    }
                    for i in 0..16 {
                        let at = bp + 64 * blk + 4 * i;
                        if sha {
                            // big-endian words from bytes
                            let mut parts: Vec<E> = vec![];
                            for j in 0..4 {
                                let v = self.load(st, &Val::C(at + j), &Ty::Int(8))?;
                                parts.push(self.ex(&v, 8));
                            }
                            let w = self.a.concat(&parts);
                            args.push(w);
                        } else {
                            let v = self.load(st, &Val::C(at), &Ty::Int(32))?;
                            args.push(self.ex(&v, 32));
                        }
                    }
                    let conc: Option<Vec<u32>> = args.iter().map(|e| self.a.cst(*e).map(|c| c as u32)).collect();
                    let mut rc: Rc<[E]> = args.into();
                    if conc.is_none() {
                        rc = self.same_args(st, k, rc)?;
                    }
                    for i in 0..ns {
                        let v = match &conc {
                            Some(c) => Val::C(crate::hashes::apply(k, c)[i as usize] as u64),
                            None => Val::S(self.a.uf(k, i as u8, rc.clone())),
                        };
                        self.wr(st, sp_ + 4 * i, &Ty::Int(32), &v)?;
                    }
                }
                None
            }
            VpSym => {
                let w = self.conc(st, &a[0], 32)? as u32;
                let v = self.new_var(st, w);
                st.inputs.push(Input::Sym(v));
                let e = self.a.zext(v, 64);
                Some(self.v(e))
            }
            VpBytes => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.new_var(st, 8));
                }
                if n > 0 {
                    self.with_mut(st, p, n, |o, off| {
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        for (k, e) in v.iter().enumerate() {
                            o.sym[off + k] = *e;
                        }
                    })?;
                }
                st.inputs.push(Input::Bytes(Rc::new(v)));
                None
            }
            VpAssume => {
                let e = self.ex1(&a[0]);
                self.check_feasible_or_stop(st, e)?;
                None
            }
            VpCheck => {
                let site = self.read_str(st, &a[1], &a[2])?;
                let e = self.ex1(&a[0]);
                self.rep.checks += 1;
                *self.rep.check_sites.entry(site.clone()).or_insert(0) += 1;
                if self.a.undef(e) {
                    return Err(Stop::Violation(site, "asserted value depends on uninitialised memory".into()));
                }
                let ne = self.a.not(e);
                if self.a.cst(ne) == Some(0) || self.known(st, e) == Some(1) {
                    return Ok(None);
                }
                if let Some((m, ok)) = self.feasible(st, ne)? {
                    let d = format!("assertion can fail | stack: {}", self.stack(st));
                    self.violation(st, site, d, &m, ok);
                    self.check_feasible_or_stop(st, e)?;
                } else {
                    self.learn(st, e, 1);
                }
                None
            }
            VpCover => {
                let s = self.read_str(st, &a[0], &a[1])?;
                Rc::make_mut(&mut st.covers).insert(s);
                None
            }
            VpConc => Some(Val::C(self.conc(st, &a[0], 64)?)),
            VpParam => {
                let i = self.conc(st, &a[0], 32)? as usize;
                match self.params.get(i) {
                    Some(p) => Some(Val::C(*p)),
                    None => return Err(Stop::Err(format!("missing parameter {}", i))),
                }
            }
            VpOut => {
                let e = self.ex(&a[0], 64);
                st.outs.push(e);
                None
            }
            VpExpectPanic => {
                let s = self.read_str(st, &a[0], &a[1])?;
                st.expect_panic = Some(s);
                None
            }
            VpNative => Some(Val::C(0)),
            VpLive => Some(Val::C(st.slots.iter().filter(|s| s.obj.as_ref().map(|o| o.kind == 1).unwrap_or(false)).count() as u64)),
            GetRandom => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                self.fill(st, p, &Val::C(0x5a), n)?;
                Some(Val::C(n))
            }
            Format | ExternUnsupported | No => return Err(Stop::Err(format!("call of external function {}", self.m.fns[fi as usize].name))),
        })
    }
    fn ex1(&mut self, v: &Val) -> E {
        // a bool passed as i1 / i8
        match v {
            Val::C(c) => self.a.c((*c & 1) as u128, 1),
            Val::S(e) => {
                if self.a.w(*e) == 1 {
                    *e
                } else {
                    self.a.extract(*e, 0, 1)
                }
            }
            _ => panic!("bool"),
        }
    }
    fn intrinsic(&mut self, st: &mut State, c: &Call, i: Intr, w: u32) -> X<Option<Val>> {
        let mut a: Vec<Val> = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            let v = self.op(st, o);
            a.push(v);
        }
        // vector forms of the element-wise intrinsics
        if matches!(i, Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::Bswap | Intr::Ctpop | Intr::USubSat | Intr::UAddSat | Intr::Bitreverse) {
            if let Val::A(v0) = &a[0] {
                let mut out = vec![];
                for k in 0..v0.len() {
                    let xs: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(p) => p[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(self.intr1(st, i, w, &xs)?.unwrap());
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        self.intr1(st, i, w, &a)
    }
    /// 64-bit selections are nearly always lengths: fork instead of building if-then-else
    /// terms that end up in addresses.
    fn sel_len(&mut self, st: &mut State, c: &Val, w: u32, x: &Val, y: &Val) -> X<Val> {
        if w == 64 {
            if let Val::S(e) = c {
                if !self.a.undef(*e) {
                    return Ok(if self.decide(st, *e)? { x.clone() } else { y.clone() });
                }
            }
        }
        Ok(self.sel(c, w, x, y))
    }
    fn intr1(&mut self, st: &mut State, i: Intr, w: u32, a: &[Val]) -> X<Option<Val>> {
        Ok(match i {
            Intr::Nop => None,
            Intr::Assume => {
                if let Val::C(0) = a[0] {
                    return Err(Stop::Violation("ub".into(), "llvm.assume(false)".into()));
                }
                None
            }
            Intr::Memcpy => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                self.copy(st, d, s, n)?;
                None
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &a[0], 64)?;
                self.fill(st, d, &a[1], n)?;
                None
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match i {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                Some(self.sel_len(st, &c, w, &a[0], &a[1])?)
            }
            Intr::Bswap => {
                if let Val::C(x) = a[0] {
                    if w <= 64 {
                        return Ok(Some(Val::C(x.swap_bytes() >> (64 - w))));
                    }
                }
                let e = self.ex(&a[0], w);
                let mut parts = vec![];
                for k in 0..w / 8 {
                    parts.push(self.a.extract(e, 8 * k, 8));
                }
                let r = self.a.concat(&parts);
                Some(self.v(r))
            }
            Intr::Bitreverse => {
                if let Val::C(x) = a[0] {
                    return Ok(Some(Val::C(x.reverse_bits() >> (64 - w))));
                }
                let e = self.ex(&a[0], w);
                let mut parts = vec![];
                for k in 0..w {
                    parts.push(self.a.extract(e, k, 1));
                }
                let r = self.a.concat(&parts);
                Some(self.v(r))
            }
            Intr::USubSat => {
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                let d = self.bin(BinK::Sub, w, &a[0], &a[1])?;
                Some(self.sel_len(st, &c, w, &Val::C(0), &d)?)
            }
            Intr::UAddSat => {
                let s = self.bin(BinK::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &a[0]);
                Some(self.sel_len(st, &c, w, &Val::C(m64(w)), &s)?)
            }
            Intr::UAddO | Intr::USubO => {
                let (r, o) = if i == Intr::UAddO {
                    let s = self.bin(BinK::Add, w, &a[0], &a[1])?;
                    let o = self.icmp(Pred::Ult, w, &s, &a[0]);
                    (s, o)
                } else {
                    let s = self.bin(BinK::Sub, w, &a[0], &a[1])?;
                    let o = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                    (s, o)
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return Err(Stop::Err("wide overflow intrinsic".into()));
                }
                let sg = i != Intr::UMulO;
                let k = if sg { CastK::Sext } else { CastK::Zext };
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                // cheap bound first
                if !sg {
                    let (ux, uy) = (self.a.v[x as usize].umax, self.a.v[y as usize].umax);
                    if ux.checked_mul(uy).map_or(false, |p| p <= mask(w)) {
                        let r = self.a.mul(x, y);
                        return Ok(Some(Val::A(Rc::new(vec![self.v(r), Val::C(0)]))));
                    }
                }
                let (vx, vy) = (Val::S(x), Val::S(y));
                let xw = self.cast1(k, w, 2 * w, &vx);
                let yw = self.cast1(k, w, 2 * w, &vy);
                let (xe, ye) = (self.ex(&xw, 2 * w), self.ex(&yw, 2 * w));
                let full = match i {
                    Intr::SAddO => self.a.add(xe, ye),
                    Intr::SSubO => self.a.sub(xe, ye),
                    _ => self.a.mul(xe, ye),
                };
                let lo = self.a.extract(full, 0, w);
                let back = if sg { self.a.sext(lo, 2 * w) } else { self.a.zext(lo, 2 * w) };
                let eq = self.a.eq(full, back);
                let o = self.a.not(eq);
                Some(Val::A(Rc::new(vec![self.v(lo), self.v(o)])))
            }
            Intr::IsConstant => Some(Val::C(0)),
            Intr::UCmp | Intr::SCmp => {
                // result i8 (the common case)
                let (lt, gt) = if i == Intr::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let g = self.icmp(gt, w, &a[0], &a[1]);
                let r = self.sel(&g, 8, &Val::C(1), &Val::C(0));
                Some(self.sel(&l, 8, &Val::C(0xff), &r))
            }
            Intr::Ctlz | Intr::Cttz => {
                if let Val::C(x) = a[0] {
                    let r = if i == Intr::Ctlz {
                        if x == 0 {
                            w as u64
                        } else {
                            (x.leading_zeros() - (64 - w)) as u64
                        }
                    } else if x == 0 {
                        w as u64
                    } else {
                        x.trailing_zeros() as u64
                    };
                    return Ok(Some(Val::C(r)));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.a.c(w as u128, w);
                for k in 0..w {
                    // process so that the most significant decision comes last
                    let pos = if i == Intr::Ctlz { k } else { w - 1 - k };
                    let b = self.a.extract(e, pos, 1);
                    let val = if i == Intr::Ctlz { w - 1 - pos } else { pos };
                    let v = self.a.c(val as u128, w);
                    r = self.a.ite(b, v, r);
                }
                Some(self.v(r))
            }
            Intr::Ctpop => {
                if let Val::C(x) = a[0] {
                    return Ok(Some(Val::C(x.count_ones() as u64)));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.a.c(0, w);
                for k in 0..w {
                    let b = self.a.extract(e, k, 1);
                    let z = if w > 1 { self.a.zext(b, w) } else { b };
                    r = self.a.add(r, z);
                }
                Some(self.v(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let k = self.conc(st, &a[2], w)? % w as u64;
                let x = self.ex(&a[0], w);
                let y = self.ex(&a[1], w);
                let k = k as u32;
                let r = if i == Intr::Fshl {
                    if k == 0 {
                        x
                    } else {
                        let p = self.a.extract(x, 0, w - k);
                        let q = self.a.extract(y, w - k, k);
                        self.a.concat(&[p, q])
                    }
                } else if k == 0 {
                    y
                } else {
                    let p = self.a.extract(x, 0, k);
                    let q = self.a.extract(y, k, w - k);
                    self.a.concat(&[p, q])
                };
                Some(self.v(r))
            }
            Intr::Abs => {
                let c = self.icmp(Pred::Slt, w, &a[0], &Val::C(0));
                let n = self.bin(BinK::Sub, w, &Val::C(0), &a[0])?;
                Some(self.sel(&c, w, &n, &a[0]))
            }
            Intr::Trap => return Err(Stop::Violation("panic".into(), "llvm.trap".into())),
            Intr::TlsAddr | Intr::Expect => Some(a[0].clone()),
            Intr::ReduceAnd | Intr::ReduceOr | Intr::ReduceAdd | Intr::ReduceXor => {
                let k = match i {
                    Intr::ReduceAnd => BinK::And,
                    Intr::ReduceOr => BinK::Or,
                    Intr::ReduceAdd => BinK::Add,
                    _ => BinK::Xor,
                };
                match &a[0] {
                    Val::A(p) => {
                        let mut r = p[0].clone();
                        for x in p[1..].iter() {
                            r = self.bin(k, w, &r, x)?;
                        }
                        Some(r)
                    }
                    _ => return Err(Stop::Err("reduce".into())),
                }
            }
            Intr::Unsupported => return Err(Stop::Err("unsupported intrinsic".into())),
        })
    }
    fn sel(&mut self, c: &Val, w: u32, x: &Val, y: &Val) -> Val {
        match c {
            Val::C(c) => {
                if c & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::S(e) => {
                let (p, q) = (self.ex(x, w), self.ex(y, w));
                let r = self.a.ite(*e, p, q);
                self.v(r)
            }
            _ => panic!("sel"),
        }
    }
}
