//! Random circuits: structure generator, satisfying witnesses, an independent reference
//! evaluator of the constraint semantics, and glue to the system under test.

use std::any::Any as StdAny;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use ff::{FromUniformBytes, WithSmallOrderMulGroup};
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::{AssignedCell, Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::{MockProver, VerifyFailure};
use halo2_proofs::plonk::{
    create_proof, keygen_pk, keygen_vk, verify_proof, Advice, Any, Assigned, Circuit, Column, ConstraintSystem, Error,
    Expression, Fixed, FloorPlanner, Instance, ProvingKey, Selector, SingleVerifier, TableColumn, VerifyingKey,
};
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::poly::Rotation;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255};
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use rand_core::RngCore;

use crate::engine::Cx;
use crate::tamper::{self, Ev, Recorder, Tamper, K};

pub trait Fld: WithSmallOrderMulGroup<3> + FromUniformBytes<64> + Ord {}
impl Fld for Fp {}
impl Fld for Fq {}

pub trait Cv<F: Fld>: CurveAffine<ScalarExt = F> {
    const NAME: &'static str;
    fn cache() -> &'static Mutex<HashMap<u32, Arc<Params<Self>>>>;
    fn params(k: u32) -> Arc<Params<Self>> {
        if let Some(p) = Self::cache().lock().unwrap().get(&k) {
            return p.clone();
        }
        let p = Arc::new(Params::new(k));
        Self::cache().lock().unwrap().entry(k).or_insert(p).clone()
    }
}
lazy_static::lazy_static! {
    static ref EQ: Mutex<HashMap<u32, Arc<Params<EqAffine>>>> = Default::default();
    static ref EP: Mutex<HashMap<u32, Arc<Params<EpAffine>>>> = Default::default();
}
impl Cv<Fp> for EqAffine {
    const NAME: &'static str = "vesta";
    fn cache() -> &'static Mutex<HashMap<u32, Arc<Params<Self>>>> {
        &EQ
    }
}
impl Cv<Fq> for EpAffine {
    const NAME: &'static str = "pallas";
    fn cache() -> &'static Mutex<HashMap<u32, Arc<Params<Self>>>> {
        &EP
    }
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug, PartialEq)]
pub enum Ex<F> {
    C(F),
    A(usize, i32),
    X(usize),
    I(usize, i32),
    S(usize),
    Neg(Box<Ex<F>>),
    Add(Box<Ex<F>>, Box<Ex<F>>),
    Sub(Box<Ex<F>>, Box<Ex<F>>),
    Mul(Box<Ex<F>>, Box<Ex<F>>),
    Scale(Box<Ex<F>>, F),
}
use Ex::*;
impl<F: Fld> Ex<F> {
    pub fn add(self, o: Self) -> Self {
        Add(Box::new(self), Box::new(o))
    }
    pub fn sub(self, o: Self) -> Self {
        Sub(Box::new(self), Box::new(o))
    }
    pub fn mul(self, o: Self) -> Self {
        Mul(Box::new(self), Box::new(o))
    }
    pub fn neg(self) -> Self {
        Neg(Box::new(self))
    }
    pub fn scale(self, f: F) -> Self {
        Scale(Box::new(self), f)
    }
    pub fn degree(&self) -> usize {
        match self {
            C(_) => 0,
            A(..) | X(_) | I(..) | S(_) => 1,
            Neg(a) | Scale(a, _) => a.degree(),
            Add(a, b) | Sub(a, b) => a.degree().max(b.degree()),
            Mul(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn leaves(&self, f: &mut dyn FnMut(&Ex<F>)) {
        match self {
            C(_) | A(..) | X(_) | I(..) | S(_) => f(self),
            Neg(a) | Scale(a, _) => a.leaves(f),
            Add(a, b) | Sub(a, b) | Mul(a, b) => {
                a.leaves(f);
                b.leaves(f)
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            C(c) => short(c),
            A(c, r) => format!("a{}[{}]", c, r),
            X(c) => format!("f{}", c),
            I(c, r) => format!("i{}[{}]", c, r),
            S(s) => format!("s{}", s),
            Neg(a) => format!("-({})", a.show()),
            Add(a, b) => format!("({}+{})", a.show(), b.show()),
            Sub(a, b) => format!("({}-{})", a.show(), b.show()),
            Mul(a, b) => format!("{}*{}", a.show(), b.show()),
            Scale(a, f) => format!("{}.{}", short(f), a.show()),
        }
    }
}
pub fn short<F: Fld>(f: &F) -> String {
    for i in 0..64u64 {
        if *f == F::from(i) {
            return format!("{}", i);
        }
        if *f == -F::from(i) {
            return format!("-{}", i);
        }
    }
    let s = format!("{:?}", f);
    format!("{}..", &s[..10.min(s.len())])
}

/// Field value, or a value the prover is free to choose (an unusable row).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V<F> {
    R(F),
    P,
}
pub fn veval<F: Fld>(e: &Ex<F>, leaf: &dyn Fn(&Ex<F>) -> V<F>) -> V<F> {
    use V::*;
    let add = |a: V<F>, b: V<F>| match (a, b) {
        (R(a), R(b)) => R(a + b),
        _ => P,
    };
    let mul = |a: V<F>, b: V<F>| match (a, b) {
        (R(a), R(b)) => R(a * b),
        (R(a), P) | (P, R(a)) if bool::from(a.is_zero()) => R(F::ZERO),
        _ => P,
    };
    let neg = |a: V<F>| match a {
        R(a) => R(-a),
        P => P,
    };
    match e {
        Ex::C(c) => R(*c),
        Ex::A(..) | Ex::X(_) | Ex::I(..) | Ex::S(_) => leaf(e),
        Ex::Neg(a) => neg(veval(a, leaf)),
        Ex::Add(a, b) => add(veval(a, leaf), veval(b, leaf)),
        Ex::Sub(a, b) => add(veval(a, leaf), neg(veval(b, leaf))),
        Ex::Mul(a, b) => mul(veval(a, leaf), veval(b, leaf)),
        Ex::Scale(a, f) => mul(veval(a, leaf), R(*f)),
    }
}

// ---------------------------------------------------------------- structures

#[derive(Clone, Debug)]
pub struct Conf<F> {
    pub n_adv: usize,
    pub n_inst: usize,
    /// Declaration order of fixed columns; true = table column.
    pub fix: Vec<bool>,
    /// true = complex selector
    pub sels: Vec<bool>,
    pub eq: Vec<(K, usize)>,
    pub consts: Vec<usize>,
    pub gates: Vec<Vec<Ex<F>>>,
    /// (input expression, absolute fixed index of the table column)
    pub lookups: Vec<Vec<(Ex<F>, usize)>>,
    pub lookups_first: bool,
    pub eq_last: bool,
    pub min_degree: Option<usize>,
    /// Whether gates query their leaves in the order of the expression or all up front.
    pub named: bool,
}

#[derive(Clone, Debug)]
pub struct CellD {
    pub region: usize,
    pub kind: K,
    pub col: usize,
    pub off: usize,
}
#[derive(Clone, Debug)]
pub enum Op<F> {
    Sel(usize, usize),
    Adv(usize),
    Fix(usize, F),
    FromConst(usize, F),
    FromInst(usize, usize, usize),
    Copy(usize, usize),
    Eq(usize, usize),
    Const(usize, F),
}
#[derive(Clone, Debug)]
pub enum Item<F> {
    Region(Vec<Op<F>>),
    Table(Vec<usize>, Vec<Vec<F>>),
    Bind(usize, usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Syn<F> {
    pub items: Vec<Item<F>>,
    pub cells: Vec<CellD>,
}
#[derive(Clone, Debug)]
pub struct Wit<F> {
    pub vals: Vec<F>,
    pub inst: Vec<Vec<F>>,
}
impl<F: Fld> Wit<F> {
    pub fn inst_refs(&self) -> Vec<&[F]> {
        self.inst.iter().map(|v| &v[..]).collect()
    }
}
pub type Ov<F> = HashMap<(usize, usize), F>;

// ---------------------------------------------------------------- the circuit

thread_local! {
    static CONF: RefCell<Option<Box<dyn StdAny>>> = RefCell::new(None);
}
thread_local! {
    static MODE: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static MISSING: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None);
}
/// How values are presented to the layouter (plain or as fractions): same field values.
pub fn set_mode(m: usize) {
    MODE.with(|x| x.set(m))
}
/// The advice cell whose witness value is withheld.
pub fn set_missing(m: Option<usize>) {
    MISSING.with(|x| x.set(m))
}
pub fn set_conf<F: Fld>(c: &Arc<Conf<F>>) {
    CONF.with(|x| *x.borrow_mut() = Some(Box::new(c.clone())))
}
fn get_conf<F: Fld>() -> Arc<Conf<F>> {
    CONF.with(|x| {
        x.borrow().as_ref().and_then(|b| b.downcast_ref::<Arc<Conf<F>>>()).expect("HARNESS: no conf").clone()
    })
}

#[derive(Clone, Debug)]
pub struct Cfg<F> {
    pub conf: Arc<Conf<F>>,
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Result<Column<Fixed>, TableColumn>>,
    pub inst: Vec<Column<Instance>>,
    pub sels: Vec<Selector>,
}
impl<F: Fld> Cfg<F> {
    fn fixed(&self, i: usize) -> Column<Fixed> {
        *self.fix[i].as_ref().expect("HARNESS: table column used as fixed")
    }
    fn table(&self, i: usize) -> TableColumn {
        *self.fix[i].as_ref().err().expect("HARNESS: fixed column used as table")
    }
    pub fn any(&self, k: K, i: usize) -> Column<Any> {
        match k {
            K::A => self.adv[i].into(),
            K::F => self.fixed(i).into(),
            K::I => self.inst[i].into(),
        }
    }
}

pub struct SpecCircuit<F, P> {
    pub syn: Arc<Syn<F>>,
    pub wit: Option<Arc<Wit<F>>>,
    pub ov: Arc<Ov<F>>,
    pub _p: PhantomData<P>,
}
impl<F, P> Clone for SpecCircuit<F, P> {
    fn clone(&self) -> Self {
        SpecCircuit { syn: self.syn.clone(), wit: self.wit.clone(), ov: self.ov.clone(), _p: PhantomData }
    }
}

fn build_ex<F: Fld>(e: &Ex<F>, vc: &mut halo2_proofs::plonk::VirtualCells<'_, F>, cfg: &Cfg<F>) -> Expression<F> {
    match e {
        C(c) => Expression::Constant(*c),
        A(c, r) => vc.query_advice(cfg.adv[*c], Rotation(*r)),
        X(c) => vc.query_fixed(cfg.fixed(*c)),
        I(c, r) => vc.query_instance(cfg.inst[*c], Rotation(*r)),
        S(s) => vc.query_selector(cfg.sels[*s]),
        Neg(a) => -build_ex(a, vc, cfg),
        Add(a, b) => build_ex(a, vc, cfg) + build_ex(b, vc, cfg),
        Sub(a, b) => build_ex(a, vc, cfg) - build_ex(b, vc, cfg),
        Mul(a, b) => build_ex(a, vc, cfg) * build_ex(b, vc, cfg),
        Scale(a, f) => build_ex(a, vc, cfg) * *f,
    }
}

pub fn configure_from<F: Fld>(conf: Arc<Conf<F>>, meta: &mut ConstraintSystem<F>) -> Cfg<F> {
    let adv: Vec<_> = (0..conf.n_adv).map(|_| meta.advice_column()).collect();
    let fix: Vec<_> = conf
        .fix
        .iter()
        .map(|t| if *t { Err(meta.lookup_table_column()) } else { Ok(meta.fixed_column()) })
        .collect();
    let inst: Vec<_> = (0..conf.n_inst).map(|_| meta.instance_column()).collect();
    let sels: Vec<_> = conf.sels.iter().map(|c| if *c { meta.complex_selector() } else { meta.selector() }).collect();
    let cfg = Cfg { conf: conf.clone(), adv, fix, inst, sels };
    let eqs = |meta: &mut ConstraintSystem<F>| {
        for (k, i) in &conf.eq {
            meta.enable_equality(cfg.any(*k, *i));
        }
        for i in &conf.consts {
            meta.enable_constant(cfg.fixed(*i));
        }
    };
    let looks = |meta: &mut ConstraintSystem<F>| {
        for l in &conf.lookups {
            meta.lookup(|vc| l.iter().map(|(e, t)| (build_ex(e, vc, &cfg), cfg.table(*t))).collect());
        }
    };
    if !conf.eq_last {
        eqs(meta);
    }
    if conf.lookups_first {
        looks(meta);
    }
    for g in &conf.gates {
        if conf.named {
            meta.create_gate("g", |vc| {
                g.iter().map(|e| ("p", build_ex(e, vc, &cfg))).collect::<Vec<_>>()
            });
        } else {
            meta.create_gate("g", |vc| g.iter().map(|e| build_ex(e, vc, &cfg)).collect::<Vec<_>>());
        }
    }
    if !conf.lookups_first {
        looks(meta);
    }
    if conf.eq_last {
        eqs(meta);
    }
    if let Some(d) = conf.min_degree {
        meta.set_minimum_degree(d);
    }
    cfg
}

impl<F: Fld, P: FloorPlanner> Circuit<F> for SpecCircuit<F, P> {
    type Config = Cfg<F>;
    type FloorPlanner = P;

    fn without_witnesses(&self) -> Self {
        SpecCircuit { syn: self.syn.clone(), wit: None, ov: self.ov.clone(), _p: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Cfg<F> {
        configure_from(get_conf::<F>(), meta)
    }
    fn synthesize(&self, cfg: Cfg<F>, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        tamper::set_overrides::<F>((*self.ov).clone());
        synth(&self.syn, self.wit.as_deref(), &cfg, &mut layouter)
    }
}

enum Got<F: Fld> {
    None,
    Adv(AssignedCell<Assigned<F>, F>),
    AdvF(AssignedCell<F, F>),
}
impl<F: Fld> Got<F> {
    fn cell(&self) -> Cell {
        match self {
            Got::None => panic!("HARNESS: cell not assigned yet"),
            Got::Adv(c) => c.cell(),
            Got::AdvF(c) => c.cell(),
        }
    }
}

/// Presents a value in trivial or rational form (chosen by the cell id).
fn present<F: Fld>(id: usize, v: F) -> Assigned<F> {
    let id = match MODE.with(|m| m.get()) {
        usize::MAX => 0,
        m => id + m,
    };
    match id % 4 {
        0 | 1 => Assigned::Trivial(v),
        2 => Assigned::Rational(v * F::from(7 + id as u64), F::from(7 + id as u64)),
        _ => {
            if bool::from(v.is_zero()) {
                if id % 8 == 3 {
                    Assigned::Zero
                } else {
                    Assigned::Rational(F::from(5), F::ZERO)
                }
            } else {
                Assigned::Rational(F::ONE, v.invert().unwrap())
            }
        }
    }
}

pub fn synth<F: Fld>(syn: &Syn<F>, wit: Option<&Wit<F>>, cfg: &Cfg<F>, layouter: &mut impl Layouter<F>) -> Result<(), Error> {
    let mut got: Vec<Got<F>> = (0..syn.cells.len()).map(|_| Got::None).collect();
    for (ri, item) in syn.items.iter().enumerate() {
        match item {
            Item::Region(ops) => {
                layouter.assign_region(
                    || format!("r{}", ri),
                    |mut region| {
                        for op in ops {
                            match op {
                                Op::Sel(s, off) => cfg.sels[*s].enable(&mut region, *off)?,
                                Op::Adv(id) => {
                                    let c = &syn.cells[*id];
                                    let missing = MISSING.with(|x| x.get()) == Some(*id);
                                    let v = match wit {
                                        Some(w) if !missing => Value::known(present(*id, w.vals[*id])),
                                        _ => Value::unknown(),
                                    };
                                    let a = region.assign_advice(|| "adv", cfg.adv[c.col], c.off, || v)?;
                                    got[*id] = Got::Adv(a);
                                }
                                Op::Fix(id, v) => {
                                    let c = &syn.cells[*id];
                                    let a = region.assign_fixed(
                                        || "fix",
                                        cfg.fixed(c.col),
                                        c.off,
                                        || Value::known(present(*id, *v)),
                                    )?;
                                    got[*id] = Got::Adv(a);
                                }
                                Op::FromConst(id, v) => {
                                    let c = &syn.cells[*id];
                                    let a = region.assign_advice_from_constant(
                                        || "const",
                                        cfg.adv[c.col],
                                        c.off,
                                        present(*id, *v),
                                    )?;
                                    got[*id] = Got::Adv(a);
                                }
                                Op::FromInst(id, ic, ir) => {
                                    let c = &syn.cells[*id];
                                    let a = region.assign_advice_from_instance(
                                        || "inst",
                                        cfg.inst[*ic],
                                        *ir,
                                        cfg.adv[c.col],
                                        c.off,
                                    )?;
                                    got[*id] = Got::AdvF(a);
                                }
                                Op::Copy(id, src) => {
                                    let c = &syn.cells[*id];
                                    let col = cfg.adv[c.col];
                                    let new = match &got[*src] {
                                        Got::Adv(a) => Got::Adv(a.copy_advice(|| "copy", &mut region, col, c.off)?),
                                        Got::AdvF(a) => Got::AdvF(a.copy_advice(|| "copy", &mut region, col, c.off)?),
                                        Got::None => panic!("HARNESS: copy of unassigned"),
                                    };
                                    got[*id] = new;
                                }
                                Op::Eq(a, b) => region.constrain_equal(got[*a].cell(), got[*b].cell())?,
                                Op::Const(id, v) => {
                                    region.constrain_constant(got[*id].cell(), present(*id, *v))?
                                }
                            }
                        }
                        Ok(())
                    },
                )?;
            }
            Item::Table(cols, rows) => {
                layouter.assign_table(
                    || format!("t{}", ri),
                    |mut t| {
                        for (r, row) in rows.iter().enumerate() {
                            for (c, v) in cols.iter().zip(row) {
                                t.assign_cell(|| "tab", cfg.table(*c), r, || Value::known(present(r, *v)))?;
                            }
                        }
                        Ok(())
                    },
                )?;
            }
            Item::Bind(id, ic, ir) => layouter.constrain_instance(got[*id].cell(), cfg.inst[*ic], *ir)?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_adv: usize,
    pub max_regions: usize,
    pub max_groups: usize,
    pub max_lookups: usize,
    pub max_degree: usize,
    pub max_wits: usize,
    pub max_k: u32,
    /// Bias towards many simple selectors.
    pub many_sels: bool,
    /// Bias towards copies.
    pub copies: bool,
    /// At least one lookup.
    pub force_lookup: bool,
    pub min_instances: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_adv: 5,
            max_regions: 6,
            max_groups: 4,
            max_lookups: 2,
            max_degree: 7,
            max_wits: 1,
            max_k: 7,
            many_sels: false,
            copies: false,
            force_lookup: false,
            min_instances: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Det<F> {
    Free,
    Const(F),
    Comp,
    Inst(usize, usize),
}

#[derive(Clone, Debug)]
struct GateSpec<F> {
    e: Ex<F>,
    comp: (usize, i32),
    u: F,
}
#[derive(Clone, Debug)]
struct Group<F> {
    /// Selectors to enable to activate.
    on: Vec<usize>,
    /// Fixed activation column.
    fixed: Option<usize>,
    /// Additional selectors that the gates query (must be off).
    off: Vec<usize>,
    gates: Vec<GateSpec<F>>,
    reads: BTreeSet<(usize, i32)>,
    xreads: BTreeSet<usize>,
}
#[derive(Clone, Debug)]
struct CompRec<F> {
    cell: usize,
    spec: GateSpec<F>,
    region: usize,
    off: usize,
}

#[derive(Clone, Debug)]
pub struct Built<F> {
    pub conf: Arc<Conf<F>>,
    pub syn: Arc<Syn<F>>,
    pub planner: usize,
    pub k: u32,
    pub n: usize,
    pub usable: usize,
    pub starts: Vec<usize>,
    pub wits: Vec<Arc<Wit<F>>>,
    pub cs_degree: usize,
    pub full: bool,
    pub const_fix: Vec<(usize, usize, F)>,
}

pub const PLANNERS: [&str; 2] = ["simple", "v1"];

pub fn usable_rows<F: Fld>(conf: &Conf<F>, k: u32) -> Option<usize> {
    let bf = ref_blinding(conf);
    let n = 1usize << k;
    if n < bf + 3 {
        None
    } else {
        Some(n - (bf + 1))
    }
}
/// Independent recomputation of the number of blinding factors.
pub fn ref_blinding<F: Fld>(conf: &Conf<F>) -> usize {
    let mut q: BTreeMap<usize, BTreeSet<i32>> = BTreeMap::new();
    for (k, i) in &conf.eq {
        if *k == K::A {
            q.entry(*i).or_default().insert(0);
        }
    }
    let mut leaf = |e: &Ex<F>| {
        if let A(c, r) = e {
            q.entry(*c).or_default().insert(*r);
        }
    };
    for g in &conf.gates {
        for p in g {
            p.leaves(&mut leaf);
        }
    }
    for l in &conf.lookups {
        for (e, _) in l {
            e.leaves(&mut leaf);
        }
    }
    let m = q.values().map(|s| s.len()).max().unwrap_or(1);
    m.max(3) + 2
}

struct Uf {
    p: Vec<usize>,
}
impl Uf {
    fn find(&mut self, x: usize) -> usize {
        let mut x = x;
        while self.p[x] != x {
            x = self.p[x];
        }
        x
    }
    fn new_node(&mut self) -> usize {
        self.p.push(self.p.len());
        self.p.len() - 1
    }
}

struct Gen<F> {
    opts: Opts,
    conf: Conf<F>,
    groups: Vec<Group<F>>,
    syn: Syn<F>,
    uf: Uf,
    det: Vec<Det<F>>,
    comps: Vec<CompRec<F>>,
    eqa: BTreeSet<usize>,
    /// instance columns that may be bound to cells
    bindable: Vec<usize>,
    inst_rows: Vec<usize>,
    inst_node: HashMap<(usize, usize), usize>,
    data_fix: Vec<usize>,
    lookup_sels: Vec<usize>,
    lookup_fix: Vec<usize>,
    planner: usize,
    act_count: usize,
}

fn gen_ex<F: Fld>(cx: &mut Cx, leaves: &[Ex<F>], deg: usize, depth: usize) -> Ex<F> {
    if depth == 0 || leaves.is_empty() || deg == 0 || cx.chance(1, 4) {
        if deg == 0 || leaves.is_empty() || cx.chance(1, 8) {
            return C(cx.field());
        }
        return cx.pick(leaves).clone();
    }
    match cx.weighted(&[3, 4, 2, 1, 1, 2]) {
        0 => gen_ex(cx, leaves, deg, depth - 1).add(gen_ex(cx, leaves, deg, depth - 1)),
        1 if deg >= 2 => {
            let d = cx.usize(1, deg - 1);
            gen_ex(cx, leaves, d, depth - 1).mul(gen_ex(cx, leaves, deg - d, depth - 1))
        }
        2 => gen_ex(cx, leaves, deg, depth - 1).sub(gen_ex(cx, leaves, deg, depth - 1)),
        3 => gen_ex(cx, leaves, deg, depth - 1).neg(),
        4 => {
            let f = cx.field();
            gen_ex(cx, leaves, deg, depth - 1).scale(f)
        }
        5 => {
            // power
            let d = cx.usize(1, deg);
            let l = cx.pick(leaves).clone();
            let mut e = l.clone();
            for _ in 1..d {
                e = e.mul(l.clone());
            }
            e
        }
        _ => cx.pick(leaves).clone(),
    }
}

pub fn gen<F: Fld>(cx: &mut Cx, opts: &Opts) -> Built<F> {
    let mut g = gen_conf::<F>(cx, opts);
    gen_items(cx, &mut g);
    finish(cx, g)
}

fn gen_conf<F: Fld>(cx: &mut Cx, opts: &Opts) -> Gen<F> {
    let n_adv = cx.usize(1, opts.max_adv);
    let n_inst = if opts.min_instances > 0 { cx.usize(opts.min_instances, 3.max(opts.min_instances)) } else { cx.weighted(&[4, 4, 2, 1]) };
    let mut fix: Vec<bool> = vec![];
    let mut sels: Vec<bool> = vec![];
    let mut gates: Vec<Vec<Ex<F>>> = vec![];
    let mut groups: Vec<Group<F>> = vec![];

    // data fixed columns and constants
    let n_data = cx.weighted(&[3, 3, 2]);
    let mut data_fix = vec![];
    for _ in 0..n_data {
        data_fix.push(fix.len());
        fix.push(false);
    }
    let want_const = cx.chance(2, 3) || opts.copies;
    let mut consts = vec![];
    if want_const {
        if !data_fix.is_empty() && cx.chance(1, 3) {
            consts.push(*cx.pick(&data_fix));
        } else {
            consts.push(fix.len());
            fix.push(false);
        }
        if cx.chance(1, 4) {
            consts.push(fix.len());
            fix.push(false);
        }
    }
    // Instance columns 0..q are read by gates; the others may be bound to cells.
    let q_inst = if n_inst == 0 { 0 } else { cx.usize(0, n_inst - opts.min_instances.min(n_inst)) };

    // equality-enabled columns
    let mut eq: Vec<(K, usize)> = vec![];
    for i in 0..n_adv {
        if cx.chance(3, 4) || opts.copies {
            eq.push((K::A, i));
        }
    }
    for i in 0..n_inst {
        if i >= q_inst || cx.bool() {
            eq.push((K::I, i));
        }
    }
    for i in &data_fix {
        if cx.chance(1, 3) {
            eq.push((K::F, *i));
        }
    }
    if cx.chance(1, 2) {
        cx.shuffle(&mut eq);
    }
    let eqa: BTreeSet<usize> = eq.iter().filter(|(k, _)| *k == K::A).map(|(_, i)| *i).collect();

    let rots: Vec<i32> = match cx.weighted(&[2, 3, 2, 2]) {
        0 => vec![0],
        1 => vec![0, 1, -1],
        2 => vec![0, 1, 2, -1, -2],
        _ => vec![0, 3, -3, 1],
    };
    let n_groups = if opts.many_sels { cx.usize(1, 9) } else { cx.usize(if opts.force_lookup { 0 } else { 1 }, opts.max_groups) };
    let max_deg = cx.usize(2, opts.max_degree);
    for _ in 0..n_groups {
        let kind = if opts.many_sels { cx.weighted(&[12, 2, 1, 1, 1]) } else { cx.weighted(&[6, 2, 2, 2, 1]) };
        let mut on = vec![];
        let mut off = vec![];
        let mut fixed = None;
        let new_sel = |complex: bool, sels: &mut Vec<bool>| {
            sels.push(complex);
            sels.len() - 1
        };
        let act: Ex<F> = match kind {
            0 => {
                let s = new_sel(false, &mut sels);
                on.push(s);
                S(s)
            }
            1 => {
                let s = new_sel(true, &mut sels);
                on.push(s);
                S(s)
            }
            2 => {
                let a = new_sel(true, &mut sels);
                let b = new_sel(true, &mut sels);
                on.push(a);
                if cx.bool() {
                    on.push(b);
                    S(a).mul(S(b))
                } else {
                    off.push(b);
                    if cx.bool() {
                        S(a).mul(C(F::ONE).sub(S(b)))
                    } else {
                        C(F::ONE).sub(S(b)).mul(S(a))
                    }
                }
            }
            3 => {
                fix.push(false);
                fixed = Some(fix.len() - 1);
                X(fix.len() - 1)
            }
            _ => {
                fix.push(false);
                let f = fix.len() - 1;
                fixed = Some(f);
                let s = new_sel(false, &mut sels);
                on.push(s);
                if cx.bool() {
                    S(s).mul(X(f))
                } else {
                    X(f).mul(S(s))
                }
            }
        };
        let ad = act.degree();
        let n_gates = 1 + cx.weighted(&[5, 2]);
        let mut specs = vec![];
        let mut comps: BTreeSet<(usize, i32)> = BTreeSet::new();
        let mut all: Vec<(usize, i32)> = vec![];
        for c in 0..n_adv {
            for r in &rots {
                all.push((c, *r));
            }
        }
        let mut layout: Vec<usize> = vec![];
        for _ in 0..n_gates {
            layout.push(1 + cx.weighted(&[5, 2, 1]));
        }
        let total: usize = layout.iter().sum();
        for _ in 0..total {
            if comps.len() + 1 < all.len() || comps.is_empty() {
                loop {
                    let c = *cx.pick(&all);
                    if comps.insert(c) {
                        break;
                    }
                    // all shrunk draws are equal: take the first unused
                    if let Some(c) = all.iter().find(|c| !comps.contains(c)) {
                        comps.insert(*c);
                        break;
                    }
                }
            }
        }
        let mut comp_list: Vec<_> = comps.iter().cloned().collect();
        cx.shuffle(&mut comp_list);
        let mut leaves: Vec<Ex<F>> =
            all.iter().filter(|c| !comps.contains(c)).map(|(c, r)| A(*c, *r)).collect();
        for f in &data_fix {
            leaves.push(X(*f));
        }
        for i in 0..q_inst {
            for r in &rots {
                leaves.push(I(i, *r));
            }
        }
        let mut it = comp_list.into_iter();
        for cnt in layout {
            let mut polys = vec![];
            for _ in 0..cnt {
                let comp = match it.next() {
                    Some(c) => c,
                    None => break,
                };
                let budget = max_deg.saturating_sub(ad).max(1);
                let d = cx.usize(1, budget);
                let e = gen_ex(cx, &leaves, d, 3);
                let u: F = if cx.chance(1, 4) { cx.nz_field() } else { F::ONE };
                let cexp = if u == F::ONE { A(comp.0, comp.1) } else { A(comp.0, comp.1).scale(u) };
                let body = match cx.below(3) {
                    0 => e.clone().sub(cexp),
                    1 => cexp.sub(e.clone()),
                    _ => e.clone().neg().add(cexp),
                };
                let poly = match cx.below(4) {
                    0 | 1 => act.clone().mul(body),
                    2 => body.mul(act.clone()),
                    _ => act.clone().mul(body).scale(-F::ONE),
                };
                polys.push(poly);
                specs.push(GateSpec { e, comp, u });
            }
            if !polys.is_empty() {
                gates.push(polys);
            }
        }
        let mut reads = BTreeSet::new();
        let mut xreads = BTreeSet::new();
        for s in &specs {
            reads.insert(s.comp);
            s.e.leaves(&mut |l| match l {
                A(c, r) => {
                    reads.insert((*c, *r));
                }
                X(c) => {
                    xreads.insert(*c);
                }
                _ => {}
            });
        }
        groups.push(Group { on, fixed, off, gates: specs, reads, xreads });
    }
    // A selector that no gate queries.
    if cx.chance(1, 8) {
        let c = cx.bool();
        sels.push(c);
    }
    // A gate that is always on: fixed boolean column.
    if cx.chance(1, 8) {
        if let Some(f) = groups.iter().filter_map(|g| g.fixed).next() {
            // f * (f - f) == 0 on all rows, whatever the assigned constants are
            gates.push(vec![X(f).mul(X(f).sub(X(f)))]);
        }
    }

    // lookups
    let n_look = if opts.force_lookup { cx.usize(1, opts.max_lookups.max(1)) } else if opts.max_lookups == 0 { 0 } else { cx.weighted(&[4, 3, 1]).min(opts.max_lookups) };
    let mut lookups = vec![];
    let mut lookup_sels = vec![];
    let mut lookup_fix = vec![];
    let mut tabs: Vec<Vec<usize>> = vec![];
    let lrots: Vec<i32> = rots.iter().cloned().filter(|r| r.abs() <= 2).collect();
    for _ in 0..n_look {
        let tab = if !tabs.is_empty() && cx.chance(1, 3) {
            cx.below(tabs.len() as u64) as usize
        } else {
            let w = 1 + cx.weighted(&[5, 4, 1]);
            let mut t = vec![];
            for _ in 0..w {
                t.push(fix.len());
                fix.push(true);
                // interleave ordinary fixed columns
                if cx.chance(1, 6) {
                    data_fix.push(fix.len());
                    fix.push(false);
                }
            }
            tabs.push(t);
            tabs.len() - 1
        };
        let mut cols = tabs[tab].clone();
        cx.shuffle(&mut cols);
        let w = cx.usize(1, cols.len());
        cols.truncate(w);
        let form = cx.weighted(&[5, 2, 2]);
        let mut shared = false;
        let act: Option<Ex<F>> = match form {
            0 => {
                let cands: Vec<usize> = (0..sels.len()).filter(|i| sels[*i]).collect();
                let s = if !cands.is_empty() && cx.chance(1, 3) {
                    shared = true;
                    *cx.pick(&cands)
                } else {
                    sels.push(true);
                    sels.len() - 1
                };
                lookup_sels.push(s);
                Some(S(s))
            }
            1 => {
                fix.push(false);
                let f = fix.len() - 1;
                lookup_fix.push(f);
                Some(X(f))
            }
            _ => None,
        };
        let mut l = vec![];
        for t in cols {
            let mut leaves: Vec<Ex<F>> = vec![];
            for c in 0..n_adv {
                for r in &lrots {
                    if *r == 0 || (act.is_some() && (*r > 0 || !shared)) {
                        leaves.push(A(c, *r));
                    }
                }
            }
            for i in 0..q_inst {
                leaves.push(I(i, 0));
            }
            let dg = cx.usize(1, 2.max(opts.max_degree / 3));
            let e = gen_ex(cx, &leaves, dg, 2);
            let inp = match &act {
                Some(X(f)) => X(*f).mul(e),
                Some(s) => {
                    if cx.bool() {
                        s.clone().mul(e)
                    } else {
                        let d: F = cx.field();
                        s.clone().mul(e).add(C(F::ONE).sub(s.clone()).mul(C(d)))
                    }
                }
                None => e,
            };
            l.push((inp, t));
        }
        lookups.push(l);
    }

    let conf = Conf {
        n_adv,
        n_inst,
        fix,
        sels,
        eq,
        consts,
        gates,
        lookups,
        lookups_first: cx.bool(),
        eq_last: cx.bool(),
        min_degree: if cx.chance(1, 6) { Some(cx.usize(1, 9)) } else { None },
        named: cx.bool(),
    };
    let bindable: Vec<usize> = (q_inst..n_inst).collect();
    Gen {
        opts: opts.clone(),
        inst_rows: vec![0; n_inst],
        conf,
        groups,
        syn: Syn { items: vec![], cells: vec![] },
        uf: Uf { p: vec![] },
        det: vec![],
        comps: vec![],
        eqa,
        bindable,
        inst_node: HashMap::new(),
        data_fix,
        lookup_sels,
        lookup_fix,
        planner: cx.usize(0, 1),
        act_count: 0,
    }
}

struct Reg<F> {
    idx: usize,
    ops: Vec<Op<F>>,
    map: BTreeMap<(K, usize, usize), usize>,
}

impl<F: Fld> Gen<F> {
    fn add_cell(&mut self, reg: &mut Reg<F>, kind: K, col: usize, off: usize, det: Det<F>) -> usize {
        let id = self.syn.cells.len();
        self.syn.cells.push(CellD { region: reg.idx, kind, col, off });
        let nid = self.uf.new_node();
        // node ids of cells and instance nodes share the same space
        self.det.push(det);
        self.node_of_cell(id, nid);
        reg.map.insert((kind, col, off), id);
        id
    }
    fn node_of_cell(&mut self, id: usize, nid: usize) {
        self.inst_node.insert((usize::MAX, id), nid);
    }
    fn node(&self, id: usize) -> usize {
        self.inst_node[&(usize::MAX, id)]
    }
    fn inst(&mut self, c: usize, r: usize) -> usize {
        self.inst_rows[c] = self.inst_rows[c].max(r + 1);
        if let Some(n) = self.inst_node.get(&(c, r)) {
            return *n;
        }
        let n = self.uf.new_node();
        self.det.push(Det::Inst(c, r));
        self.inst_node.insert((c, r), n);
        n
    }
    fn root(&mut self, n: usize) -> usize {
        self.uf.find(n)
    }
    fn merge(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.uf.find(a), self.uf.find(b));
        if a == b {
            return true;
        }
        let (da, db) = (self.det[a], self.det[b]);
        let (keep, lose) = match (da, db) {
            (_, Det::Free) | (_, Det::Inst(..)) => (a, b),
            (Det::Free, _) | (Det::Inst(..), _) => (b, a),
            (Det::Const(x), Det::Const(y)) if x == y => (a, b),
            _ => return false,
        };
        self.uf.p[lose] = keep;
        true
    }
    fn eq_cells(&self) -> Vec<usize> {
        (0..self.syn.cells.len()).filter(|i| self.is_eq(*i)).collect()
    }
    fn is_eq(&self, id: usize) -> bool {
        let c = &self.syn.cells[id];
        match c.kind {
            K::A => self.eqa.contains(&c.col),
            K::F => self.conf.eq.contains(&(K::F, c.col)) || self.conf.consts.contains(&c.col),
            K::I => false,
        }
    }

    /// A fresh advice cell with an arbitrary origin.
    fn fresh(&mut self, cx: &mut Cx, reg: &mut Reg<F>, col: usize, off: usize) -> usize {
        let eq = self.eqa.contains(&col);
        let w = if !eq {
            0
        } else if self.opts.copies {
            cx.weighted(&[2, 6, 2, 2])
        } else {
            cx.weighted(&[4, 3, 1, 1])
        };
        match w {
            1 => {
                let cands = self.eq_cells();
                if !cands.is_empty() {
                    let src = *cx.pick(&cands);
                    let id = self.add_cell(reg, K::A, col, off, Det::Free);
                    let (a, b) = (self.node(src), self.node(id));
                    if !self.merge(a, b) {
                        panic!("HARNESS: merge of a fresh cell failed");
                    }
                    if cx.chance(1, 4) {
                        reg.ops.push(Op::Adv(id));
                        reg.ops.push(if cx.bool() { Op::Eq(id, src) } else { Op::Eq(src, id) });
                    } else {
                        reg.ops.push(Op::Copy(id, src));
                    }
                    return id;
                }
            }
            2 if !self.conf.consts.is_empty() => {
                let v: F = cx.field();
                let id = self.add_cell(reg, K::A, col, off, Det::Const(v));
                reg.ops.push(Op::FromConst(id, v));
                return id;
            }
            3 if !self.bindable.is_empty() => {
                let c = *cx.pick(&self.bindable);
                let r = cx.usize(0, 4);
                let n = self.inst(c, r);
                let id = self.add_cell(reg, K::A, col, off, Det::Free);
                let b = self.node(id);
                // An instance cell whose class is determined keeps its value.
                if self.merge(n, b) {
                    reg.ops.push(Op::FromInst(id, c, r));
                } else {
                    reg.ops.push(Op::Adv(id));
                }
                return id;
            }
            _ => {}
        }
        let id = self.add_cell(reg, K::A, col, off, Det::Free);
        reg.ops.push(Op::Adv(id));
        id
    }
    fn ensure_read(&mut self, cx: &mut Cx, reg: &mut Reg<F>, col: usize, off: usize) {
        if !reg.map.contains_key(&(K::A, col, off)) {
            self.fresh(cx, reg, col, off);
        }
    }
    fn ensure_fixed(&mut self, cx: &mut Cx, reg: &mut Reg<F>, col: usize, off: usize, v: Option<F>) -> usize {
        if let Some(id) = reg.map.get(&(K::F, col, off)) {
            return *id;
        }
        let v = v.unwrap_or_else(|| cx.field());
        let id = self.add_cell(reg, K::F, col, off, Det::Const(v));
        reg.ops.push(Op::Fix(id, v));
        id
    }

    fn activate(&mut self, cx: &mut Cx, reg: &mut Reg<F>, gi: usize, decoy: bool) {
        let g = self.groups[gi].clone();
        if g.gates.is_empty() {
            return;
        }
        let mut lo = 0;
        for (_, r) in &g.reads {
            lo = lo.min(*r);
        }
        let inst_lo = g
            .gates
            .iter()
            .map(|s| {
                let mut m = 0;
                s.e.leaves(&mut |l| {
                    if let I(_, r) = l {
                        m = m.min(*r)
                    }
                });
                m
            })
            .min()
            .unwrap_or(0);
        let lo = (-lo.min(inst_lo)) as usize;
        let mut off = lo + cx.usize(0, 2);
        if !decoy || g.fixed.is_some() {
            // move past any conflict
            loop {
                let comp_conflict = g
                    .gates
                    .iter()
                    .any(|s| reg.map.contains_key(&(K::A, s.comp.0, (off as i64 + s.comp.1 as i64) as usize)));
                let fx = g.fixed.map(|f| reg.map.contains_key(&(K::F, f, off))).unwrap_or(false);
                let dup = reg.ops.iter().any(|o| matches!(o, Op::Sel(s, o2) if *o2 == off && (g.on.contains(s) || g.off.contains(s))));
                if !comp_conflict && !fx && !dup {
                    break;
                }
                off += 1;
            }
        } else {
            loop {
                let dup = reg.ops.iter().any(|o| matches!(o, Op::Sel(s, o2) if *o2 == off && (g.on.contains(s) || g.off.contains(s))));
                if !dup {
                    break;
                }
                off += 1;
            }
        }
        let sel_first = cx.bool();
        let mut sel_ops = vec![];
        if decoy {
            // Enable a combination that must not activate the gate.
            if !g.off.is_empty() {
                match cx.below(2) {
                    0 => {
                        sel_ops.push(Op::Sel(g.off[0], off));
                    }
                    _ => {
                        sel_ops.push(Op::Sel(g.off[0], off));
                        sel_ops.push(Op::Sel(g.on[0], off));
                    }
                }
            } else if g.on.len() == 2 {
                sel_ops.push(Op::Sel(g.on[cx.usize(0, 1)], off));
            } else if g.fixed.is_some() && g.on.len() == 1 {
                if cx.bool() {
                    sel_ops.push(Op::Sel(g.on[0], off));
                    // the fixed activation is explicitly zero
                    self.ensure_fixed(cx, reg, g.fixed.unwrap(), off, Some(F::ZERO));
                } else {
                    let v = cx.nz_field();
                    self.ensure_fixed(cx, reg, g.fixed.unwrap(), off, Some(v));
                }
            } else if let Some(f) = g.fixed {
                self.ensure_fixed(cx, reg, f, off, Some(F::ZERO));
            }
        } else {
            for s in &g.on {
                sel_ops.push(Op::Sel(*s, off));
            }
            if let Some(f) = g.fixed {
                let v = cx.nz_field();
                self.ensure_fixed(cx, reg, f, off, Some(v));
            }
            self.act_count += 1;
        }
        if sel_first {
            reg.ops.append(&mut sel_ops);
        }
        for x in &g.xreads {
            self.ensure_fixed(cx, reg, *x, off, None);
        }
        let comps: BTreeSet<(usize, i32)> = g.gates.iter().map(|s| s.comp).collect();
        let mut reads: Vec<_> = g.reads.iter().cloned().collect();
        if cx.chance(1, 3) {
            cx.shuffle(&mut reads);
        }
        for (c, r) in reads {
            let o = (off as i64 + r as i64) as usize;
            if decoy || !comps.contains(&(c, r)) {
                self.ensure_read(cx, reg, c, o);
            }
        }
        if !decoy {
            for s in &g.gates {
                let o = (off as i64 + s.comp.1 as i64) as usize;
                let id = self.add_cell(reg, K::A, s.comp.0, o, Det::Comp);
                reg.ops.push(Op::Adv(id));
                self.comps.push(CompRec { cell: id, spec: s.clone(), region: reg.idx, off });
            }
        }
        reg.ops.append(&mut sel_ops);
    }
}

fn gen_items<F: Fld>(cx: &mut Cx, g: &mut Gen<F>) {
    let n_regions = cx.usize(1, g.opts.max_regions);
    for _ in 0..n_regions {
        let mut reg = Reg { idx: g.syn.items.len(), ops: vec![], map: BTreeMap::new() };
        let empty = cx.chance(1, 12);
        let things = cx.usize(if empty { 0 } else { 1 }, 3);
        for _ in 0..things {
            let copies = g.opts.copies;
            let w = if copies { [4, 1, 1, 3, 5, 2, 1] } else { [8, 2, 3, 2, 2, 1, 1] };
            match cx.weighted(&w) {
                0 if !g.groups.is_empty() => {
                    let gi = cx.below(g.groups.len() as u64) as usize;
                    g.activate(cx, &mut reg, gi, false);
                }
                1 if !g.groups.is_empty() => {
                    let gi = cx.below(g.groups.len() as u64) as usize;
                    g.activate(cx, &mut reg, gi, true);
                }
                2 if !g.conf.lookups.is_empty() => {
                    let off = 2 + cx.usize(0, 2);
                    if !g.lookup_sels.is_empty() && cx.bool() {
                        let s = *cx.pick(&g.lookup_sels);
                        // A selector shared with a gate group is only enabled by `activate`.
                        let shared = g.groups.iter().any(|q| q.on.contains(&s) || q.off.contains(&s));
                        if !shared && !reg.ops.iter().any(|o| matches!(o, Op::Sel(a, b) if *a == s && *b == off)) {
                            reg.ops.push(Op::Sel(s, off));
                        }
                    }
                    if !g.lookup_fix.is_empty() && cx.bool() {
                        let f = *cx.pick(&g.lookup_fix);
                        g.ensure_fixed(cx, &mut reg, f, off, None);
                    }
                    for c in 0..g.conf.n_adv {
                        if cx.chance(2, 3) {
                            g.ensure_read(cx, &mut reg, c, off);
                        }
                    }
                }
                3 => {
                    // redundant or merging equality between existing cells
                    let cands = g.eq_cells();
                    if cands.len() >= 2 {
                        let (a, b) = (*cx.pick(&cands), *cx.pick(&cands));
                        let (na, nb) = (g.node(a), g.node(b));
                        let (ra, rb) = (g.root(na), g.root(nb));
                        let det = (g.det[ra], g.det[rb]);
                        let ok = ra == rb
                            || matches!(det, (Det::Free, Det::Free) | (Det::Free, Det::Const(_)) | (Det::Const(_), Det::Free));
                        if ok && g.merge(na, nb) {
                            reg.ops.push(Op::Eq(a, b));
                        }
                    }
                }
                4 => {
                    let col = cx.usize(0, g.conf.n_adv - 1);
                    let off = cx.usize(0, 4);
                    g.ensure_read(cx, &mut reg, col, off);
                }
                5 if !g.conf.consts.is_empty() => {
                    let cands = g.eq_cells();
                    if !cands.is_empty() {
                        let a = *cx.pick(&cands);
                        let na = g.node(a);
                        let r = g.root(na);
                        match g.det[r] {
                            Det::Free => {
                                let v = cx.field();
                                g.det[r] = Det::Const(v);
                                reg.ops.push(Op::Const(a, v));
                            }
                            Det::Const(v) => reg.ops.push(Op::Const(a, v)),
                            _ => {}
                        }
                    }
                }
                _ => {
                    if !g.data_fix.is_empty() {
                        let f = *cx.pick(&g.data_fix);
                        let off = cx.usize(0, 3);
                        if !g.conf.fix[f] {
                            g.ensure_fixed(cx, &mut reg, f, off, None);
                        }
                    }
                }
            }
        }
        g.syn.items.push(Item::Region(reg.ops));
        // bind to instance
        if !g.bindable.is_empty() && cx.chance(1, 3) {
            let cands: Vec<usize> = g.eq_cells();
            if !cands.is_empty() {
                let a = *cx.pick(&cands);
                let c = *cx.pick(&g.bindable);
                let r = cx.usize(0, 5);
                let fresh = !g.inst_node.contains_key(&(c, r));
                let n = g.inst(c, r);
                let na = g.node(a);
                let (rn, ra) = (g.root(n), g.root(na));
                // A class computed by a gate may only be bound to an instance cell that
                // nothing has read yet (keeps the evaluation order acyclic).
                let ok = matches!(g.det[rn], Det::Inst(..)) && (fresh || !matches!(g.det[ra], Det::Comp));
                if ok && g.merge(na, n) {
                    g.syn.items.push(Item::Bind(a, c, r));
                }
            }
        }
    }
}

/// Runs the floor planner against the recording backend.
pub fn record_p<F: Fld, P: FloorPlanner>(conf: &Arc<Conf<F>>, syn: &Arc<Syn<F>>, wit: Option<Arc<Wit<F>>>) -> Result<Vec<Ev<F>>, Error> {
    let mut cs = ConstraintSystem::default();
    let cfg = configure_from(conf.clone(), &mut cs);
    let consts = conf.consts.iter().map(|i| cfg.fixed(*i)).collect();
    let know = wit.is_some();
    let inst = wit.as_ref().map(|w| w.inst.clone()).unwrap_or_default();
    let c = SpecCircuit::<F, P> { syn: syn.clone(), wit, ov: Default::default(), _p: PhantomData };
    let mut rec = Recorder::<F>::new(inst, know, know);
    P::synthesize(&mut rec, &c, cfg, consts)?;
    Ok(rec.events)
}

pub fn record<F: Fld>(conf: &Arc<Conf<F>>, syn: &Arc<Syn<F>>, planner: usize, wit: Option<Arc<Wit<F>>>) -> Result<Vec<Ev<F>>, Error> {
    match planner {
        0 => record_p::<F, SimpleFloorPlanner>(conf, syn, wit),
        _ => record_p::<F, V1>(conf, syn, wit),
    }
}

/// Region starts by item index, and the first row past everything that was assigned.
pub fn starts_of<F: Fld>(syn: &Syn<F>, evs: &[Ev<F>]) -> (Vec<usize>, usize) {
    let mut starts = vec![usize::MAX; syn.items.len()];
    let mut end = 0;
    let mut cur: Option<(usize, usize)> = None;
    for e in evs {
        let row = match e {
            Ev::Enter(n) => {
                cur = n.strip_prefix('r').and_then(|x| x.parse().ok()).map(|i| (i, 0));
                continue;
            }
            Ev::Exit => {
                cur = None;
                continue;
            }
            Ev::Sel(_, r) | Ev::Adv(_, r, _) | Ev::Fix(_, r, _) => *r,
            _ => continue,
        };
        end = end.max(row + 1);
        if let Some((i, nth)) = cur {
            if starts[i] == usize::MAX {
                if let Item::Region(ops) = &syn.items[i] {
                    // first placing op
                    let off = ops.iter().find_map(|o| match o {
                        Op::Sel(_, off) => Some(*off),
                        Op::Adv(id) | Op::Fix(id, _) | Op::FromConst(id, _) | Op::FromInst(id, ..) | Op::Copy(id, _) => {
                            Some(syn.cells[*id].off)
                        }
                        _ => None,
                    });
                    if let Some(off) = off {
                        starts[i] = row.wrapping_sub(off);
                    }
                }
            }
            cur = Some((i, nth + 1));
        }
    }
    (starts, end)
}

fn finish<F: Fld>(cx: &mut Cx, mut g: Gen<F>) -> Built<F> {
    // V1 only places constants in the rows the regions occupy, and reports when the constant
    // columns do not have enough of them free: such circuits get more constant columns.
    for i in 0.. {
        let conf = Arc::new(g.conf.clone());
        match record(&conf, &Arc::new(g.syn.clone()), g.planner, None) {
            Err(Error::NotEnoughColumnsForConstants) if g.planner == 1 && !g.conf.consts.is_empty() => {
                if i < 6 {
                    g.conf.consts.push(g.conf.fix.len());
                    g.conf.fix.push(false);
                } else {
                    g.planner = 0;
                }
            }
            _ => break,
        }
    }
    let conf = Arc::new(g.conf.clone());
    // --- layout
    let lay = |syn: &Syn<F>| -> Result<(Vec<usize>, usize, Vec<Ev<F>>), Error> {
        let evs = record(&conf, &Arc::new(syn.clone()), g.planner, None)?;
        let (s, e) = starts_of(syn, &evs);
        Ok((s, e, evs))
    };
    let (mut starts, mut end, mut evs) =
        lay(&g.syn).unwrap_or_else(|e| panic!("layout of a well-formed circuit failed: {:?}", e));
    // rows of queried instance columns that must be assigned
    let inst_need = |starts: &[usize], comps: &[CompRec<F>], syn: &Syn<F>, groups: &[Group<F>]| -> Vec<usize> {
        let mut need = vec![0usize; conf.n_inst];
        let mut touch = |row: usize, gs: &GateSpec<F>| {
            gs.e.leaves(&mut |l| {
                if let I(c, r) = l {
                    let rr = row as i64 + *r as i64;
                    need[*c] = need[*c].max((rr + 1).max(0) as usize);
                }
            })
        };
        for c in comps {
            touch(starts[c.region] + c.off, &c.spec);
        }
        // decoys query too
        for (ri, it) in syn.items.iter().enumerate() {
            if let Item::Region(ops) = it {
                for o in ops {
                    if let Op::Sel(s, off) = o {
                        for gr in groups {
                            if gr.on.contains(s) || gr.off.contains(s) {
                                for gs in &gr.gates {
                                    touch(starts[ri] + off, gs);
                                }
                            }
                        }
                    }
                }
            }
        }
        need
    };
    let mut inst_min = inst_need(&starts, &g.comps, &g.syn, &g.groups);
    let need0 = |end: usize, inst_min: &[usize]| {
        let mut need = end.max(1);
        for (i, r) in g.inst_rows.iter().enumerate() {
            need = need.max(*r).max(inst_min[i]);
        }
        need
    };
    let min_k = {
        let mut k = 3;
        while usable_rows(&conf, k).map(|u| u < need0(end, &inst_min)).unwrap_or(true) {
            k += 1;
        }
        k
    };
    let mut k = min_k + if cx.chance(1, 8) { 1 } else { 0 };
    // --- fill the row budget completely
    let mut full = false;
    if cx.chance(1, 3) {
        let usable = usable_rows(&conf, k).unwrap();
        if let Some(last) = (0..g.syn.items.len()).rev().find(|i| matches!(&g.syn.items[*i], Item::Region(o) if o.iter().any(|x| matches!(x, Op::Adv(_))))) {
            let lastend = g.syn.cells.iter().filter(|c| c.region == last).map(|c| starts[last] + c.off + 1).max().unwrap_or(0);
            if usable > lastend {
                let shift = usable - lastend;
                let mut syn2 = g.syn.clone();
                for c in syn2.cells.iter_mut().filter(|c| c.region == last) {
                    c.off += shift;
                }
                if let Item::Region(ops) = &mut syn2.items[last] {
                    for o in ops {
                        if let Op::Sel(_, off) = o {
                            *off += shift;
                        }
                    }
                }
                let mut comps2 = g.comps.clone();
                for c in comps2.iter_mut().filter(|c| c.region == last) {
                    c.off += shift;
                }
                if let Ok((s2, e2, ev2)) = lay(&syn2) {
                    let im2 = inst_need(&s2, &comps2, &syn2, &g.groups);
                    if need0(e2, &im2) == usable {
                        full = true;
                        starts = s2;
                        end = e2;
                        evs = ev2;
                        inst_min = im2;
                        g.syn = syn2;
                        g.comps = comps2;
                    }
                }
            }
        }
    }
    let _ = end;
    // --- witnesses
    let nw = cx.usize(1, g.opts.max_wits.max(1));
    let mut inst_len = vec![0usize; conf.n_inst];
    let usable0 = usable_rows(&conf, k).unwrap();
    for c in 0..conf.n_inst {
        let base = g.inst_rows[c].max(inst_min[c]);
        inst_len[c] = match cx.weighted(&[4, 2, 1]) {
            0 => base,
            1 => (base + cx.usize(0, 2)).min(usable0),
            _ => usable0,
        };
    }
    let nodes = g.uf.p.len();
    let roots: Vec<usize> = (0..nodes).map(|i| g.uf.find(i)).collect();
    let cell_root: Vec<usize> = (0..g.syn.cells.len()).map(|i| roots[g.inst_node[&(usize::MAX, i)]]).collect();
    let mut by_pos: HashMap<(usize, K, usize, usize), usize> = HashMap::new();
    for (i, c) in g.syn.cells.iter().enumerate() {
        by_pos.insert((c.region, c.kind, c.col, c.off), i);
    }
    let mut wits = vec![];
    for _ in 0..nw {
        let small = cx.chance(1, 4);
        let mut val: Vec<Option<F>> = vec![None; nodes];
        for i in 0..nodes {
            if roots[i] == i {
                val[i] = match g.det[i] {
                    Det::Const(v) => Some(v),
                    Det::Comp => None,
                    _ => Some(if small { F::from(cx.below(3)) } else { cx.field() }),
                };
            }
        }
        let mut inst: Vec<Vec<F>> = vec![];
        for c in 0..conf.n_inst {
            let bind = g.bindable.contains(&c);
            let zero = bind && cx.bool();
            let mut rng = cx.rng();
            inst.push((0..inst_len[c]).map(|_| if zero { F::ZERO } else { F::random(&mut rng) }).collect());
        }
        for rec in &g.comps {
            let row = starts[rec.region] + rec.off;
            let v = veval(&rec.spec.e, &|l| match l {
                A(c, r) => {
                    let id = by_pos[&(rec.region, K::A, *c, (rec.off as i64 + *r as i64) as usize)];
                    V::R(val[cell_root[id]].expect("HARNESS: value order"))
                }
                X(c) => {
                    let id = by_pos[&(rec.region, K::F, *c, rec.off)];
                    V::R(val[cell_root[id]].expect("HARNESS: fixed value"))
                }
                I(c, r) => V::R(inst[*c][(row as i64 + *r as i64) as usize]),
                _ => panic!("HARNESS: leaf"),
            });
            let v = match v {
                V::R(v) => v * rec.spec.u.invert().unwrap(),
                V::P => panic!("HARNESS: poison"),
            };
            val[cell_root[rec.cell]] = Some(v);
        }
        for ((c, r), n) in &g.inst_node {
            if *c != usize::MAX {
                inst[*c][*r] = val[roots[*n]].expect("HARNESS: instance value");
            }
        }
        let vals = (0..g.syn.cells.len()).map(|i| val[cell_root[i]].expect("HARNESS: cell value")).collect();
        wits.push(Wit { vals, inst });
    }
    // constants placed by the floor planner
    let mut const_fix = vec![];
    {
        let mut inr = false;
        for e in &evs {
            match e {
                Ev::Enter(_) => inr = true,
                Ev::Exit => inr = false,
                Ev::Fix(c, r, Some(v)) if !inr => const_fix.push((*c, *r, *v)),
                _ => {}
            }
        }
    }
    // --- tables
    let mut groups: Vec<BTreeSet<usize>> = vec![];
    for l in &conf.lookups {
        let s: BTreeSet<usize> = l.iter().map(|(_, t)| *t).collect();
        let mut m = s;
        groups.retain(|g| {
            if g.is_disjoint(&m) {
                true
            } else {
                m.extend(g.iter().cloned());
                false
            }
        });
        groups.push(m);
    }
    for (i, t) in conf.fix.iter().enumerate() {
        if *t && !groups.iter().any(|g| g.contains(&i)) {
            groups.push(std::iter::once(i).collect());
        }
    }
    let groups: Vec<Vec<usize>> = groups.into_iter().map(|g| g.into_iter().collect()).collect();
    let table_pos: Vec<usize> = groups.iter().map(|_| cx.usize(0, g.syn.items.len())).collect();
    let mut decoys: Vec<Vec<Vec<F>>> = vec![];
    for gr in &groups {
        let nd = cx.usize(0, 3);
        decoys.push((0..nd).map(|_| gr.iter().map(|_| cx.field()).collect()).collect());
    }
    let shuffle_seed = cx.chance(1, 2);
    let mut trng = cx.rng();
    loop {
        let usable = usable_rows(&conf, k).unwrap();
        let n = 1usize << k;
        let mut built = Built {
            conf: conf.clone(),
            syn: Arc::new(g.syn.clone()),
            planner: g.planner,
            k,
            n,
            usable,
            starts: starts.clone(),
            wits: wits.iter().cloned().map(Arc::new).collect(),
            cs_degree: 0,
            full,
            const_fix: const_fix.clone(),
        };
        let mut tables: Vec<Vec<Vec<F>>> = vec![];
        let mut poison = false;
        for (gi, gr) in groups.iter().enumerate() {
            let mut rows: Vec<Vec<F>> = vec![];
            let mut seen: Vec<BTreeSet<Vec<F>>> = vec![BTreeSet::new(); conf.lookups.len()];
            for (li, l) in conf.lookups.iter().enumerate() {
                if !gr.contains(&l[0].1) {
                    continue;
                }
                for w in &built.wits {
                    let grid = Grid::new(&built, w, &Ov::default());
                    for row in 0..usable {
                        let tup: Vec<V<F>> = l.iter().map(|(e, _)| veval(e, &|x| grid.leaf(x, row))).collect();
                        if tup.contains(&V::P) {
                            poison = true;
                            continue;
                        }
                        let tup: Vec<F> = tup.into_iter().map(|v| if let V::R(v) = v { v } else { F::ZERO }).collect();
                        if seen[li].insert(tup.clone()) {
                            let full_row: Vec<F> = gr
                                .iter()
                                .map(|t| match l.iter().position(|(_, x)| x == t) {
                                    Some(i) => tup[i],
                                    None => F::random(&mut trng),
                                })
                                .collect();
                            rows.push(full_row);
                        }
                    }
                }
            }
            for d in &decoys[gi] {
                rows.push(d.clone());
            }
            if rows.is_empty() {
                rows.push(gr.iter().map(|_| F::ONE).collect());
            }
            if shuffle_seed {
                for i in (1..rows.len()).rev() {
                    let j = (trng.next_u32() as usize) % (i + 1);
                    rows.swap(i, j);
                }
            }
            tables.push(rows);
        }
        if poison || tables.iter().any(|t| t.len() > usable) {
            if k >= 9 {
                panic!("HARNESS: lookup input reads an unusable row");
            }
            k += 1;
            full = false;
            continue;
        }
        // insert the table items; positions only affect the order of synthesis
        let mut syn = g.syn.clone();
        let mut order: Vec<usize> = (0..groups.len()).collect();
        order.sort_by_key(|i| std::cmp::Reverse(table_pos[*i]));
        let mut remap: Vec<usize> = (0..syn.items.len()).collect();
        for i in order {
            let p = table_pos[i];
            syn.items.insert(p, Item::Table(groups[i].clone(), tables[i].clone()));
            remap.iter_mut().for_each(|x| {
                if *x >= p {
                    *x += 1
                }
            });
        }
        for c in syn.cells.iter_mut() {
            c.region = remap[c.region];
        }
        let mut st = vec![usize::MAX; syn.items.len()];
        for (i, s) in starts.iter().enumerate() {
            st[remap[i]] = *s;
        }
        built.syn = Arc::new(syn);
        built.starts = st;
        let mut cs = ConstraintSystem::default();
        let _ = configure_from(conf.clone(), &mut cs);
        built.cs_degree = cs.degree();
        return built;
    }
}

// ---------------------------------------------------------------- reference semantics

pub struct Grid<'a, F> {
    pub b: &'a Built<F>,
    pub adv: Vec<Vec<V<F>>>,
    pub fix: Vec<Vec<F>>,
    pub inst: Vec<Vec<F>>,
    pub sel: Vec<Vec<bool>>,
}
impl<'a, F: Fld> Grid<'a, F> {
    pub fn new(b: &'a Built<F>, w: &Wit<F>, ov: &Ov<F>) -> Self {
        let n = b.n;
        let mut adv = vec![vec![V::R(F::ZERO); n]; b.conf.n_adv];
        for c in adv.iter_mut() {
            for x in c.iter_mut().skip(b.usable) {
                *x = V::P;
            }
        }
        let mut fix = vec![vec![F::ZERO; n]; b.conf.fix.len()];
        let mut sel = vec![vec![false; n]; b.conf.sels.len()];
        for (c, r, v) in &b.const_fix {
            fix[*c][*r] = *v;
        }
        for (ri, it) in b.syn.items.iter().enumerate() {
            match it {
                Item::Region(ops) => {
                    for o in ops {
                        match o {
                            Op::Sel(s, off) => sel[*s][b.starts[ri] + off] = true,
                            Op::Adv(id) | Op::FromConst(id, _) | Op::FromInst(id, ..) | Op::Copy(id, _) => {
                                let c = &b.syn.cells[*id];
                                adv[c.col][b.starts[ri] + c.off] = V::R(w.vals[*id]);
                            }
                            Op::Fix(id, v) => {
                                let c = &b.syn.cells[*id];
                                fix[c.col][b.starts[ri] + c.off] = *v;
                            }
                            _ => {}
                        }
                    }
                }
                Item::Table(cols, rows) => {
                    for (j, c) in cols.iter().enumerate() {
                        for r in 0..b.usable {
                            fix[*c][r] = rows.get(r).unwrap_or(&rows[0])[j];
                        }
                    }
                }
                Item::Bind(..) => {}
            }
        }
        for ((c, r), v) in ov {
            adv[*c][*r] = V::R(*v);
        }
        let inst = w
            .inst
            .iter()
            .map(|v| {
                let mut v = v.clone();
                v.resize(n, F::ZERO);
                v
            })
            .collect();
        Grid { b, adv, fix, inst, sel }
    }
    pub fn leaf(&self, l: &Ex<F>, row: usize) -> V<F> {
        let n = self.b.n as i64;
        let at = |r: i32| ((row as i64 + r as i64 + n) % n) as usize;
        match l {
            A(c, r) => self.adv[*c][at(*r)],
            X(c) => V::R(self.fix[*c][row]),
            I(c, r) => V::R(self.inst[*c][at(*r)]),
            S(s) => V::R(if self.sel[*s][row] { F::ONE } else { F::ZERO }),
            _ => panic!("HARNESS: not a leaf"),
        }
    }
    pub fn at(&self, k: K, c: usize, r: usize) -> V<F> {
        match k {
            K::A => self.adv[c][r],
            K::F => V::R(self.fix[c][r]),
            K::I => V::R(self.inst[c][r]),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Verdict {
    /// (gate, poly, row)
    pub gates: Vec<(usize, usize, usize)>,
    /// (lookup, row)
    pub lookups: Vec<(usize, usize)>,
    /// description of violated copies
    pub copies: Vec<String>,
    /// columns (kind, idx) of cells on violated copies
    pub copy_cols: BTreeSet<(K, usize)>,
}
impl Verdict {
    pub fn ok(&self) -> bool {
        self.gates.is_empty() && self.lookups.is_empty() && self.copies.is_empty()
    }
    pub fn show(&self) -> String {
        format!("gates {:?} lookups {:?} copies {:?}", self.gates, self.lookups, self.copies)
    }
}

impl<F: Fld> Built<F> {
    pub fn pos(&self, id: usize) -> (K, usize, usize) {
        let c = &self.syn.cells[id];
        (c.kind, c.col, self.starts[c.region] + c.off)
    }
    /// The requested equalities: (cell, cell or constant).
    pub fn equalities(&self) -> Vec<((K, usize, usize), Result<(K, usize, usize), F>)> {
        let mut v = vec![];
        for it in &self.syn.items {
            match it {
                Item::Region(ops) => {
                    for o in ops {
                        match o {
                            Op::FromConst(id, c) | Op::Const(id, c) => v.push((self.pos(*id), Err(*c))),
                            Op::FromInst(id, ic, ir) => v.push((self.pos(*id), Ok((K::I, *ic, *ir)))),
                            Op::Copy(a, b) | Op::Eq(a, b) => v.push((self.pos(*a), Ok(self.pos(*b)))),
                            _ => {}
                        }
                    }
                }
                Item::Bind(id, ic, ir) => v.push((self.pos(*id), Ok((K::I, *ic, *ir)))),
                Item::Table(..) => {}
            }
        }
        v
    }
    pub fn reference(&self, w: &Wit<F>, ov: &Ov<F>) -> Verdict {
        let g = Grid::new(self, w, ov);
        let mut out = Verdict::default();
        for (gi, gate) in self.conf.gates.iter().enumerate() {
            for (pi, p) in gate.iter().enumerate() {
                for row in 0..self.n {
                    if veval(p, &|l| g.leaf(l, row)) != V::R(F::ZERO) {
                        out.gates.push((gi, pi, row));
                    }
                }
            }
        }
        for (li, l) in self.conf.lookups.iter().enumerate() {
            let table: BTreeSet<Vec<F>> =
                (0..self.usable).map(|r| l.iter().map(|(_, t)| g.fix[*t][r]).collect()).collect();
            for row in 0..self.usable {
                let mut ok = true;
                let mut tup = vec![];
                for (e, _) in l {
                    match veval(e, &|x| g.leaf(x, row)) {
                        V::R(v) => tup.push(v),
                        V::P => ok = false,
                    }
                }
                if !ok || !table.contains(&tup) {
                    out.lookups.push((li, row));
                }
            }
        }
        for (a, b) in self.equalities() {
            let va = g.at(a.0, a.1, a.2);
            let (vb, db) = match b {
                Ok(p) => (g.at(p.0, p.1, p.2), format!("{:?}", p)),
                Err(c) => (V::R(c), format!("const {}", short(&c))),
            };
            if va != vb {
                out.copies.push(format!("{:?} != {}", a, db));
                out.copy_cols.insert((a.0, a.1));
                if let Ok(p) = b {
                    out.copy_cols.insert((p.0, p.1));
                }
            }
        }
        out
    }

    pub fn describe(&self) -> String {
        let mut s = format!(
            "k={} usable={} full={} planner={} adv={} inst={} fix={} sels={:?} eq={} consts={:?} degree={} wits={} gates=[",
            self.k,
            self.usable,
            self.full,
            PLANNERS[self.planner],
            self.conf.n_adv,
            self.conf.n_inst,
            self.conf.fix.len(),
            self.conf.sels.iter().map(|c| if *c { 'c' } else { 's' }).collect::<String>(),
            self.conf.eq.len(),
            self.conf.consts,
            self.cs_degree,
            self.wits.len()
        );
        for g in &self.conf.gates {
            s += &g.iter().map(|p| p.show()).collect::<Vec<_>>().join("; ");
            s += " | ";
        }
        s += "] lookups=[";
        for l in &self.conf.lookups {
            s += &l.iter().map(|(e, t)| format!("{} in f{}", e.show(), t)).collect::<Vec<_>>().join("; ");
            s += " | ";
        }
        s += &format!("] items={} cells={}", self.syn.items.len(), self.syn.cells.len());
        s
    }

    pub fn circuit<P>(&self, w: Option<&Arc<Wit<F>>>, ov: &Ov<F>) -> SpecCircuit<F, P> {
        SpecCircuit { syn: self.syn.clone(), wit: w.cloned(), ov: Arc::new(ov.clone()), _p: PhantomData }
    }

    pub fn mock_prover(&self, w: &Arc<Wit<F>>, ov: &Ov<F>) -> Result<MockProver<F>, Error> {
        set_conf(&self.conf);
        let inst = w.inst.clone();
        let r = match self.planner {
            0 => MockProver::run(self.k, &self.circuit::<Tamper<SimpleFloorPlanner>>(Some(w), ov), inst),
            _ => MockProver::run(self.k, &self.circuit::<Tamper<V1>>(Some(w), ov), inst),
        };
        tamper::clear();
        r
    }
    pub fn mock(&self, w: &Arc<Wit<F>>, ov: &Ov<F>) -> Result<Result<(), Vec<VerifyFailure>>, Error> {
        Ok(self.mock_prover(w, ov)?.verify())
    }

    pub fn vk<Crv: Cv<F>>(&self, params: &Params<Crv>) -> Result<VerifyingKey<Crv>, Error> {
        set_conf(&self.conf);
        match self.planner {
            0 => keygen_vk(params, &self.circuit::<Tamper<SimpleFloorPlanner>>(None, &Ov::default())),
            _ => keygen_vk(params, &self.circuit::<Tamper<V1>>(None, &Ov::default())),
        }
    }
    pub fn keys<Crv: Cv<F>>(&self, params: &Params<Crv>) -> Result<ProvingKey<Crv>, Error> {
        let vk = self.vk(params)?;
        match self.planner {
            0 => keygen_pk(params, vk, &self.circuit::<Tamper<SimpleFloorPlanner>>(None, &Ov::default())),
            _ => keygen_pk(params, vk, &self.circuit::<Tamper<V1>>(None, &Ov::default())),
        }
    }
    /// Keys generated with the witness present and without the tampering planner.
    pub fn keys_plain<Crv: Cv<F>>(&self, params: &Params<Crv>, w: Option<&Arc<Wit<F>>>) -> Result<ProvingKey<Crv>, Error> {
        set_conf(&self.conf);
        match self.planner {
            0 => {
                let c = self.circuit::<SimpleFloorPlanner>(w, &Ov::default());
                let vk = keygen_vk(params, &c)?;
                keygen_pk(params, vk, &c)
            }
            _ => {
                let c = self.circuit::<V1>(w, &Ov::default());
                let vk = keygen_vk(params, &c)?;
                keygen_pk(params, vk, &c)
            }
        }
    }

    /// Proves with the given (witness, overrides) per circuit; `proof_inst` are the
    /// instances handed to the prover.
    pub fn prove<Crv: Cv<F>>(
        &self,
        params: &Params<Crv>,
        pk: &ProvingKey<Crv>,
        circuits: &[(Arc<Wit<F>>, Ov<F>)],
        rng: impl RngCore,
    ) -> Result<Vec<u8>, Error> {
        set_conf(&self.conf);
        let insts: Vec<Vec<&[F]>> = circuits.iter().map(|(w, _)| w.inst_refs()).collect();
        let insts2: Vec<&[&[F]]> = insts.iter().map(|v| &v[..]).collect();
        let mut t = Blake2bWrite::<Vec<u8>, Crv, Challenge255<Crv>>::init(vec![]);
        let r = match self.planner {
            0 => {
                let cs: Vec<_> = circuits.iter().map(|(w, o)| self.circuit::<Tamper<SimpleFloorPlanner>>(Some(w), o)).collect();
                create_proof(params, pk, &cs, &insts2, rng, &mut t)
            }
            _ => {
                let cs: Vec<_> = circuits.iter().map(|(w, o)| self.circuit::<Tamper<V1>>(Some(w), o)).collect();
                create_proof(params, pk, &cs, &insts2, rng, &mut t)
            }
        };
        tamper::clear();
        r?;
        Ok(t.finalize())
    }
}

/// Single verification of `proof` against the given instances; Ok(()) = accepted.
pub fn verify<F: Fld, Crv: Cv<F>>(params: &Params<Crv>, vk: &VerifyingKey<Crv>, insts: &[Vec<Vec<F>>], proof: &[u8]) -> Result<(), Error> {
    let i1: Vec<Vec<&[F]>> = insts.iter().map(|c| c.iter().map(|v| &v[..]).collect()).collect();
    let i2: Vec<&[&[F]]> = i1.iter().map(|v| &v[..]).collect();
    let strategy = SingleVerifier::new(params);
    let mut t = Blake2bRead::<_, Crv, Challenge255<Crv>>::init(proof);
    verify_proof(params, vk, strategy, &i2, &mut t)
}

// ---------------------------------------------------------------- perturbations

#[derive(Clone, Debug)]
pub struct Pert<F> {
    pub what: String,
    pub wit: Arc<Wit<F>>,
    pub ov: Ov<F>,
}

impl<F: Fld> Built<F> {
    /// All advice cell ids.
    pub fn adv_cells(&self) -> Vec<usize> {
        (0..self.syn.cells.len()).filter(|i| self.syn.cells[*i].kind == K::A).collect()
    }
    /// Equality classes over requested equalities, as sets of positions.
    pub fn classes(&self) -> Vec<BTreeSet<(K, usize, usize)>> {
        let mut cl: Vec<BTreeSet<(K, usize, usize)>> = vec![];
        for (a, b) in self.equalities() {
            let mut m: BTreeSet<_> = std::iter::once(a).collect();
            if let Ok(b) = b {
                m.insert(b);
            }
            cl.retain(|c| {
                if c.is_disjoint(&m) {
                    true
                } else {
                    m.extend(c.iter().cloned());
                    false
                }
            });
            cl.push(m);
        }
        cl
    }
    /// A new value different from `old`, sometimes by a structured difference.
    pub fn alter(&self, cx: &mut Cx, w: &Wit<F>, old: F) -> F {
        let v = match cx.weighted(&[3, 1, 2, 1, 3]) {
            4 => {
                // a value that occurs elsewhere: in a table, a cell or an instance
                let mut pool: Vec<F> = vec![];
                for it in &self.syn.items {
                    if let Item::Table(_, rows) = it {
                        pool.extend(rows.iter().flatten().cloned());
                    }
                }
                if pool.is_empty() || cx.chance(1, 3) {
                    pool.extend(w.vals.iter().cloned());
                }
                pool.push(F::ZERO);
                *cx.pick(&pool)
            }
            0 => old + F::ONE,
            1 => -old,
            2 => cx.field(),
            _ => old.double(),
        };
        if v == old {
            old + F::ONE
        } else {
            v
        }
    }
    /// A perturbation of one witness: one advice cell, a whole copy class, an instance
    /// value, two cells, or an unassigned advice cell is impossible (not assigned).
    pub fn perturb(&self, cx: &mut Cx, w: &Arc<Wit<F>>) -> Option<Pert<F>> {
        let adv = self.adv_cells();
        let mut ov = Ov::default();
        let mut wit = (**w).clone();
        let mut what = String::new();
        let kind = cx.weighted(&[6, 3, 2, 2]);
        match kind {
            1 => {
                let cl: Vec<_> = self.classes().into_iter().filter(|c| c.len() > 1 && c.iter().any(|p| p.0 == K::A)).collect();
                if !cl.is_empty() {
                    let c = cx.pick(&cl).clone();
                    let rep = c.iter().find(|p| p.0 == K::A).unwrap();
                    let old = self.value_at(w, rep);
                    let v = self.alter(cx, w, old);
                    for p in &c {
                        match p.0 {
                            K::A => {
                                ov.insert((p.1, p.2), v);
                            }
                            K::I => wit.inst[p.1][p.2] = v,
                            K::F => {}
                        }
                    }
                    what = format!("class of {} cells around {:?} set to {}", c.len(), rep, short(&v));
                }
            }
            2 => {
                let nonempty: Vec<usize> = (0..wit.inst.len()).filter(|i| !wit.inst[*i].is_empty()).collect();
                if !nonempty.is_empty() {
                    let c = *cx.pick(&nonempty);
                    let r = cx.usize(0, wit.inst[c].len() - 1);
                    let v = self.alter(cx, w, wit.inst[c][r]);
                    wit.inst[c][r] = v;
                    // the witness keeps its values (cells assigned from the instance follow it otherwise)
                    for cl in self.classes() {
                        if cl.contains(&(K::I, c, r)) {
                            for p in cl.iter().filter(|p| p.0 == K::A) {
                                ov.insert((p.1, p.2), self.value_at(w, p));
                            }
                        }
                    }
                    what = format!("instance {} row {} set to {}", c, r, short(&v));
                }
            }
            _ => {}
        }
        if what.is_empty() {
            if adv.is_empty() {
                return None;
            }
            let cnt = if kind == 3 { 2 } else { 1 };
            for _ in 0..cnt {
                let id = *cx.pick(&adv);
                let p = self.pos(id);
                let v = self.alter(cx, w, w.vals[id]);
                ov.insert((p.1, p.2), v);
                what += &format!("cell a{}@{} set to {}; ", p.1, p.2, short(&v));
            }
        }
        Some(Pert { what, wit: Arc::new(wit), ov })
    }
    pub fn value_at(&self, w: &Wit<F>, p: &(K, usize, usize)) -> F {
        match p.0 {
            K::A => {
                for i in self.adv_cells() {
                    if self.pos(i) == *p {
                        return w.vals[i];
                    }
                }
                F::ZERO
            }
            K::I => w.inst[p.1].get(p.2).copied().unwrap_or(F::ZERO),
            K::F => F::ZERO,
        }
    }
}
