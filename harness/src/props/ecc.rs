//! C26 point operations, C27 variable-base and C28 fixed-base scalar multiplication.
use std::marker::PhantomData;

use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{
    compute_lagrange_coeffs, find_zs_and_us, BaseFieldElem, EccChip, EccConfig, FixedPoint as FixedPointT, FullScalar, ScalarVar as ChipScalarVar,
    ShortScalar, H, NUM_WINDOWS, NUM_WINDOWS_SHORT,
};
use halo2_gadgets::ecc::{
    FixedPoint, FixedPointBaseField, FixedPointShort, FixedPoints, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar,
};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig};
use halo2_gadgets::utilities::lookup_range_check::{
    LookupRangeCheck, PallasLookupRangeCheck, PallasLookupRangeCheck4_5BConfig, PallasLookupRangeCheckConfig,
};
use halo2_proofs::arithmetic::CurveAffine;
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Instance, TableColumn};
use pasta_curves::{pallas, Fp, Fq};

use crate::engine::{sub, Cx, Prop, R};
use crate::ensure;
use crate::forge::{self, Trace};
use crate::gadget::{attack, rejects, Plan};
use crate::tamper::{Pos, Tamper, K};

type Aff = pallas::Affine;
type Cell = AssignedCell<Fp, Fp>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "at least one addition, multiplexer or sign operation on a non-identity point; distinct by generator tape",
            assumptions: &["Pallas", "programs of up to 8 operations on up to 6 points", "prover-chosen auxiliary cells of exceptional additions are free"],
            subs: vec![sub("points", 1200, 60000, c26_points), sub("forge", 120, 8000, c26_forge), sub("endo", 200, 10000, c26_pairs)],
        },
        Prop {
            id: "C27",
            rule: "a product computed in circuit with a non-zero scalar; distinct by generator tape",
            assumptions: &["Pallas", "one to four products per circuit, both lookup configurations"],
            subs: vec![sub("mul", 260, 20000, c27_mul), sub("forge", 16, 600, c27_forge)],
        },
        Prop {
            id: "C28",
            rule: "a product with a non-zero scalar, or a table of a random base; distinct by generator tape",
            assumptions: &[
                "Pallas; fixed bases from a precomputed list of z values, checked against their definition before use",
                "the derived-table search runs on up to 2 windows of random bases",
            ],
            subs: vec![
                sub("mul", 240, 20000, c28_mul),
                sub("forge", 12, 500, c28_forge),
                sub("tables", 24, 400, c28_tables),
                sub("search", 8, 200, c28_search),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------------------
// Fixed bases

#[derive(Debug)]
pub struct BaseData {
    pub g: Aff,
    full: (Vec<u64>, Vec<[[u8; 32]; H]>, Vec<[Fp; H]>),
    short: (Vec<u64>, Vec<[[u8; 32]; H]>, Vec<[Fp; H]>),
}
/// The points of every window, by the definition in the book.
fn windows(g: Aff, n: usize) -> Vec<[Aff; H]> {
    let mut out = vec![];
    let mut unit = g.to_curve(); // [8^w] g
    let mut sum = pallas::Point::identity(); // [sum of 2 * 8^j] g
    for w in 0..n {
        let row: Vec<Aff> = (0..H as u64)
            .map(|k| if w + 1 < n { (unit * Fq::from(k + 2)).to_affine() } else { (unit * Fq::from(k) - sum).to_affine() })
            .collect();
        out.push(row.try_into().unwrap());
        sum += unit.double();
        unit = unit.double().double().double();
    }
    out
}
fn xy(p: &Aff) -> (Fp, Fp) {
    let c = p.coordinates();
    if bool::from(c.is_some()) {
        (*c.unwrap().x(), *c.unwrap().y())
    } else {
        (Fp::ZERO, Fp::ZERO)
    }
}
fn square(v: &Fp) -> bool {
    // Euler's criterion
    let e = (-Fp::ONE) * Fp::TWO_INV;
    let r = e.to_repr();
    let limbs: Vec<u64> = (0..4).map(|i| u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap())).collect();
    *v == Fp::ZERO || v.pow_vartime(&limbs) == Fp::ONE
}
/// z + y is a square and z - y is not, for every point of a window
fn z_ok(z: u64, ws: &[Aff; H]) -> bool {
    ws.iter().all(|p| {
        let y = xy(p).1;
        square(&(Fp::from(z) + y)) && !square(&(Fp::from(z) - y))
    })
}
fn us(z: u64, ws: &[Aff; H]) -> [[u8; 32]; H] {
    let v: Vec<[u8; 32]> = ws.iter().map(|p| Option::<Fp>::from((Fp::from(z) + xy(p).1).sqrt()).expect("HARNESS: z value").to_repr()).collect();
    v.try_into().unwrap()
}
const DATA: &str = include_str!("../../data/bases.txt");
/// Base number i of the list.
pub fn nth_base(i: u64) -> Aff {
    if i == 0 {
        pallas::Point::generator().to_affine()
    } else {
        (pallas::Point::generator() * Fq::from(0x9e3779b97f4a7c15u64.wrapping_mul(i)).square()).to_affine()
    }
}
/// Lines `index full|short z...`
fn parse_bases() -> Vec<BaseData> {
    let mut m: std::collections::BTreeMap<u64, (Vec<u64>, Vec<u64>)> = Default::default();
    for l in DATA.lines().filter(|l| !l.trim().is_empty()) {
        let mut f = l.split_whitespace();
        let i: u64 = f.next().unwrap().parse().unwrap();
        let kind = f.next().unwrap();
        let zs = f.map(|x| x.parse().unwrap()).collect();
        let e = m.entry(i).or_default();
        if kind == "full" {
            e.0 = zs
        } else {
            e.1 = zs
        }
    }
    m.into_iter()
        .map(|(i, (f, s))| {
            let g = nth_base(i);
            let mk = |zs: Vec<u64>, n: usize| {
                assert_eq!(zs.len(), n, "HARNESS: bases.txt");
                let ws = windows(g, n);
                let us = zs.iter().zip(&ws).map(|(z, w)| us(*z, w)).collect();
                (zs, us, compute_lagrange_coeffs(g, n))
            };
            BaseData { g, full: mk(f, NUM_WINDOWS), short: mk(s, NUM_WINDOWS_SHORT) }
        })
        .collect()
}
lazy_static::lazy_static! {
    pub static ref BASES: Vec<BaseData> = parse_bases();
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Bases;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Full(pub usize);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Short(pub usize);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct BaseF(pub usize);
macro_rules! fixed_point {
    ($t:ident, $kind:ident, $field:ident) => {
        impl FixedPointT<Aff> for $t {
            type FixedScalarKind = $kind;
            fn generator(&self) -> Aff {
                BASES[self.0].g
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                BASES[self.0].$field.1.clone()
            }
            fn z(&self) -> Vec<u64> {
                BASES[self.0].$field.0.clone()
            }
            fn lagrange_coeffs(&self) -> Vec<[Fp; H]> {
                BASES[self.0].$field.2.clone()
            }
        }
    };
}
fixed_point!(Full, FullScalar, full);
fixed_point!(Short, ShortScalar, short);
fixed_point!(BaseF, BaseFieldElem, full);
impl FixedPoints<Aff> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = BaseF;
}

// ------------------------------------------------------------------------------------------------
// Programs of curve operations

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Any,
    Non,
    Const,
}
#[derive(Clone, Debug)]
pub enum Op {
    Wit(Kind, Aff),
    Scalar(Fp),
    Add(usize, usize),
    Inc(usize, usize),
    Sign(usize, usize),
    Eq(usize, usize),
    Mux(usize, usize, usize),
    X(usize),
    Mul(usize, usize),
    /// multiplies by the scalar that the latest multiplication returned
    Again(usize),
    Full(Fq, usize),
    BaseF(usize, usize),
    Short(usize, usize, usize),
}
pub trait Lk: PallasLookupRangeCheck + 'static {
    const TAGS: bool;
    fn make(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>, idx: TableColumn, tag: TableColumn) -> Self;
}
impl Lk for PallasLookupRangeCheckConfig {
    const TAGS: bool = false;
    fn make(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>, idx: TableColumn, _: TableColumn) -> Self {
        Self::configure(meta, z, idx)
    }
}
impl Lk for PallasLookupRangeCheck4_5BConfig {
    const TAGS: bool = true;
    fn make(meta: &mut ConstraintSystem<Fp>, z: Column<Advice>, idx: TableColumn, tag: TableColumn) -> Self {
        Self::configure_with_tag(meta, z, idx, tag)
    }
}
#[derive(Clone, Debug)]
pub struct Prog<L> {
    ops: Vec<Op>,
    /// load the 10-bit table
    table: bool,
    _l: PhantomData<L>,
}
#[derive(Clone, Debug)]
pub struct Cfg<L: PallasLookupRangeCheck> {
    ecc: EccConfig<Bases, L>,
    swap: CondSwapConfig,
    idx: TableColumn,
    tag: TableColumn,
    free: Column<Advice>,
    inp: Column<Instance>,
    out: Column<Instance>,
}
enum P<L: Lk> {
    Any(Point<Aff, EccChip<Bases, L>>),
    Non(NonIdentityPoint<Aff, EccChip<Bases, L>>),
}
impl<L: Lk> P<L> {
    fn xy(&self) -> (Cell, Cell) {
        match self {
            P::Any(p) => (p.inner().x(), p.inner().y()),
            P::Non(p) => (p.inner().x(), p.inner().y()),
        }
    }
    fn any(&self) -> Point<Aff, EccChip<Bases, L>> {
        match self {
            P::Any(p) => p.clone(),
            P::Non(p) => p.clone().into(),
        }
    }
}
pub fn fill_table(layouter: &mut impl Layouter<Fp>, idx: TableColumn, tag: TableColumn, tags: bool, full: bool) -> Result<(), Error> {
    layouter.assign_table(
        || "table",
        |mut t| {
            let mut row = 0;
            for (n, tg) in [(if full { 1024u64 } else { 1 }, 0u64), (16, 4), (32, 5)] {
                if tg > 0 && !(tags && full) {
                    continue;
                }
                for i in 0..n {
                    t.assign_cell(|| "idx", idx, row, || Value::known(Fp::from(i)))?;
                    if tags {
                        t.assign_cell(|| "tag", tag, row, || Value::known(Fp::from(tg)))?;
                    }
                    row += 1;
                }
            }
            Ok(())
        },
    )
}
impl<L: Lk> Circuit<Fp> for Prog<L> {
    type Config = Cfg<L>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let advices: Vec<Column<Advice>> = (0..10).map(|_| meta.advice_column()).collect();
        let free = meta.advice_column();
        let idx = meta.lookup_table_column();
        let tag = meta.lookup_table_column();
        let lagrange: Vec<_> = (0..8).map(|_| meta.fixed_column()).collect();
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        meta.enable_equality(free);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        let range = L::make(meta, advices[9], idx, tag);
        let swap = CondSwapChip::<Fp>::configure(meta, advices[..5].try_into().unwrap());
        let ecc = EccChip::<Bases, L>::configure(meta, advices.try_into().unwrap(), lagrange.try_into().unwrap(), range);
        Cfg { ecc, swap, idx, tag, free, inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<Fp>) -> Result<(), Error> {
        fill_table(&mut layouter, cfg.idx, cfg.tag, L::TAGS, self.table)?;
        let chip = EccChip::construct(cfg.ecc.clone());
        let swap = CondSwapChip::<Fp>::construct(cfg.swap.clone());
        let (mut i, mut o) = (0, 0);
        let mut pts: Vec<P<L>> = vec![];
        let mut scs: Vec<Cell> = vec![];
        let mut back = None;
        for op in &self.ops {
            let mut l = layouter.namespace(|| format!("{:?}", std::mem::discriminant(op)));
            let r = match op {
                Op::Wit(kind, v) => {
                    let p = match kind {
                        Kind::Any => P::Any(Point::new(chip.clone(), l.namespace(|| "point"), Value::known(*v))?),
                        Kind::Non => P::Non(NonIdentityPoint::new(chip.clone(), l.namespace(|| "point"), Value::known(*v))?),
                        Kind::Const => P::Any(Point::new_from_constant(chip.clone(), l.namespace(|| "point"), *v)?),
                    };
                    let (x, y) = p.xy();
                    l.constrain_instance(x.cell(), cfg.inp, i)?;
                    l.constrain_instance(y.cell(), cfg.inp, i + 1)?;
                    i += 2;
                    pts.push(p);
                    continue;
                }
                Op::Scalar(_) => {
                    let c = l.assign_region(|| "scalar", |mut r| r.assign_advice_from_instance(|| "scalar", cfg.inp, i, cfg.free, 0))?;
                    i += 1;
                    scs.push(c);
                    continue;
                }
                Op::Eq(a, b) => {
                    match (&pts[*a], &pts[*b]) {
                        (P::Any(p), q) => p.constrain_equal(l.namespace(|| "eq"), &q.any())?,
                        (P::Non(p), P::Non(q)) => p.constrain_equal(l.namespace(|| "eq"), q)?,
                        (P::Non(p), P::Any(q)) => p.constrain_equal(l.namespace(|| "eq"), q)?,
                    }
                    continue;
                }
                Op::X(a) => {
                    let x = match &pts[*a] {
                        P::Any(p) => p.extract_p().inner().clone(),
                        P::Non(p) => p.extract_p().inner().clone(),
                    };
                    l.constrain_instance(x.cell(), cfg.out, o)?;
                    o += 1;
                    continue;
                }
                Op::Add(a, b) => P::Any(match (&pts[*a], &pts[*b]) {
                    (P::Any(p), P::Any(q)) => p.add(l.namespace(|| "add"), q)?,
                    (P::Any(p), P::Non(q)) => p.add(l.namespace(|| "add"), q)?,
                    (P::Non(p), P::Any(q)) => p.add(l.namespace(|| "add"), q)?,
                    (P::Non(p), P::Non(q)) => p.add(l.namespace(|| "add"), q)?,
                }),
                Op::Inc(a, b) => match (&pts[*a], &pts[*b]) {
                    (P::Non(p), P::Non(q)) => P::Non(p.add_incomplete(l.namespace(|| "inc"), q)?),
                    _ => panic!("HARNESS: kinds"),
                },
                Op::Sign(s, a) => P::Any(pts[*a].any().mul_sign(l.namespace(|| "sign"), &scs[*s])?),
                Op::Mux(s, a, b) => match (&pts[*a], &pts[*b]) {
                    (P::Non(p), P::Non(q)) => {
                        let r = swap.mux_on_non_identity_points(l.namespace(|| "mux"), &scs[*s], p.inner(), q.inner())?;
                        P::Non(NonIdentityPoint::from_inner(chip.clone(), r))
                    }
                    (p, q) => {
                        let r = swap.mux_on_points(l.namespace(|| "mux"), &scs[*s], p.any().inner(), q.any().inner())?;
                        P::Any(Point::from_inner(chip.clone(), r))
                    }
                },
                Op::Mul(s, a) => match &pts[*a] {
                    P::Non(p) => {
                        let s = ScalarVar::from_base(chip.clone(), l.namespace(|| "scalar"), &scs[*s])?;
                        let (r, s) = p.mul(l.namespace(|| "mul"), s)?;
                        back = Some(s);
                        P::Any(r)
                    }
                    _ => panic!("HARNESS: kinds"),
                },
                Op::Again(a) => match &pts[*a] {
                    P::Non(p) => {
                        let (r, s) = p.mul(l.namespace(|| "mul"), back.take().expect("HARNESS: scalar"))?;
                        back = Some(s);
                        P::Any(r)
                    }
                    _ => panic!("HARNESS: kinds"),
                },
                Op::Full(v, b) => {
                    let s = ScalarFixed::new(chip.clone(), l.namespace(|| "scalar"), Value::known(*v))?;
                    P::Any(FixedPoint::from_inner(chip.clone(), Full(*b)).mul(l.namespace(|| "full"), s)?.0)
                }
                Op::BaseF(s, b) => P::Any(FixedPointBaseField::from_inner(chip.clone(), BaseF(*b)).mul(l.namespace(|| "base"), scs[*s].clone())?),
                Op::Short(m, s, b) => {
                    let v = ScalarFixedShort::new(chip.clone(), l.namespace(|| "scalar"), (scs[*m].clone(), scs[*s].clone()))?;
                    P::Any(FixedPointShort::from_inner(chip.clone(), Short(*b)).mul(l.namespace(|| "short"), v)?.0)
                }
            };
            drop(l);
            let (x, y) = r.xy();
            layouter.constrain_instance(x.cell(), cfg.out, o)?;
            layouter.constrain_instance(y.cell(), cfg.out, o + 1)?;
            o += 2;
            pts.push(r);
        }
        Ok(())
    }
}

/// What the program should do on the inputs of an instance.
enum Expect {
    /// the circuit must not be satisfiable
    Reject(&'static str),
    /// outputs; None where the inputs do not determine them
    Outs(Vec<Option<Fp>>),
    /// outside of what an instruction promises
    Free,
}
pub fn decode(x: Fp, y: Fp) -> Option<Aff> {
    if x == Fp::ZERO && y == Fp::ZERO {
        Some(Aff::identity())
    } else if y.square() == x.square() * x + Fp::from(5) {
        Option::from(Aff::from_xy(x, y))
    } else {
        None
    }
}
pub fn int_scalar(a: &Fp) -> Fq {
    // p < q: the canonical integer of a base-field element
    Fq::from_repr(a.to_repr()).unwrap()
}
fn expect(ops: &[Op], inp: &[Fp], out: &[Fp]) -> Expect {
    let (mut i, mut o) = (0, 0);
    let mut pts: Vec<(Aff, bool)> = vec![];
    let mut scs: Vec<Fp> = vec![];
    let mut outs: Vec<Option<Fp>> = vec![];
    let mut last = Fp::ZERO;
    for op in ops {
        let (r, non) = match op {
            Op::Wit(kind, v) => {
                let p = match decode(inp[i], inp[i + 1]) {
                    Some(p) => p,
                    None => return Expect::Reject("a point off the curve"),
                };
                i += 2;
                if *kind == Kind::Non && bool::from(p.is_identity()) {
                    return Expect::Reject("the identity as a non-identity point");
                }
                if *kind == Kind::Const && p != *v {
                    return Expect::Reject("another value for a constant point");
                }
                pts.push((p, *kind == Kind::Non));
                continue;
            }
            Op::Scalar(_) => {
                scs.push(inp[i]);
                i += 1;
                continue;
            }
            Op::Eq(a, b) => {
                if pts[*a].0 != pts[*b].0 {
                    return Expect::Reject("different points constrained equal");
                }
                continue;
            }
            Op::X(a) => {
                outs.push(Some(xy(&pts[*a].0).0));
                o += 1;
                continue;
            }
            Op::Add(a, b) => ((pts[*a].0 + pts[*b].0).to_affine(), false),
            Op::Inc(a, b) => {
                if xy(&pts[*a].0).0 == xy(&pts[*b].0).0 {
                    return Expect::Free;
                }
                ((pts[*a].0 + pts[*b].0).to_affine(), true)
            }
            Op::Sign(s, a) => {
                let v = if scs[*s] == Fp::ONE {
                    pts[*a].0
                } else if scs[*s] == -Fp::ONE {
                    -pts[*a].0
                } else {
                    return Expect::Reject("a sign other than 1 and -1");
                };
                (v, false)
            }
            Op::Mux(s, a, b) => {
                let v = if scs[*s] == Fp::ZERO {
                    pts[*a].0
                } else if scs[*s] == Fp::ONE {
                    pts[*b].0
                } else {
                    return Expect::Reject("a choice other than 0 and 1");
                };
                (v, pts[*a].1 && pts[*b].1)
            }
            Op::Mul(s, a) => {
                last = scs[*s];
                ((pts[*a].0 * int_scalar(&last)).to_affine(), false)
            }
            Op::Again(a) => ((pts[*a].0 * int_scalar(&last)).to_affine(), false),
            Op::BaseF(s, b) => ((BASES[*b].g * int_scalar(&scs[*s])).to_affine(), false),
            Op::Short(m, s, b) => {
                let r = scs[*m].to_repr();
                if r.as_ref()[8..].iter().any(|b| *b != 0) {
                    return Expect::Reject("a magnitude of more than 64 bits");
                }
                let v = (BASES[*b].g * int_scalar(&scs[*m])).to_affine();
                if scs[*s] == Fp::ONE {
                    (v, false)
                } else if scs[*s] == -Fp::ONE {
                    (-v, false)
                } else {
                    return Expect::Reject("a sign other than 1 and -1");
                }
            }
            Op::Full(..) => {
                // any scalar may have been used
                let p = match out.get(o + 1).and_then(|y| decode(out[o], *y)) {
                    Some(p) => p,
                    None => return Expect::Reject("a product off the curve"),
                };
                outs.push(None);
                outs.push(None);
                o += 2;
                pts.push((p, false));
                continue;
            }
        };
        let (x, y) = xy(&r);
        outs.push(Some(x));
        outs.push(Some(y));
        o += 2;
        pts.push((r, non));
    }
    Expect::Outs(outs)
}
/// Inputs and, for full-width products, the outputs of the program as written.
fn natural(ops: &[Op]) -> (Vec<Fp>, Vec<Fp>) {
    let mut inp = vec![];
    let mut fulls = vec![];
    for op in ops {
        match op {
            Op::Wit(_, v) => {
                let (x, y) = xy(v);
                inp.push(x);
                inp.push(y);
            }
            Op::Scalar(s) => inp.push(*s),
            Op::Full(v, b) => fulls.push((BASES[*b].g * v).to_affine()),
            _ => {}
        }
    }
    // positions of full-width outputs
    let mut out = vec![];
    let mut f = fulls.into_iter();
    for op in ops {
        match op {
            Op::Wit(..) | Op::Scalar(..) | Op::Eq(..) => {}
            Op::X(_) => out.push(Fp::ZERO),
            Op::Full(..) => {
                let (x, y) = xy(&f.next().unwrap());
                out.push(x);
                out.push(y);
            }
            _ => {
                out.push(Fp::ZERO);
                out.push(Fp::ZERO);
            }
        }
    }
    (inp, out)
}
impl<L: Lk> Prog<L> {
    fn new(ops: Vec<Op>, table: bool) -> Self {
        Prog { ops, table, _l: PhantomData }
    }
    fn sys(&self) -> String {
        format!("ecc {}", std::any::type_name::<L>())
    }
    fn tab(&self) -> String {
        format!("ecc {} {}", std::any::type_name::<L>(), self.table)
    }
}
fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Wit(k, p) => format!("{:?}({:?})", k, xy(p).0),
            o => format!("{:?}", o),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
/// Runs a program with its natural inputs: satisfied exactly when it should be, with the expected
/// outputs, and not with other ones. Returns the trace of a satisfied program.
fn check<L: Lk>(cx: &mut Cx, k: u32, c: &Prog<L>, wrong: usize) -> Result<Option<(Trace<Fp>, Vec<Vec<Fp>>)>, String> {
    let ctx = |e: String| format!("[{}] {}", show(&c.ops), e);
    let (inp, full) = natural(&c.ops);
    cx.sample(|| show(&c.ops));
    let outs = match expect(&c.ops, &inp, &full) {
        Expect::Reject(what) => {
            cx.label(format!("must be rejected: {}", what));
            cx.eval();
            // some plausible outputs
            let mut o = full.clone();
            for x in &mut o {
                if *x == Fp::ZERO && cx.bool() {
                    *x = cx.field();
                }
            }
            // the outputs the code itself computes, by way of its trace
            let inst = vec![inp, o];
            let m = forge::run_mock(k, c, &inst);
            if let Ok((v, log)) = m {
                ensure!(v.is_err(), "{}", ctx(format!("{} is accepted", what)));
                let inst2 = computed::<L>(c, k, &log, &inst);
                rejects(k, c, &inst2, what).map_err(ctx)?;
            } else {
                cx.label("refused at synthesis");
            }
            return Ok(None);
        }
        Expect::Free => {
            cx.label("exceptional incomplete addition");
            cx.eval();
            let inst = vec![inp, full];
            let m = forge::run_mock(k, c, &inst);
            ensure!(m.is_err(), "{}", ctx("an exceptional incomplete addition reports no error".into()));
            return Ok(None);
        }
        Expect::Outs(o) => o.iter().zip(&full).map(|(o, f)| o.unwrap_or(*f)).collect::<Vec<_>>(),
    };
    let inst = vec![inp, outs];
    cx.eval();
    let (v, log) = forge::run_mock(k, c, &inst).map_err(|e| ctx(format!("synthesis of an honest witness failed: {}", e)))?;
    v.map_err(|e| ctx(format!("an honest witness is rejected: {}", e)))?;
    for _ in 0..wrong.min(inst[1].len()) {
        let mut bad = inst.clone();
        let i = cx.usize(0, bad[1].len() - 1);
        bad[1][i] = match cx.below(4) {
            0 => -bad[1][i],
            1 => Fp::ZERO,
            2 => cx.field(),
            _ => bad[1][i] + Fp::ONE,
        };
        if bad[1][i] != inst[1][i] {
            cx.eval();
            rejects(k, c, &bad, "a wrong output").map_err(ctx)?;
        }
    }
    let t = Trace::new(forge::system::<Fp, Prog<L>>(&c.sys()), k, &log, &inst, &c.tab());
    Ok(Some((t, inst)))
}
/// Instance values read off the cells that are tied to the output column.
fn computed<L: Lk>(c: &Prog<L>, k: u32, log: &[crate::tamper::Ev<Fp>], inst: &[Vec<Fp>]) -> Vec<Vec<Fp>> {
    use crate::tamper::Ev;
    let _ = (c, k);
    let mut adv = std::collections::HashMap::new();
    for e in log {
        if let Ev::Adv(col, row, Some(v)) = e {
            adv.insert((K::A, *col, *row), *v);
        }
    }
    let mut inst = inst.to_vec();
    for e in log {
        if let Ev::Copy(a, b) = e {
            for (i, o) in [(a, b), (b, a)] {
                if i.0 == K::I && i.1 == 1 && i.2 < inst[1].len() {
                    if let Some(v) = adv.get(o) {
                        inst[1][i.2] = *v;
                    }
                }
            }
        }
    }
    inst
}
/// The cells of a full-width scalar's windows: 85 successive cells of a column that hold its digits.
fn digit_cells(t: &Trace<Fp>, s: &Fq) -> Option<Vec<Pos>> {
    let r = s.to_repr();
    let bit = |i: usize| (i < 256 && (r.as_ref()[i / 8] >> (i % 8)) & 1 == 1) as u64;
    let d: Vec<Fp> = (0..NUM_WINDOWS).map(|i| Fp::from(bit(3 * i) + 2 * bit(3 * i + 1) + 4 * bit(3 * i + 2))).collect();
    let known: std::collections::HashSet<Pos> = t.cells.iter().map(|c| (K::A, c.0, c.1)).collect();
    let hits: Vec<Vec<Pos>> = t
        .cells
        .iter()
        .map(|p| (0..NUM_WINDOWS).map(|i| (K::A, p.0, p.1 + i)).collect::<Vec<Pos>>())
        .filter(|v| v.iter().zip(&d).all(|(p, d)| known.contains(p) && t.get(p) == *d))
        .collect();
    if hits.len() == 1 {
        hits.into_iter().next()
    } else {
        None
    }
}
fn relation(ops: Vec<Op>, honest: &Trace<Fp>) -> impl Fn(&Trace<Fp>) -> bool {
    // (row of the output, base, window cells)
    let mut fulls = vec![];
    let mut o = 0;
    for op in &ops {
        match op {
            Op::Wit(..) | Op::Scalar(..) | Op::Eq(..) => {}
            Op::X(_) => o += 1,
            Op::Full(s, b) => {
                if let Some(d) = digit_cells(honest, s) {
                    fulls.push((o, *b, d));
                }
                o += 2;
            }
            _ => o += 2,
        }
    }
    move |t: &Trace<Fp>| {
        for (o, b, d) in &fulls {
            let s = d.iter().rev().fold(Fq::ZERO, |a, p| a * Fq::from(8) + int_scalar(&t.get(p)));
            let small = d.iter().all(|p| (0..8u64).any(|i| t.get(p) == Fp::from(i)));
            if !small || xy(&(BASES[*b].g * s).to_affine()) != (t.inst[1][*o], t.inst[1][o + 1]) {
                return false;
            }
        }
        match expect(&ops, &t.inst[0], &t.inst[1]) {
            Expect::Reject(_) => false,
            Expect::Free => true,
            Expect::Outs(o) => o.iter().zip(&t.inst[1]).all(|(o, v)| o.map_or(true, |o| o == *v)),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generators

fn rand_point(cx: &mut Cx) -> Aff {
    let p = match cx.below(6) {
        0 => pallas::Point::generator(),
        1 => pallas::Point::generator() * Fq::from(cx.below(16)),
        2 => -pallas::Point::generator() * Fq::from(1 + cx.below(16)),
        _ => pallas::Point::generator() * cx.rand_field::<Fq>(),
    };
    p.to_affine()
}
fn zeta() -> Fp {
    // a primitive cube root of one, found by exponentiation
    let e = (-Fp::ONE) * Fp::from(3).invert().unwrap();
    let r = e.to_repr();
    let limbs: Vec<u64> = (0..4).map(|i| u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap())).collect();
    (2u64..).map(|g| Fp::from(g).pow_vartime(&limbs)).find(|z| *z != Fp::ONE).unwrap()
}
/// A point in an exceptional or ordinary relation to p.
fn related(cx: &mut Cx, p: &Aff) -> Aff {
    let c = p.to_curve();
    match cx.weighted(&[2, 2, 2, 2, 1, 1, 2, 4]) {
        0 => *p,
        1 => -*p,
        2 | 6 => {
            if bool::from(p.is_identity()) {
                return *p;
            }
            // same y (up to sign), other x
            let (x, y) = xy(p);
            let z = if cx.bool() { zeta() } else { zeta().square() };
            let q = Aff::from_xy(x * z, y).unwrap();
            if cx.bool() {
                q
            } else {
                -q
            }
        }
        3 => Aff::identity(),
        4 => c.double().to_affine(),
        5 => (-c.double()).to_affine(),
        _ => rand_point(cx),
    }
}
fn point_program(cx: &mut Cx, max_ops: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut pts: Vec<(Aff, bool)> = vec![];
    let mut scs: Vec<Fp> = vec![];
    let n = cx.usize(2, 4);
    let mut p = rand_point(cx);
    for _ in 0..n {
        let kind = match cx.below(8) {
            0..=3 => Kind::Non,
            4 => Kind::Const,
            _ => Kind::Any,
        };
        if kind == Kind::Non && bool::from(p.is_identity()) && !cx.chance(1, 40) {
            p = pallas::Point::generator().to_affine();
        }
        ops.push(Op::Wit(kind, p));
        pts.push((p, kind == Kind::Non));
        p = related(cx, &p);
    }
    for _ in 0..cx.usize(1, max_ops) {
        let a = cx.usize(0, pts.len() - 1);
        let b = cx.usize(0, pts.len() - 1);
        let (r, non) = match cx.weighted(&[6, 3, 2, 1, 2, 1]) {
            0 => {
                ops.push(Op::Add(a, b));
                ((pts[a].0 + pts[b].0).to_affine(), false)
            }
            1 if pts[a].1 && pts[b].1 => {
                let exc = xy(&pts[a].0).0 == xy(&pts[b].0).0;
                if exc && !cx.chance(1, 10) {
                    continue;
                }
                ops.push(Op::Inc(a, b));
                ((pts[a].0 + pts[b].0).to_affine(), true)
            }
            2 => {
                let s = match cx.weighted(&[10, 10, 1]) {
                    0 => Fp::ONE,
                    1 => -Fp::ONE,
                    _ => cx.field(),
                };
                ops.push(Op::Scalar(s));
                scs.push(s);
                ops.push(Op::Sign(scs.len() - 1, a));
                (if s == Fp::ONE { pts[a].0 } else { -pts[a].0 }, false)
            }
            3 => {
                let eq = pts[a].0 == pts[b].0;
                if eq || cx.chance(1, 12) {
                    ops.push(Op::Eq(a, b));
                } else if let Some(j) = (0..pts.len()).find(|j| *j != a && pts[*j].0 == pts[a].0) {
                    ops.push(Op::Eq(a, j));
                }
                continue;
            }
            4 => {
                let s = match cx.weighted(&[10, 10, 1]) {
                    0 => Fp::ZERO,
                    1 => Fp::ONE,
                    _ => cx.field(),
                };
                ops.push(Op::Scalar(s));
                scs.push(s);
                ops.push(Op::Mux(scs.len() - 1, a, b));
                (if s == Fp::ONE { pts[b].0 } else { pts[a].0 }, pts[a].1 && pts[b].1)
            }
            _ => {
                ops.push(Op::X(a));
                continue;
            }
        };
        pts.push((r, non));
    }
    ops
}
fn c26_points(cx: &mut Cx) -> R {
    let ops = point_program(cx, 7);
    cx.nontrivial = ops.iter().any(|o| matches!(o, Op::Add(..) | Op::Inc(..) | Op::Sign(..) | Op::Mux(..)));
    for o in &ops {
        let l = format!("{:?}", o);
        cx.label(l.split('(').next().unwrap().to_string());
    }
    let c = Prog::<PallasLookupRangeCheckConfig>::new(ops, false);
    check(cx, 6, &c, 2).map(|_| ())
}
/// Every relation of two points, through every form of addition.
fn c26_pairs(cx: &mut Cx) -> R {
    let p = if cx.chance(1, 8) { Aff::identity() } else { rand_point(cx) };
    let q = related(cx, &p);
    cx.nontrivial = !bool::from(p.is_identity());
    let mut ops = vec![];
    for v in [p, q] {
        let kind = if bool::from(v.is_identity()) { *cx.pick(&[Kind::Any, Kind::Const]) } else { *cx.pick(&[Kind::Any, Kind::Non, Kind::Const, Kind::Non]) };
        ops.push(Op::Wit(kind, v));
    }
    ops.extend([Op::Add(0, 1), Op::Add(1, 0), Op::Add(0, 0), Op::Add(1, 1), Op::Add(2, 3), Op::X(2)]);
    let c = Prog::<PallasLookupRangeCheckConfig>::new(ops, false);
    check(cx, 6, &c, 3).map(|_| ())
}
/// Another witness of the same program shape.
fn revalue(cx: &mut Cx, ops: &[Op]) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Wit(Kind::Const, p) => Op::Wit(Kind::Const, *p),
            Op::Wit(k, _) => {
                let mut p = rand_point(cx);
                if bool::from(p.is_identity()) {
                    p = pallas::Point::generator().to_affine();
                }
                Op::Wit(*k, p)
            }
            Op::Scalar(s) if *s == Fp::ONE || *s == Fp::ZERO || *s == -Fp::ONE => Op::Scalar(*s),
            o => o.clone(),
        })
        .collect()
}
fn c26_forge(cx: &mut Cx) -> R {
    let ops = loop {
        let ops = point_program(cx, 3);
        let (i, f) = natural(&ops);
        if let Expect::Outs(_) = expect(&ops, &i, &f) {
            break ops;
        }
    };
    cx.nontrivial = true;
    let c = Prog::<PallasLookupRangeCheckConfig>::new(ops.clone(), false);
    let k = 6;
    let (mut t, inst) = match check(cx, k, &c, 1)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.chance(1, 8) {
        t.holds().map_err(|e| format!("[{}] an accepted honest trace violates {}", show(&ops), e))?;
    }
    let c2 = Prog::<PallasLookupRangeCheckConfig>::new(revalue(cx, &ops), false);
    let b = match check(cx, k, &c2, 0) {
        Ok(Some((b, _))) => Some(b),
        _ => None,
    };
    let rel = relation(ops.clone(), &t);
    // off-curve or identity inputs
    let mut roots = vec![];
    let mut i = 0;
    for o in &ops {
        match o {
            Op::Wit(..) => {
                let r: Fp = cx.field();
                roots.push(vec![((K::I, 0, i), r)]);
                roots.push(vec![((K::I, 0, i), Fp::ZERO), ((K::I, 0, i + 1), Fp::ZERO)]);
                roots.push(vec![((K::I, 0, i), Fp::ZERO)]);
                roots.push(vec![((K::I, 0, i + 1), Fp::ZERO)]);
                i += 2;
            }
            Op::Scalar(_) => {
                roots.push(vec![((K::I, 0, i), cx.field())]);
                i += 1;
            }
            _ => {}
        }
    }
    let plan = Plan { repairs: 60, splices: 150, budget: 300, rel: &rel, keep: &|_| false, roots: vec![] };
    let ctx = |e: String| format!("[{}] {}", show(&ops), e);
    attack(cx, k, &c, &inst, &mut t, b.as_ref(), &plan).map_err(ctx)?;
    crate::gadget::attack_roots(cx, k, &c, &inst, &mut t, &rel, roots, 300, &|_| false).map_err(ctx)
}

// ------------------------------------------------------------------------------------------------
fn pow2(n: u64) -> Fp {
    Fp::from(2).pow_vartime([n])
}
const T_Q: u128 = 45560315531506369815346746415080538113;
/// Base-field scalars around every boundary of the decomposition.
fn mul_scalar(cx: &mut Cx) -> Fp {
    let tq = Fp::from_u128(T_Q);
    let d = Fp::from(cx.below(20)) - Fp::from(8);
    match cx.weighted(&[2, 2, 3, 3, 2, 2, 2, 3, 8]) {
        0 => Fp::from(cx.below(20)),
        1 => -Fp::from(cx.below(20)),
        // k = alpha + t_q at 2^254
        2 => pow2(254) - tq + d,
        // k at a power of two or a window boundary
        3 => pow2(cx.below(255)) - tq + d,
        4 => pow2(cx.below(254)) + d,
        // low or high halves all zero or all one
        5 => {
            let v: Fp = cx.rand_field();
            let hi = crate::gadget::bits_below(&v, 124);
            hi * pow2(130) + if cx.bool() { Fp::ZERO } else { pow2(130) - Fp::ONE }
        }
        6 => crate::gadget::bits_below(&cx.rand_field::<Fp>(), 130),
        7 => {
            // alternating and periodic bit patterns of k
            let period = 1 + cx.below(6);
            let pat = cx.below(1 << period);
            let mut v = Fp::ZERO;
            for i in 0..254u64 {
                v = v.double() + Fp::from((pat >> (i % period)) & 1);
            }
            v - tq
        }
        _ => cx.rand_field(),
    }
}
fn mul_program(cx: &mut Cx, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut non = vec![];
    let (mut np, mut ns) = (0, 0);
    for i in 0..n {
        if i == 0 || cx.bool() {
            let mut p = rand_point(cx);
            if bool::from(p.is_identity()) {
                p = pallas::Point::generator().to_affine();
            }
            ops.push(Op::Wit(Kind::Non, p));
            non.push(np);
            np += 1;
        }
        if i == 0 || cx.chance(3, 4) {
            let s = mul_scalar(cx);
            cx.nontrivial |= s != Fp::ZERO;
            ops.push(Op::Scalar(s));
            ns += 1;
        }
        if i > 0 && cx.chance(1, 4) {
            ops.push(Op::Again(*cx.pick(&non)));
        } else {
            ops.push(Op::Mul(cx.usize(0, ns - 1), *cx.pick(&non)));
        }
        np += 1;
    }
    if n > 1 && cx.bool() {
        ops.push(Op::Add(np - 1, np - 2));
    }
    ops
}
fn c27_mul(cx: &mut Cx) -> R {
    let n = cx.usize(1, 4);
    let ops = mul_program(cx, n);
    let wrong = cx.usize(0, 1);
    if cx.bool() {
        check(cx, 11, &Prog::<PallasLookupRangeCheckConfig>::new(ops, true), wrong).map(|_| ())
    } else {
        check(cx, 11, &Prog::<PallasLookupRangeCheck4_5BConfig>::new(ops, true), wrong).map(|_| ())
    }
}
fn forge_case<L: Lk>(cx: &mut Cx, ops: Vec<Op>, ops2: Vec<Op>, repairs: usize, splices: usize) -> R {
    let k = 11;
    let c = Prog::<L>::new(ops.clone(), true);
    let (mut t, inst) = match check(cx, k, &c, 1)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.chance(1, 6) {
        t.holds().map_err(|e| format!("[{}] an accepted honest trace violates {}", show(&ops), e))?;
    }
    let b = match check(cx, k, &Prog::<L>::new(ops2, true), 0) {
        Ok(Some((b, _))) => Some(b),
        _ => None,
    };
    let rel = relation(ops.clone(), &t);
    let plan = Plan { repairs, splices, budget: 1500, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, k, &c, &inst, &mut t, b.as_ref(), &plan).map_err(|e| format!("[{}] {}", show(&ops), e))
}
fn c27_forge(cx: &mut Cx) -> R {
    let p = rand_point(cx);
    let p = if bool::from(p.is_identity()) { pallas::Point::generator().to_affine() } else { p };
    let (s, s2) = (mul_scalar(cx), mul_scalar(cx));
    cx.nontrivial = s != Fp::ZERO;
    let same = cx.bool();
    let p2 = if same { p } else { nth_base(3) };
    let mk = |p, s| vec![Op::Wit(Kind::Non, p), Op::Scalar(s), Op::Mul(0, 0)];
    if cx.bool() {
        forge_case::<PallasLookupRangeCheckConfig>(cx, mk(p, s), mk(p2, s2), 60, 300)
    } else {
        forge_case::<PallasLookupRangeCheck4_5BConfig>(cx, mk(p, s), mk(p2, s2), 60, 300)
    }
}

// ------------------------------------------------------------------------------------------------
fn full_scalar(cx: &mut Cx) -> Fq {
    let d = Fq::from(cx.below(20)) - Fq::from(8);
    match cx.weighted(&[2, 2, 3, 3, 6]) {
        0 => Fq::from(cx.below(20)),
        1 => -Fq::from(cx.below(20)),
        2 => Fq::from(2).pow_vartime([cx.below(255)]) + d,
        3 => {
            // a digit pattern in base 8
            let period = 1 + cx.below(3);
            let pat: Vec<u64> = (0..period).map(|_| *cx.pick(&[0, 7, 1, 2, 6])).collect();
            (0..84u64).fold(Fq::ZERO, |a, i| a * Fq::from(8) + Fq::from(pat[(i % period) as usize]))
        }
        _ => cx.rand_field(),
    }
}
fn base_scalar(cx: &mut Cx) -> Fp {
    let d = Fp::from(cx.below(20)) - Fp::from(8);
    match cx.weighted(&[2, 2, 3, 3, 3, 6]) {
        0 => Fp::from(cx.below(20)),
        1 => -Fp::from(cx.below(20)),
        2 => pow2(cx.below(255)) + d,
        // the top of the field: 2^254 + small or medium
        3 => pow2(254) + crate::gadget::bits_below(&cx.rand_field::<Fp>(), cx.usize(0, 125)),
        4 => {
            let period = 1 + cx.below(3);
            let pat: Vec<u64> = (0..period).map(|_| *cx.pick(&[0, 7, 1, 2, 6])).collect();
            (0..84u64).fold(Fp::ZERO, |a, i| a * Fp::from(8) + Fp::from(pat[(i % period) as usize]))
        }
        _ => cx.rand_field(),
    }
}
fn magnitude(cx: &mut Cx) -> Fp {
    match cx.weighted(&[3, 3, 3, 3, 6]) {
        0 => Fp::from(cx.below(20)),
        1 => Fp::from(u64::MAX - cx.below(20)),
        2 => Fp::from((1u64 << cx.below(64)).wrapping_sub(cx.below(2))),
        3 => {
            let period = 1 + cx.below(3);
            let pat: Vec<u64> = (0..period).map(|_| *cx.pick(&[0, 7, 1, 2, 6])).collect();
            Fp::from((0..21u64).fold(0, |a: u64, i| a * 8 + pat[(i % period) as usize]))
        }
        _ => Fp::from(cx.u64()),
    }
}
fn bad_magnitude(cx: &mut Cx) -> Fp {
    match cx.below(5) {
        0 => pow2(64) + Fp::from(cx.below(4)),
        1 => pow2(64) + Fp::from(cx.u64()),
        2 => pow2(66) - Fp::ONE - Fp::from(cx.below(4)),
        3 => pow2(cx.usize(64, 253) as u64),
        _ => -Fp::from(1 + cx.below(4)),
    }
}
/// returns the operations; `bad` allows inputs that must be rejected
fn fixed_op(cx: &mut Cx, ops: &mut Vec<Op>, ns: &mut usize, bad: bool) {
    let b = cx.below(BASES.len() as u64) as usize;
    match cx.weighted(&[3, 4, 4, 2]) {
        0 => {
            let s = full_scalar(cx);
            cx.nontrivial |= s != Fq::ZERO;
            ops.push(Op::Full(s, b));
            cx.label("full");
        }
        1 => {
            let s = base_scalar(cx);
            cx.nontrivial |= s != Fp::ZERO;
            ops.push(Op::Scalar(s));
            ops.push(Op::BaseF(*ns, b));
            *ns += 1;
            cx.label("base field");
        }
        n => {
            let what = if bad { cx.weighted(&[8, 1, 1]) } else { 0 };
            let m = if what == 1 { bad_magnitude(cx) } else { magnitude(cx) };
            let s = if what == 2 {
                cx.field()
            } else if cx.bool() {
                Fp::ONE
            } else {
                -Fp::ONE
            };
            cx.nontrivial |= m != Fp::ZERO;
            ops.push(Op::Scalar(m));
            ops.push(Op::Scalar(s));
            ops.push(Op::Short(*ns, *ns + 1, b));
            *ns += 2;
            cx.label("short");
            if n == 3 {
                // a sign applied to the product
                let last = ops.iter().filter(|o| !matches!(o, Op::Scalar(..) | Op::Eq(..) | Op::X(..))).count() - 1;
                let s2 = if bad && cx.chance(1, 8) { cx.field() } else { -Fp::ONE };
                ops.push(Op::Scalar(s2));
                ops.push(Op::Sign(*ns, last));
                *ns += 1;
            }
        }
    }
}
fn c28_mul(cx: &mut Cx) -> R {
    let mut ops = vec![];
    let mut ns = 0;
    for _ in 0..cx.usize(1, 4) {
        fixed_op(cx, &mut ops, &mut ns, true);
    }
    let wrong = cx.usize(0, 1);
    if cx.bool() {
        check(cx, 11, &Prog::<PallasLookupRangeCheckConfig>::new(ops, true), wrong).map(|_| ())
    } else {
        check(cx, 11, &Prog::<PallasLookupRangeCheck4_5BConfig>::new(ops, true), wrong).map(|_| ())
    }
}
fn c28_forge(cx: &mut Cx) -> R {
    let (mut ops, mut ns) = (vec![], 0);
    fixed_op(cx, &mut ops, &mut ns, false);
    // another witness of the same shape
    let ops2: Vec<Op> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| match o {
            Op::Scalar(s) if *s == Fp::ONE || *s == -Fp::ONE => Op::Scalar(if cx.bool() { Fp::ONE } else { *s }),
            Op::Scalar(_) if matches!(ops.get(i + 1), Some(Op::BaseF(..))) => Op::Scalar(base_scalar(cx)),
            Op::Scalar(_) => Op::Scalar(magnitude(cx)),
            Op::Full(_, b) => Op::Full(full_scalar(cx), *b),
            o => o.clone(),
        })
        .collect();
    if cx.bool() {
        forge_case::<PallasLookupRangeCheckConfig>(cx, ops, ops2, 60, 300)
    } else {
        forge_case::<PallasLookupRangeCheck4_5BConfig>(cx, ops, ops2, 60, 300)
    }
}
/// Interpolation coefficients of random bases against the window points they must reproduce.
fn c28_tables(cx: &mut Cx) -> R {
    let p = rand_point(cx);
    let p = if bool::from(p.is_identity()) { pallas::Point::generator().to_affine() } else { p };
    let n = match cx.below(6) {
        0 => NUM_WINDOWS,
        1 => NUM_WINDOWS_SHORT,
        _ => cx.usize(2, 12),
    };
    cx.nontrivial = true;
    cx.sample(|| format!("{} windows of {:?}", n, xy(&p).0));
    let ws = windows(p, n);
    let co = compute_lagrange_coeffs(p, n);
    ensure!(co.len() == n, "{} windows of coefficients for {}", co.len(), n);
    for (w, (c, pts)) in co.iter().zip(&ws).enumerate() {
        for (j, q) in pts.iter().enumerate() {
            cx.eval();
            let x = c.iter().rev().fold(Fp::ZERO, |a, c| a * Fp::from(j as u64) + c);
            ensure!(x == xy(q).0, "window {} of {}, digit {}: interpolated x {:?}, expected {:?}", w, n, j, x, xy(q).0);
        }
    }
    Ok(())
}
/// The z and u search on two windows of random bases.
fn c28_search(cx: &mut Cx) -> R {
    let p = (pallas::Point::generator() * cx.rand_field::<Fq>()).to_affine();
    let n = 2;
    cx.nontrivial = true;
    cx.sample(|| format!("{} windows of {:?}", n, xy(&p).0));
    let r = match find_zs_and_us(p, n) {
        Some(r) => r,
        None => {
            cx.label("no z found");
            return Ok(());
        }
    };
    ensure!(r.len() == n, "{} entries for {} windows", r.len(), n);
    for (w, ((z, us), ws)) in r.iter().zip(windows(p, n)).enumerate() {
        cx.eval();
        ensure!(z_ok(*z, &ws), "z = {} does not separate the y values of window {} of {:?}", z, w, xy(&p));
        for (k, (u, q)) in us.iter().zip(&ws).enumerate() {
            ensure!(u.square() == Fp::from(*z) + xy(q).1, "u of window {}, digit {} of {:?} is not a root of z + y", w, k, xy(&p));
        }
    }
    Ok(())
}
/// Writes the list of z values (development aid).
pub fn gen_bases(n: u64) {
    use rayon::prelude::*;
    for i in 0..n {
        for (kind, w) in [("full", NUM_WINDOWS), ("short", NUM_WINDOWS_SHORT)] {
            let zs: Vec<u64> = windows(nth_base(i), w).par_iter().map(|ws| (0u64..).find(|z| z_ok(*z, ws)).unwrap()).collect();
            println!("{} {} {}", i, kind, zs.iter().map(|z| z.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
}
const _: fn(&[Pos], ChipScalarVar) = |_, _| ();
