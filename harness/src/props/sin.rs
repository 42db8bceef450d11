//! C24 Sinsemilla hashes and commitments, C25 Merkle paths.
use std::any::TypeId;
use std::marker::PhantomData;

use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::{NonIdentityPoint, Point, ScalarFixed};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::MerklePath;
use halo2_gadgets::sinsemilla::{CommitDomain, CommitDomains, HashDomain, HashDomains, Message, MessagePiece};
use halo2_gadgets::utilities::RangeConstrained;
use halo2_proofs::arithmetic::{CurveAffine, CurveExt};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Instance};
use pasta_curves::{pallas, Fp, Fq};

use crate::ecc::{Bases, Full, Lk, BASES};
use crate::engine::{catch, sub, Cx, Prop, R};
use crate::ensure;
use crate::forge::Trace;
use crate::gadget::{attack, honest, rejects, Plan};
use crate::tamper::{Pos, Tamper, K};
use halo2_gadgets::utilities::lookup_range_check::{PallasLookupRangeCheck4_5BConfig, PallasLookupRangeCheckConfig};

type Aff = pallas::Affine;
type Cell = AssignedCell<Fp, Fp>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "a hash of at least one word whose result was compared with the reference; distinct by generator tape",
            assumptions: &[
                "Pallas, K = 10, messages of 1 to 252 words in pieces of 1 to 25 words",
                "initial points of unknown discrete logarithm with respect to the generators (exceptional additions are outside the specification)",
            ],
            subs: vec![
                sub("generators", 1, 1, c24_generators),
                sub("hash", 200, 12000, c24_hash),
                sub("long", 10, 600, c24_long),
                sub("forge", 30, 1200, c24_forge),
            ],
        },
        Prop {
            id: "C25",
            rule: "a path of at least one level with node and sibling distinct; distinct by generator tape",
            assumptions: &[
                "Pallas, depths 1 to 33 over one to three chips",
                "non-canonical 255-bit encodings of the children are allowed by the specification of the gate",
            ],
            subs: vec![sub("path", 300, 12000, c25_path), sub("deep", 12, 600, c25_deep), sub("forge", 48, 2500, c25_forge)],
        },
    ]
}

// ------------------------------------------------------------------------------------------------
// Reference

lazy_static::lazy_static! {
    static ref S: Vec<pallas::Point> = {
        let h = pallas::Point::hash_to_curve("z.cash:SinsemillaS");
        (0..1024u32).map(|j| h(&j.to_le_bytes())).collect()
    };
}
/// None if an incomplete addition would be exceptional.
fn sinsemilla(q: Aff, words: &[u64]) -> Option<Aff> {
    let mut acc = q.to_curve();
    for w in words {
        let s = S[*w as usize];
        let t = acc + s;
        if acc == s || acc == -s || bool::from(acc.is_identity()) || t == acc || t == -acc || bool::from(t.is_identity()) {
            return None;
        }
        acc = t + acc;
    }
    Some(acc.to_affine())
}
fn words_of(v: &Fp, n: usize) -> Vec<u64> {
    let r = v.to_repr();
    (0..n).map(|i| (0..10).map(|j| { let b = 10 * i + j; if b < 256 { (((r[b / 8] >> (b % 8)) & 1) as u64) << j } else { 0 } }).sum()).collect()
}
fn shr10(v: &Fp, n: usize) -> Fp {
    let w = words_of(v, 26);
    w[n.min(26)..].iter().rev().fold(Fp::ZERO, |a, x| a * Fp::from(1024) + Fp::from(*x))
}
fn below(v: &Fp, words: usize) -> bool {
    shr10(v, words) == Fp::ZERO
}
fn xy(p: &Aff) -> (Fp, Fp) {
    let c = p.coordinates();
    if bool::from(c.is_some()) {
        (*c.unwrap().x(), *c.unwrap().y())
    } else {
        (Fp::ZERO, Fp::ZERO)
    }
}
fn rand_q(cx: &mut Cx) -> Aff {
    loop {
        let p = (pallas::Point::generator() * cx.rand_field::<Fq>()).to_affine();
        if !bool::from(p.is_identity()) {
            return p;
        }
    }
}
/// The generator table the circuits look words up in is the one of the specification.
fn c24_generators(cx: &mut Cx) -> R {
    cx.nontrivial = true;
    for (j, (x, y)) in halo2_gadgets::sinsemilla::primitives::SINSEMILLA_S.iter().enumerate() {
        cx.eval();
        ensure!((*x, *y) == xy(&S[j].to_affine()), "generator {} differs from its definition", j);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Circuits

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dom(Aff);
impl HashDomains<Aff> for Dom {
    #[allow(non_snake_case)]
    fn Q(&self) -> Aff {
        self.0
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CDom(Aff, usize);
impl CommitDomains<Aff, Bases, Dom> for CDom {
    fn r(&self) -> Full {
        Full(self.1)
    }
    fn hash_domain(&self) -> Dom {
        Dom(self.0)
    }
}
#[derive(Clone, Debug)]
enum Piece {
    Elem(Fp, usize),
    /// values and bit lengths
    Sub(Vec<(Fp, usize)>),
}
impl Piece {
    fn words(&self) -> usize {
        match self {
            Piece::Elem(_, n) => *n,
            Piece::Sub(v) => v.iter().map(|s| s.1).sum::<usize>() / 10,
        }
    }
    fn value(&self) -> Fp {
        match self {
            Piece::Elem(v, _) => *v,
            Piece::Sub(v) => {
                let mut sh = 0;
                v.iter().fold(Fp::ZERO, |a, (x, n)| {
                    let r = a + Fp::from(2).pow_vartime([sh as u64]) * x;
                    sh += n;
                    r
                })
            }
        }
    }
}
#[derive(Clone, Debug)]
enum What {
    Point,
    X,
    Commit(Fq, usize),
    Short(Fq, usize),
    /// hash from a private point, blinding factor added by hand
    Blind(Fq, usize),
}
#[derive(Clone, Debug)]
struct Job {
    q: Aff,
    private: bool,
    chip: usize,
    what: What,
    pieces: Vec<usize>,
}
#[derive(Clone, Debug)]
struct Sin<L, const PRIV: bool> {
    pieces: Vec<Piece>,
    jobs: Vec<Job>,
    _l: PhantomData<L>,
}
#[derive(Clone, Debug)]
struct SinCfg<L: Lk> {
    ecc: EccConfig<Bases, L>,
    sin: [SinsemillaConfig<Dom, CDom, Bases, L>; 2],
    inp: Column<Instance>,
    out: Column<Instance>,
}
impl<L: Lk, const PRIV: bool> Circuit<Fp> for Sin<L, PRIV> {
    type Config = SinCfg<L>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let adv: Vec<Column<Advice>> = (0..10).map(|_| meta.advice_column()).collect();
        let lookup = (meta.lookup_table_column(), meta.lookup_table_column(), meta.lookup_table_column());
        let tag = meta.lookup_table_column();
        let lagrange: Vec<_> = (0..8).map(|_| meta.fixed_column()).collect();
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        let range = L::make(meta, adv[9], lookup.0, tag);
        let ecc = EccChip::<Bases, L>::configure(meta, adv.clone().try_into().unwrap(), lagrange.clone().try_into().unwrap(), range.clone());
        let a = SinsemillaChip::configure(meta, adv[..5].try_into().unwrap(), adv[2], lagrange[0], lookup, range.clone(), PRIV);
        let b = SinsemillaChip::configure(meta, adv[5..].try_into().unwrap(), adv[7], lagrange[1], lookup, range, PRIV);
        SinCfg { ecc, sin: [a, b], inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<Fp>) -> Result<(), Error> {
        SinsemillaChip::load(cfg.sin[0].clone(), &mut layouter)?;
        let ecc = EccChip::construct(cfg.ecc.clone());
        let chips: Vec<_> = cfg.sin.iter().map(|c| SinsemillaChip::construct(c.clone())).collect();
        let (mut i, mut o) = (0, 0);
        // pieces are witnessed by the chip that first uses them
        let mut pieces = vec![];
        for (n, p) in self.pieces.iter().enumerate() {
            let chip = self.jobs.iter().find(|j| j.pieces.contains(&n)).map_or(0, |j| j.chip);
            let l = layouter.namespace(|| "piece");
            let m = match p {
                Piece::Elem(v, n) => MessagePiece::from_field_elem(chips[chip].clone(), l, Value::known(*v), *n)?,
                Piece::Sub(v) => MessagePiece::from_subpieces(
                    chips[chip].clone(),
                    l,
                    v.iter().map(|(x, n)| RangeConstrained::bitrange_of(Value::known(x), 0..*n)).collect::<Vec<_>>(),
                )?,
            };
            layouter.constrain_instance(m.inner().cell(), cfg.inp, i)?;
            i += 1;
            pieces.push(m);
        }
        for j in &self.jobs {
            let chip = chips[j.chip].clone();
            let msg = Message::from_pieces(chip.clone(), j.pieces.iter().map(|p| pieces[*p].clone()).collect());
            let q = if j.private {
                let q = NonIdentityPoint::new(ecc.clone(), layouter.namespace(|| "q"), Value::known(j.q))?;
                layouter.constrain_instance(q.inner().x().cell(), cfg.inp, i)?;
                layouter.constrain_instance(q.inner().y().cell(), cfg.inp, i + 1)?;
                i += 2;
                Some(q)
            } else {
                None
            };
            let mut pt: Option<(Cell, Cell)> = None;
            let mut x: Option<Cell> = None;
            let zs: Vec<Vec<Cell>> = match &j.what {
                What::Point | What::X => {
                    let d = HashDomain::new(chip, ecc.clone(), &Dom(j.q));
                    let l = layouter.namespace(|| "hash");
                    match (&q, &j.what) {
                        (Some(q), _) => {
                            let (p, zs) = d.hash_to_point_with_private_init(l, q.inner(), msg)?;
                            pt = Some((p.inner().x(), p.inner().y()));
                            zs
                        }
                        (None, What::Point) => {
                            let (p, zs) = d.hash_to_point(l, msg)?;
                            pt = Some((p.inner().x(), p.inner().y()));
                            zs
                        }
                        _ => {
                            let (p, zs) = d.hash(l, msg)?;
                            x = Some(p.inner().clone());
                            zs
                        }
                    }
                }
                What::Commit(r, b) | What::Short(r, b) | What::Blind(r, b) => {
                    let d = CommitDomain::new(chip, ecc.clone(), &CDom(j.q, *b));
                    let s = ScalarFixed::new(ecc.clone(), layouter.namespace(|| "r"), Value::known(*r))?;
                    let l = layouter.namespace(|| "commit");
                    match &j.what {
                        What::Commit(..) => {
                            let (p, zs) = d.commit(l, msg, s)?;
                            pt = Some((p.inner().x(), p.inner().y()));
                            zs
                        }
                        What::Short(..) => {
                            let (p, zs) = d.short_commit(l, msg, s)?;
                            x = Some(p.inner().clone());
                            zs
                        }
                        _ => {
                            let (p, zs) = match &q {
                                Some(q) => d.hash_with_private_init(l, q.inner(), msg)?,
                                None => {
                                    assert_eq!(d.q_init(), j.q, "q_init");
                                    let h = HashDomain::new(chips[j.chip].clone(), ecc.clone(), &Dom(d.q_init()));
                                    h.hash_to_point(l, msg)?
                                }
                            };
                            let f = d.blinding_factor(layouter.namespace(|| "blind"), s)?;
                            let r: Point<Aff, EccChip<Bases, L>> = p.add(layouter.namespace(|| "add"), &f)?;
                            pt = Some((r.inner().x(), r.inner().y()));
                            zs
                        }
                    }
                }
            };
            for c in pt.into_iter().flat_map(|(a, b)| [a, b]).chain(x).chain(zs.into_iter().flatten()) {
                layouter.constrain_instance(c.cell(), cfg.out, o)?;
                o += 1;
            }
        }
        Ok(())
    }
}
impl<L: Lk, const PRIV: bool> Sin<L, PRIV> {
    fn inputs(&self) -> Vec<Fp> {
        let mut v: Vec<Fp> = self.pieces.iter().map(|p| p.value()).collect();
        for j in self.jobs.iter().filter(|j| j.private) {
            let (x, y) = xy(&j.q);
            v.extend([x, y]);
        }
        v
    }
    /// What the outputs must be for these inputs; None if no witness should exist for the inputs.
    fn outputs(&self, inp: &[Fp]) -> Option<Vec<Fp>> {
        if self.pieces.iter().zip(inp).any(|(p, v)| !below(v, p.words())) {
            return None;
        }
        let mut i = self.pieces.len();
        let mut out = vec![];
        for j in &self.jobs {
            let q = if j.private {
                i += 2;
                let q: Option<Aff> = Aff::from_xy(inp[i - 2], inp[i - 1]).into();
                q?
            } else {
                j.q
            };
            let words: Vec<u64> = j.pieces.iter().flat_map(|p| words_of(&inp[*p], self.pieces[*p].words())).collect();
            let h = sinsemilla(q, &words)?;
            let (b, whole) = match &j.what {
                What::Point => (None, true),
                What::X => (None, j.private),
                What::Commit(r, b) | What::Blind(r, b) => (Some(BASES[*b].g * r), true),
                What::Short(r, b) => (Some(BASES[*b].g * r), false),
            };
            let p = match b {
                None => h,
                Some(b) => (h.to_curve() + b).to_affine(),
            };
            out.push(xy(&p).0);
            if whole {
                out.push(xy(&p).1);
            }
            for p in &j.pieces {
                out.extend((0..self.pieces[*p].words()).map(|n| shr10(&inp[*p], n)));
            }
        }
        Some(out)
    }
}
fn scalar(cx: &mut Cx) -> Fq {
    match cx.below(8) {
        0 => Fq::ZERO,
        1 => Fq::ONE,
        2 => -Fq::ONE,
        3 => Fq::from(cx.below(16)),
        _ => cx.rand_field(),
    }
}
fn word(cx: &mut Cx) -> u64 {
    match cx.below(6) {
        0 => 0,
        1 => 1023,
        2 => 1 << cx.below(10),
        _ => cx.below(1024),
    }
}
fn word_value(cx: &mut Cx, n: usize) -> Fp {
    (0..n).fold(Fp::ZERO, |a, _| a * Fp::from(1024) + Fp::from(word(cx)))
}
fn piece(cx: &mut Cx, max: usize) -> Piece {
    let n = match cx.below(4) {
        0 => 1,
        1 => cx.usize(1, max.min(3)),
        2 => max,
        _ => cx.usize(1, max),
    };
    if cx.chance(1, 4) {
        // split at random places below bit 64
        let total = 10 * n;
        let mut parts = vec![];
        let mut at = 0;
        while at < total && at < 64 && parts.len() < 6 {
            let len = if cx.bool() { cx.usize(1, (total - at).min(20)) } else { total - at };
            // the next subpiece must start below bit 64
            let len = if at + len < total && (at + len >= 64 || parts.len() == 5) { total - at } else { len };
            parts.push(len);
            at += len;
        }
        Piece::Sub(
            parts
                .iter()
                .map(|l| {
                    let v: Fp = match cx.below(4) {
                        0 => Fp::ZERO,
                        1 => Fp::from(2).pow_vartime([*l as u64]) - Fp::ONE,
                        _ => {
                            let r: Fp = cx.rand_field();
                            crate::gadget::bits_below(&r, *l)
                        }
                    };
                    (v, *l)
                })
                .collect(),
        )
    } else {
        Piece::Elem(word_value(cx, n), n)
    }
}
fn what(cx: &mut Cx, commits: bool) -> What {
    let r = scalar(cx);
    let b = cx.usize(0, BASES.len() - 1);
    match cx.below(if commits { 7 } else { 4 }) {
        0..=2 => What::Point,
        3 => What::X,
        4 => What::Commit(r, b),
        5 => What::Short(r, b),
        _ => What::Blind(r, b),
    }
}
fn jobs(cx: &mut Cx, n: usize, maxp: usize, maxw: usize, privates: bool, commits: bool) -> (Vec<Piece>, Vec<Job>) {
    let mut pieces: Vec<Piece> = vec![];
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        let chip = cx.usize(0, 1);
        let mut mine = vec![];
        for _ in 0..cx.usize(1, maxp) {
            if !pieces.is_empty() && cx.chance(1, 5) {
                mine.push(cx.usize(0, pieces.len() - 1));
            } else {
                pieces.push(piece(cx, maxw));
                mine.push(pieces.len() - 1);
            }
        }
        jobs.push(Job { q: rand_q(cx), private: privates && cx.chance(2, 3), chip, what: what(cx, commits), pieces: mine });
        // commitments from a public point have no private start
        let j = jobs.last_mut().unwrap();
        if matches!(j.what, What::Commit(..) | What::Short(..)) {
            j.private = false;
        }
    }
    (pieces, jobs)
}
fn name<L: 'static>(what: &str, x: usize) -> String {
    format!("{} {:?} {}", what, TypeId::of::<L>(), x)
}
fn hash_case<L: Lk, const PRIV: bool>(cx: &mut Cx, pieces: Vec<Piece>, jobs: Vec<Job>) -> R {
    let c = Sin::<L, PRIV> { pieces, jobs, _l: PhantomData };
    let ctx = |e: String| format!("{:?} (private starts {}, tags {}): {}", c, PRIV, L::TAGS, e);
    cx.sample(|| format!("{:?}", c));
    let inp = c.inputs();
    let out = match c.outputs(&inp) {
        Some(o) => o,
        None => {
            cx.label("exceptional");
            return Ok(());
        }
    };
    cx.nontrivial = true;
    for j in &c.jobs {
        cx.label(format!("{} {}", format!("{:?}", j.what).split('(').next().unwrap(), if j.private { "private" } else { "public" }));
        cx.label(format!("{} pieces", j.pieces.len()));
    }
    let inst = vec![inp.clone(), out.clone()];
    honest(11, &c, &inst, &name::<L>("sinsemilla", PRIV as usize), &name::<L>("sinsemilla", PRIV as usize), false).map_err(ctx)?;
    cx.eval();
    // a wrong output
    let mut bad = inst.clone();
    let n = cx.usize(0, out.len() - 1);
    bad[1][n] += cx.nz_field::<Fp>();
    rejects(11, &c, &bad, &format!("a wrong output {}", n)).map_err(ctx)?;
    // a piece with more bits than its words hold
    let n = cx.usize(0, c.pieces.len() - 1);
    let w = c.pieces[n].words();
    let v = c.pieces[n].value();
    let extra = match cx.below(3) {
        0 => Fp::from(2).pow_vartime([10 * w as u64]),
        1 => Fp::from(2).pow_vartime([10 * w as u64]) * Fp::from(cx.below(15) + 1),
        _ => -v - Fp::ONE,
    };
    let mut d = c.clone();
    d.pieces[n] = Piece::Elem(v + extra, w);
    if !below(&(v + extra), w) && d.jobs.iter().any(|j| j.pieces.contains(&n)) {
        let mut bad = inst;
        bad[0][n] = v + extra;
        let words = |b: &mut Vec<Fp>| {
            // the running sums of the low words are what the gadget assigns
            let mut o = 0;
            for j in &d.jobs {
                o += if matches!(j.what, What::Short(..)) || (matches!(j.what, What::X) && !j.private) { 1 } else { 2 };
                for p in &j.pieces {
                    if *p == n {
                        b[o] = v + extra;
                        for z in 1..d.pieces[*p].words() {
                            let inv = Fp::from(1024).invert().unwrap();
                            b[o + z] = (b[o + z - 1] - Fp::from(words_of(&(v + extra), z)[z - 1])) * inv;
                        }
                    }
                    o += d.pieces[*p].words();
                }
            }
        };
        words(&mut bad[1]);
        rejects(11, &d, &bad, &format!("piece {} of {} words with value {:?}", n, w, v + extra)).map_err(ctx)?;
        // the same with the digest of the low words
        let mut e = bad.clone();
        e[1] = out;
        rejects(11, &d, &e, &format!("piece {} of {} words with value {:?}", n, w, v + extra)).map_err(ctx)?;
    }
    Ok(())
}
fn c24_hash(cx: &mut Cx) -> R {
    let privates = cx.bool();
    let n = cx.usize(1, 3);
    let (p, j) = jobs(cx, n, 4, 25, privates, true);
    match (cx.bool(), privates || cx.chance(1, 4)) {
        (false, false) => {
            if cx.chance(1, 10) {
                // private starts are refused by chips that are not set up for them
                let mut j = j;
                j[0].private = true;
                j[0].what = What::Point;
                let c = Sin::<PallasLookupRangeCheckConfig, false> { pieces: p, jobs: j, _l: PhantomData };
                cx.label("private start refused");
                let r = catch(|| crate::forge::run_mock(11, &c, &[c.inputs(), vec![]]).err());
                return match r {
                    Ok(Some(e)) if e.contains("IllegalHashFromPrivatePoint") => Ok(()),
                    r => Err(format!("private starting point in a chip without private starts: {:?} for {:?}", r, c)),
                };
            }
            hash_case::<PallasLookupRangeCheckConfig, false>(cx, p, j)
        }
        (false, true) => hash_case::<PallasLookupRangeCheckConfig, true>(cx, p, j),
        (true, false) => hash_case::<PallasLookupRangeCheck4_5BConfig, false>(cx, p, j),
        (true, true) => hash_case::<PallasLookupRangeCheck4_5BConfig, true>(cx, p, j),
    }
}
/// Messages up to the longest.
fn c24_long(cx: &mut Cx) -> R {
    let mut left = match cx.below(3) {
        0 => 252,
        _ => cx.usize(100, 252),
    };
    let mut pieces = vec![];
    let small = cx.chance(1, 3);
    while left > 0 {
        let p = piece(cx, left.min(if small { 3 } else { 25 }));
        left -= p.words();
        pieces.push(p);
    }
    let all = (0..pieces.len()).collect();
    let j = Job { q: rand_q(cx), private: cx.bool(), chip: cx.usize(0, 1), what: what(cx, false), pieces: all };
    if cx.bool() {
        hash_case::<PallasLookupRangeCheckConfig, true>(cx, pieces, vec![j])
    } else {
        hash_case::<PallasLookupRangeCheck4_5BConfig, true>(cx, pieces, vec![j])
    }
}
fn hash_forge<L: Lk, const PRIV: bool>(cx: &mut Cx, pieces: Vec<Piece>, jobs: Vec<Job>) -> R {
    let c = Sin::<L, PRIV> { pieces, jobs, _l: PhantomData };
    let mut d = c.clone();
    // the same circuit with another witness
    for p in d.pieces.iter_mut() {
        *p = Piece::Elem(word_value(cx, p.words()), p.words());
    }
    for j in d.jobs.iter_mut().filter(|j| j.private) {
        j.q = rand_q(cx);
    }
    let ctx = |e: String| format!("{:?} (private starts {}, tags {}): {}", c, PRIV, L::TAGS, e);
    cx.sample(|| format!("{:?}", c));
    let (ic, id) = (c.inputs(), d.inputs());
    let (oc, od) = match (c.outputs(&ic), d.outputs(&id)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    cx.nontrivial = true;
    let n = name::<L>("sinsemilla", PRIV as usize);
    let inst = vec![ic, oc];
    let mut t = honest(11, &c, &inst, &n, &n, true).map_err(ctx)?;
    let b = honest(11, &d, &[id, od], &n, &n, false).map_err(ctx)?;
    let e = c.clone();
    let ne = c.inputs().len();
    let rel = move |t: &Trace<Fp>| match e.outputs(&t.inst[0][..ne]) {
        Some(o) => t.inst[1][..o.len()] == o[..],
        None => false,
    };
    // starting points are the specification's only when additions are not exceptional; they stay
    let np = c.pieces.len();
    let keep = move |p: &Pos| p.0 == K::I && p.1 == 0 && p.2 >= np;
    let mut roots = vec![];
    for _ in 0..12 {
        let n = cx.usize(0, np - 1);
        let w = c.pieces[n].words();
        let v = c.pieces[n].value();
        let x = match cx.below(4) {
            0 => v + Fp::from(2).pow_vartime([10 * w as u64]),
            1 => word_value(cx, w),
            2 => v + Fp::ONE,
            _ => cx.rand_field(),
        };
        roots.push(vec![((K::I, 0, n), x)]);
    }
    let plan = Plan { repairs: 40, splices: 500, budget: 300, rel: &rel, keep: &keep, roots };
    attack(cx, 11, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)
}
fn c24_forge(cx: &mut Cx) -> R {
    let privates = cx.bool();
    let n = cx.usize(1, 2);
    let (p, j) = jobs(cx, n, 3, 4, privates, false);
    match (cx.bool(), privates) {
        (false, false) => hash_forge::<PallasLookupRangeCheckConfig, false>(cx, p, j),
        (false, true) => hash_forge::<PallasLookupRangeCheckConfig, true>(cx, p, j),
        (true, false) => hash_forge::<PallasLookupRangeCheck4_5BConfig, false>(cx, p, j),
        (true, true) => hash_forge::<PallasLookupRangeCheck4_5BConfig, true>(cx, p, j),
    }
}

// ------------------------------------------------------------------------------------------------
// Merkle paths

#[derive(Clone, Debug)]
struct Mk<L, const D: usize, const PAR: usize> {
    q: Aff,
    leaf: Fp,
    pos: u32,
    path: Vec<Fp>,
    _l: PhantomData<L>,
}
#[derive(Clone, Debug)]
struct MkCfg<L: Lk> {
    chips: Vec<MerkleConfig<Dom, CDom, Bases, L>>,
    sin: SinsemillaConfig<Dom, CDom, Bases, L>,
    free: Column<Advice>,
    inp: Column<Instance>,
    out: Column<Instance>,
}
impl<L: Lk, const D: usize, const PAR: usize> Circuit<Fp> for Mk<L, D, PAR> {
    type Config = MkCfg<L>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let adv: Vec<Column<Advice>> = (0..5 * PAR).map(|_| meta.advice_column()).collect();
        let free = meta.advice_column();
        meta.enable_equality(free);
        let range_z = meta.advice_column();
        let lookup = (meta.lookup_table_column(), meta.lookup_table_column(), meta.lookup_table_column());
        let tag = meta.lookup_table_column();
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        let range = L::make(meta, range_z, lookup.0, tag);
        let mut sin = None;
        let chips = (0..PAR)
            .map(|i| {
                let y = meta.fixed_column();
                let a: [Column<Advice>; 5] = adv[5 * i..5 * i + 5].try_into().unwrap();
                let s = SinsemillaChip::configure(meta, a, a[2], y, lookup, range.clone(), false);
                sin.get_or_insert_with(|| s.clone());
                MerkleChip::configure(meta, s)
            })
            .collect();
        MkCfg { chips, sin: sin.unwrap(), free, inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<Fp>) -> Result<(), Error> {
        SinsemillaChip::load(cfg.sin.clone(), &mut layouter)?;
        let chips: Vec<_> = cfg.chips.iter().map(|c| MerkleChip::construct(c.clone())).collect();
        let leaf = layouter.assign_region(|| "leaf", |mut r| r.assign_advice_from_instance(|| "leaf", cfg.inp, 0, cfg.free, 0))?;
        let path: [Fp; D] = self.path.clone().try_into().unwrap();
        let arr: [MerkleChip<Dom, CDom, Bases, L>; PAR] = match chips.try_into() {
            Ok(a) => a,
            Err(_) => panic!("HARNESS: chips"),
        };
        let p = MerklePath::construct(arr, Dom(self.q), Value::known(self.pos), Value::known(path));
        let root = p.calculate_root(layouter.namespace(|| "root"), leaf)?;
        layouter.constrain_instance(root.cell(), cfg.out, 0)
    }
}

/// The 255-bit strings that encode v modulo p.
fn encodings(v: &Fp) -> Vec<[bool; 255]> {
    let r = v.to_repr();
    let mut out = vec![];
    let mut cur: Vec<u8> = r.to_vec();
    let p: Vec<u8> = {
        let mut m = (-Fp::ONE).to_repr().to_vec();
        m[0] += 1;
        m
    };
    loop {
        let mut b = [false; 255];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (cur[i / 8] >> (i % 8)) & 1 == 1;
        }
        out.push(b);
        let mut carry = 0u16;
        for (c, d) in cur.iter_mut().zip(&p) {
            let t = *c as u16 + *d as u16 + carry;
            *c = t as u8;
            carry = t >> 8;
        }
        if carry > 0 || cur[31] & 0x80 != 0 {
            return out;
        }
    }
}
fn crh(q: Aff, l: usize, left: &[bool; 255], right: &[bool; 255]) -> Option<Fp> {
    let bits: Vec<bool> = (0..10).map(|i| (l >> i) & 1 == 1).chain(left.iter().copied()).chain(right.iter().copied()).collect();
    let words: Vec<u64> = bits.chunks(10).map(|c| c.iter().rev().fold(0, |a, b| 2 * a + *b as u64)).collect();
    sinsemilla(q, &words).map(|p| xy(&p).0)
}
impl<L: Lk, const D: usize, const PAR: usize> Mk<L, D, PAR> {
    /// node, sibling, left, right, position bit of every level
    fn levels(&self) -> Option<(Vec<[Fp; 5]>, Fp)> {
        let mut node = self.leaf;
        let mut v = vec![];
        for (l, s) in self.path.iter().enumerate() {
            let bit = l < 32 && (self.pos >> l) & 1 == 1;
            let (left, right) = if bit { (*s, node) } else { (node, *s) };
            v.push([node, *s, left, right, Fp::from(bit as u64)]);
            node = crh(self.q, l, &encodings(&left)[0], &encodings(&right)[0])?;
        }
        Some((v, node))
    }
}
fn node(cx: &mut Cx) -> Fp {
    match cx.below(8) {
        0 => Fp::ZERO,
        1 => Fp::ONE,
        2 => -Fp::ONE,
        3 => Fp::from(2).pow_vartime([254]) - Fp::from(cx.below(3)),
        4 => Fp::from(2).pow_vartime([cx.below(255)]),
        _ => cx.rand_field(),
    }
}
fn path_case<L: Lk, const D: usize, const PAR: usize>(cx: &mut Cx, k: u32, q: Aff) -> R {
    let pos = match cx.below(4) {
        0 => 0,
        1 => u32::MAX,
        _ => cx.u64() as u32,
    };
    // positions beyond the tree's width are cut off
    let c = Mk::<L, D, PAR> { q, leaf: node(cx), pos, path: (0..D).map(|_| node(cx)).collect(), _l: PhantomData };
    let ctx = |e: String| format!("depth {} over {} chips (tags {}) {:?}: {}", D, PAR, L::TAGS, c, e);
    cx.sample(|| format!("depth {} over {} chips: {:?}", D, PAR, c));
    cx.label(format!("depth {} over {} chips", D, PAR));
    let (lv, root) = match c.levels() {
        Some(x) => x,
        None => return Ok(()),
    };
    cx.nontrivial = lv.iter().any(|l| l[0] != l[1]);
    let n = name::<L>("merkle", 100 * D + PAR);
    let inst = vec![vec![c.leaf], vec![root]];
    cx.eval();
    honest(k, &c, &inst, &n, &n, false).map_err(ctx)?;
    let mut bad = inst.clone();
    bad[1][0] += cx.nz_field::<Fp>();
    rejects(k, &c, &bad, "a wrong root").map_err(ctx)?;
    // the root of another path
    let mut d = c.clone();
    match cx.below(3) {
        0 => d.pos ^= 1 << cx.usize(0, D.min(32) - 1),
        1 => d.leaf += cx.nz_field::<Fp>(),
        _ => {
            let i = cx.usize(0, D - 1);
            d.path[i] += cx.nz_field::<Fp>();
        }
    }
    if let Some((_, other)) = d.levels() {
        if other != root {
            rejects(k, &d, &[vec![d.leaf], vec![root]], "the root of another path").map_err(ctx)?;
            rejects(k, &c, &[inst[0].clone(), vec![other]], "the root of another path").map_err(ctx)?;
        }
    }
    Ok(())
}
macro_rules! shapes {
    ($cx:ident, $f:ident, $l:ty, [$(($k:literal, $d:literal, $p:literal)),*], $q:expr) => {{
        let all = [$(($k, $d, $p)),*].len();
        let i = $cx.usize(0, all - 1);
        let mut n = 0;
        $(
            if n == i {
                return $f::<$l, $d, $p>($cx, $k, $q);
            }
            n += 1;
        )*
        let _ = n;
        unreachable!()
    }};
}
fn c25_path(cx: &mut Cx) -> R {
    let q = rand_q(cx);
    if cx.chance(2, 3) {
        shapes!(cx, path_case, PallasLookupRangeCheckConfig, [(11, 1, 1), (11, 2, 1), (11, 3, 1), (11, 2, 2), (11, 3, 2), (11, 4, 2), (11, 5, 2), (11, 5, 3), (11, 4, 3), (11, 1, 2), (11, 2, 3), (11, 7, 3)], q)
    } else {
        shapes!(cx, path_case, PallasLookupRangeCheck4_5BConfig, [(11, 1, 1), (11, 3, 2), (11, 4, 3)], q)
    }
}
fn c25_deep(cx: &mut Cx) -> R {
    let q = rand_q(cx);
    if cx.chance(2, 3) {
        shapes!(cx, path_case, PallasLookupRangeCheckConfig, [(12, 32, 1), (11, 32, 2), (11, 32, 3), (12, 33, 2), (11, 31, 2)], q)
    } else {
        shapes!(cx, path_case, PallasLookupRangeCheck4_5BConfig, [(11, 32, 2)], q)
    }
}
fn path_forge<L: Lk, const D: usize, const PAR: usize>(cx: &mut Cx, k: u32, q: Aff) -> R {
    let mk = |cx: &mut Cx| Mk::<L, D, PAR> { q, leaf: cx.rand_field(), pos: cx.u64() as u32, path: (0..D).map(|_| cx.rand_field()).collect(), _l: PhantomData };
    let (c, d) = (mk(cx), mk(cx));
    let ctx = |e: String| format!("depth {} over {} chips (tags {}) {:?}: {}", D, PAR, L::TAGS, c, e);
    cx.sample(|| format!("depth {} over {} chips: {:?}", D, PAR, c));
    let ((lc, rc), (_, rd)) = match (c.levels(), d.levels()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    cx.nontrivial = true;
    let n = name::<L>("merkle", 100 * D + PAR);
    let inst = vec![vec![c.leaf], vec![rc]];
    let mut t = honest(k, &c, &inst, &n, &n, true).map_err(ctx)?;
    let b = honest(k, &d, &[vec![d.leaf], vec![rd]], &n, &n, false).map_err(ctx)?;
    // where the swaps are
    let per = (D + PAR - 1) / PAR;
    let mut at: Vec<[Pos; 5]> = vec![];
    for (l, v) in lc.iter().enumerate() {
        let col = 5 * (l / per);
        let row = (0..(1usize << k) - 8).find(|r| (0..5).all(|j| t.get(&(K::A, col + j, *r)) == v[j]));
        match row {
            Some(r) => at.push([0, 1, 2, 3, 4].map(|j| (K::A, col + j, r))),
            // laid out in another way; nothing to compare with
            None => {
                cx.label("no swap row");
                return Ok(());
            }
        }
    }
    let rel = move |t: &Trace<Fp>| {
        for l in 0..D {
            let [a, b, x, y, s] = at[l].map(|p| t.get(&p));
            let node = if l == 0 { t.inst[0][0] } else { a };
            if a != node || (s != Fp::ZERO && s != Fp::ONE) || (x, y) != (if s == Fp::ONE { (b, a) } else { (a, b) }) {
                return false;
            }
            let next = if l + 1 == D { t.inst[1][0] } else { t.get(&at[l + 1][0]) };
            let ok = encodings(&x).iter().any(|x| encodings(&y).iter().any(|y| crh(q, l, x, y) == Some(next)));
            if !ok {
                return false;
            }
        }
        true
    };
    let plan = Plan { repairs: 40, splices: 700, budget: 300, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, k, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)
}
fn c25_forge(cx: &mut Cx) -> R {
    let q = BASES[0].g;
    if cx.chance(2, 3) {
        shapes!(cx, path_forge, PallasLookupRangeCheckConfig, [(11, 1, 1), (11, 2, 1), (11, 3, 1), (11, 3, 2), (11, 4, 3)], q)
    } else {
        shapes!(cx, path_forge, PallasLookupRangeCheck4_5BConfig, [(11, 1, 1), (11, 3, 2)], q)
    }
}
