//! C29 range checks, C30 conditional swap, multiplexer and bit utilities.
use std::any::TypeId;
use std::fmt::Debug;
use std::marker::PhantomData;

use ff::{Field, PrimeField, PrimeFieldBits};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::{LookupRangeCheck, LookupRangeCheck4_5BConfig, LookupRangeCheckConfig};
use halo2_gadgets::utilities::{
    bitrange_subset, bool_check, decompose_word, i2lebsp, lebs2ip, range_check, ternary, RangeConstrained,
};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Constraints, Error, Expression, Instance, Selector, TableColumn};
use halo2_proofs::poly::Rotation;
use pasta_curves::{Fp, Fq};

use crate::gadget::{attack, honest, rejects, Plan};
use crate::engine::{sub, Cx, Prop, R};
use crate::ensure;
use crate::forge::{Trace};
use crate::spec::Fld;
use crate::tamper::{Pos, Tamper, K};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "an honest circuit accepted and out-of-range or non-canonical witnesses searched for; distinct by generator tape",
            assumptions: &[
                "lookup word sizes 2 to 11 bits, up to 8 words in mixed circuits and up to the capacity of the field alone",
                "window sizes 1 to 3 bits and word sizes up to 255 bits for running sums",
            ],
            subs: vec![
                sub("lookup", 500, 40000, c29_lookup),
                sub("lookup_4_5", 80, 4000, c29_lookup45),
                sub("running_sum", 500, 40000, c29_running),
            ],
        },
        Prop {
            id: "C30",
            rule: "two different inputs, or a non-zero value; distinct by generator tape",
            assumptions: &["swap and mux over both Pasta fields; point multiplexers are part of C26"],
            subs: vec![sub("swap", 900, 60000, c30_swap), sub("bits", 20000, 2000000, c30_bits), sub("expressions", 600, 30000, c30_expressions)],
        },
    ]
}

pub fn pow2<F: PrimeField>(n: usize) -> F {
    F::from(2).pow_vartime([n as u64])
}
pub fn bits_of<F: PrimeField>(v: &F) -> Vec<bool> {
    let r = v.to_repr();
    (0..256).map(|i| (r.as_ref()[i / 8] >> (i % 8)) & 1 == 1).collect()
}
/// v < 2^n as an integer
pub fn fits<F: PrimeField>(v: &F, n: usize) -> bool {
    bits_of(v)[n.min(256)..].iter().all(|b| !b)
}
pub fn from_bits<F: PrimeField>(b: &[bool]) -> F {
    b.iter().rev().fold(F::ZERO, |a, x| a.double() + if *x { F::ONE } else { F::ZERO })
}
/// A value below 2^n, biased to the ends.
pub fn below_bits<F: PrimeField>(cx: &mut Cx, n: usize) -> F {
    let n = n.min(254);
    match cx.weighted(&[1, 1, 1, 1, 6]) {
        0 => F::ZERO,
        1 if n > 0 => F::ONE,
        2 => pow2::<F>(n) - F::ONE,
        3 if n > 0 => pow2::<F>(cx.usize(0, n - 1)),
        _ => {
            let v: F = cx.rand_field();
            from_bits(&bits_of(&v)[..n])
        }
    }
}
/// A value that needs more than n bits.
fn above_bits<F: PrimeField>(cx: &mut Cx, n: usize) -> F {
    loop {
        let v: F = match cx.weighted(&[2, 2, 2, 2, 2, 1]) {
            0 => pow2(n),
            1 => -F::ONE,
            2 => pow2::<F>(n) + below_bits::<F>(cx, n),
            3 => pow2::<F>(n).invert().unwrap() * F::from(1 + cx.below(64)),
            4 => cx.rand_field(),
            _ => -F::from(cx.below(1 << 12)),
        };
        if !fits(&v, n) {
            return v;
        }
        if n >= 254 {
            return -F::ONE;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Rc {
    CopyShort(usize),
    WitnessShort(usize),
    /// through `RangeConstrained::witness_short`, bits start..start+len of a wider value
    BitRange(usize, usize),
    Copy(usize, bool),
    Witness(usize, bool),
}
impl Rc {
    fn bits(&self, k: usize) -> Option<usize> {
        match self {
            Rc::CopyShort(b) | Rc::WitnessShort(b) | Rc::BitRange(_, b) => Some(*b),
            Rc::Copy(n, true) | Rc::Witness(n, true) => Some(n * k),
            _ => None,
        }
    }
    fn outs(&self) -> usize {
        match self {
            Rc::Copy(n, _) | Rc::Witness(n, _) => n + 1,
            _ => 0,
        }
    }
}
trait LkCfg<F: PrimeFieldBits, const N: usize>: LookupRangeCheck<F, N> {
    fn make(meta: &mut ConstraintSystem<F>, z: Column<Advice>, idx: TableColumn, tag: TableColumn) -> Self;
    const TAGS: bool;
}
impl<F: PrimeFieldBits, const N: usize> LkCfg<F, N> for LookupRangeCheckConfig<F, N> {
    fn make(meta: &mut ConstraintSystem<F>, z: Column<Advice>, idx: TableColumn, _: TableColumn) -> Self {
        Self::configure(meta, z, idx)
    }
    const TAGS: bool = false;
}
impl<F: PrimeFieldBits, const N: usize> LkCfg<F, N> for LookupRangeCheck4_5BConfig<F, N> {
    fn make(meta: &mut ConstraintSystem<F>, z: Column<Advice>, idx: TableColumn, tag: TableColumn) -> Self {
        Self::configure_with_tag(meta, z, idx, tag)
    }
    const TAGS: bool = true;
}
#[derive(Clone, Debug)]
struct LkCircuit<F, L, const N: usize> {
    ops: Vec<(Rc, F)>,
    _l: PhantomData<L>,
}
#[derive(Clone, Debug)]
struct LkConfig<L> {
    l: L,
    idx: TableColumn,
    tag: TableColumn,
    free: Column<Advice>,
    inp: Column<Instance>,
    out: Column<Instance>,
}
impl<F: Fld + PrimeFieldBits, L: LkCfg<F, N>, const N: usize> Circuit<F> for LkCircuit<F, L, N> {
    type Config = LkConfig<L>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let z = meta.advice_column();
        let free = meta.advice_column();
        let idx = meta.lookup_table_column();
        let tag = meta.lookup_table_column();
        let c = meta.fixed_column();
        meta.enable_constant(c);
        meta.enable_equality(free);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        LkConfig { l: L::make(meta, z, idx, tag), idx, tag, free, inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        layouter.assign_table(
            || "table",
            |mut t| {
                let mut row = 0;
                for (n, tag) in [(1u64 << N, 0u64), (16, 4), (32, 5)] {
                    if tag > 0 && !L::TAGS {
                        continue;
                    }
                    for i in 0..n {
                        t.assign_cell(|| "idx", cfg.idx, row, || Value::known(F::from(i)))?;
                        if L::TAGS {
                            t.assign_cell(|| "tag", cfg.tag, row, || Value::known(F::from(tag)))?;
                        }
                        row += 1;
                    }
                }
                Ok(())
            },
        )?;
        let mut o = 0;
        for (i, (op, v)) in self.ops.iter().enumerate() {
            let mut input = || -> Result<AssignedCell<F, F>, Error> {
                layouter.assign_region(|| "input", |mut r| r.assign_advice_from_instance(|| "input", cfg.inp, i, cfg.free, 0))
            };
            let zs: Vec<AssignedCell<F, F>> = match op {
                Rc::CopyShort(b) => {
                    let c = input()?;
                    cfg.l.copy_short_check(layouter.namespace(|| "check"), c, *b)?;
                    vec![]
                }
                Rc::WitnessShort(b) => {
                    let c = cfg.l.witness_short_check(layouter.namespace(|| "check"), Value::known(*v), *b)?;
                    layouter.constrain_instance(c.cell(), cfg.inp, i)?;
                    vec![]
                }
                Rc::BitRange(s, b) => {
                    // a wider value whose bits s..s+b are v
                    let wide = F::from(7) * pow2::<F>((*s + *b).min(250)) + *v * pow2::<F>(*s) + if *s > 0 { F::ONE } else { F::ZERO };
                    let c = RangeConstrained::<F, AssignedCell<F, F>>::witness_short::<N, L>(
                        &cfg.l,
                        layouter.namespace(|| "check"),
                        Value::known(&wide),
                        *s..*s + *b,
                    )?;
                    if c.num_bits() != *b {
                        return Err(Error::Synthesis);
                    }
                    layouter.constrain_instance(c.inner().cell(), cfg.inp, i)?;
                    vec![]
                }
                Rc::Copy(n, strict) => {
                    let c = input()?;
                    cfg.l.copy_check(layouter.namespace(|| "check"), c, *n, *strict)?.to_vec()
                }
                Rc::Witness(n, strict) => {
                    let zs = cfg.l.witness_check(layouter.namespace(|| "check"), Value::known(*v), *n, *strict)?.to_vec();
                    layouter.constrain_instance(zs[0].cell(), cfg.inp, i)?;
                    zs
                }
            };
            for z in zs {
                layouter.constrain_instance(z.cell(), cfg.out, o)?;
                o += 1;
            }
        }
        Ok(())
    }
}
fn true_zs<F: PrimeField>(v: &F, k: usize, n: usize) -> Vec<F> {
    // z_i = (v - low bits) / 2^{ki}
    let b = bits_of(v);
    (0..=n).map(|i| from_bits(&b[(k * i).min(256)..])).collect()
}
fn lookup_case<F: Fld + PrimeFieldBits, L: LkCfg<F, N> + 'static, const N: usize>(cx: &mut Cx) -> R {
    let n_ops = cx.usize(1, 4);
    let max_words = F::CAPACITY as usize / N;
    let short = |cx: &mut Cx| {
        if L::TAGS && cx.chance(1, 2) {
            *cx.pick(&[4usize, 5])
        } else {
            cx.usize(0, N - 1)
        }
    };
    let ops: Vec<Rc> = (0..n_ops)
        .map(|_| match cx.weighted(&[2, 2, 1, 3, 2]) {
            0 => Rc::CopyShort(short(cx)),
            1 => Rc::WitnessShort(if cx.chance(1, 8) { N } else { short(cx) }),
            2 => {
                let b = short(cx);
                Rc::BitRange(cx.usize(0, 200), b)
            }
            3 | 4 => {
                let n = if cx.chance(1, 4) { cx.usize(1, max_words) } else { cx.usize(1, 8.min(max_words)) };
                if cx.bool() {
                    Rc::Copy(n, cx.chance(2, 3))
                } else {
                    Rc::Witness(n, cx.chance(2, 3))
                }
            }
            _ => unreachable!(),
        })
        .collect();
    let vals = |cx: &mut Cx| -> Vec<F> {
        ops.iter()
            .map(|o| match o.bits(N) {
                Some(b) => below_bits(cx, b),
                None => cx.field(),
            })
            .collect()
    };
    let outs = |vs: &[F]| -> Vec<F> {
        ops.iter()
            .zip(vs)
            .flat_map(|(o, v)| match o.outs() {
                0 => vec![],
                n => true_zs(v, N, n - 1),
            })
            .collect()
    };
    let make = |vs: &[F]| LkCircuit::<F, L, N> { ops: ops.iter().cloned().zip(vs.iter().copied()).collect(), _l: PhantomData };
    let v = vals(cx);
    let v2 = vals(cx);
    let rows: usize = ops.iter().map(|o| o.outs() + 3).sum::<usize>() + 8;
    let table = (1usize << N) + if L::TAGS { 48 } else { 0 } + 8;
    let k = usize::BITS - (rows.max(table) + 1).leading_zeros();
    let name = format!("lookup {:?} {} {}", TypeId::of::<F>(), N, L::TAGS);
    let ctx = |e: String| format!("range checks K={} {:?} on {:?}: {}", N, ops, v, e);
    cx.nontrivial = true;
    cx.sample(|| format!("K={} {:?} on {:?}", N, ops, v));
    for o in &ops {
        cx.label(format!("{:?}", o).split('(').next().unwrap().to_string());
    }
    let inst = vec![v.clone(), outs(&v)];
    let c = make(&v);
    let mut t = honest(k, &c, &inst, &name, &format!("{} {}", name, k), true).map_err(ctx)?;
    let b = honest(k, &make(&v2), &[v2.clone(), outs(&v2)], &name, &format!("{} {}", name, k), false).map_err(ctx)?;
    // the gadget's own witness for an out-of-range value
    let ranged: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].bits(N).map_or(false, |b| b < F::CAPACITY as usize)).collect();
    let mut roots = vec![];
    if !ranged.is_empty() {
        let i = *cx.pick(&ranged);
        let bad = above_bits::<F>(cx, ops[i].bits(N).unwrap());
        if !matches!(ops[i], Rc::BitRange(..)) {
            let mut vb = v.clone();
            vb[i] = bad;
            // the running sums the gadget would assign
            rejects(k, &make(&vb), &[vb.clone(), outs(&vb)], &format!("out-of-range value {:?} for {:?}", bad, ops[i])).map_err(ctx)?;
        }
        for _ in 0..12 {
            let i = *cx.pick(&ranged);
            let bits = ops[i].bits(N).unwrap();
            roots.push(vec![((K::I, 0, i), above_bits::<F>(cx, bits))]);
        }
    }
    if !outs(&v).is_empty() {
        let mut bad = inst.clone();
        let i = cx.usize(0, bad[1].len() - 1);
        bad[1][i] += cx.nz_field::<F>();
        rejects(k, &c, &bad, "a wrong running sum").map_err(ctx)?;
    }
    let ops2 = ops.clone();
    let rel = move |t: &Trace<F>| {
        let mut o = 0;
        for (i, op) in ops2.iter().enumerate() {
            let v = t.inst[0][i];
            if let Some(b) = op.bits(N) {
                if !fits(&v, b) {
                    return false;
                }
            }
            if op.outs() > 0 {
                let zs = &t.inst[1][o..o + op.outs()];
                o += op.outs();
                if zs[0] != v {
                    return false;
                }
                for w in zs.windows(2) {
                    if !fits(&(w[0] - w[1] * pow2::<F>(N)), N) {
                        return false;
                    }
                }
                if op.bits(N).is_some() && zs != &true_zs(&v, N, op.outs() - 1)[..] {
                    return false;
                }
            }
        }
        true
    };
    // inputs are free in searches that start from an out-of-range input
    let plan = Plan { repairs: 40, splices: 600, budget: 600, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, k, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)?;
    forge_roots(cx, k, &c, &inst, &mut t, &rel, roots, 600).map_err(ctx)
}
/// Starts the search from chosen cells with everything else free to change.
fn forge_roots<F: Fld, C: Circuit<F>>(
    cx: &mut Cx,
    k: u32,
    c: &C,
    inst: &[Vec<F>],
    t: &mut Trace<F>,
    rel: &dyn Fn(&Trace<F>) -> bool,
    roots: Vec<Vec<(Pos, F)>>,
    budget: usize,
) -> R {
    crate::gadget::attack_roots(cx, k, c, inst, t, rel, roots, budget, &|_| false)
}
fn c29_lookup(cx: &mut Cx) -> R {
    match cx.below(10) {
        0 => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 2>, 2>(cx),
        1 => lookup_case::<Fq, LookupRangeCheckConfig<Fq, 3>, 3>(cx),
        2 => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 4>, 4>(cx),
        3 => lookup_case::<Fq, LookupRangeCheckConfig<Fq, 5>, 5>(cx),
        4 => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 6>, 6>(cx),
        5 => lookup_case::<Fq, LookupRangeCheckConfig<Fq, 7>, 7>(cx),
        6 => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 8>, 8>(cx),
        7 => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 10>, 10>(cx),
        8 => lookup_case::<Fq, LookupRangeCheckConfig<Fq, 10>, 10>(cx),
        _ => lookup_case::<Fp, LookupRangeCheckConfig<Fp, 11>, 11>(cx),
    }
}
fn c29_lookup45(cx: &mut Cx) -> R {
    match cx.below(4) {
        0 => lookup_case::<Fp, LookupRangeCheck4_5BConfig<Fp, 6>, 6>(cx),
        1 => lookup_case::<Fq, LookupRangeCheck4_5BConfig<Fq, 10>, 10>(cx),
        2 => lookup_case::<Fp, LookupRangeCheck4_5BConfig<Fp, 8>, 8>(cx),
        _ => lookup_case::<Fp, LookupRangeCheck4_5BConfig<Fp, 10>, 10>(cx),
    }
}

// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct RsOp {
    bits: usize,
    strict: bool,
    copy: bool,
    offset: usize,
}
#[derive(Clone, Debug)]
struct RsCircuit<F, const W: usize> {
    ops: Vec<(RsOp, F)>,
}
#[derive(Clone, Debug)]
struct RsCfg<F: PrimeFieldBits, const W: usize> {
    rs: RunningSumConfig<F, W>,
    z: Column<Advice>,
    free: Column<Advice>,
    inp: Column<Instance>,
    out: Column<Instance>,
}
impl<F: Fld + PrimeFieldBits, const W: usize> Circuit<F> for RsCircuit<F, W> {
    type Config = RsCfg<F, W>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let z = meta.advice_column();
        let free = meta.advice_column();
        let c = meta.fixed_column();
        meta.enable_constant(c);
        meta.enable_equality(free);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        let q = meta.selector();
        RsCfg { rs: RunningSumConfig::configure(meta, q, z), z, free, inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let mut o = 0;
        let _ = cfg.z;
        for (i, (op, v)) in self.ops.iter().enumerate() {
            let windows = (op.bits + W - 1) / W;
            let zs: Vec<AssignedCell<F, F>> = layouter.assign_region(
                || "decompose",
                |mut r| {
                    if op.copy {
                        let c = r.assign_advice_from_instance(|| "input", cfg.inp, i, cfg.free, 0)?;
                        Ok(cfg.rs.copy_decompose(&mut r, op.offset, c, op.strict, op.bits, windows)?.to_vec())
                    } else {
                        Ok(cfg.rs.witness_decompose(&mut r, op.offset, Value::known(*v), op.strict, op.bits, windows)?.to_vec())
                    }
                },
            )?;
            if !op.copy {
                layouter.constrain_instance(zs[0].cell(), cfg.inp, i)?;
            }
            for z in zs {
                layouter.constrain_instance(z.cell(), cfg.out, o)?;
                o += 1;
            }
        }
        Ok(())
    }
}
fn running_case<F: Fld + PrimeFieldBits, const W: usize>(cx: &mut Cx) -> R {
    let ops: Vec<RsOp> = (0..cx.usize(1, 3))
        .map(|_| RsOp {
            bits: if cx.chance(1, 5) { cx.usize(200, 255) } else { cx.usize(1, 70) },
            strict: cx.chance(2, 3),
            copy: cx.bool(),
            offset: cx.usize(0, 3),
        })
        .collect();
    let win = |o: &RsOp| (o.bits + W - 1) / W;
    let vals = |cx: &mut Cx| -> Vec<F> {
        ops.iter().map(|o| if o.strict || cx.bool() { below_bits(cx, o.bits) } else { cx.field() }).collect()
    };
    // the words assigned are those of the low `bits` bits
    let outs = |vs: &[F]| -> Vec<F> {
        ops.iter()
            .zip(vs)
            .flat_map(|(o, v)| {
                let mut b = bits_of(v);
                b.truncate(o.bits);
                b.resize(win(o) * W, false);
                let inv = pow2::<F>(W).invert().unwrap();
                let mut z = *v;
                let mut r = vec![z];
                for w in b.chunks(W) {
                    z = (z - from_bits::<F>(w)) * inv;
                    r.push(z);
                }
                r
            })
            .collect()
    };
    let v = vals(cx);
    let v2 = vals(cx);
    let make = |vs: &[F]| RsCircuit::<F, W> { ops: ops.iter().cloned().zip(vs.iter().copied()).collect() };
    let rows: usize = ops.iter().map(|o| win(o) + o.offset + 2).sum::<usize>() + 10;
    let k = (usize::BITS - rows.leading_zeros()).max(4);
    let name = format!("running {:?} {}", TypeId::of::<F>(), W);
    let ctx = |e: String| format!("running sums W={} {:?} on {:?}: {}", W, ops, v, e);
    cx.nontrivial = true;
    cx.sample(|| format!("W={} {:?} on {:?}", W, ops, v));
    cx.label(format!("window {} bits", W));
    let inst = vec![v.clone(), outs(&v)];
    let c = make(&v);
    let mut t = honest(k, &c, &inst, &name, &name, true).map_err(ctx)?;
    let b = honest(k, &make(&v2), &[v2.clone(), outs(&v2)], &name, &name, false).map_err(ctx)?;
    let strict: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].strict && win(&ops[*i]) * W < 254).collect();
    let mut roots = vec![];
    if !strict.is_empty() {
        let i = *cx.pick(&strict);
        let mut vb = v.clone();
        vb[i] = above_bits(cx, win(&ops[i]) * W);
        rejects(k, &make(&vb), &[vb.clone(), outs(&vb)], &format!("out-of-range value {:?} for {:?}", vb[i], ops[i])).map_err(ctx)?;
        for _ in 0..10 {
            let i = *cx.pick(&strict);
            roots.push(vec![((K::I, 0, i), above_bits::<F>(cx, win(&ops[i]) * W))]);
        }
    }
    let mut bad = inst.clone();
    let i = cx.usize(0, bad[1].len() - 1);
    bad[1][i] += cx.nz_field::<F>();
    rejects(k, &c, &bad, "a wrong running sum").map_err(ctx)?;
    let ops2 = ops.clone();
    let rel = move |t: &Trace<F>| {
        let mut o = 0;
        for (i, op) in ops2.iter().enumerate() {
            let n = (op.bits + W - 1) / W + 1;
            let zs = &t.inst[1][o..o + n];
            o += n;
            if zs[0] != t.inst[0][i] || (op.strict && zs[n - 1] != F::ZERO) {
                return false;
            }
            if zs.windows(2).any(|w| !fits(&(w[0] - w[1] * pow2::<F>(W)), W)) {
                return false;
            }
            // strict decompositions that cannot wrap around are those of the integer
            if op.strict && (n - 1) * W < 254 && !fits(&zs[0], (n - 1) * W) {
                return false;
            }
        }
        true
    };
    let plan = Plan { repairs: 40, splices: 600, budget: 600, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, k, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)?;
    forge_roots(cx, k, &c, &inst, &mut t, &rel, roots, 800).map_err(ctx)
}
fn c29_running(cx: &mut Cx) -> R {
    match cx.below(6) {
        0 => running_case::<Fp, 1>(cx),
        1 => running_case::<Fq, 1>(cx),
        2 => running_case::<Fp, 2>(cx),
        3 => running_case::<Fq, 2>(cx),
        4 => running_case::<Fp, 3>(cx),
        _ => running_case::<Fq, 3>(cx),
    }
}

// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum SwOp<F> {
    /// a from instance, b witnessed
    Swap(F, bool),
    /// choice, left, right from instance
    Mux,
}
#[derive(Clone, Debug)]
struct SwCircuit<F> {
    ops: Vec<SwOp<F>>,
}
#[derive(Clone, Debug)]
struct SwCfg {
    cs: CondSwapConfig,
    free: Column<Advice>,
    inp: Column<Instance>,
    out: Column<Instance>,
}
impl<F: Fld> Circuit<F> for SwCircuit<F> {
    type Config = SwCfg;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let adv: Vec<Column<Advice>> = (0..5).map(|_| meta.advice_column()).collect();
        for a in &adv {
            meta.enable_equality(*a);
        }
        let free = meta.advice_column();
        meta.enable_equality(free);
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        SwCfg { cs: CondSwapChip::<F>::configure(meta, adv.try_into().unwrap()), free, inp, out }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let chip = CondSwapChip::<F>::construct(cfg.cs.clone());
        let (mut i, mut o) = (0, 0);
        for op in &self.ops {
            let n = if let SwOp::Mux = op { 3 } else { 1 };
            let ins: Vec<AssignedCell<F, F>> = layouter.assign_region(
                || "input",
                |mut r| (0..n).map(|j| r.assign_advice_from_instance(|| "input", cfg.inp, i + j, cfg.free, j)).collect::<Result<Vec<_>, _>>(),
            )?;
            i += n;
            let outs = match op {
                SwOp::Swap(b, s) => {
                    let (x, y) = chip.swap(layouter.namespace(|| "swap"), (ins[0].clone(), Value::known(*b)), Value::known(*s))?;
                    vec![x, y]
                }
                SwOp::Mux => vec![chip.mux(&mut layouter, ins[0].clone(), ins[1].clone(), ins[2].clone())?],
            };
            for c in outs {
                layouter.constrain_instance(c.cell(), cfg.out, o)?;
                o += 1;
            }
        }
        Ok(())
    }
}
fn swap_case<F: Fld>(cx: &mut Cx) -> R {
    let n = cx.usize(1, 4);
    let kinds: Vec<bool> = (0..n).map(|_| cx.bool()).collect();
    // (ops, inputs, outputs)
    let gen = |cx: &mut Cx| -> (Vec<SwOp<F>>, Vec<F>, Vec<F>) {
        let (mut ops, mut i, mut o) = (vec![], vec![], vec![]);
        for mux in &kinds {
            let a: F = cx.field();
            let b: F = if cx.chance(1, 10) { a } else { cx.field() };
            if a != b {
                cx.nontrivial = true;
            }
            let s = cx.bool();
            if *mux {
                ops.push(SwOp::Mux);
                i.extend([F::from(s as u64), a, b]);
                o.push(if s { b } else { a });
            } else {
                ops.push(SwOp::Swap(b, s));
                i.push(a);
                o.extend(if s { [b, a] } else { [a, b] });
            }
        }
        (ops, i, o)
    };
    let (ops, i, o) = gen(cx);
    let (ops2, i2, o2) = gen(cx);
    let name = format!("swap {:?}", TypeId::of::<F>());
    let ctx = |e: String| format!("swap and mux {:?} on {:?}: {}", ops, i, e);
    cx.sample(|| format!("{:?} on {:?}", ops, i));
    let inst = vec![i.clone(), o.clone()];
    let c = SwCircuit { ops: ops.clone() };
    let mut t = honest(5, &c, &inst, &name, &name, true).map_err(ctx)?;
    let b = honest(5, &SwCircuit { ops: ops2 }, &[i2, o2], &name, &name, false).map_err(ctx)?;
    let mut bad = inst.clone();
    let j = cx.usize(0, bad[1].len() - 1);
    bad[1][j] += cx.nz_field::<F>();
    rejects(5, &c, &bad, "a wrong output").map_err(ctx)?;
    // selectors that are not bits
    let mut at = 0;
    for op in &ops {
        if let SwOp::Mux = op {
            for _ in 0..2 {
                let s: F = cx.field();
                if s == F::ZERO || s == F::ONE {
                    continue;
                }
                let mut bad = inst.clone();
                bad[0][at] = s;
                rejects(5, &c, &bad, &format!("the selector {:?}", s)).map_err(ctx)?;
                let (l, r) = (i[at + 1], i[at + 2]);
                bad[1] = vec![];
                let mut p = 0;
                let mut q = 0;
                for op in &ops {
                    match op {
                        SwOp::Mux => {
                            bad[1].push(if p == at { s * r + (F::ONE - s) * l } else { o[q] });
                            p += 3;
                            q += 1;
                        }
                        SwOp::Swap(..) => {
                            bad[1].extend([o[q], o[q + 1]]);
                            p += 1;
                            q += 2;
                        }
                    }
                }
                rejects(5, &c, &bad, &format!("the selector {:?} with the interpolated output", s)).map_err(ctx)?;
            }
            at += 3;
        } else {
            at += 1;
        }
    }
    // b and the swap bit of every operation, in the columns given to the chip
    let col = |t: &Trace<F>, c: usize| -> Vec<(usize, usize)> { t.cells.iter().filter(|x| x.0 == c).copied().collect() };
    let (bs, ss) = (col(&t, 1), col(&t, 4));
    ensure!(bs.len() == ops.len() && ss.len() == ops.len(), "{} operations use {} and {} cells", ops.len(), bs.len(), ss.len());
    let kinds2 = kinds.clone();
    let rel = move |t: &Trace<F>| {
        let (mut p, mut q) = (0, 0);
        for (j, mux) in kinds2.iter().enumerate() {
            let s = t.adv[ss[j].0][ss[j].1];
            let bit = if s == F::ZERO {
                false
            } else if s == F::ONE {
                true
            } else {
                return false;
            };
            if *mux {
                if t.inst[0][p] != s || t.inst[1][q] != t.inst[0][p + 1 + bit as usize] {
                    return false;
                }
                p += 3;
                q += 1;
            } else {
                let (a, b) = (t.inst[0][p], t.adv[bs[j].0][bs[j].1]);
                if [t.inst[1][q], t.inst[1][q + 1]] != if bit { [b, a] } else { [a, b] } {
                    return false;
                }
                p += 1;
                q += 2;
            }
        }
        true
    };
    let plan = Plan { repairs: 60, splices: 300, budget: 200, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, 5, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)
}
fn c30_swap(cx: &mut Cx) -> R {
    if cx.bool() {
        swap_case::<Fp>(cx)
    } else {
        swap_case::<Fq>(cx)
    }
}

fn bits_case<F: Fld + PrimeFieldBits + Debug>(cx: &mut Cx) -> R {
    let v: F = if cx.bool() { cx.field() } else { below_bits(cx, 64) };
    cx.nontrivial = !bool::from(v.is_zero());
    let b = bits_of(&v);
    cx.sample(|| format!("{:?}", v));
    let s = cx.usize(0, 255);
    let e = cx.usize(s, 255);
    let got = bitrange_subset(&v, s..e);
    ensure!(got == from_bits(&b[s..e]), "bits {}..{} of {:?}: {:?}", s, e, v, got);
    let rc = RangeConstrained::<F, Value<F>>::bitrange_of(Value::known(&v), s..e);
    ensure!(rc.num_bits() == e - s, "bitrange_of {}..{}: {} bits", s, e, rc.num_bits());
    let mut ok = false;
    rc.inner().map(|x| ok = x == got);
    ensure!(ok, "bitrange_of {}..{} of {:?}: {:?}", s, e, v, rc);
    let mut seen = false;
    RangeConstrained::<F, Value<F>>::bitrange_of(Value::unknown(), s..e).inner().map(|_| seen = true);
    ensure!(!seen, "bitrange_of an unknown value is known");
    let w = cx.usize(1, 8);
    let n = cx.usize(1, 255);
    let words = decompose_word(&v, n, w);
    let mut bb = b[..n].to_vec();
    while bb.len() % w != 0 {
        bb.push(false);
    }
    let want: Vec<u8> = bb.chunks(w).map(|c| c.iter().rev().fold(0u8, |a, x| (a << 1) | *x as u8)).collect();
    ensure!(words == want, "decompose_word({:?}, {}, {}): {:?}, expected {:?}", v, n, w, words, want);
    let x = cx.u64() >> cx.below(64);
    macro_rules! conv { ($($l:literal)*) => {$({
        let bs: [bool; $l] = i2lebsp::<$l>(x);
        for (i, b) in bs.iter().enumerate() {
            ensure!(*b == ((x >> i) & 1 == 1), "i2lebsp::<{}>({}) bit {}", $l, x, i);
        }
        let back = lebs2ip::<$l>(&bs);
        let want = if $l == 64 { x } else { x & ((1u64 << ($l % 64)) - 1) };
        ensure!(back == want, "lebs2ip::<{}> of {:?}: {}, expected {}", $l, bs, back, want);
    })*} }
    conv!(0 1 2 3 4 5 6 7 8 9 10 16 31 32 33 48 63 64);
    Ok(())
}
fn c30_bits(cx: &mut Cx) -> R {
    if cx.bool() {
        bits_case::<Fp>(cx)
    } else {
        bits_case::<Fq>(cx)
    }
}

/// Expression helpers, evaluated and used as gates.
#[derive(Clone, Debug)]
struct ExCircuit<const RANGE: usize> {
    v: Vec<[Fp; 4]>,
}
impl<const RANGE: usize> Circuit<Fp> for ExCircuit<RANGE> {
    type Config = (Selector, Selector, Selector, [Column<Advice>; 4]);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let (q, qb, qt) = (meta.selector(), meta.selector(), meta.selector());
        let a = [meta.advice_column(), meta.advice_column(), meta.advice_column(), meta.advice_column()];
        meta.create_gate("range", |m| {
            let s = m.query_selector(q);
            let v = m.query_advice(a[0], Rotation::cur());
            Constraints::with_selector(s, Some(range_check(v, RANGE)))
        });
        meta.create_gate("bool", |m| {
            let s = m.query_selector(qb);
            let v = m.query_advice(a[0], Rotation::cur());
            Constraints::with_selector(s, Some(bool_check(v)))
        });
        meta.create_gate("ternary", |m| {
            let s = m.query_selector(qt);
            let v: Vec<Expression<Fp>> = a.iter().map(|c| m.query_advice(*c, Rotation::cur())).collect();
            Constraints::with_selector(s, Some(ternary(v[0].clone(), v[1].clone(), v[2].clone()) - v[3].clone()))
        });
        (q, qb, qt, a)
    }
    fn synthesize(&self, (q, qb, qt, a): Self::Config, mut layouter: impl Layouter<Fp>) -> Result<(), Error> {
        layouter.assign_region(
            || "rows",
            |mut r| {
                for (i, v) in self.v.iter().enumerate() {
                    [&q, &qb, &qt][i % 3].enable(&mut r, i)?;
                    for j in 0..4 {
                        r.assign_advice(|| "v", a[j], i, || Value::known(v[j]))?;
                    }
                }
                Ok(())
            },
        )
    }
}
fn expression_case<const RANGE: usize>(cx: &mut Cx) -> R {
    // plain evaluation
    let ev = |e: Expression<Fp>| -> Fp {
        let bad = |_: u32| -> Fp { panic!("HARNESS: not constant") };
        e.evaluate(
            &|c| c,
            &|_| bad(0),
            &|_| bad(1),
            &|_| bad(2),
            &|_| bad(3),
            &|a| -a,
            &|a, b| a + b,
            &|a, b| a * b,
            &|a, f| a * f,
        )
    };
    for _ in 0..8 {
        let v: Fp = match cx.below(4) {
            0 => cx.field(),
            1 => -Fp::from(cx.below(RANGE as u64 + 3)),
            _ => Fp::from(cx.below(RANGE as u64 + 3)),
        };
        let inside = (0..RANGE as u64).any(|i| Fp::from(i) == v);
        let g = ev(range_check(Expression::Constant(v), RANGE));
        ensure!((g == Fp::ZERO) == inside, "range_check({:?}, {}) = {:?}", v, RANGE, g);
        let g = ev(bool_check(Expression::Constant(v)));
        ensure!((g == Fp::ZERO) == (v == Fp::ZERO || v == Fp::ONE), "bool_check({:?}) = {:?}", v, g);
        let (b, c): (Fp, Fp) = (cx.field(), cx.field());
        let g = ev(ternary(Expression::Constant(v), Expression::Constant(b), Expression::Constant(c)));
        ensure!(g == v * b + (Fp::ONE - v) * c, "ternary({:?}, {:?}, {:?}) = {:?}", v, b, c, g);
    }
    // as gates
    let rows: Vec<[Fp; 4]> = (0..cx.usize(1, 9))
        .map(|i| match i % 3 {
            0 => [Fp::from(cx.below(RANGE as u64)), cx.field(), cx.field(), cx.field()],
            1 => [Fp::from(cx.below(2)), cx.field(), cx.field(), cx.field()],
            _ => {
                let (s, b, c) = (Fp::from(cx.below(2)), cx.field(), cx.field());
                [s, b, c, if s == Fp::ONE { b } else { c }]
            }
        })
        .collect();
    cx.nontrivial = true;
    cx.sample(|| format!("range {} rows {:?}", RANGE, rows));
    let run = |rows: &[[Fp; 4]]| halo2_proofs::dev::MockProver::run(5, &ExCircuit::<RANGE> { v: rows.to_vec() }, vec![]).map_err(|e| format!("{:?}", e)).map(|m| m.verify());
    let r = run(&rows)?;
    ensure!(r.is_ok(), "rows in range rejected: {:?} {:?}", rows, r);
    let mut bad = rows.clone();
    let i = cx.usize(0, bad.len() - 1);
    match i % 3 {
        0 => bad[i][0] = Fp::from(RANGE as u64 + cx.below(3)),
        1 => bad[i][0] = Fp::from(2 + cx.below(3)),
        _ => bad[i][3] += cx.nz_field::<Fp>(),
    }
    ensure!(run(&bad)?.is_err(), "row {} out of range accepted: {:?}", i, bad);
    Ok(())
}
fn c30_expressions(cx: &mut Cx) -> R {
    match cx.below(8) {
        0 => expression_case::<1>(cx),
        1 => expression_case::<2>(cx),
        2 => expression_case::<3>(cx),
        3 => expression_case::<4>(cx),
        4 => expression_case::<5>(cx),
        5 => expression_case::<8>(cx),
        6 => expression_case::<13>(cx),
        _ => expression_case::<16>(cx),
    }
}
