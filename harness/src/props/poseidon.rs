//! C22 the Poseidon primitive, C23 the Poseidon circuit.
use std::any::TypeId;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use ff::{Field, FromUniformBytes, PrimeField};
use halo2_gadgets::poseidon::primitives::{self as prim, Absorbing, ConstantLength, Domain, Mds, P128Pow5T3, Spec, Squeezing};
use halo2_gadgets::poseidon::{Hash, PaddedWord, PoseidonInstructions, Pow5Chip, Pow5Config, Sponge, StateWord};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner};
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error, Instance};
use pasta_curves::{Fp, Fq};

use crate::gadget::{attack, honest, rejects, Plan};
use crate::engine::{sub, Cx, Prop, R};
use crate::ensure;
use crate::spec::Fld;
use crate::tamper::Tamper;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "a non-constant message or state; distinct by generator tape",
            assumptions: &["widths 2 to 9, rates 1 to width-1, up to 2+80 rounds, message lengths 1 to 17, over both Pasta fields", "S-box x^5"],
            subs: vec![
                sub("constants", 60, 2000, c22_constants),
                sub("permutation", 2000, 200000, c22_permutation),
                sub("hash", 3000, 300000, c22_hash),
                sub("modes", 3000, 100000, c22_modes),
            ],
        },
        Prop {
            id: "C23",
            rule: "an honest circuit accepted and at least one false witness searched for; distinct by generator tape",
            assumptions: &["RATE = WIDTH - 1 and even round numbers, as the chip asserts", "widths 2 to 5, lengths 1 to 7, both Pasta fields"],
            subs: vec![sub("hash", 260, 20000, c23_hash), sub("sponge", 120, 8000, c23_sponge), sub("permute", 120, 8000, c23_permute)],
        },
    ]
}

/// x^5 with generated constants.
#[derive(Debug, Clone, Copy)]
pub struct Sp<const RF: usize, const RP: usize, const MDS: usize>;
impl<F: FromUniformBytes<64> + Ord, const RF: usize, const RP: usize, const MDS: usize, const T: usize, const RATE: usize> Spec<F, T, RATE>
    for Sp<RF, RP, MDS>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(val: F) -> F {
        val.pow_vartime([5])
    }
    fn secure_mds() -> usize {
        MDS
    }
    fn constants() -> (Vec<[F; T]>, Mds<F, T>, Mds<F, T>) {
        prim::generate_constants::<F, Self, T, RATE>()
    }
}

/// The specification, written from the paper and the reference script.
#[derive(Clone)]
pub struct Ref<F> {
    t: usize,
    rf: usize,
    rp: usize,
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
struct Lfsr {
    b: Vec<bool>,
    at: usize,
}
impl Lfsr {
    fn new(n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut b = vec![];
        let mut put = |v: usize, w: usize| {
            for i in (0..w).rev() {
                b.push((v >> i) & 1 == 1);
            }
        };
        put(1, 2);
        put(0, 4);
        put(n, 12);
        put(t, 12);
        put(rf, 10);
        put(rp, 10);
        put((1 << 30) - 1, 30);
        assert_eq!(b.len(), 80);
        Lfsr { b, at: 80 + 160 }
    }
    fn raw(&mut self) -> bool {
        while self.b.len() <= self.at {
            let i = self.b.len() - 80;
            let v = self.b[i + 62] ^ self.b[i + 51] ^ self.b[i + 38] ^ self.b[i + 23] ^ self.b[i + 13] ^ self.b[i];
            self.b.push(v);
        }
        self.at += 1;
        self.b[self.at - 1]
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a {
                return b;
            }
        }
    }
    /// value modulo p, and whether it was below p
    fn num<F: PrimeField>(&mut self) -> (F, bool) {
        let n = F::NUM_BITS as usize;
        let bits: Vec<bool> = (0..n).map(|_| self.bit()).collect();
        let mut v = F::ZERO;
        for b in &bits {
            v = v.double();
            if *b {
                v += F::ONE;
            }
        }
        let r = v.to_repr();
        let below = (0..n).all(|i| {
            let j = n - 1 - i;
            ((r.as_ref()[j / 8] >> (j % 8)) & 1 == 1) == bits[i]
        });
        (v, below)
    }
}
impl<F: Fld> Ref<F> {
    pub fn new(t: usize, rf: usize, rp: usize, select: usize) -> Self {
        let mut g = Lfsr::new(F::NUM_BITS as usize, t, rf, rp);
        let rc = (0..rf + rp)
            .map(|_| {
                (0..t)
                    .map(|_| loop {
                        let (v, ok) = g.num::<F>();
                        if ok {
                            break v;
                        }
                    })
                    .collect()
            })
            .collect();
        let mut skip = select;
        let xy = loop {
            let v: Vec<F> = (0..2 * t).map(|_| g.num::<F>().0).collect();
            let mut u = v.clone();
            u.sort();
            u.dedup();
            if u.len() < v.len() {
                continue;
            }
            if skip > 0 {
                skip -= 1;
                continue;
            }
            break v;
        };
        let mds = (0..t).map(|i| (0..t).map(|j| (xy[i] + xy[t + j]).invert().unwrap()).collect()).collect();
        Ref { t, rf, rp, rc, mds }
    }
    pub fn permute(&self, s: &[F]) -> Vec<F> {
        let mut s = s.to_vec();
        for r in 0..self.rf + self.rp {
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for i in 0..self.t {
                s[i] += self.rc[r][i];
                if full || i == 0 {
                    let q = s[i].square().square();
                    s[i] = q * s[i];
                }
            }
            s = (0..self.t).map(|i| (0..self.t).map(|j| self.mds[i][j] * s[j]).sum()).collect();
        }
        s
    }
    /// Sponge: absorb whole blocks into the first `rate` words, squeeze `outs` words.
    pub fn sponge(&self, rate: usize, capacity: F, padded: &[F], outs: usize) -> Vec<F> {
        assert_eq!(padded.len() % rate, 0);
        let mut s = vec![F::ZERO; self.t];
        s[rate] = capacity;
        for b in padded.chunks(rate) {
            for (x, m) in s.iter_mut().zip(b) {
                *x += m;
            }
            s = self.permute(&s);
        }
        let mut out = vec![];
        loop {
            for x in &s[..rate] {
                if out.len() == outs {
                    return out;
                }
                out.push(*x);
            }
            s = self.permute(&s);
        }
    }
    pub fn hash(&self, rate: usize, msg: &[F]) -> F {
        let cap = F::from(msg.len() as u64) * F::from(2).pow_vartime([64]);
        let mut m = msg.to_vec();
        while m.len() % rate != 0 {
            m.push(F::ZERO);
        }
        self.sponge(rate, cap, &m, 1)[0]
    }
}
lazy_static::lazy_static! {
    static ref REFS: Mutex<HashMap<(TypeId, usize, usize, usize, usize), Arc<dyn std::any::Any + Send + Sync>>> = Default::default();
}
pub fn reference<F: Fld>(t: usize, rf: usize, rp: usize, mds: usize) -> Arc<Ref<F>> {
    let k = (TypeId::of::<F>(), t, rf, rp, mds);
    if let Some(r) = REFS.lock().unwrap().get(&k) {
        return r.clone().downcast::<Ref<F>>().expect("HARNESS: ref");
    }
    let r = Arc::new(Ref::<F>::new(t, rf, rp, mds));
    REFS.lock().unwrap().insert(k, r.clone());
    r
}
// Generated constants are slow: computed once per parameter set for the code under test as well.
lazy_static::lazy_static! {
    static ref GENS: Mutex<HashMap<(TypeId, TypeId, usize, usize), Arc<dyn std::any::Any + Send + Sync>>> = Default::default();
}
fn generated<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize>() -> Arc<(Vec<[F; T]>, Mds<F, T>, Mds<F, T>)> {
    let k = (TypeId::of::<F>(), TypeId::of::<S>(), T, RATE);
    if let Some(r) = GENS.lock().unwrap().get(&k) {
        return r.clone().downcast().expect("HARNESS: gen");
    }
    let r = Arc::new(S::constants());
    GENS.lock().unwrap().insert(k, r.clone());
    r
}
/// A spec that caches its constants.
#[derive(Debug, Clone, Copy)]
pub struct Cached<S>(PhantomData<S>);
impl<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize> Spec<F, T, RATE> for Cached<S> {
    fn full_rounds() -> usize {
        S::full_rounds()
    }
    fn partial_rounds() -> usize {
        S::partial_rounds()
    }
    fn sbox(val: F) -> F {
        S::sbox(val)
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[F; T]>, Mds<F, T>, Mds<F, T>) {
        (*generated::<F, S, T, RATE>()).clone()
    }
}

fn message<F: Fld>(cx: &mut Cx, n: usize) -> Vec<F> {
    let m: Vec<F> = (0..n).map(|_| cx.field()).collect();
    if m.iter().any(|x| !bool::from(x.is_zero())) {
        cx.nontrivial = true;
    }
    m
}

fn constants_case<F: Fld, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(cx: &mut Cx, mds: usize) -> R {
    let (rc, m, mi) = S::constants();
    let r = Ref::<F>::new(T, S::full_rounds(), S::partial_rounds(), mds);
    cx.nontrivial = true;
    cx.sample(|| format!("T={} RATE={} R_F={} R_P={} mds #{}", T, RATE, S::full_rounds(), S::partial_rounds(), mds));
    ensure!(rc.len() == r.rc.len(), "{} rounds of constants, expected {}", rc.len(), r.rc.len());
    for (i, (a, b)) in rc.iter().zip(&r.rc).enumerate() {
        ensure!(a[..] == b[..], "round constants of round {}: {:?}, expected {:?}", i, a, b);
    }
    for i in 0..T {
        ensure!(m[i][..] == r.mds[i][..], "MDS row {}: {:?}, expected {:?}", i, m[i], r.mds[i]);
        for j in 0..T {
            let p: F = (0..T).map(|l| m[i][l] * mi[l][j]).sum();
            ensure!(p == if i == j { F::ONE } else { F::ZERO }, "MDS times its inverse has {:?} at ({}, {})", p, i, j);
        }
    }
    Ok(())
}
macro_rules! cases {
    ($n:expr; $($body:expr),+ $(,)?) => {{
        let mut all: Vec<Box<dyn Fn(&mut Cx) -> R>> = vec![];
        $(all.push(Box::new($body));)+
        let i = $n as usize % all.len();
        all.swap_remove(i)
    }};
}
fn c22_constants(cx: &mut Cx) -> R {
    let i = cx.below(26);
    let f = cases!(i;
        |cx: &mut Cx| constants_case::<Fp, P128Pow5T3, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, P128Pow5T3, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 56, 0>, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<8, 56, 0>, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 56, 1>, 2, 1>(cx, 1),
        |cx: &mut Cx| constants_case::<Fq, Sp<8, 56, 3>, 2, 1>(cx, 3),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 57, 0>, 4, 3>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<8, 60, 2>, 5, 4>(cx, 2),
        |cx: &mut Cx| constants_case::<Fp, Sp<2, 0, 0>, 2, 1>(cx, 0),
        |cx: &mut Cx| constants_case::<Fp, Sp<0, 2, 0>, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<4, 3, 5>, 6, 5>(cx, 5),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 60, 0>, 5, 4>(cx, 0),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 64, 0>, 9, 8>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<8, 64, 7>, 8, 7>(cx, 7),
        |cx: &mut Cx| constants_case::<Fp, Sp<6, 31, 1>, 7, 3>(cx, 1),
        |cx: &mut Cx| constants_case::<Fq, Sp<2, 80, 1>, 4, 2>(cx, 1),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 55, 0>, 3, 2>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<10, 57, 0>, 3, 1>(cx, 0),
        |cx: &mut Cx| constants_case::<Fp, Sp<16, 16, 2>, 4, 1>(cx, 2),
        |cx: &mut Cx| constants_case::<Fq, Sp<12, 1, 1>, 3, 2>(cx, 1),
        |cx: &mut Cx| constants_case::<Fp, Sp<8, 56, 2>, 3, 2>(cx, 2),
        |cx: &mut Cx| constants_case::<Fq, Sp<8, 56, 1>, 3, 2>(cx, 1),
        |cx: &mut Cx| constants_case::<Fp, Sp<4, 4, 0>, 12, 11>(cx, 0),
        |cx: &mut Cx| constants_case::<Fq, Sp<4, 4, 4>, 2, 1>(cx, 4),
        |cx: &mut Cx| constants_case::<Fp, Sp<4, 10, 6>, 5, 2>(cx, 6),
        |cx: &mut Cx| constants_case::<Fq, Sp<6, 9, 0>, 10, 9>(cx, 0),
    );
    f(cx)
}

/// A named parameter set: spec, width, rate, index of the matrix.
macro_rules! with_params {
    ($cx:expr, $f:ident) => {{
        let i = $cx.below(18);
        let g = cases!(i;
            |cx: &mut Cx| $f::<Fp, P128Pow5T3, 3, 2>(cx, 0),
            |cx: &mut Cx| $f::<Fq, P128Pow5T3, 3, 2>(cx, 0),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<8, 56, 0>>, 3, 1>(cx, 0),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<8, 56, 1>>, 2, 1>(cx, 1),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<8, 56, 2>>, 4, 3>(cx, 2),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<8, 57, 0>>, 5, 4>(cx, 0),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<2, 0, 0>>, 2, 1>(cx, 0),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<0, 3, 0>>, 3, 2>(cx, 0),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<4, 5, 3>>, 6, 4>(cx, 3),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<6, 7, 0>>, 7, 3>(cx, 0),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<8, 64, 0>>, 9, 8>(cx, 0),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<2, 1, 1>>, 4, 2>(cx, 1),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<4, 4, 0>>, 3, 2>(cx, 0),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<8, 56, 0>>, 3, 2>(cx, 0),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<10, 21, 0>>, 4, 1>(cx, 0),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<8, 60, 2>>, 5, 2>(cx, 2),
            |cx: &mut Cx| $f::<Fp, Cached<Sp<16, 2, 1>>, 3, 2>(cx, 1),
            |cx: &mut Cx| $f::<Fq, Cached<Sp<8, 13, 5>>, 8, 7>(cx, 5),
        );
        g($cx)
    }};
}

fn permutation_case<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize>(cx: &mut Cx, mds: usize) -> R {
    let r = reference::<F>(T, S::full_rounds(), S::partial_rounds(), mds);
    let g = generated::<F, S, T, RATE>();
    let s = message::<F>(cx, T);
    let mut st: [F; T] = s.clone().try_into().unwrap();
    prim::test_only_permute::<F, S, T, RATE>(&mut st, &g.1, &g.0);
    let want = r.permute(&s);
    cx.sample(|| format!("T={} R_F={} R_P={} state {:?}", T, S::full_rounds(), S::partial_rounds(), s));
    ensure!(st[..] == want[..], "permutation of {:?} (T={}, R_F={}, R_P={}): {:?}, expected {:?}", s, T, S::full_rounds(), S::partial_rounds(), st, want);
    Ok(())
}
fn c22_permutation(cx: &mut Cx) -> R {
    with_params!(cx, permutation_case)
}
fn hash_len<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize, const L: usize>(cx: &mut Cx, mds: usize) -> R {
    let r = reference::<F>(T, S::full_rounds(), S::partial_rounds(), mds);
    let m = message::<F>(cx, L);
    let got = prim::Hash::<F, S, ConstantLength<L>, T, RATE>::init().hash(m.clone().try_into().unwrap());
    let want = r.hash(RATE, &m);
    cx.sample(|| format!("T={} RATE={} R_F={} R_P={} L={} {:?}", T, RATE, S::full_rounds(), S::partial_rounds(), L, m));
    cx.label(format!("blocks {} padding {}", (L + RATE - 1) / RATE, (RATE - L % RATE) % RATE));
    ensure!(got == want, "hash of {:?} (T={}, RATE={}, R_F={}, R_P={}): {:?}, expected {:?}", m, T, RATE, S::full_rounds(), S::partial_rounds(), got, want);
    Ok(())
}
fn hash_case<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize>(cx: &mut Cx, mds: usize) -> R {
    let l = cx.usize(1, 17);
    macro_rules! go { ($($n:literal)*) => { match l { $($n => hash_len::<F, S, T, RATE, $n>(cx, mds),)* _ => unreachable!() } } }
    go!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
}
fn c22_hash(cx: &mut Cx) -> R {
    with_params!(cx, hash_case)
}

/// The public absorbing and squeezing states are queues of RATE words; domains describe themselves.
fn modes_case<const RATE: usize>(cx: &mut Cx) -> R {
    let n = cx.usize(0, RATE + 2);
    let vals: Vec<Fp> = message(cx, n);
    let mut a = Absorbing::<Fp, RATE>::init_empty();
    for (i, v) in vals.iter().enumerate() {
        let r = a.absorb(*v);
        ensure!(r == if i < RATE { Ok(()) } else { Err(*v) }, "absorb {} of rate {}: {:?}", i, RATE, r);
    }
    for (i, e) in a.expose_inner().iter().enumerate() {
        ensure!(*e == vals.get(i).copied(), "absorbed word {}: {:?}, expected {:?}", i, e, vals.get(i));
    }
    let out: [Fp; RATE] = message::<Fp>(cx, RATE).try_into().unwrap();
    let mut s = Squeezing::<Fp, RATE>::init_full(out);
    for i in 0..RATE + 2 {
        let g = s.squeeze();
        ensure!(g == out.get(i).copied(), "squeezed word {}: {:?}, expected {:?}", i, g, out.get(i));
    }
    macro_rules! pad { ($($l:literal)*) => {$({
        let p: Vec<Fp> = <ConstantLength<$l> as Domain<Fp, RATE>>::padding($l).into_iter().collect();
        ensure!(p.iter().all(|x| *x == Fp::ZERO) && p.len() < RATE && (p.len() + $l) % RATE == 0, "padding of {} words at rate {}: {:?}", $l, RATE, p);
        let c = <ConstantLength<$l> as Domain<Fp, RATE>>::initial_capacity_element();
        ensure!(c == Fp::from($l as u64) * Fp::from(2).pow_vartime([64]), "capacity element of length {}: {:?}", $l, c);
    })*} }
    pad!(1 2 3 4 5 6 7 8 9 10 16 31 255 256 65536);
    Ok(())
}
fn c22_modes(cx: &mut Cx) -> R {
    let i = cx.below(5);
    cases!(i; modes_case::<1>, modes_case::<2>, modes_case::<3>, modes_case::<4>, modes_case::<7>)(cx)
}

// ---------------------------------------------------------------------------------------------
// circuits

#[derive(Clone, Copy, Debug, PartialEq)]
enum Api {
    Hash,
    /// number of words squeezed
    Sponge(usize),
    Permute,
}
#[derive(Debug)]
struct PosCircuit<F, S, const T: usize, const RATE: usize, const L: usize> {
    api: Api,
    /// message words that are padding constants rather than cells (sponge interface)
    pads: Vec<Option<F>>,
    _s: PhantomData<S>,
}
impl<F: Clone, S, const T: usize, const RATE: usize, const L: usize> Clone for PosCircuit<F, S, T, RATE, L> {
    fn clone(&self) -> Self {
        PosCircuit { api: self.api, pads: self.pads.clone(), _s: PhantomData }
    }
}
#[derive(Clone, Debug)]
struct Cfg<F: Field, const T: usize, const RATE: usize> {
    chip: Pow5Config<F, T, RATE>,
    inp: Column<Instance>,
    out: Column<Instance>,
    adv: Vec<Column<Advice>>,
}
impl<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize, const L: usize> Circuit<F> for PosCircuit<F, S, T, RATE, L> {
    type Config = Cfg<F, T, RATE>;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let state: Vec<Column<Advice>> = (0..T).map(|_| meta.advice_column()).collect();
        let partial = meta.advice_column();
        let rc_a: Vec<_> = (0..T).map(|_| meta.fixed_column()).collect();
        let rc_b: Vec<_> = (0..T).map(|_| meta.fixed_column()).collect();
        let inp = meta.instance_column();
        let out = meta.instance_column();
        meta.enable_equality(inp);
        meta.enable_equality(out);
        meta.enable_constant(rc_b[0]);
        let chip = Pow5Chip::configure::<S>(meta, state.clone().try_into().unwrap(), partial, rc_a.try_into().unwrap(), rc_b.try_into().unwrap());
        Cfg { chip, inp, out, adv: state }
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let chip = Pow5Chip::construct(cfg.chip.clone());
        let n = if self.api == Api::Permute { T } else { L };
        let message: Vec<AssignedCell<F, F>> = layouter.assign_region(
            || "inputs",
            |mut region| {
                (0..n)
                    .map(|i| region.assign_advice_from_instance(|| format!("input {}", i), cfg.inp, i, cfg.adv[i % T], i / T))
                    .collect::<Result<Vec<_>, _>>()
            },
        )?;
        let outs: Vec<AssignedCell<F, F>> = match self.api {
            Api::Hash => {
                let h = Hash::<F, _, S, ConstantLength<L>, T, RATE>::init(chip, layouter.namespace(|| "init"))?;
                vec![h.hash(layouter.namespace(|| "hash"), message.try_into().map_err(|_| Error::Synthesis)?)?]
            }
            Api::Sponge(outs) => {
                let mut s = Sponge::<F, _, S, Absorbing<PaddedWord<F>, RATE>, ConstantLength<L>, T, RATE>::new(chip, layouter.namespace(|| "new"))?;
                for (m, p) in message.into_iter().zip(&self.pads) {
                    let w = match p {
                        Some(p) => PaddedWord::Padding(*p),
                        None => PaddedWord::Message(m),
                    };
                    s.absorb(layouter.namespace(|| "absorb"), w)?;
                }
                let mut s = s.finish_absorbing(layouter.namespace(|| "finish"))?;
                (0..outs).map(|_| s.squeeze(layouter.namespace(|| "squeeze"))).collect::<Result<Vec<_>, _>>()?
            }
            Api::Permute => {
                let st: Vec<StateWord<F>> = message.into_iter().map(|c| c.into()).collect();
                let r = <Pow5Chip<F, T, RATE> as PoseidonInstructions<F, S, T, RATE>>::permute(&chip, &mut layouter, &st.try_into().unwrap())?;
                r.into_iter().map(|w| w.into()).collect()
            }
        };
        for (i, o) in outs.iter().enumerate() {
            layouter.constrain_instance(o.cell(), cfg.out, i)?;
        }
        Ok(())
    }
}

fn circuit_case<F: Fld, S: Spec<F, T, RATE> + 'static, const T: usize, const RATE: usize, const L: usize>(cx: &mut Cx, mds: usize, api: usize) -> R {
    let r = reference::<F>(T, S::full_rounds(), S::partial_rounds(), mds);
    let (rf, rp) = (S::full_rounds(), S::partial_rounds());
    let n = if api == 2 { T } else { L };
    let m = message::<F>(cx, n);
    let m2 = message::<F>(cx, n);
    let mut pads = vec![None; L];
    let api = match api {
        0 => Api::Hash,
        1 => Api::Sponge(1 + cx.below(2 * RATE as u64 + 1) as usize),
        _ => Api::Permute,
    };
    if api != Api::Permute && L % RATE != 0 && api != Api::Hash {
        return Err("HARNESS: sponge length".into());
    }
    if let Api::Sponge(_) = api {
        for p in pads.iter_mut() {
            if cx.chance(1, 4) {
                *p = Some(cx.field());
            }
        }
    }
    let pp = pads.clone();
    let f = move |r: &Ref<F>, m: &[F]| -> Vec<F> {
        match api {
            Api::Hash => vec![r.hash(RATE, m)],
            Api::Sponge(o) => {
                let w: Vec<F> = m.iter().zip(&pp).map(|(a, b)| b.unwrap_or(*a)).collect();
                r.sponge(RATE, F::from(L as u64) * F::from(2).pow_vartime([64]), &w, o)
            }
            Api::Permute => r.permute(m),
        }
    };
    let c = PosCircuit::<F, S, T, RATE, L> { api, pads, _s: PhantomData };
    let out = f(&r, &m);
    let perms = match api {
        Api::Hash => (L + RATE - 1) / RATE,
        Api::Sponge(o) => L / RATE + (o - 1) / RATE,
        Api::Permute => 1,
    };
    let rows = (rf + rp / 2 + 4) * perms + 3 * L + 20 + T * 2;
    let k = (usize::BITS - rows.leading_zeros()).max(5) as u32;
    let name = format!("poseidon {:?} {} {} {} {} {} {}", TypeId::of::<F>(), T, RATE, rf, rp, mds, std::any::type_name::<S>());
    let inst = vec![m.clone(), out.clone()];
    cx.sample(|| format!("T={} R_F={} R_P={} L={} {:?} {:?}", T, rf, rp, L, api, m));
    cx.label(format!("{:?}", api));
    let ctx = |e: String| format!("poseidon circuit T={} R_F={} R_P={} L={} {:?} message {:?}: {}", T, rf, rp, L, api, m, e);
    let mut t = honest(k, &c, &inst, &name, &name, true).map_err(ctx)?;
    let mut bad = inst.clone();
    let i = cx.usize(0, out.len() - 1);
    bad[1][i] += cx.nz_field::<F>();
    rejects(k, &c, &bad, "a wrong hash").map_err(ctx)?;
    let out2 = f(&r, &m2);
    let b = honest(k, &c, &[m2.clone(), out2], &name, &name, false).map_err(ctx)?;
    let rel = |t: &crate::forge::Trace<F>| t.inst[1][..out.len()] == f(&r, &t.inst[0][..n])[..];
    let plan = Plan { repairs: 40, splices: 4000, budget: 3000, rel: &rel, keep: &|_| false, roots: vec![] };
    attack(cx, k, &c, &inst, &mut t, Some(&b), &plan).map_err(ctx)
}

macro_rules! circuit_params {
    ($cx:expr, $api:expr; $($l:literal)*) => {{
        let i = $cx.below(10);
        let l = *$cx.pick(&[$($l),*]);
        macro_rules! go { ($f:ty, $s:ty, $t:literal, $r:literal, $m:literal) => {
            |cx: &mut Cx| match l { $($l => circuit_case::<$f, $s, $t, $r, { if $api == 1 { $l * $r } else { $l } }>(cx, $m, $api),)* _ => unreachable!() }
        } }
        let g = cases!(i;
            go!(Fp, P128Pow5T3C, 3, 2, 0),
            go!(Fq, P128Pow5T3C, 3, 2, 0),
            go!(Fp, Cached<Sp<8, 56, 0>>, 2, 1, 0),
            go!(Fq, Cached<Sp<2, 2, 1>>, 2, 1, 1),
            go!(Fp, Cached<Sp<4, 4, 2>>, 4, 3, 2),
            go!(Fq, Cached<Sp<2, 6, 0>>, 3, 2, 0),
            go!(Fp, Cached<Sp<8, 56, 0>>, 4, 3, 0),
            go!(Fq, Cached<Sp<6, 2, 0>>, 5, 4, 0),
            go!(Fp, Cached<Sp<2, 0, 3>>, 3, 2, 3),
            go!(Fq, Cached<Sp<4, 10, 0>>, 5, 4, 0),
        );
        g($cx)
    }};
}
type P128Pow5T3C = Cached<P128Pow5T3>;
fn c23_hash(cx: &mut Cx) -> R {
    circuit_params!(cx, 0; 1 2 3 4 5 6 7)
}
fn c23_sponge(cx: &mut Cx) -> R {
    circuit_params!(cx, 1; 1 2 3)
}
fn c23_permute(cx: &mut Cx) -> R {
    circuit_params!(cx, 2; 1)
}
