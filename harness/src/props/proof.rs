//! C04 statement binding, C05 batches, C18 keys, C19 blinding, C20 reports, C21 misuse.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ff::{Field, PrimeField};
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::dev::{CircuitCost, CircuitGates, TracingFloorPlanner};
use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, BatchVerifier, Error, ProvingKey, VerifyingKey};
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::transcript::{Blake2bWrite, Challenge255};
use halo2_proofs::dev::MockProver;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;

use super::plonk::{check_gen, label_shape, none};
use crate::ensure;
use crate::engine::*;
use crate::spec::*;
use crate::tamper::{self, Ev, Tamper, K};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "an honest proof of a generated circuit and a changed proof, statement, key or parameters; distinct by generator tape",
            assumptions: &["proof mutations: single and multi byte, 32-byte elements, aliases, truncation, random strings", "trailing bytes after a proof are not read by the verifier"],
            subs: vec![
                sub("bytes_vesta", 60, 5000, c04_bytes::<Fp, EqAffine>),
                sub("bytes_pallas", 24, 2500, c04_bytes::<Fq, EpAffine>),
                sub("statement", 100, 6000, c04_statement::<Fp, EqAffine>),
                sub("keys", 70, 4000, c04_keys::<Fp, EqAffine>),
            ],
        },
        Prop {
            id: "C05",
            rule: "a batch with at least two items, or an empty batch; distinct by generator tape",
            assumptions: &["batches of up to 7 items"],
            subs: vec![
                sub("batch_vesta", 110, 6000, c05::<Fp, EqAffine>),
                sub("batch_pallas", 40, 2500, c05::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C18",
            rule: "a generated circuit with at least two cells; distinct by generator tape",
            assumptions: &["thread pools of 1, 2, 3 and 8 workers"],
            subs: vec![
                sub("determined", 110, 5000, c18_same::<Fp, EqAffine>),
                sub("proof_bytes", 60, 3000, c18_proof::<Fp, EqAffine>),
                sub("distinct", 110, 5000, c18_distinct::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C19",
            rule: "a generated circuit proven repeatedly, with one 64-byte draw of randomness changed at a time; distinct by generator tape",
            assumptions: &["circuits of k <= 5 in the per-draw check"],
            subs: vec![
                sub("fresh", 80, 4000, c19_fresh::<Fp, EqAffine>),
                sub("draws", 9, 1500, c19_draws::<Fp, EqAffine>),
            ],
        },
        Prop {
            id: "C20",
            rule: "a generated circuit with a gate or a lookup; distinct by generator tape",
            assumptions: &["k >= 5 for the proof size (rotations do not alias)"],
            subs: vec![
                sub("size_vesta", 120, 6000, c20_size::<Fp, EqAffine>),
                sub("size_pallas", 50, 3000, c20_size::<Fq, EpAffine>),
                sub("gates", 4000, 100000, c20_gates),
                sub("tracing", 1500, 50000, c20_tracing),
                sub("tracing_keys", 60, 3000, c20_tracing_keys),
            ],
        },
        Prop {
            id: "C21",
            rule: "a generated circuit and one misuse of it, or a generated row budget; distinct by generator tape",
            assumptions: &["misuses: rows, instances, circuits, missing witness, missing capability, constants"],
            subs: vec![
                sub("rows", 420, 40000, c21_rows),
                sub("instances", 250, 10000, c21_instances),
                sub("witness", 300, 10000, c21_witness),
                sub("capability", 900, 40000, c21_capability),
            ],
        },
    ]
}

fn name<T: std::fmt::Debug>(e: &T) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

// ------------------------------------------------------------------ proof layout

/// Ranges of 32-byte elements of a proof, computed from the circuit description alone.
#[derive(Debug, Default, Clone)]
pub struct Lay {
    pub adv: std::ops::Range<usize>,
    pub permuted: std::ops::Range<usize>,
    pub products: std::ops::Range<usize>,
    pub random: usize,
    pub h: std::ops::Range<usize>,
    pub inst_ev: std::ops::Range<usize>,
    pub adv_ev: std::ops::Range<usize>,
    pub fix_ev: std::ops::Range<usize>,
    pub rnd_ev: usize,
    pub common_ev: std::ops::Range<usize>,
    pub prod_ev: std::ops::Range<usize>,
    pub q_prime: usize,
    pub u: std::ops::Range<usize>,
    pub s_poly: usize,
    pub rounds: std::ops::Range<usize>,
    pub total: usize,
    pub perm_sets: usize,
}

fn queries<F: Fld>(b: &Built<F>) -> (BTreeMap<usize, BTreeSet<i32>>, BTreeMap<usize, BTreeSet<i32>>) {
    let mut a: BTreeMap<usize, BTreeSet<i32>> = BTreeMap::new();
    let mut i: BTreeMap<usize, BTreeSet<i32>> = BTreeMap::new();
    for (k, c) in &b.conf.eq {
        match k {
            K::A => {
                a.entry(*c).or_default().insert(0);
            }
            K::I => {
                i.entry(*c).or_default().insert(0);
            }
            K::F => {}
        }
    }
    let mut leaf = |e: &Ex<F>| match e {
        Ex::A(c, r) => {
            a.entry(*c).or_default().insert(*r);
        }
        Ex::I(c, r) => {
            i.entry(*c).or_default().insert(*r);
        }
        _ => {}
    };
    for g in &b.conf.gates {
        for p in g {
            p.leaves(&mut leaf);
        }
    }
    for l in &b.conf.lookups {
        for (e, _) in l {
            e.leaves(&mut leaf);
        }
    }
    (a, i)
}

pub fn lay<F: Fld>(b: &Built<F>, circuits: usize, total_bytes: usize) -> Result<Lay, String> {
    ensure!(total_bytes % 32 == 0, "proof length {} is not a multiple of 32", total_bytes);
    let total = total_bytes / 32;
    let (aq, iq) = queries(b);
    let mut pcols: BTreeSet<(K, usize)> = b.conf.eq.iter().cloned().collect();
    pcols.extend(b.conf.consts.iter().map(|c| (K::F, *c)));
    let p = pcols.len();
    let chunk = b.cs_degree - 2;
    let sets = (p + chunk - 1) / chunk;
    let l = b.conf.lookups.len();
    let m = circuits;
    let mut pos = 0;
    let mut take = |n: usize| {
        let r = pos..pos + n;
        pos += n;
        r
    };
    let mut y = Lay { total, perm_sets: sets, ..Lay::default() };
    y.adv = take(m * b.conf.n_adv);
    y.permuted = take(m * 2 * l);
    y.products = take(m * (sets + l));
    y.random = take(1).start;
    y.h = take(b.cs_degree - 1);
    y.inst_ev = take(m * iq.values().map(|s| s.len()).sum::<usize>());
    y.adv_ev = take(m * aq.values().map(|s| s.len()).sum::<usize>());
    // from the end
    // (rotations that coincide modulo the domain size are the same point)
    struct Sets(BTreeSet<BTreeSet<i32>>, i32);
    impl Sets {
        fn insert(&mut self, v: Vec<i32>) {
            let n = self.1;
            self.0.insert(v.into_iter().map(|r| r.rem_euclid(n)).collect());
        }
        fn len(&self) -> usize {
            self.0.len()
        }
    }
    let mut ps = Sets(BTreeSet::new(), 1 << b.k);
    for s in aq.values().chain(iq.values()) {
        ps.insert(s.iter().cloned().collect());
    }
    ps.insert(vec![0]);
    if l > 0 {
        ps.insert(vec![0, 1]);
        ps.insert(vec![-1, 0]);
    }
    if p > 0 {
        ps.insert(vec![0, 1]);
    }
    if sets > 1 {
        ps.insert(vec![-(ref_blinding(&b.conf) as i32 + 1), 0, 1]);
    }
    let tail = 1 + p + m * (if sets == 0 { 0 } else { 3 * sets - 1 } + 5 * l) + 1 + ps.len() + 1 + 2 * b.k as usize + 2;
    ensure!(total >= pos + tail, "proof of {} elements is shorter than the {} its circuit needs: {}", total, pos + tail, b.describe());
    let nf = total - pos - tail;
    let mut take = |n: usize| {
        let r = pos..pos + n;
        pos += n;
        r
    };
    y.fix_ev = take(nf);
    y.rnd_ev = take(1).start;
    y.common_ev = take(p);
    y.prod_ev = take(m * (if sets == 0 { 0 } else { 3 * sets - 1 } + 5 * l));
    y.q_prime = take(1).start;
    y.u = take(ps.len());
    y.s_poly = take(1).start;
    y.rounds = take(2 * b.k as usize);
    Ok(y)
}

struct Honest<F: Fld, C: Cv<F>> {
    b: Built<F>,
    params: Arc<Params<C>>,
    pk: ProvingKey<C>,
    insts: Vec<Vec<Vec<F>>>,
    proof: Vec<u8>,
}
fn small_opts(cx: &mut Cx) -> Opts {
    let mut o = match cx.below(3) {
        0 => Opts { max_wits: 2, ..Opts::default() },
        1 => Opts { max_wits: 2, copies: true, ..Opts::default() },
        _ => Opts { max_wits: 2, force_lookup: true, ..Opts::default() },
    };
    o.max_regions = 4;
    o.max_groups = 2;
    o.max_degree = 5;
    o.max_k = 6;
    o
}
fn honest<F: Fld, C: Cv<F>>(cx: &mut Cx, o: &Opts) -> Result<Honest<F, C>, String> {
    let b = gen::<F>(cx, o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let proof = b.prove(&params, &pk, &cs, cx.rng()).map_err(|e| format!("proving failed: {:?} for {}", e, b.describe()))?;
    let insts: Vec<_> = b.wits.iter().map(|w| w.inst.clone()).collect();
    verify(&params, pk.get_vk(), &insts, &proof).map_err(|e| format!("honest proof rejected: {:?} for {}", e, b.describe()))?;
    Ok(Honest { b, params, pk, insts, proof })
}

fn must_reject<F: Fld, C: Cv<F>>(cx: &mut Cx, h: &Honest<F, C>, params: &Params<C>, vk: &VerifyingKey<C>, insts: &[Vec<Vec<F>>], proof: &[u8], what: &str) -> R {
    let r = catch(|| verify(params, vk, insts, proof));
    cx.eval();
    match r {
        Err(m) => Err(format!("verifier panicked: {}; {}; {}", m, what, h.b.describe())),
        Ok(Ok(())) => Err(format!("ACCEPTED: {}; {}", what, h.b.describe())),
        Ok(Err(_)) => Ok(()),
    }
}

fn modulus_bytes<F: PrimeField>() -> [u8; 32] {
    // p - 1, plus one (the modulus is odd, so no carry leaves the lowest byte)
    let r = (-F::ONE).to_repr();
    let mut m = [0u8; 32];
    m.copy_from_slice(r.as_ref());
    m[0] += 1;
    m
}
fn add_le(a: &mut [u8], m: &[u8; 32]) {
    let mut c = 0u16;
    for (x, y) in a.iter_mut().zip(m) {
        let s = *x as u16 + *y as u16 + c;
        *x = s as u8;
        c = s >> 8;
    }
}

fn mutate<F: Fld, C: Cv<F>>(cx: &mut Cx, h: &Honest<F, C>) -> (Vec<u8>, String) {
    let p = &h.proof;
    let n = p.len() / 32;
    let mut q = p.clone();
    let e = cx.usize(0, n - 1);
    let el = e * 32..e * 32 + 32;
    let what = match cx.below(14) {
        0 | 1 => {
            let bit = cx.usize(0, p.len() * 8 - 1);
            q[bit / 8] ^= 1 << (bit % 8);
            format!("bit {} flipped", bit)
        }
        2 => {
            let i = cx.usize(0, p.len() - 1);
            q[i] = cx.below(256) as u8;
            format!("byte {} replaced", i)
        }
        3 => {
            let cut = cx.usize(1, p.len());
            q.truncate(p.len() - cut);
            format!("{} bytes cut off", cut)
        }
        4 => {
            let f = cx.usize(0, n - 1);
            for i in 0..32 {
                q.swap(e * 32 + i, f * 32 + i);
            }
            format!("elements {} and {} swapped", e, f)
        }
        5 => {
            let f = cx.usize(0, n - 1);
            q[el].copy_from_slice(&p[f * 32..f * 32 + 32]);
            format!("element {} replaced by element {}", e, f)
        }
        6 => {
            let fill = *cx.pick(&[0u8, 0xff, 0x80, 0x40]);
            q[el].iter_mut().for_each(|x| *x = fill);
            format!("element {} filled with {:#x}", e, fill)
        }
        7 => {
            q[e * 32 + 31] ^= 0x80;
            format!("element {} sign bit flipped", e)
        }
        8 => {
            // non-canonical alias modulo either field
            let m = if cx.bool() { modulus_bytes::<F>() } else { modulus_bytes::<C::Base>() };
            let top = q[e * 32 + 31] & 0x80;
            q[e * 32 + 31] &= 0x7f;
            add_le(&mut q[e * 32..e * 32 + 32], &m);
            q[e * 32 + 31] ^= top;
            format!("element {} plus the modulus", e)
        }
        9 => {
            let m = modulus_bytes::<F>();
            q[el].copy_from_slice(&m);
            format!("element {} set to the modulus", e)
        }
        10 => {
            let len = cx.usize(0, p.len() + 32);
            q = cx.bytes(len);
            format!("{} random bytes", q.len())
        }
        11 => {
            let r = F::random(cx.rng());
            q[el].copy_from_slice(r.to_repr().as_ref());
            format!("element {} replaced by a random scalar", e)
        }
        12 => {
            // scalar increased by one
            let mut r = F::Repr::default();
            r.as_mut().copy_from_slice(&p[el.clone()]);
            match Option::<F>::from(F::from_repr(r)) {
                Some(f) => q[el].copy_from_slice((f + F::ONE).to_repr().as_ref()),
                None => q[e * 32] ^= 1,
            }
            format!("element {} plus one", e)
        }
        _ => {
            // an element removed and the last repeated, or one inserted
            if cx.bool() {
                q.drain(el);
                let l = p[p.len() - 32..].to_vec();
                q.extend(l);
                format!("element {} removed, last repeated", e)
            } else {
                let ins = cx.bytes(32);
                q.splice(e * 32..e * 32, ins);
                format!("element inserted before {}", e)
            }
        }
    };
    (q, what)
}

fn c04_bytes<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = small_opts(cx);
    let h = honest::<F, C>(cx, &o)?;
    let n = h.proof.len() / 32;
    for _ in 0..if cx.tier_thorough { 120 } else { 40 } {
        let (q, what) = mutate(cx, &h);
        if q == h.proof || (q.len() > h.proof.len() && q.starts_with(&h.proof)) {
            continue;
        }
        cx.label(what.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().to_string());
        must_reject(cx, &h, &h.params, h.pk.get_vk(), &h.insts, &q, &what)?;
        cx.nontrivial = true;
    }
    // every element once: one bit of it
    for e in 0..n {
        let mut q = h.proof.clone();
        let bit = cx.usize(0, 255);
        q[e * 32 + bit / 8] ^= 1 << (bit % 8);
        must_reject(cx, &h, &h.params, h.pk.get_vk(), &h.insts, &q, &format!("element {} of {} bit {} flipped", e, n, bit))?;
    }
    label_shape(cx, &h.b);
    Ok(())
}

/// Equal up to trailing zeros in each column.
fn same_statement<F: Fld>(a: &[Vec<Vec<F>>], b: &[Vec<Vec<F>>]) -> bool {
    let norm = |x: &[Vec<Vec<F>>]| -> Vec<Vec<Vec<F>>> {
        x.iter()
            .map(|c| {
                c.iter()
                    .map(|v| {
                        let mut v = v.clone();
                        while v.last() == Some(&F::ZERO) {
                            v.pop();
                        }
                        v
                    })
                    .collect()
            })
            .collect()
    };
    norm(a) == norm(b)
}

fn c04_statement<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.min_instances = 1;
    o.max_wits = 3;
    let h = honest::<F, C>(cx, &o)?;
    let vk = h.pk.get_vk();
    for _ in 0..12 {
        let mut i = h.insts.clone();
        let c = cx.usize(0, i.len() - 1);
        let col = cx.usize(0, i[c].len() - 1);
        let what = match cx.below(10) {
            0 | 1 => {
                if i[c][col].is_empty() {
                    continue;
                }
                let r = cx.usize(0, i[c][col].len() - 1);
                let old = i[c][col][r];
                i[c][col][r] = h.b.alter(cx, &h.b.wits[c], old);
                "instance value changed"
            }
            2 => {
                if i[c][col].len() >= h.b.usable {
                    continue;
                }
                let at = cx.usize(i[c][col].len(), h.b.usable - 1);
                i[c][col].resize(at, F::ZERO);
                i[c][col].push(cx.nz_field());
                "instance value appended"
            }
            3 => {
                let d = cx.usize(0, i[c].len() - 1);
                i[c].swap(col, d);
                "instance columns swapped"
            }
            4 => {
                let d = cx.usize(0, i.len() - 1);
                i.swap(c, d);
                "circuits swapped"
            }
            5 => {
                i.remove(c);
                "circuit dropped"
            }
            6 => {
                let x = i[c].clone();
                i.push(x);
                "circuit repeated"
            }
            7 => {
                if i[c][col].len() < 2 {
                    continue;
                }
                let r = cx.usize(1, i[c][col].len() - 1);
                i[c][col].swap(0, r);
                "instance rows swapped"
            }
            8 => {
                if i[c][col].is_empty() {
                    continue;
                }
                i[c][col].insert(0, F::ZERO);
                if i[c][col].len() > h.b.usable {
                    continue;
                }
                "instance shifted by a row"
            }
            _ => {
                let d = cx.usize(0, i.len() - 1);
                let x = i[d][col].clone();
                i[c][col] = x;
                "instance column of another circuit"
            }
        };
        if same_statement(&i, &h.insts) {
            continue;
        }
        cx.label(what);
        cx.nontrivial = true;
        must_reject(cx, &h, &h.params, vk, &i, &h.proof, what)?;
    }
    // Malformed instance lists are reported as such.
    let c = cx.usize(0, h.insts.len() - 1);
    let mut i = h.insts.clone();
    i[c].pop();
    let r = verify(&h.params, vk, &i, &h.proof);
    ensure!(matches!(r, Err(Error::InvalidInstances)), "a missing instance column gives {:?}; {}", r, h.b.describe());
    let mut i = h.insts.clone();
    i[c].push(vec![]);
    let r = verify(&h.params, vk, &i, &h.proof);
    ensure!(matches!(r, Err(Error::InvalidInstances)), "an extra instance column gives {:?}; {}", r, h.b.describe());
    let mut i = h.insts.clone();
    let col = cx.usize(0, i[c].len() - 1);
    let extra = cx.usize(1, 12);
    i[c][col].resize(h.b.usable + extra, F::ZERO);
    let r = verify(&h.params, vk, &i, &h.proof);
    ensure!(matches!(r, Err(Error::InstanceTooLarge)), "an instance of usable+{} rows gives {:?}; {}", extra, r, h.b.describe());
    // Zero padding up to the usable rows is the same statement.
    let mut i = h.insts.clone();
    let to = cx.usize(i[c][col].len(), h.b.usable);
    i[c][col].resize(to, F::ZERO);
    let r = verify(&h.params, vk, &i, &h.proof);
    ensure!(r.is_ok(), "zero-padded instance rejected: {:?}; {}", r, h.b.describe());
    Ok(())
}

/// Circuits that differ from `b` in one respect.
fn variants<F: Fld>(cx: &mut Cx, b: &Built<F>) -> Vec<(String, Built<F>)> {
    let mut out: Vec<(String, Built<F>)> = vec![];
    let conf_var = |what: &str, f: &mut dyn FnMut(&mut Conf<F>)| {
        let mut v = b.clone();
        let mut c = (*b.conf).clone();
        f(&mut c);
        v.conf = Arc::new(c);
        (what.to_string(), v)
    };
    out.push(conf_var("unused advice column added", &mut |c| c.n_adv += 1));
    out.push(conf_var("unused fixed column added", &mut |c| c.fix.push(false)));
    out.push(conf_var("unused instance column added", &mut |c| c.n_inst += 1));
    let d = b.cs_degree + cx.usize(1, 2);
    out.push(conf_var("higher minimum degree", &mut |c| c.min_degree = Some(d)));
    if let Some(i) = (0..b.conf.n_adv).find(|i| !b.conf.eq.contains(&(K::A, *i))) {
        out.push(conf_var("equality enabled on one more column", &mut |c| c.eq.push((K::A, i))));
    }
    if !b.conf.gates.is_empty() {
        let g = cx.usize(0, b.conf.gates.len() - 1);
        let p = cx.usize(0, b.conf.gates[g].len() - 1);
        out.push(conf_var("gate polynomial scaled", &mut |c| {
            let e = c.gates[g][p].clone();
            c.gates[g][p] = e.scale(F::from(3));
        }));
        out.push(conf_var("gate polynomial negated", &mut |c| {
            let e = c.gates[g][p].clone();
            c.gates[g][p] = e.neg();
        }));
        out.push(conf_var("gate repeated", &mut |c| {
            let e = c.gates[g].clone();
            c.gates.push(e);
        }));
        if b.conf.gates.len() > 1 && b.conf.gates.concat().len() > 1 {
            out.push(conf_var("gate removed", &mut |c| {
                c.gates.remove(g);
            }));
        }
    }
    if !b.conf.lookups.is_empty() {
        let l = cx.usize(0, b.conf.lookups.len() - 1);
        let p = cx.usize(0, b.conf.lookups[l].len() - 1);
        out.push(conf_var("lookup input scaled", &mut |c| {
            let e = c.lookups[l][p].0.clone();
            c.lookups[l][p].0 = e.scale(F::from(2));
        }));
        out.push(conf_var("lookup repeated", &mut |c| {
            let e = c.lookups[l].clone();
            c.lookups.push(e);
        }));
    }
    // k
    {
        let mut v = b.clone();
        v.k += 1;
        v.n *= 2;
        v.usable = usable_rows(&v.conf, v.k).unwrap();
        out.push(("k+1".into(), v));
    }
    // changes of the synthesis
    let mut sites: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    for (ri, it) in b.syn.items.iter().enumerate() {
        match it {
            Item::Region(ops) => {
                for (oi, o) in ops.iter().enumerate() {
                    let k = match o {
                        Op::Sel(..) => "activation removed",
                        Op::Fix(..) => "fixed value changed",
                        Op::FromConst(..) | Op::Const(..) => "constant changed",
                        Op::Eq(..) => "equality removed",
                        _ => continue,
                    };
                    sites.entry(k).or_default().push((ri, oi));
                }
            }
            Item::Table(cols, rows) => {
                if !rows.is_empty() && !cols.is_empty() {
                    sites.entry("table value changed").or_default().push((ri, 0));
                }
            }
            Item::Bind(..) => sites.entry("instance binding removed").or_default().push((ri, 0)),
        }
    }
    for (k, ss) in sites {
        let (ri, oi) = *cx.pick(&ss);
        let mut v = b.clone();
        let mut syn = (*b.syn).clone();
        let d: F = cx.nz_field();
        match &mut syn.items[ri] {
            Item::Region(ops) => match &mut ops[oi] {
                Op::Sel(s, off) => {
                    // only when nothing else enables the same selector on the same row
                    let row = b.starts[ri] + *off;
                    let s = *s;
                    let mut cnt = 0;
                    for (rj, it) in b.syn.items.iter().enumerate() {
                        if let Item::Region(o2) = it {
                            for o in o2 {
                                if let Op::Sel(s2, f2) = o {
                                    if *s2 == s && b.starts[rj] + f2 == row {
                                        cnt += 1;
                                    }
                                }
                            }
                        }
                    }
                    if cnt > 1 {
                        continue;
                    }
                    let cells = ops.iter().filter(|o| !matches!(o, Op::Eq(..) | Op::Const(..))).count();
                    if cells < 2 {
                        continue;
                    }
                    ops.remove(oi);
                }
                Op::Fix(_, x) | Op::FromConst(_, x) | Op::Const(_, x) => *x += d,
                Op::Eq(..) => {
                    ops.remove(oi);
                }
                _ => continue,
            },
            Item::Table(_, rows) => {
                let r = cx.usize(0, rows.len() - 1);
                let c = cx.usize(0, rows[r].len() - 1);
                rows[r][c] += d;
            }
            Item::Bind(..) => {
                syn.items.remove(ri);
                for c in syn.cells.iter_mut() {
                    if c.region > ri {
                        c.region -= 1;
                    }
                }
                v.starts.remove(ri);
            }
        }
        v.syn = Arc::new(syn);
        let classes_changed = k.contains("removed") && k != "activation removed";
        if classes_changed {
            let norm = |b: &Built<F>| -> BTreeSet<BTreeSet<(K, usize, usize)>> { b.classes().into_iter().filter(|c| c.len() > 1).collect() };
            if norm(b) == norm(&v) {
                continue;
            }
        }
        out.push((k.to_string(), v));
    }
    // an extra equality between cells of different classes
    let eqc: BTreeSet<(K, usize)> = b.conf.eq.iter().cloned().collect();
    let cells: Vec<usize> = (0..b.syn.cells.len()).filter(|i| eqc.contains(&(b.syn.cells[*i].kind, b.syn.cells[*i].col))).collect();
    if cells.len() >= 2 {
        let x = *cx.pick(&cells);
        let y = *cx.pick(&cells);
        let (px, py) = (b.pos(x), b.pos(y));
        if px != py && !b.classes().iter().any(|c| c.contains(&px) && c.contains(&py)) {
            let mut v = b.clone();
            let mut syn = (*b.syn).clone();
            let last = syn.items.iter().rposition(|i| matches!(i, Item::Region(_)));
            if let Some(l) = last {
                if let Item::Region(ops) = &mut syn.items[l] {
                    ops.push(Op::Eq(x, y));
                }
                v.syn = Arc::new(syn);
                out.push(("equality added".into(), v));
            }
        }
    }
    out
}

fn pinned<C: halo2_proofs::arithmetic::CurveAffine>(vk: &VerifyingKey<C>) -> String {
    format!("{:?}", vk.pinned())
}

fn c04_keys<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = small_opts(cx);
    let h = honest::<F, C>(cx, &o)?;
    for (what, v) in variants(cx, &h.b) {
        let params = C::params(v.k);
        let vk = match catch(|| v.vk(&params)) {
            Ok(Ok(vk)) => vk,
            _ => {
                cx.label(format!("no key: {}", what));
                continue;
            }
        };
        let mut insts = h.insts.clone();
        if v.conf.n_inst > h.b.conf.n_inst {
            insts.iter_mut().for_each(|c| c.push(vec![]));
        }
        cx.label(what.clone());
        cx.nontrivial = true;
        must_reject(cx, &h, &params, &vk, &insts, &h.proof, &format!("verified under another circuit's key ({})", what))?;
        // and with the honest parameters of the original size
        if v.k != h.b.k {
            let r = catch(|| verify(&h.params, &vk, &insts, &h.proof));
            ensure!(!matches!(r, Ok(Ok(()))), "ACCEPTED under a key of another size; {}", h.b.describe());
            let r = catch(|| verify(&params, h.pk.get_vk(), &h.insts, &h.proof));
            ensure!(!matches!(r, Ok(Ok(()))), "ACCEPTED under parameters of another size; {}", h.b.describe());
        }
    }
    // Unrelated parameters of the same size: generators permuted.
    let mut buf = vec![];
    h.params.write(&mut buf).map_err(|e| format!("params write: {}", e))?;
    let n = 1usize << h.b.k;
    let (i, j) = (cx.usize(0, n - 1), cx.usize(0, n - 1));
    let what;
    match cx.below(3) {
        0 if i != j => {
            for t in 0..32 {
                buf.swap(4 + i * 32 + t, 4 + j * 32 + t);
            }
            what = "generators swapped";
        }
        1 => {
            let o = 4 + 2 * n * 32;
            for t in 0..32 {
                buf.swap(o + t, o + 32 + t);
            }
            what = "w and u swapped";
        }
        _ => {
            buf[4 + i * 32 + 31] ^= 0x80;
            what = "a generator negated";
        }
    }
    let p2 = Params::<C>::read(&mut &buf[..]).map_err(|e| format!("params read: {}", e))?;
    must_reject(cx, &h, &p2, h.pk.get_vk(), &h.insts, &h.proof, what)
}

// ------------------------------------------------------------------ C05

fn c05<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.min_instances = cx.usize(0, 1);
    o.max_k = 5;
    let h = honest::<F, C>(cx, &o)?;
    let vk = h.pk.get_vk();
    // a second honest proof of the same circuits
    let cs: Vec<_> = h.b.wits.iter().map(|w| (w.clone(), none())).collect();
    let proof2 = h.b.prove(&h.params, &h.pk, &cs, cx.rng()).map_err(|e| format!("proving failed: {:?}", e))?;
    // a proof with a different number of circuits
    let proof1 = h.b.prove(&h.params, &h.pk, &cs[..1], cx.rng()).map_err(|e| format!("proving failed: {:?}", e))?;
    type Item<F> = (Vec<Vec<Vec<F>>>, Vec<u8>, String);
    for _ in 0..if cx.tier_thorough { 8 } else { 4 } {
        let m = cx.usize(0, 5);
        let mut items: Vec<Item<F>> = vec![];
        while items.len() < m {
            let bad = cx.chance(1, 4);
            let (i, p) = match cx.below(3) {
                0 => (h.insts.clone(), h.proof.clone()),
                1 => (h.insts.clone(), proof2.clone()),
                _ => (h.insts[..1].to_vec(), proof1.clone()),
            };
            if !bad {
                items.push((i, p, "good".into()));
                continue;
            }
            match cx.below(4) {
                0 => {
                    let (q, w) = mutate(cx, &h);
                    items.push((h.insts.clone(), q, w));
                }
                1 => {
                    let mut i = i;
                    let c = cx.usize(0, i.len() - 1);
                    if i[c].is_empty() {
                        i.push(vec![]);
                    } else {
                        let k = cx.usize(0, i[c].len() - 1);
                        if i[c][k].is_empty() {
                            i[c][k].push(F::ONE);
                        } else {
                            i[c][k][0] += F::ONE;
                        }
                    }
                    items.push((i, p, "instance changed".into()));
                }
                2 => {
                    // two proofs whose errors cancel if they are added with the same weight
                    let d: F = F::random(cx.rng());
                    let wgt = F::from(1 + cx.below(2));
                    let shift = |p: &[u8], d: F| {
                        let mut q = p.to_vec();
                        let at = q.len() - 32;
                        let mut r = F::Repr::default();
                        r.as_mut().copy_from_slice(&q[at..]);
                        let f: F = Option::<F>::from(F::from_repr(r)).expect("HARNESS: last scalar");
                        q[at..].copy_from_slice((f + d).to_repr().as_ref());
                        q
                    };
                    items.push((i.clone(), shift(&p, d), "shifted".into()));
                    items.push((h.insts.clone(), shift(&proof2, -(d * wgt)), "shifted back".into()));
                }
                _ => {
                    let d = cx.usize(0, p.len());
                    items.push((i, p[..d].to_vec(), format!("cut to {}", d)));
                }
            }
        }
        if !items.is_empty() && cx.chance(1, 4) {
            let x = cx.pick(&items).clone();
            items.push(x);
        }
        cx.shuffle(&mut items);
        let single: Vec<bool> = items.iter().map(|(i, p, _)| verify(&h.params, vk, i, p).is_ok()).collect();
        let want = single.iter().all(|x| *x);
        let mut bv = BatchVerifier::<C>::new();
        for (i, p, _) in &items {
            bv.add_proof(i.clone(), p.clone());
        }
        let got = catch(|| bv.finalize(&h.params, vk)).map_err(|e| format!("batch verifier panicked: {}; {}", e, h.b.describe()))?;
        cx.eval();
        ensure!(
            got == want,
            "batch verdict {} but single verdicts {:?} for items {:?}; {}",
            got,
            single,
            items.iter().map(|i| &i.2).collect::<Vec<_>>(),
            h.b.describe()
        );
        cx.label(format!("size {} bad {}", items.len(), single.iter().filter(|x| !**x).count()));
        cx.nontrivial |= items.len() >= 2 || items.is_empty();
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

fn c18_same<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = match cx.below(3) {
        0 => Opts { copies: true, max_adv: 8, ..Opts::default() },
        1 => Opts { many_sels: true, ..Opts::default() },
        _ => Opts { force_lookup: true, max_lookups: 3, ..Opts::default() },
    };
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = C::params(b.k);
    let err = |e: Error| format!("keygen failed: {:?} for {}", e, b.describe());
    let vk = b.vk(&params).map_err(err)?;
    let p0 = pinned(&vk);
    for t in [1usize, 2, 8] {
        let vk2 = pool(t).install(|| b.vk(&params)).map_err(err)?;
        ensure!(pinned(&vk2) == p0, "verifying key depends on the run or thread count ({} threads): {}", t, b.describe());
        cx.eval();
    }
    let w = b.wits[0].clone();
    // another witness of the same circuit (even a wrong one) and other presentations
    let mut w2 = (*w).clone();
    let mut rng = cx.rng();
    w2.vals.iter_mut().for_each(|v| *v = F::random(&mut rng));
    w2.inst.iter_mut().for_each(|c| c.iter_mut().for_each(|v| *v = F::random(&mut rng)));
    let w2 = Arc::new(w2);
    let pk = b.keys(&params).map_err(err)?;
    ensure!(pinned(pk.get_vk()) == p0, "the key inside the proving key differs from the verifying key: {}", b.describe());
    let mut pks = vec![];
    for (mode, wit) in [(0, None), (1, Some(&w)), (2, Some(&w2)), (usize::MAX, Some(&w)), (3, None)] {
        set_mode(mode);
        let r = b.keys_plain(&params, wit);
        set_mode(0);
        let pk2 = r.map_err(err)?;
        ensure!(pinned(pk2.get_vk()) == p0, "verifying key depends on the witness or on how values are presented (mode {}): {}", mode, b.describe());
        pks.push(pk2);
        cx.eval();
    }
    // the keys are interchangeable
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let insts: Vec<_> = b.wits.iter().map(|w| w.inst.clone()).collect();
    let i = cx.usize(0, pks.len() - 1);
    let j = cx.usize(0, pks.len() - 1);
    let proof = b.prove(&params, &pks[i], &cs, cx.rng()).map_err(|e| format!("proving failed: {:?}; {}", e, b.describe()))?;
    verify(&params, &vk, &insts, &proof).map_err(|e| format!("proof with key {} rejected by the verifying key: {:?}; {}", i, e, b.describe()))?;
    verify(&params, pks[j].get_vk(), &insts, &proof).map_err(|e| format!("proof with key {} rejected by key {}: {:?}; {}", i, j, e, b.describe()))?;
    cx.nontrivial = b.syn.cells.len() > 1;
    label_shape(cx, &b);
    Ok(())
}

fn c18_proof<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = match cx.below(3) {
        0 => Opts { copies: true, max_adv: 8, max_wits: 2, ..Opts::default() },
        1 => Opts { max_wits: 3, ..Opts::default() },
        _ => Opts { force_lookup: true, max_lookups: 3, max_wits: 2, ..Opts::default() },
    };
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let seed = cx.u64();
    let mut first: Option<Vec<u8>> = None;
    for (t, mode) in [(1usize, 0usize), (2, 1), (3, 0), (8, usize::MAX), (8, 2)] {
        let p = pool(t).install(|| {
            set_mode(mode);
            let r = b.prove(&params, &pk, &cs, ChaCha8Rng::seed_from_u64(seed));
            set_mode(0);
            r
        });
        let p = p.map_err(|e| format!("proving failed: {:?} for {}", e, b.describe()))?;
        cx.eval();
        match &first {
            None => first = Some(p),
            Some(f) => ensure!(*f == p, "proof bytes differ with the same randomness ({} threads, mode {}): {}", t, mode, b.describe()),
        }
    }
    cx.nontrivial = b.syn.cells.len() > 1;
    label_shape(cx, &b);
    Ok(())
}

fn c18_distinct<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = small_opts(cx);
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    let params = C::params(b.k);
    let vk = b.vk(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let p0 = pinned(&vk);
    let mut seen: Vec<(String, String)> = vec![("original".into(), p0)];
    for (what, v) in variants(cx, &b) {
        let params = C::params(v.k);
        let vk = match catch(|| v.vk(&params)) {
            Ok(Ok(vk)) => vk,
            _ => {
                cx.label(format!("no key: {}", what));
                continue;
            }
        };
        let p = pinned(&vk);
        cx.eval();
        cx.label(what.clone());
        ensure!(p != seen[0].1, "the circuit with {} has the same verifying key: {}", what, b.describe());
        seen.push((what, p));
        cx.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------------ C19

/// A byte stream generator with chosen 64-byte blocks replaced.
struct BlockRng {
    rng: ChaCha8Rng,
    buf: Vec<u8>,
    used: u64,
    alter: Option<u64>,
    salt: u64,
    log: Arc<std::sync::atomic::AtomicU64>,
}
impl BlockRng {
    fn new(seed: u64, alter: Option<u64>, salt: u64) -> (Self, Arc<std::sync::atomic::AtomicU64>) {
        let log = Arc::new(std::sync::atomic::AtomicU64::new(0));
        (BlockRng { rng: ChaCha8Rng::seed_from_u64(seed), buf: vec![], used: 0, alter, salt, log: log.clone() }, log)
    }
    fn take(&mut self, out: &mut [u8]) {
        for o in out.iter_mut() {
            if self.buf.is_empty() {
                let mut b = vec![0u8; 64];
                self.rng.fill_bytes(&mut b);
                if self.alter == Some(self.used / 64) {
                    let mut r = ChaCha8Rng::seed_from_u64(self.salt);
                    r.fill_bytes(&mut b);
                    r.fill_bytes(&mut b);
                    b.iter_mut().for_each(|x| *x ^= 0x5a);
                }
                b.reverse();
                self.buf = b;
            }
            *o = self.buf.pop().unwrap();
            self.used += 1;
        }
        self.log.store(self.used, std::sync::atomic::Ordering::Relaxed);
    }
}
impl RngCore for BlockRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.take(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.take(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.take(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.take(d);
        Ok(())
    }
}

fn c19_fresh<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.max_k = 6;
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let mut proofs = vec![];
    for _ in 0..3 {
        proofs.push(b.prove(&params, &pk, &cs, cx.rng()).map_err(|e| format!("proving failed: {:?}", e))?);
    }
    if proofs[0] == proofs[1] {
        // two equal seeds drawn
        return Ok(());
    }
    let y = lay(&b, b.wits.len(), proofs[0].len())?;
    let skip: BTreeSet<usize> = y.inst_ev.clone().chain(y.fix_ev.clone()).chain(y.common_ev.clone()).chain(y.u.clone()).collect();
    for (i, a) in proofs.iter().enumerate() {
        for (j, c) in proofs.iter().enumerate() {
            if a == c && i != j {
                continue;
            }
            let mut seen: BTreeMap<&[u8], usize> = BTreeMap::new();
            for e in 0..y.total {
                if skip.contains(&e) {
                    continue;
                }
                seen.insert(&a[e * 32..e * 32 + 32], e);
            }
            if i == j {
                // commitments within one proof are pairwise different (evaluations may
                // legitimately coincide: a rotation by a full cycle does not occur)
                let pts: BTreeSet<&[u8]> = (0..y.h.end).map(|e| &a[e * 32..e * 32 + 32]).collect();
                ensure!(pts.len() == y.h.end, "two commitments of one proof are equal: {}", b.describe());
                continue;
            }
            for e in 0..y.total {
                if skip.contains(&e) {
                    continue;
                }
                if let Some(f) = seen.get(&c[e * 32..e * 32 + 32]) {
                    return Err(format!("proofs with different randomness share element {} / {} of {:?}: {}", f, e, y, b.describe()));
                }
            }
            cx.eval();
        }
    }
    label_shape(cx, &b);
    cx.nontrivial = true;
    Ok(())
}

fn c19_draws<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.max_adv = 3;
    o.max_regions = 3;
    o.max_k = 5;
    o.max_wits = cx.usize(1, 2);
    let b = gen::<F>(cx, &o);
    if b.k > 5 {
        return Ok(());
    }
    cx.sample(|| b.describe());
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let seed = cx.u64();
    let salt = cx.u64();
    let run = |alter: Option<u64>| -> Result<(Vec<u8>, u64), String> {
        let (r, log) = BlockRng::new(seed, alter, salt);
        let p = b.prove(&params, &pk, &cs, r).map_err(|e| format!("proving failed: {:?}", e))?;
        Ok((p, log.load(std::sync::atomic::Ordering::Relaxed)))
    };
    let (p0, used) = run(None)?;
    let draws = (used + 63) / 64;
    let y = lay(&b, b.wits.len(), p0.len())?;
    let m = b.wits.len();
    let l = b.conf.lookups.len();
    // phases: elements between two challenges
    let mut phases: Vec<std::ops::Range<usize>> = vec![y.adv.clone(), y.permuted.clone(), y.products.start..y.random + 1, y.h.clone()];
    phases.push(y.inst_ev.start..y.prod_ev.end);
    phases.push(y.q_prime..y.q_prime + 1);
    phases.push(y.u.clone());
    phases.push(y.s_poly..y.s_poly + 1);
    for r in 0..b.k as usize {
        phases.push(y.rounds.start + 2 * r..y.rounds.start + 2 * r + 2);
    }
    phases.push(y.rounds.end..y.total);
    let mut owned: BTreeMap<usize, u64> = BTreeMap::new();
    let mut idle: Option<u64> = None;
    for j in 0..draws {
        let (p, _) = run(Some(j))?;
        cx.eval();
        ensure!(p.len() == p0.len(), "proof length depends on randomness");
        let changed: Vec<usize> = (0..y.total).filter(|e| p[e * 32..e * 32 + 32] != p0[e * 32..e * 32 + 32]).collect();
        if changed.is_empty() {
            // the constant coefficient of the inner product blinding polynomial is fixed by
            // its root; every other draw must matter
            ensure!(idle.is_none(), "draws {} and {} of {} do not affect the proof: {}", idle.unwrap(), j, draws, b.describe());
            idle = Some(j);
            continue;
        }
        let first = changed[0];
        let ph = phases.iter().find(|r| r.contains(&first)).expect("HARNESS: phase");
        let in_phase: Vec<usize> = changed.iter().cloned().filter(|e| ph.contains(e)).collect();
        if in_phase.len() == 1 {
            *owned.entry(first).or_default() += 1;
        }
    }
    let bf = ref_blinding(&b.conf) as u64;
    let n = 1u64 << b.k;
    let need = |e: usize, q: u64, what: &str| -> R {
        let have = owned.get(&e).copied().unwrap_or(0);
        ensure!(have >= q, "{} (element {}) is masked by {} independent draws, {} needed; {}", what, e, have, q, b.describe());
        Ok(())
    };
    for e in y.adv.clone() {
        need(e, bf + 2, "advice commitment")?;
    }
    for e in y.permuted.clone() {
        need(e, bf + 2, "permuted lookup commitment")?;
    }
    for e in y.products.clone() {
        need(e, bf + 1, "product commitment")?;
    }
    need(y.random, n, "random polynomial")?;
    for e in y.h.clone() {
        need(e, 1, "quotient piece")?;
    }
    need(y.q_prime, 1, "multiopen quotient")?;
    need(y.s_poly, n, "inner product blinding polynomial")?;
    for e in y.rounds.clone() {
        need(e, 1, "inner product round")?;
    }
    cx.label(format!("lookups={} circuits={} sets={}", l, m, y.perm_sets));
    cx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C20

fn c20_size<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut o = match cx.below(4) {
        0 => Opts { max_wits: 3, ..Opts::default() },
        1 => Opts { max_wits: 3, max_adv: 9, max_degree: 4, copies: true, ..Opts::default() },
        2 => Opts { max_wits: 3, force_lookup: true, max_lookups: 3, ..Opts::default() },
        _ => Opts { max_wits: 2, max_lookups: 0, max_adv: 2, ..Opts::default() },
    };
    o.max_k = 6;
    let mut b = gen::<F>(cx, &o);
    // also whole arguments dropped
    let mut conf = (*b.conf).clone();
    if cx.chance(1, 4) {
        conf.lookups.clear();
    }
    if cx.chance(1, 5) {
        conf.gates.clear();
    }
    b.conf = Arc::new(conf);
    while b.k < 5 {
        b.k += 1;
        b.n *= 2;
    }
    b.usable = match usable_rows(&b.conf, b.k) {
        Some(u) => u,
        None => return Ok(()),
    };
    cx.sample(|| b.describe());
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    // the length of a proof does not depend on whether the witness satisfies the circuit
    let mut proofs = vec![];
    for m in 1..=cs.len() {
        match b.prove(&params, &pk, &cs[..m], cx.rng()) {
            Ok(p) => proofs.push((m, p.len())),
            Err(_) => return Ok(()),
        }
    }
    set_conf(&b.conf);
    let w = Some(&b.wits[0]);
    let sizes: Vec<(usize, usize)> = match b.planner {
        0 => {
            let c = CircuitCost::<C::Curve, _>::measure(b.k, &b.circuit::<SimpleFloorPlanner>(w, &none()));
            let marg: usize = c.marginal_proof_size().into();
            (1..=cs.len()).map(|m| (c.proof_size(m).into(), marg)).collect()
        }
        _ => {
            let c = CircuitCost::<C::Curve, _>::measure(b.k, &b.circuit::<V1>(w, &none()));
            let marg: usize = c.marginal_proof_size().into();
            (1..=cs.len()).map(|m| (c.proof_size(m).into(), marg)).collect()
        }
    };
    for (m, len) in &proofs {
        cx.eval();
        ensure!(sizes[m - 1].0 == *len, "predicted proof size {} for {} circuits, actual {}: {}", sizes[m - 1].0, m, len, b.describe());
        if *m > 1 {
            ensure!(len - proofs[m - 2].1 == sizes[0].1, "marginal proof size {} but proofs of {:?}: {}", sizes[0].1, proofs, b.describe());
        }
    }
    label_shape(cx, &b);
    cx.nontrivial = true;
    Ok(())
}

/// Parser and evaluator of the infix rendering of constraints.
struct Parse<'a, F> {
    t: Vec<String>,
    i: usize,
    leaf: &'a dyn Fn(&str) -> Option<F>,
}
impl<'a, F: Fld> Parse<'a, F> {
    fn tokens(s: &str) -> Vec<String> {
        let mut out = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = s.chars().collect();
        for (i, ch) in cs.iter().enumerate() {
            match ch {
                ' ' | '(' | ')' | '+' | '*' => {
                    if !cur.is_empty() {
                        out.push(std::mem::take(&mut cur));
                    }
                    if *ch != ' ' {
                        out.push(ch.to_string());
                    }
                }
                '-' if !(i > 0 && cs[i - 1] == '@') => {
                    if !cur.is_empty() {
                        out.push(std::mem::take(&mut cur));
                    }
                    out.push("-".into());
                }
                c => cur.push(*c),
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        out
    }
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| &s[..]).unwrap_or("")
    }
    fn sum(&mut self) -> Option<F> {
        let mut v = self.prod()?;
        loop {
            match self.peek() {
                "+" => {
                    self.i += 1;
                    v += self.prod()?;
                }
                "-" => {
                    self.i += 1;
                    v -= self.prod()?;
                }
                _ => return Some(v),
            }
        }
    }
    fn prod(&mut self) -> Option<F> {
        let mut v = self.unary()?;
        while self.peek() == "*" {
            self.i += 1;
            v *= self.unary()?;
        }
        Some(v)
    }
    fn unary(&mut self) -> Option<F> {
        match self.peek() {
            "-" => {
                self.i += 1;
                Some(-self.unary()?)
            }
            "(" => {
                self.i += 1;
                let v = self.sum()?;
                if self.peek() != ")" {
                    return None;
                }
                self.i += 1;
                Some(v)
            }
            t => {
                let t = t.to_string();
                self.i += 1;
                (self.leaf)(&t)
            }
        }
    }
}
fn parse_num<F: Fld>(t: &str) -> Option<F> {
    if let Some(h) = t.strip_prefix("0x") {
        let mut v = F::ZERO;
        for c in h.chars() {
            v = v * F::from(16) + F::from(c.to_digit(16)? as u64);
        }
        Some(v)
    } else {
        t.parse::<u64>().ok().map(F::from)
    }
}

fn c20_gates(cx: &mut Cx) -> R {
    let o = match cx.below(3) {
        0 => Opts { many_sels: true, ..Opts::default() },
        1 => Opts { max_degree: 9, ..Opts::default() },
        _ => Opts::default(),
    };
    let mut b = gen::<Fp>(cx, &o);
    // arbitrary extra polynomials: nothing here is proven
    let mut conf = (*b.conf).clone();
    if conf.gates.is_empty() {
        return Ok(());
    }
    let leaves: Vec<Ex<Fp>> = {
        let mut v = vec![];
        for c in 0..conf.n_adv {
            v.push(Ex::A(c, cx.below(5) as i32 - 2));
        }
        for c in 0..conf.n_inst {
            v.push(Ex::I(c, cx.below(3) as i32 - 1));
        }
        for s in 0..conf.sels.len() {
            v.push(Ex::S(s));
        }
        for (c, t) in conf.fix.iter().enumerate() {
            if !*t {
                v.push(Ex::X(c));
            }
        }
        v
    };
    fn ex(cx: &mut Cx, leaves: &[Ex<Fp>], d: usize) -> Ex<Fp> {
        if d == 0 {
            return if cx.chance(1, 4) { Ex::C(cx.field()) } else { cx.pick(leaves).clone() };
        }
        match cx.below(6) {
            0 => ex(cx, leaves, d - 1).add(ex(cx, leaves, d - 1)),
            1 => ex(cx, leaves, d - 1).sub(ex(cx, leaves, d - 1)),
            2 => ex(cx, leaves, d - 1).mul(ex(cx, leaves, d - 1)),
            3 => ex(cx, leaves, d - 1).neg(),
            4 => {
                let f = cx.field();
                ex(cx, leaves, d - 1).scale(f)
            }
            _ => ex(cx, leaves, 0),
        }
    }
    let simple: BTreeSet<usize> = conf.sels.iter().enumerate().filter(|(_, c)| !**c).map(|(i, _)| i).collect();
    let nosimple: Vec<Ex<Fp>> = leaves.into_iter().filter(|l| !matches!(l, Ex::S(s) if simple.contains(s))).collect();
    if nosimple.is_empty() {
        return Ok(());
    }
    for _ in 0..cx.usize(1, 3) {
        let mut g = vec![];
        for _ in 0..cx.usize(1, 3) {
            let d = cx.usize(0, 4);
            g.push(ex(cx, &nosimple, d));
        }
        conf.gates.push(g);
    }
    b.conf = Arc::new(conf);
    cx.sample(|| b.describe());
    set_conf(&b.conf);
    let cg = CircuitGates::collect::<Fp, SpecCircuit<Fp, SimpleFloorPlanner>>();
    let text = format!("{}", cg);
    let csv = cg.queries_to_csv();
    let lines: Vec<&str> = text.lines().collect();
    let salt = cx.u64();
    let val = |s: &str| -> Fp {
        let h = blake2b_simd::Params::new().hash_length(64).hash(format!("{}{}", salt, s).as_bytes());
        let mut b = [0u8; 64];
        b.copy_from_slice(h.as_bytes());
        use ff::FromUniformBytes;
        Fp::from_uniform_bytes(&b)
    };
    // numbering as the circuit sees it
    let show = |l: &Ex<Fp>| match l {
        Ex::A(c, r) => format!("A{}@{}", c, r),
        Ex::I(c, r) => format!("I{}@{}", c, r),
        Ex::X(c) => format!("F{}@0", c),
        Ex::S(s) => format!("S{}", s),
        _ => String::new(),
    };
    let mut li = 0;
    let (mut neg, mut add, mut mul) = (0usize, 0usize, 0usize);
    fn ops(e: &Ex<Fp>, n: &mut usize, a: &mut usize, m: &mut usize) {
        match e {
            Ex::Neg(x) => {
                *n += 1;
                ops(x, n, a, m);
            }
            Ex::Add(x, y) => {
                *a += 1;
                ops(x, n, a, m);
                ops(y, n, a, m);
            }
            Ex::Sub(x, y) => {
                *a += 1;
                *n += 1;
                ops(x, n, a, m);
                ops(y, n, a, m);
            }
            Ex::Mul(x, y) => {
                *m += 1;
                ops(x, n, a, m);
                ops(y, n, a, m);
            }
            Ex::Scale(x, _) => {
                *m += 1;
                ops(x, n, a, m);
            }
            _ => {}
        }
    }
    let mut next = || {
        li += 1;
        lines.get(li - 1).cloned().unwrap_or("<end of listing>")
    };
    let mut all_q: BTreeSet<String> = BTreeSet::new();
    let mut per: Vec<BTreeSet<String>> = vec![];
    for (gi, g) in b.conf.gates.iter().enumerate() {
        let l = next();
        ensure!(l == "g:", "listing line {:?} instead of gate {}: {}", l, gi, text);
        for (pi, p) in g.iter().enumerate() {
            let mut l = next();
            if b.conf.named {
                ensure!(l == "- p:", "listing line {:?} instead of constraint {}/{}", l, gi, pi);
                l = next().trim_start();
            } else {
                l = l.strip_prefix("- ").unwrap_or(l);
            }
            let got = {
                let leaf = |t: &str| -> Option<Fp> { if t.starts_with(|c: char| c.is_ascii_digit()) { parse_num(t) } else { Some(val(t)) } };
                let mut p = Parse::<Fp> { t: Parse::<Fp>::tokens(l), i: 0, leaf: &leaf };
                let v = p.sum();
                if p.i == p.t.len() {
                    v
                } else {
                    None
                }
            };
            let want = match veval(p, &|x| V::R(val(&show(x)))) {
                V::R(v) => v,
                V::P => Fp::ZERO,
            };
            ensure!(got == Some(want), "constraint {}/{} is listed as {:?}, which is not {}", gi, pi, l, p.show());
            let mut q = BTreeSet::new();
            p.leaves(&mut |x| {
                q.insert(show(x));
            });
            q.remove("");
            all_q.extend(q.iter().cloned());
            per.push(q);
            ops(p, &mut neg, &mut add, &mut mul);
            cx.eval();
        }
    }
    let totals: Vec<String> = (0..5).map(|_| next().to_string()).collect();
    let want = vec![
        format!("Total gates: {}", b.conf.gates.len()),
        format!("Total custom constraint polynomials: {}", b.conf.gates.iter().map(|g| g.len()).sum::<usize>()),
        format!("Total negations: {}", neg),
        format!("Total additions: {}", add),
        format!("Total multiplications: {}", mul),
    ];
    ensure!(totals == want, "totals {:?}, expected {:?} for {}", totals, want, b.describe());
    // CSV
    let rows: Vec<Vec<&str>> = csv.lines().map(|l| l.split(',').collect()).collect();
    let head: Vec<String> = rows[0][..rows[0].len() - 1].iter().map(|s| s.to_string()).collect();
    let hs: BTreeSet<String> = head.iter().cloned().collect();
    ensure!(hs == all_q && head.len() == hs.len(), "query listing {:?}, expected {:?}", head, all_q);
    ensure!(rows.len() == per.len() + 1, "query grid has {} rows for {} constraints", rows.len() - 1, per.len());
    for (r, q) in rows[1..].iter().zip(&per) {
        let got: BTreeSet<String> = head.iter().zip(r.iter()).filter(|(_, x)| **x == "1").map(|(h, _)| h.clone()).collect();
        ensure!(got == *q, "query grid row {:?}, expected {:?}", got, q);
    }
    cx.nontrivial = true;
    Ok(())
}

fn c20_tracing(cx: &mut Cx) -> R {
    let o = match cx.below(2) {
        0 => Opts { copies: true, ..Opts::default() },
        _ => Opts { max_regions: 9, ..Opts::default() },
    };
    let b = gen::<Fp>(cx, &o);
    cx.sample(|| b.describe());
    for wit in [None, Some(b.wits[0].clone())] {
        let (plain, traced) = match b.planner {
            0 => (
                record_p::<Fp, SimpleFloorPlanner>(&b.conf, &b.syn, wit.clone()),
                record_p::<Fp, TracingFloorPlanner<SimpleFloorPlanner>>(&b.conf, &b.syn, wit),
            ),
            _ => (record_p::<Fp, V1>(&b.conf, &b.syn, wit.clone()), record_p::<Fp, TracingFloorPlanner<V1>>(&b.conf, &b.syn, wit)),
        };
        match (plain, traced) {
            (Ok(p), Ok(t)) => {
                let (p, t) = (sort_fills(p), sort_fills(t));
                ensure!(p == t, "the tracing planner changes the assignments: {:?} / {:?} in {}", first_diff(&p, &t), (), b.describe())
            }
            (p, t) => {
                ensure!(name(&p.err()) == name(&t.err()), "the tracing planner changes the error: {}", b.describe());
            }
        }
        cx.eval();
    }
    cx.nontrivial = b.syn.cells.len() > 1;
    Ok(())
}
/// The columns of one table are filled in no particular order.
fn sort_fills<F: Fld>(mut e: Vec<Ev<F>>) -> Vec<Ev<F>> {
    let key = |e: &Ev<F>| if let Ev::Fill(c, r, _) = e { Some((*c, *r)) } else { None };
    let mut i = 0;
    while i < e.len() {
        let mut j = i;
        while j < e.len() && key(&e[j]).is_some() {
            j += 1;
        }
        e[i..j].sort_by_key(|x| key(x));
        i = j.max(i + 1);
    }
    e
}
fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("event {}: {:?} vs {:?}", i, a.get(i), b.get(i));
        }
    }
    "none".into()
}

fn c20_tracing_keys(cx: &mut Cx) -> R {
    let b = gen::<Fp>(cx, &Opts::default());
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = EqAffine::params(b.k);
    let err = |e: Error| format!("failed under the tracing planner: {:?}; {}", e, b.describe());
    let vk = b.vk(&params).map_err(err)?;
    fn go<P: halo2_proofs::plonk::FloorPlanner>(cx: &mut Cx, b: &Built<Fp>, params: &Params<EqAffine>) -> Result<(ProvingKey<EqAffine>, Vec<u8>, Result<(), String>), Error> {
        set_conf(&b.conf);
        let w = &b.wits[0];
        let c = b.circuit::<P>(Some(w), &none());
        let vk = keygen_vk(params, &b.circuit::<P>(None, &none()))?;
        let pk = keygen_pk(params, vk, &c)?;
        let mut t = Blake2bWrite::<Vec<u8>, EqAffine, Challenge255<EqAffine>>::init(vec![]);
        let ins = w.inst_refs();
        create_proof(params, &pk, &[c.clone()], &[&ins[..]], cx.rng(), &mut t)?;
        let m = MockProver::run(b.k, &c, w.inst.clone())?.verify();
        Ok((pk, t.finalize(), m.map_err(|e| format!("{:?}", e))))
    }
    let (pk, proof, m) = match b.planner {
        0 => go::<TracingFloorPlanner<SimpleFloorPlanner>>(cx, &b, &params),
        _ => go::<TracingFloorPlanner<V1>>(cx, &b, &params),
    }
    .map_err(err)?;
    ensure!(pinned(pk.get_vk()) == pinned(&vk), "the tracing planner changes the key: {}", b.describe());
    ensure!(m.is_ok(), "the tracing planner changes the mock verdict: {:?}; {}", m, b.describe());
    verify(&params, &vk, &[b.wits[0].inst.clone()], &proof).map_err(err)?;
    cx.nontrivial = b.syn.cells.len() > 1;
    Ok(())
}

// ------------------------------------------------------------------ C21

/// First row past everything the layout touches (cells, selectors, tables, copies,
/// instance rows), from the event trace.
fn need_rows<F: Fld>(evs: &[Ev<F>], advice: bool) -> usize {
    let mut m = 0;
    for e in evs {
        let r = match e {
            Ev::Adv(..) if !advice => continue,
            Ev::Sel(_, r) | Ev::Adv(_, r, _) | Ev::Fix(_, r, _) | Ev::QInst(_, r) => *r,
            Ev::Copy(a, b) => a.2.max(b.2),
            _ => continue,
        };
        m = m.max(r + 1);
    }
    m
}

fn c21_rows(cx: &mut Cx) -> R {
    let o = match cx.below(3) {
        0 => Opts { copies: true, ..Opts::default() },
        1 => Opts { force_lookup: true, ..Opts::default() },
        _ => Opts::default(),
    };
    let mut b = gen::<Fp>(cx, &o);
    let mut wit = (*b.wits[0]).clone();
    // sometimes one more item near the end of the rows
    let extra = cx.below(7);
    let near = |cx: &mut Cx, u: usize| (u + 2).saturating_sub(cx.usize(0, 5));
    {
        let mut syn = (*b.syn).clone();
        let mut push = |syn: &mut Syn<Fp>, kind: K, col: usize, off: usize| {
            syn.cells.push(CellD { region: syn.items.len(), kind, col, off });
            wit.vals.push(Fp::ONE);
            syn.cells.len() - 1
        };
        let data: Vec<usize> = (0..b.conf.fix.len()).filter(|i| !b.conf.fix[*i]).collect();
        let eqa: Vec<usize> = b.conf.eq.iter().filter(|e| e.0 == K::A).map(|e| e.1).collect();
        let eqi: Vec<usize> = b.conf.eq.iter().filter(|e| e.0 == K::I).map(|e| e.1).collect();
        let off = near(cx, b.usable);
        match extra {
            1 => {
                let c = cx.usize(0, b.conf.n_adv - 1);
                let id = push(&mut syn, K::A, c, off);
                syn.items.push(Item::Region(vec![Op::Adv(id)]));
            }
            2 if !data.is_empty() => {
                let c = *cx.pick(&data);
                let id = push(&mut syn, K::F, c, off);
                syn.items.push(Item::Region(vec![Op::Fix(id, Fp::ONE)]));
            }
            3 if !b.conf.sels.is_empty() => {
                let s = cx.usize(0, b.conf.sels.len() - 1);
                syn.items.push(Item::Region(vec![Op::Sel(s, off)]));
            }
            4 if !eqa.is_empty() && !eqi.is_empty() => {
                let id = push(&mut syn, K::A, *cx.pick(&eqa), 0);
                syn.items.push(Item::Region(vec![Op::FromInst(id, *cx.pick(&eqi), off)]));
            }
            5 if !eqa.is_empty() && !eqi.is_empty() => {
                let id = push(&mut syn, K::A, *cx.pick(&eqa), 0);
                syn.items.push(Item::Region(vec![Op::Adv(id)]));
                syn.items.push(Item::Bind(id, *cx.pick(&eqi), off));
            }
            6 => {
                // a new table of a given length
                let mut conf = (*b.conf).clone();
                let t = conf.fix.len();
                conf.fix.push(true);
                let e = conf.gates.iter().flatten().find_map(|p| {
                    let mut x = None;
                    p.leaves(&mut |l| {
                        if matches!(l, Ex::A(_, 0)) {
                            x = Some(l.clone())
                        }
                    });
                    x
                });
                if let Some(e) = e {
                    conf.lookups.push(vec![(e, t)]);
                    b.conf = Arc::new(conf);
                    let len = near(cx, usable_rows(&b.conf, b.k).unwrap_or(4)).max(1);
                    syn.items.push(Item::Table(vec![t], vec![vec![Fp::ZERO]; len]));
                }
            }
            _ => {}
        }
        b.syn = Arc::new(syn);
    }
    let w = Arc::new(wit);
    cx.sample(|| b.describe());
    let evs = match record(&b.conf, &b.syn, b.planner, None) {
        Ok(e) => e,
        Err(Error::NotEnoughColumnsForConstants) => return Ok(()),
        Err(e) => return Err(format!("layout failed: {:?}", e)),
    };
    let need = need_rows(&evs, true);
    // key generation does not look at advice cells
    let kneed = need_rows(&evs, false);
    let inst_len = w.inst.iter().map(|c| c.len()).max().unwrap_or(0);
    for k in 1..=(b.k + 1).min(8) {
        let mut v = b.clone();
        v.k = k;
        let usable = usable_rows(&b.conf, k);
        let fits = usable.map(|u| need <= u).unwrap_or(false);
        let kfits = usable.map(|u| kneed <= u).unwrap_or(false);
        let params = EqAffine::params(k);
        let r = catch(|| v.vk(&params)).map_err(|e| format!("keygen panicked at k={} (usable {:?}, needed {}): {}; {}", k, usable, need, e, b.describe()))?;
        cx.eval();
        match &r {
            Ok(_) => ensure!(kfits, "keygen accepts k={} with {:?} usable rows although {} are needed; extra {}; {}", k, usable, kneed, extra, b.describe()),
            Err(Error::NotEnoughRowsAvailable { current_k }) => {
                ensure!(!kfits && *current_k == k, "keygen refuses k={} (reports {}) with {:?} usable rows, {} needed; extra {}; {}", k, current_k, usable, kneed, extra, b.describe())
            }
            Err(e) => return Err(format!("keygen error {:?} at k={} (usable {:?}, needed {}); extra {}; {}", e, k, usable, kneed, extra, b.describe())),
        }
        let m = catch(|| v.mock_prover(&w, &none())).map_err(|e| format!("mock prover panicked at k={}: {}; {}", k, e, b.describe()))?;
        let inst_fit = usable.map(|u| inst_len <= u).unwrap_or(false);
        match &m {
            Ok(_) => ensure!(fits && inst_fit, "mock prover accepts k={} with {:?} usable rows, {} needed, instances {}; extra {}; {}", k, usable, need, inst_len, extra, b.describe()),
            Err(Error::NotEnoughRowsAvailable { current_k }) => ensure!(!fits && *current_k == k, "mock prover refuses k={} with {:?} usable rows, {} needed; extra {}; {}", k, usable, need, extra, b.describe()),
            Err(Error::InstanceTooLarge) => ensure!(!inst_fit, "mock prover: instance too large at k={} with {:?} usable rows and {} values; {}", k, usable, inst_len, b.describe()),
            Err(e) => return Err(format!("mock prover error {:?} at k={}; {}", e, k, b.describe())),
        }
        cx.label(if fits {
            if usable == Some(need) {
                "exactly full"
            } else {
                "fits"
            }
        } else if usable.map(|u| u + 1) == Some(need) {
            "one row too many"
        } else {
            "too small"
        });
        if r.is_ok() && k <= 5 && (inst_fit || !kfits) {
            let pk = v.keys(&params).map_err(|e| format!("keygen_vk accepts but keygen_pk fails: {:?}; {}", e, b.describe()))?;
            let p = catch(|| v.prove(&params, &pk, &[(w.clone(), none())], ChaCha8Rng::seed_from_u64(7)));
            match p {
                // an unsatisfied lookup is reported by the prover
                Ok(Ok(_)) | Ok(Err(Error::ConstraintSystemFailure)) => {
                    ensure!(fits, "prover accepts k={} with {:?} usable rows although {} are needed; extra {}; {}", k, usable, need, extra, b.describe())
                }
                Ok(Err(Error::NotEnoughRowsAvailable { current_k })) => {
                    ensure!(!fits && current_k == k, "prover refuses k={} with {:?} usable rows, {} needed; extra {}; {}", k, usable, need, extra, b.describe())
                }
                Ok(Err(Error::BoundsFailure)) => {
                    // an instance value that was not supplied is read
                    let short = evs.iter().any(|e| if let Ev::Copy(x, y) = e { [x, y].iter().any(|x| x.0 == K::I && x.2 >= w.inst[x.1].len()) } else { false });
                    ensure!(short, "prover refuses k={} with an out-of-bounds error; {}", k, b.describe())
                }
                Ok(Err(e)) => return Err(format!("prover error {:?} at k={}; {}", e, k, b.describe())),
                Err(e) => return Err(format!("prover panicked at k={}: {}; {}", k, e, b.describe())),
            }
        }
    }
    cx.nontrivial = true;
    Ok(())
}

fn c21_instances(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.min_instances = cx.usize(0, 1);
    o.max_wits = 2;
    let b = gen::<Fp>(cx, &o);
    cx.sample(|| b.describe());
    let params = EqAffine::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let w = b.wits[0].clone();
    let c = |w: &Wit<Fp>| Arc::new(w.clone());
    let run = |insts: &[Vec<Vec<Fp>>], wits: &[Arc<Wit<Fp>>], rng: ChaCha8Rng| -> Result<Result<Vec<u8>, Error>, String> {
        set_conf(&b.conf);
        let i1: Vec<Vec<&[Fp]>> = insts.iter().map(|c| c.iter().map(|v| &v[..]).collect()).collect();
        let i2: Vec<&[&[Fp]]> = i1.iter().map(|v| &v[..]).collect();
        catch(|| {
            let mut t = Blake2bWrite::<Vec<u8>, EqAffine, Challenge255<EqAffine>>::init(vec![]);
            match b.planner {
                0 => create_proof(&params, &pk, &wits.iter().map(|w| b.circuit::<SimpleFloorPlanner>(Some(w), &none())).collect::<Vec<_>>(), &i2, rng, &mut t),
                _ => create_proof(&params, &pk, &wits.iter().map(|w| b.circuit::<V1>(Some(w), &none())).collect::<Vec<_>>(), &i2, rng, &mut t),
            }
            .map(|_| t.finalize())
        })
    };
    // number of instance columns
    for d in [1i32, -1] {
        let mut w2 = (*w).clone();
        if d > 0 {
            w2.inst.push(vec![]);
        } else if w2.inst.pop().is_none() {
            continue;
        }
        let w2 = c(&w2);
        let m = catch(|| b.mock_prover(&w2, &none()))?;
        ensure!(matches!(m, Err(Error::InvalidInstances)), "mock prover with {} instance columns instead of {}: {:?}", w2.inst.len(), w.inst.len(), m.err());
        let r = run(&[w2.inst.clone()], &[w.clone()], cx.rng())?;
        ensure!(matches!(r, Err(Error::InvalidInstances)), "prover with {} instance columns instead of {}: {:?}", w2.inst.len(), w.inst.len(), r.err());
        cx.eval();
    }
    // number of instances and circuits
    for (ni, nc) in [(0usize, 1usize), (1, 2), (2, 1), (3, 2), (1, 0)] {
        let is: Vec<_> = (0..ni).map(|_| w.inst.clone()).collect();
        let ws: Vec<_> = (0..nc).map(|_| w.clone()).collect();
        let r = run(&is, &ws, cx.rng())?;
        ensure!(matches!(r, Err(Error::InvalidInstances)), "prover with {} circuits and {} instances: {:?}; {}", nc, ni, r.map(|p| p.len()), b.describe());
        cx.eval();
    }
    // length boundary
    for col in 0..w.inst.len() {
        for extra in 0..3usize {
            let mut w2 = (*w).clone();
            w2.inst[col].resize(b.usable + extra, Fp::ZERO);
            let w2 = c(&w2);
            let m = catch(|| b.mock_prover(&w2, &none()))?;
            let r = run(&[w2.inst.clone()], &[w2.clone()], cx.rng())?;
            if extra == 0 {
                ensure!(m.is_ok(), "mock prover refuses an instance that fills the usable rows: {:?}; {}", m.err(), b.describe());
                let mv = m.unwrap().verify();
                ensure!(mv.is_ok(), "mock prover: zero-padded instance not satisfied: {:?}; {}", mv, b.describe());
                let p = r.map_err(|e| format!("prover refuses an instance that fills the usable rows: {:?}; {}", e, b.describe()))?;
                let v = verify(&params, pk.get_vk(), &[w2.inst.clone()], &p);
                ensure!(v.is_ok(), "verifier refuses an instance that fills the usable rows: {:?}; {}", v, b.describe());
                let v = verify(&params, pk.get_vk(), &[w.inst.clone()], &p);
                ensure!(v.is_ok(), "verifier distinguishes zero padding: {:?}; {}", v, b.describe());
            } else {
                ensure!(matches!(m, Err(Error::InstanceTooLarge)), "mock prover accepts {} instance values for {} usable rows: {:?}", b.usable + extra, b.usable, m.err());
                ensure!(matches!(r, Err(Error::InstanceTooLarge)), "prover accepts {} instance values for {} usable rows: {:?}", b.usable + extra, b.usable, r.err());
                let v = catch(|| verify(&params, pk.get_vk(), &[w2.inst.clone()], &[]))?;
                ensure!(matches!(v, Err(Error::InstanceTooLarge)), "verifier accepts {} instance values for {} usable rows: {:?}", b.usable + extra, b.usable, v);
            }
            cx.eval();
        }
    }
    cx.nontrivial = true;
    Ok(())
}

fn c21_witness(cx: &mut Cx) -> R {
    let mut o = small_opts(cx);
    o.max_wits = 1;
    let b = gen::<Fp>(cx, &o);
    cx.sample(|| b.describe());
    let plain: Vec<usize> = b
        .syn
        .items
        .iter()
        .flat_map(|i| match i {
            Item::Region(ops) => ops.iter().filter_map(|o| if let Op::Adv(i) = o { Some(*i) } else { None }).collect(),
            _ => vec![],
        })
        .collect();
    if plain.is_empty() {
        return Ok(());
    }
    let params = EqAffine::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let w = b.wits[0].clone();
    for _ in 0..3 {
        let id = *cx.pick(&plain);
        set_missing(Some(id));
        let m = catch(|| b.mock_prover(&w, &none()));
        let r = catch(|| b.prove(&params, &pk, &[(w.clone(), none())], cx.rng()));
        set_missing(None);
        tamper::clear();
        ensure!(matches!(m, Ok(Err(Error::Synthesis))), "mock prover without a witness value gives {:?}; {}", m.map(|x| x.err()), b.describe());
        ensure!(matches!(r, Ok(Err(Error::Synthesis))), "prover without a witness value gives {:?}; {}", r.map(|x| x.map(|p| p.len())), b.describe());
        cx.eval();
    }
    cx.nontrivial = true;
    Ok(())
}

fn c21_capability(cx: &mut Cx) -> R {
    let o = Opts { copies: true, ..Opts::default() };
    let b = gen::<Fp>(cx, &o);
    cx.sample(|| b.describe());
    let w = b.wits[0].clone();
    let const_reqs = b.equalities().iter().filter(|e| e.1.is_err()).count();
    let params = EqAffine::params(b.k);
    let mut tries: Vec<(String, Built<Fp>, &str)> = vec![];
    // one column without equality
    let mut used: BTreeSet<(K, usize)> = BTreeSet::new();
    for (a, c) in b.equalities() {
        used.insert((a.0, a.1));
        if let Ok(c) = c {
            used.insert((c.0, c.1));
        }
    }
    for u in &used {
        if u.0 == K::F && b.conf.consts.contains(&u.1) {
            continue;
        }
        let mut conf = (*b.conf).clone();
        conf.eq.retain(|e| e != u);
        let mut v = b.clone();
        v.conf = Arc::new(conf);
        tries.push((format!("equality not enabled on {:?}", u), v, "ColumnNotInPermutation"));
    }
    // columns not used in any equality do not need it
    for e in &b.conf.eq {
        if !used.contains(e) {
            let mut conf = (*b.conf).clone();
            conf.eq.retain(|x| x != e);
            let mut v = b.clone();
            v.conf = Arc::new(conf);
            tries.push((format!("equality not enabled on unused {:?}", e), v, ""));
        }
    }
    // no constant columns
    {
        let mut conf = (*b.conf).clone();
        // keep the equality capability of the columns
        for c in &b.conf.consts {
            if !conf.eq.contains(&(K::F, *c)) {
                conf.eq.push((K::F, *c));
            }
        }
        conf.consts.clear();
        let mut v = b.clone();
        v.conf = Arc::new(conf);
        tries.push(("no constant columns".into(), v, if const_reqs > 0 { "NotEnoughColumnsForConstants" } else { "" }));
    }
    for (what, mut v, want) in tries {
        // the number of usable rows may change with the columns' queries
        let uk = usable_rows(&v.conf, v.k).unwrap_or(0);
        if uk < b.usable {
            v.k += 1;
        }
        let params = if v.k == b.k { params.clone() } else { EqAffine::params(v.k) };
        let r = catch(|| v.vk(&params)).map_err(|e| format!("keygen panicked: {}; {}; {}", e, what, b.describe()))?;
        let m = catch(|| v.mock_prover(&w, &none())).map_err(|e| format!("mock prover panicked: {}; {}; {}", e, what, b.describe()))?;
        let got = r.as_ref().err().map(name).unwrap_or_default();
        let gotm = m.as_ref().err().map(name).unwrap_or_default();
        cx.eval();
        ensure!(got == want, "keygen gives {:?}, expected {:?}: {}; {}", got, want, what, b.describe());
        ensure!(gotm == want, "mock prover gives {:?}, expected {:?}: {}; {}", gotm, want, what, b.describe());
        cx.label(if want.is_empty() { "fine" } else { want });
        cx.nontrivial = true;
    }
    Ok(())
}

#[allow(dead_code)]
type _T = Tamper<SimpleFloorPlanner>;
