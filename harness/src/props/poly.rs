//! C06 transcript, C07 openings, C08 multi-openings, C09 MSM, C10 parameters, C11 domain arithmetic,
//! C12 multi-scalar multiplication, C13 deferred fractions and optional values.
use std::collections::BTreeSet;

use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::{Curve, Group};
use halo2_proofs::arithmetic::{
    best_fft, best_multiexp, compute_inner_product, eval_polynomial, kate_division, lagrange_interpolate, parallelize,
    small_multiexp, CurveAffine, CurveExt,
};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{
    create_proof as plonk_prove, keygen_pk, keygen_vk, Advice, Assigned, Circuit, Column, ConstraintSystem, Error, Fixed,
    Selector,
};
use halo2_proofs::poly::commitment::{self, Blind, Params, MSM};
use halo2_proofs::poly::multiopen::{self, ProverQuery, VerifierQuery};
use halo2_proofs::poly::{Coeff, EvaluationDomain, LagrangeCoeff, Polynomial, Rotation};
use halo2_proofs::transcript::{
    Blake2bRead, Blake2bWrite, Challenge255, EncodedChallenge, Transcript, TranscriptRead, TranscriptWrite,
};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use rand_chacha::ChaCha8Rng;

use crate::ensure;
use crate::engine::*;
use crate::spec::{short, Cv, Fld};
use crate::tamper::eval_assigned;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "a history of at least two messages or squeezes on both transcripts; distinct by generator tape",
            assumptions: &["histories of up to 24 operations", "challenge collisions of Blake2b are not considered"],
            subs: vec![
                sub("history_vesta", 20000, 400000, c06_history::<Fp, EqAffine>),
                sub("history_pallas", 15000, 300000, c06_history::<Fq, EpAffine>),
                sub("distinct_vesta", 20000, 300000, c06_distinct::<Fp, EqAffine>),
                sub("distinct_pallas", 15000, 300000, c06_distinct::<Fq, EpAffine>),
                sub("encodings_vesta", 20000, 300000, c06_encodings::<Fp, EqAffine>),
                sub("encodings_pallas", 20000, 300000, c06_encodings::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C07",
            rule: "an opening of a generated polynomial, and falsified variants of it; distinct by generator tape",
            assumptions: &["k in 0..=8", "falsifications: value, point, commitment, proof bytes, truncation, claimed generator"],
            subs: vec![
                sub("open_vesta", 500, 30000, c07::<Fp, EqAffine>),
                sub("open_pallas", 350, 30000, c07::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C08",
            rule: "two or more queries, with falsified variants; distinct by generator tape",
            assumptions: &["up to 7 polynomials, 5 points, 1 <= k <= 8, no more points than coefficients", "prover and verifier list the queries in the same order"],
            subs: vec![
                sub("multi_vesta", 700, 30000, c08::<Fp, EqAffine>),
                sub("multi_pallas", 500, 30000, c08::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C09",
            rule: "a history of at least three operations on several accumulators; distinct by generator tape",
            assumptions: &["k <= 3, histories of up to 30 operations"],
            subs: vec![
                sub("history_vesta", 3000, 200000, c09::<Fp, EqAffine>),
                sub("history_pallas", 2500, 200000, c09::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C10",
            rule: "parameters of one size with generated polynomials or a malformed encoding; distinct by generator tape",
            assumptions: &["k <= 7 (k <= 9 thorough)"],
            subs: vec![
                sub("derive_vesta", 24, 400, c10_derive::<Fp, EqAffine>),
                sub("derive_pallas", 24, 400, c10_derive::<Fq, EpAffine>),
                sub("linear_vesta", 700, 40000, c10_linear::<Fp, EqAffine>),
                sub("linear_pallas", 600, 40000, c10_linear::<Fq, EpAffine>),
                sub("malformed_vesta", 4000, 100000, c10_malformed::<Fp, EqAffine>),
                sub("malformed_pallas", 4000, 100000, c10_malformed::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C11",
            rule: "a domain of at least two elements and a non-constant polynomial; distinct by generator tape",
            assumptions: &["k <= 8, quotient degree factor j <= 12", "Lagrange evaluations at points outside the domain", "rotations of at most the domain size", "parallelize is given at least one element"],
            subs: vec![
                sub("domain_fp", 10000, 150000, c11_domain::<Fp>),
                sub("domain_fq", 8000, 100000, c11_domain::<Fq>),
                sub("fft_field", 10000, 150000, c11_fft::<Fq>),
                sub("fft_group", 1000, 10000, c11_fft_group::<Fp, EqAffine>),
                sub("arith_fp", 25000, 400000, c11_arith::<Fp>),
                sub("arith_fq", 15000, 300000, c11_arith::<Fq>),
                sub("parallelize", 4000, 200000, c11_parallelize),
            ],
        },
        Prop {
            id: "C12",
            rule: "at least two terms; distinct by generator tape",
            assumptions: &["up to 1100 terms"],
            subs: vec![
                sub("msm_vesta", 6000, 60000, c12::<Fp, EqAffine>),
                sub("msm_pallas", 5000, 60000, c12::<Fq, EpAffine>),
            ],
        },
        Prop {
            id: "C13",
            rule: "an expression over at least two operands; distinct by generator tape",
            assumptions: &["expression trees of depth <= 5"],
            subs: vec![
                sub("assigned_fp", 60000, 3000000, c13_assigned::<Fp>),
                sub("assigned_fq", 30000, 2000000, c13_assigned::<Fq>),
                sub("value", 60000, 3000000, c13_value),
                sub("containers", 20000, 1000000, c13_containers),
                sub("circuit", 120, 5000, c13_circuit),
            ],
        },
    ]
}

type W<C> = Blake2bWrite<Vec<u8>, C, Challenge255<C>>;
type Rd<'a, C> = Blake2bRead<&'a [u8], C, Challenge255<C>>;

fn point<F: Fld, C: Cv<F>>(cx: &mut Cx) -> C {
    match cx.weighted(&[3, 2, 1]) {
        0 => (C::generator() * F::from(1 + cx.below(5))).to_affine(),
        1 => C::Curve::random(cx.rng()).to_affine(),
        _ => (C::generator() * -F::from(1 + cx.below(5))).to_affine(),
    }
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, PartialEq)]
enum Msg<F, C> {
    CommonPoint(C),
    CommonScalar(F),
    Point(C),
    Scalar(F),
    Squeeze,
}
fn gen_msgs<F: Fld, C: Cv<F>>(cx: &mut Cx, max: usize) -> Vec<Msg<F, C>> {
    let n = cx.usize(0, max);
    (0..n)
        .map(|_| match cx.weighted(&[2, 2, 3, 3, 3]) {
            0 => Msg::CommonPoint(point::<F, C>(cx)),
            1 => Msg::CommonScalar(cx.field()),
            2 => Msg::Point(point::<F, C>(cx)),
            3 => Msg::Scalar(cx.field()),
            _ => Msg::Squeeze,
        })
        .collect()
}
fn show_msgs<F: Fld, C: Cv<F>>(m: &[Msg<F, C>]) -> String {
    m.iter()
        .map(|m| match m {
            Msg::CommonPoint(_) => "cp".to_string(),
            Msg::CommonScalar(s) => format!("cs({})", short(s)),
            Msg::Point(_) => "p".to_string(),
            Msg::Scalar(s) => format!("s({})", short(s)),
            Msg::Squeeze => "?".to_string(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
/// The specification: Blake2b-512 with personalisation over the tagged messages so far.
struct RefTranscript(Vec<u8>);
impl RefTranscript {
    fn point<C: CurveAffine>(&mut self, p: &C) {
        let c = p.coordinates().unwrap();
        self.0.push(1);
        self.0.extend_from_slice(c.x().to_repr().as_ref());
        self.0.extend_from_slice(c.y().to_repr().as_ref());
    }
    fn scalar<F: PrimeField>(&mut self, s: &F) {
        self.0.push(2);
        self.0.extend_from_slice(s.to_repr().as_ref());
    }
    fn squeeze<F: FromUniformBytes<64>>(&mut self) -> F {
        self.0.push(0);
        let h = blake2b_simd::Params::new().hash_length(64).personal(b"Halo2-Transcript").hash(&self.0);
        let mut b = [0u8; 64];
        b.copy_from_slice(h.as_bytes());
        F::from_uniform_bytes(&b)
    }
}
fn run_write<F: Fld, C: Cv<F>>(msgs: &[Msg<F, C>]) -> Result<(Vec<F>, Vec<u8>), String> {
    let mut t: W<C> = Blake2bWrite::init(vec![]);
    let mut ch = vec![];
    for m in msgs {
        match m {
            Msg::CommonPoint(p) => t.common_point(*p).map_err(|e| format!("common_point: {}", e))?,
            Msg::CommonScalar(s) => t.common_scalar(*s).map_err(|e| format!("common_scalar: {}", e))?,
            Msg::Point(p) => t.write_point(*p).map_err(|e| format!("write_point: {}", e))?,
            Msg::Scalar(s) => t.write_scalar(*s).map_err(|e| format!("write_scalar: {}", e))?,
            Msg::Squeeze => ch.push(t.squeeze_challenge().get_scalar()),
        }
    }
    Ok((ch, t.finalize()))
}

fn c06_history<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut msgs = gen_msgs::<F, C>(cx, 24);
    if cx.bool() {
        msgs.push(Msg::Squeeze);
    }
    cx.sample(|| show_msgs(&msgs));
    cx.nontrivial = msgs.len() >= 2;
    let (ch, bytes) = run_write(&msgs).map_err(|e| format!("{} for {}", e, show_msgs(&msgs)))?;
    // specification
    let mut r = RefTranscript(vec![]);
    let mut want_ch: Vec<F> = vec![];
    let mut want_bytes = vec![];
    for m in &msgs {
        match m {
            Msg::CommonPoint(p) => r.point(p),
            Msg::CommonScalar(s) => r.scalar(s),
            Msg::Point(p) => {
                r.point(p);
                want_bytes.extend_from_slice(p.to_bytes().as_ref());
            }
            Msg::Scalar(s) => {
                r.scalar(s);
                want_bytes.extend_from_slice(s.to_repr().as_ref());
            }
            Msg::Squeeze => want_ch.push(r.squeeze()),
        }
    }
    ensure!(bytes == want_bytes, "proof bytes differ from the written messages for {}", show_msgs(&msgs));
    ensure!(ch == want_ch, "prover challenges differ from the Blake2b specification for {}", show_msgs(&msgs));
    // reader; extra bytes are not consumed
    let mut data = bytes.clone();
    let extra = cx.usize(0, 3);
    data.extend(vec![0xab; extra]);
    let mut slice = &data[..];
    {
        let mut t: Blake2bRead<_, C, Challenge255<C>> = Blake2bRead::init(&mut slice);
        let mut got = vec![];
        for m in &msgs {
            match m {
                Msg::CommonPoint(p) => t.common_point(*p).map_err(|e| e.to_string())?,
                Msg::CommonScalar(s) => t.common_scalar(*s).map_err(|e| e.to_string())?,
                Msg::Point(p) => {
                    let q = t.read_point().map_err(|e| format!("read_point: {} for {}", e, show_msgs(&msgs)))?;
                    ensure!(q == *p, "point read back differs for {}", show_msgs(&msgs));
                }
                Msg::Scalar(s) => {
                    let q = t.read_scalar().map_err(|e| format!("read_scalar: {} for {}", e, show_msgs(&msgs)))?;
                    ensure!(q == *s, "scalar read back differs for {}", show_msgs(&msgs));
                }
                Msg::Squeeze => {
                    // either entry point gives the same challenge
                    if cx.bool() {
                        got.push(*t.squeeze_challenge_scalar::<()>());
                    } else {
                        let c = t.squeeze_challenge();
                        let s: F = c.get_scalar();
                        ensure!(*c.as_challenge_scalar::<()>() == s, "challenge forms differ");
                        ensure!(c[..] == *s.to_repr().as_ref(), "challenge encoding is not canonical");
                        got.push(s);
                    }
                }
            }
        }
        ensure!(got == want_ch, "verifier challenges differ from the prover's for {}", show_msgs(&msgs));
    }
    ensure!(slice.len() == extra, "reader consumed {} bytes too many or too few", slice.len() as i64 - extra as i64);
    // truncation
    if !bytes.is_empty() {
        let cut = cx.usize(0, bytes.len() - 1);
        let mut t: Rd<C> = Blake2bRead::init(&bytes[..cut]);
        let mut used = 0;
        for m in &msgs {
            let is = match m {
                Msg::CommonPoint(p) => {
                    let _ = t.common_point(*p);
                    continue;
                }
                Msg::CommonScalar(s) => {
                    let _ = t.common_scalar(*s);
                    continue;
                }
                Msg::Squeeze => {
                    let _ = t.squeeze_challenge();
                    continue;
                }
                Msg::Point(_) => t.read_point().is_ok(),
                Msg::Scalar(_) => t.read_scalar().is_ok(),
            };
            used += 32;
            ensure!(is == (used <= cut), "reading message ending at byte {} of a proof cut to {} bytes: ok={}", used, cut, is);
            if !is {
                break;
            }
        }
    }
    Ok(())
}

fn c06_distinct<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let mut a = gen_msgs::<F, C>(cx, 10);
    if a.is_empty() {
        a.push(Msg::Scalar(cx.field()));
    }
    let mut b = a.clone();
    let i = cx.usize(0, a.len() - 1);
    let what = match cx.below(6) {
        0 => {
            // change a message
            b[i] = match &a[i] {
                Msg::CommonPoint(_) => Msg::CommonPoint(point::<F, C>(cx)),
                Msg::Point(p) => Msg::Point(if cx.bool() { -*p } else { point::<F, C>(cx) }),
                Msg::CommonScalar(s) => Msg::CommonScalar(*s + cx.nz_field::<F>()),
                Msg::Scalar(s) => Msg::Scalar(if cx.bool() { -*s } else { *s + cx.nz_field::<F>() }),
                Msg::Squeeze => Msg::CommonScalar(cx.field()),
            };
            "value"
        }
        1 => {
            b.remove(i);
            "removed"
        }
        2 => {
            let x = if cx.bool() { Msg::Squeeze } else { Msg::CommonScalar(F::ZERO) };
            b.insert(i, x);
            "inserted"
        }
        3 => {
            let j = cx.usize(0, a.len() - 1);
            b.swap(i, j);
            "swapped"
        }
        4 => {
            // a point against its coordinates as scalars: the kind matters
            let p = point::<F, C>(cx);
            let c = p.coordinates().unwrap();
            let mut buf = [0u8; 64];
            buf[..32].copy_from_slice(c.x().to_repr().as_ref());
            let x = F::from_repr({
                let mut r = F::Repr::default();
                r.as_mut().copy_from_slice(&buf[..32]);
                r
            });
            a[i] = Msg::CommonPoint(p);
            b[i] = Msg::CommonScalar(Option::from(x).unwrap_or(F::ZERO));
            "kind"
        }
        _ => {
            let s = cx.field::<F>();
            a[i] = Msg::Scalar(s);
            b[i] = Msg::Squeeze;
            "squeeze"
        }
    };
    a.push(Msg::Squeeze);
    b.push(Msg::Squeeze);
    // written and common messages are the same message
    let norm = |m: &Vec<Msg<F, C>>| -> Vec<(u8, Vec<u8>)> {
        m.iter()
            .map(|m| match m {
                Msg::CommonPoint(p) | Msg::Point(p) => (1, p.to_bytes().as_ref().to_vec()),
                Msg::CommonScalar(s) | Msg::Scalar(s) => (2, s.to_repr().as_ref().to_vec()),
                Msg::Squeeze => (0, vec![]),
            })
            .collect()
    };
    let same = norm(&a) == norm(&b);
    cx.label(if same { "same history" } else { what });
    cx.sample(|| format!("{}: {} / {}", what, show_msgs(&a), show_msgs(&b)));
    cx.nontrivial = !same && a.len() >= 2;
    let (ca, _) = run_write(&a)?;
    let (cb, _) = run_write(&b)?;
    let (la, lb) = (ca.last().unwrap(), cb.last().unwrap());
    ensure!(
        (la == lb) == same,
        "histories {} give {} challenges: {} / {}",
        if same { "that agree" } else { "that differ" },
        if same { "different" } else { "the same" },
        show_msgs(&a),
        show_msgs(&b)
    );
    // successive squeezes differ
    let mut c = a.clone();
    c.push(Msg::Squeeze);
    let (cc, _) = run_write(&c)?;
    ensure!(cc[cc.len() - 1] != cc[cc.len() - 2], "two successive challenges are equal");
    Ok(())
}

fn add_le(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut c = 0u16;
    for (x, y) in a.iter().zip(b) {
        let s = *x as u16 + *y as u16 + c;
        out.push(s as u8);
        c = s >> 8;
    }
    if c == 0 {
        Some(out)
    } else {
        None
    }
}
fn modulus<F: PrimeField>() -> Vec<u8> {
    // -1 + 1 on the integers
    let mut m = (-F::ONE).to_repr().as_ref().to_vec();
    for b in m.iter_mut() {
        let (x, c) = b.overflowing_add(1);
        *b = x;
        if !c {
            break;
        }
    }
    m
}
fn lt_le(a: &[u8], b: &[u8]) -> bool {
    a.iter().rev().lt(b.iter().rev())
}
/// What a canonical decoder must say about 32 bytes: Some(valid).
fn point_valid<C: CurveAffine>(b: &[u8; 32]) -> bool {
    let mut x = *b;
    let sign = x[31] >> 7;
    x[31] &= 0x7f;
    if !lt_le(&x, &modulus::<C::Base>()) {
        return false;
    }
    let mut r = <C::Base as PrimeField>::Repr::default();
    r.as_mut().copy_from_slice(&x);
    let xf: C::Base = match Option::from(C::Base::from_repr(r)) {
        Some(x) => x,
        None => return false,
    };
    if bool::from(xf.is_zero()) && sign == 0 {
        return false; // the identity: not a message
    }
    let y2 = xf.square() * xf + C::b();
    // y = 0 does not occur on these curves
    bool::from(y2.sqrt().is_some())
}

fn c06_encodings<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let p = point::<F, C>(cx);
    let s: F = cx.field();
    let mut b = [0u8; 32];
    let is_point = cx.bool();
    let what;
    if is_point {
        b.copy_from_slice(p.to_bytes().as_ref());
        what = match cx.below(7) {
            0 => "canonical",
            1 => {
                // x + p, when it fits 255 bits
                let mut x = b;
                let sign = x[31] & 0x80;
                x[31] &= 0x7f;
                match add_le(&x, &modulus::<C::Base>()) {
                    Some(v) if v[31] < 0x80 => {
                        b.copy_from_slice(&v);
                        b[31] |= sign;
                        "x not reduced"
                    }
                    _ => "canonical",
                }
            }
            2 => {
                b = [0; 32];
                if cx.bool() {
                    b[31] = 0x80;
                }
                "identity"
            }
            3 => {
                let m = modulus::<C::Base>();
                b.copy_from_slice(&m);
                b[0] = b[0].wrapping_add(cx.below(4) as u8);
                if cx.bool() {
                    b[31] |= 0x80;
                }
                "near the modulus"
            }
            4 => {
                let i = cx.usize(0, 31);
                b[i] ^= 1 << cx.below(8);
                "bit flip"
            }
            5 => {
                b = [0; 32];
                b[0] = cx.below(256) as u8;
                b[31] = if cx.bool() { 0x80 } else { 0 };
                "small x"
            }
            _ => {
                b.copy_from_slice(&cx.bytes(32));
                "random"
            }
        };
    } else {
        b.copy_from_slice(s.to_repr().as_ref());
        what = match cx.below(5) {
            0 => "canonical",
            1 => match add_le(&b, &modulus::<F>()) {
                Some(v) => {
                    b.copy_from_slice(&v);
                    "not reduced"
                }
                None => "canonical",
            },
            2 => {
                b.copy_from_slice(&modulus::<F>());
                b[0] = b[0].wrapping_add(cx.below(4) as u8).wrapping_sub(cx.below(4) as u8);
                "near the modulus"
            }
            3 => {
                b = [0xff; 32];
                b[31] = [0xff, 0x7f, 0x3f, 0x40][cx.usize(0, 3)];
                "high"
            }
            _ => {
                b.copy_from_slice(&cx.bytes(32));
                "random"
            }
        };
    }
    cx.label(format!("{} {}", if is_point { "point" } else { "scalar" }, what));
    cx.sample(|| format!("{} {} {:02x?}", if is_point { "point" } else { "scalar" }, what, b));
    cx.nontrivial = true;
    let mut t: Rd<C> = Blake2bRead::init(&b[..]);
    if is_point {
        let want = point_valid::<C>(&b);
        let got = t.read_point();
        ensure!(got.is_ok() == want, "point encoding {:02x?} ({}): accepted={}, valid={}", b, what, got.is_ok(), want);
        if let Ok(q) = got {
            ensure!(q.to_bytes().as_ref() == b, "decoded point encodes differently");
        }
        cx.label(if want { "accepted" } else { "refused" });
    } else {
        let want = lt_le(&b, &modulus::<F>());
        let got = t.read_scalar();
        ensure!(got.is_ok() == want, "scalar encoding {:02x?} ({}): accepted={}, valid={}", b, what, got.is_ok(), want);
        if let Ok(q) = got {
            ensure!(q.to_repr().as_ref() == b, "decoded scalar encodes differently");
        }
        cx.label(if want { "accepted" } else { "refused" });
    }
    // the identity is not a message
    let mut w: W<C> = Blake2bWrite::init(vec![]);
    ensure!(w.write_point(C::identity()).is_err(), "the identity was written");
    ensure!(w.common_point(C::identity()).is_err(), "the identity was absorbed by the prover");
    let mut t: Rd<C> = Blake2bRead::init(&b[..]);
    ensure!(t.common_point(C::identity()).is_err(), "the identity was absorbed by the verifier");
    ensure!(w.finalize().is_empty(), "a refused point left bytes in the proof");
    Ok(())
}

// ------------------------------------------------------------------ C07

fn gen_vec<F: Fld>(cx: &mut Cx, n: usize) -> Vec<F> {
    match cx.below(6) {
        0 => vec![cx.field(); n],
        1 => {
            let mut v = vec![F::ZERO; n];
            let i = cx.usize(0, n.max(1) - 1);
            if n > 0 {
                v[i] = cx.nz_field();
            }
            v
        }
        2 => {
            let m = cx.usize(0, n);
            let mut rng = cx.rng();
            (0..n).map(|i| if i < m { F::random(&mut rng) } else { F::ZERO }).collect()
        }
        3 => (0..n).map(|_| cx.field()).collect(),
        _ => {
            let mut rng = cx.rng();
            (0..n).map(|_| F::random(&mut rng)).collect()
        }
    }
}
fn coeff_poly<F: Fld>(k: u32, v: &[F]) -> Polynomial<F, Coeff> {
    EvaluationDomain::<F>::new(1, k).coeff_from_vec(v.to_vec())
}
fn horner<F: Field>(v: &[F], x: F) -> F {
    let mut acc = F::ZERO;
    let mut p = F::ONE;
    for c in v {
        acc += *c * p;
        p *= x;
    }
    acc
}

fn ipa_verify<F: Fld, C: Cv<F>>(
    cx: &mut Cx,
    params: &Params<C>,
    com: C,
    x: F,
    v: F,
    proof: &[u8],
    extra: &[u8],
) -> Result<bool, String> {
    let mut data = proof.to_vec();
    data.extend_from_slice(extra);
    let mut slice = &data[..];
    let res = {
        let mut t: Blake2bRead<_, C, Challenge255<C>> = Blake2bRead::init(&mut slice);
        // common inputs
        t.common_point(com).map_err(|_| "HARNESS: commitment is the identity")?;
        t.common_scalar(x).unwrap();
        t.common_scalar(v).unwrap();
        let mut msm = MSM::new(params);
        if cx.bool() {
            msm.append_term(F::ONE, com);
        } else {
            // the same commitment as a combination
            let h = (com + com).to_affine();
            msm.append_term(F::from(2), h);
            msm.append_term(-F::from(3), com);
        }
        let guard = match commitment::verify_proof(params, msm, &mut t, x, v) {
            Ok(g) => g,
            Err(_) => return Ok(false),
        };
        let g = guard.compute_g();
        let r1 = guard.clone().use_challenges().eval();
        let (m2, acc) = guard.clone().use_g(g);
        ensure!(acc.g == g, "accumulator records another generator");
        ensure!(acc.u_packed.len() == params.k() as usize, "accumulator records {} challenges for k={}", acc.u_packed.len(), params.k());
        // the folded generator is what its challenges say
        let us: Vec<F> = acc.u_packed.iter().map(|e| e.get_scalar()).collect();
        let mut folded: Vec<C::Curve> = params.get_g().iter().map(|g| g.to_curve()).collect();
        for u in &us {
            let h = folded.len() / 2;
            folded = (0..h).map(|i| folded[i] + folded[i + h] * *u).collect();
        }
        ensure!(folded[0].to_affine() == g, "compute_g differs from folding the generators with the challenges");
        let r2 = m2.eval();
        ensure!(r1 == r2, "full check says {} but the check with the folded generator says {}", r1, r2);
        // deferred: accumulated with another passing or failing claim
        let f: F = cx.nz_field();
        let mut acc_msm = params.empty_msm();
        acc_msm.add_msm(&guard.clone().use_challenges());
        acc_msm.scale(f);
        acc_msm.add_msm(&guard.clone().use_challenges());
        let deferred = acc_msm.eval();
        let f1 = f + F::ONE;
        if bool::from(!f1.is_zero()) {
            ensure!(deferred == r1, "deferred accumulation says {} but the full check says {}", deferred, r1);
        }
        // a wrong claimed generator never passes an honest proof
        let wrong = match cx.below(3) {
            0 => (g + params.get_g()[0]).to_affine(),
            1 => -g,
            _ => C::identity(),
        };
        if r1 && wrong != g {
            // unless the folded coefficient is zero, in which case every generator is right
            let (m3, _) = guard.clone().use_g(wrong);
            let c_zero = {
                let mut d = guard.clone().use_challenges();
                d.scale(F::ZERO);
                let cbytes = &proof[proof.len() - 64..proof.len() - 32];
                cbytes.iter().all(|b| *b == 0)
            };
            if !c_zero {
                ensure!(!m3.eval(), "a wrong folded generator passes");
            }
        }
        r1
    };
    if res {
        ensure!(slice == extra, "verification consumed {} bytes of the proof plus {} extra", data.len() - slice.len(), extra.len());
    }
    Ok(res)
}

fn c07<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(1, if cx.tier_thorough { 9 } else { 7 }) as u32;
    let params = C::params(k);
    let n = 1usize << k;
    let v = gen_vec::<F>(cx, n);
    let blind: F = cx.nz_field();
    let x: F = cx.field();
    cx.sample(|| format!("k={} poly[0]={} x={} blind={}", k, short(&v[0]), short(&x), short(&blind)));
    cx.label(format!("k={}", k));
    let poly = coeff_poly(k, &v);
    let com = params.commit(&poly, Blind(blind)).to_affine();
    if bool::from(com.is_identity()) {
        return Ok(());
    }
    let y = horner(&v, x);
    let mut t: W<C> = Blake2bWrite::init(vec![]);
    t.common_point(com).unwrap();
    t.common_scalar(x).unwrap();
    t.common_scalar(y).unwrap();
    commitment::create_proof(&params, cx.rng(), &mut t, &poly, Blind(blind), x).map_err(|e| format!("create_proof: {}", e))?;
    let proof = t.finalize();
    ensure!(proof.len() == 32 * (1 + 2 * k as usize + 2), "opening proof has {} bytes for k={}", proof.len(), k);
    let extra = vec![0x5a; cx.usize(0, 2)];
    ensure!(ipa_verify(cx, &params, com, x, y, &proof, &extra)?, "honest opening rejected: k={} x={} y={}", k, short(&x), short(&y));
    cx.eval();
    cx.nontrivial = true;
    // falsified
    for _ in 0..cx.usize(1, 3) {
        let (mut c2, mut x2, mut y2, mut p2) = (com, x, y, proof.clone());
        let what = match cx.below(7) {
            0 => {
                y2 += cx.nz_field::<F>();
                "value"
            }
            1 => {
                x2 += cx.nz_field::<F>();
                if horner(&v, x2) == y && cx.bool() {
                    continue;
                }
                "point"
            }
            2 => {
                c2 = (params.get_g()[cx.usize(0, n - 1)] * cx.nz_field::<F>() + com).to_affine();
                "commitment"
            }
            3 => {
                let i = cx.usize(0, p2.len() - 1);
                p2[i] ^= 1 << cx.below(8);
                "proof bit"
            }
            4 => {
                let m = p2.len() / 32;
                let (i, j) = (cx.usize(0, m - 1), cx.usize(0, m - 1));
                for b in 0..32 {
                    p2.swap(32 * i + b, 32 * j + b);
                }
                if p2 == proof {
                    continue;
                }
                "proof elements swapped"
            }
            5 => {
                p2.truncate(cx.usize(0, proof.len() - 1));
                "truncated"
            }
            _ => {
                // one of the final scalars
                let m = p2.len();
                let at = if cx.bool() { m - 64 } else { m - 32 };
                let s: F = cx.field();
                p2[at..at + 32].copy_from_slice(s.to_repr().as_ref());
                if p2 == proof {
                    continue;
                }
                "final scalar"
            }
        };
        if bool::from(c2.is_identity()) {
            continue;
        }
        cx.label(what);
        let ok = catch(|| ipa_verify(cx, &params, c2, x2, y2, &p2, &[])).map_err(|e| format!("verification panics ({}): {}", what, e))??;
        ensure!(!ok, "a falsified opening ({}) is accepted: k={} x={} y={}", what, k, short(&x2), short(&y2));
        cx.eval();
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn c08<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(1, if cx.tier_thorough { 8 } else { 5 }) as u32;
    let params = C::params(k);
    let n = 1usize << k;
    let np = cx.usize(1, 7);
    let vs: Vec<Vec<F>> = (0..np).map(|_| gen_vec::<F>(cx, n)).collect();
    let blinds: Vec<F> = (0..np).map(|_| cx.nz_field()).collect();
    let polys: Vec<_> = vs.iter().map(|v| coeff_poly(k, v)).collect();
    let coms: Vec<C> = polys.iter().zip(&blinds).map(|(p, b)| params.commit(p, Blind(*b)).to_affine()).collect();
    if coms.iter().any(|c| bool::from(c.is_identity())) {
        return Ok(());
    }
    // Combined polynomials are opened through combined commitments.
    let nc = cx.weighted(&[3, 2, 1]);
    let mut cvs = vec![];
    let mut cpolys = vec![];
    let mut cblinds = vec![];
    let mut cmsms = vec![];
    for _ in 0..nc {
        let co: Vec<F> = (0..np).map(|_| cx.field()).collect();
        let v: Vec<F> = (0..n).map(|i| (0..np).map(|j| co[j] * vs[j][i]).sum()).collect();
        cpolys.push(coeff_poly(k, &v));
        cvs.push(v);
        cblinds.push((0..np).map(|j| co[j] * blinds[j]).sum::<F>());
        let mut m = params.empty_msm();
        for j in 0..np {
            m.append_term(co[j], coms[j]);
        }
        cmsms.push(m);
    }
    let total = np + nc;
    let npts = cx.usize(1, 5.min(n));
    let mut pts: Vec<F> = vec![];
    for _ in 0..npts {
        let p: F = cx.field();
        if !pts.contains(&p) {
            pts.push(p);
        }
    }
    let mut qs: Vec<(usize, usize)> = vec![];
    for p in 0..total {
        let style = cx.below(4);
        for j in 0..pts.len() {
            let take = match style {
                0 => j == 0,
                1 => true,
                _ => cx.bool(),
            };
            if take {
                qs.push((p, j));
            }
        }
    }
    if qs.is_empty() {
        qs.push((0, 0));
    }
    if cx.bool() {
        cx.shuffle(&mut qs);
    }
    // A repeated query with the same evaluation is harmless.
    if cx.chance(1, 8) {
        let q = *cx.pick(&qs);
        let at = cx.usize(0, qs.len());
        qs.insert(at, q);
        cx.label("repeated query");
    }
    cx.label(format!("queries={}", qs.len().min(12)));
    cx.label(format!("points={}", pts.len()));
    if nc > 0 {
        cx.label("combined commitments");
    }
    cx.sample(|| format!("k={} polys={} combined={} points={} queries={:?}", k, np, nc, pts.len(), qs));
    cx.nontrivial = qs.len() >= 2;
    let val = |p: usize| if p < np { &vs[p] } else { &cvs[p - np] };
    let evals: Vec<F> = qs.iter().map(|(p, j)| horner(val(*p), pts[*j])).collect();
    let mut t: W<C> = Blake2bWrite::init(vec![]);
    for c in &coms {
        t.write_point(*c).unwrap();
    }
    for p in &pts {
        t.common_scalar(*p).unwrap();
    }
    for e in &evals {
        t.write_scalar(*e).unwrap();
    }
    let pq: Vec<ProverQuery<C>> = qs
        .iter()
        .map(|(p, j)| ProverQuery {
            point: pts[*j],
            poly: if *p < np { &polys[*p] } else { &cpolys[*p - np] },
            blind: Blind(if *p < np { blinds[*p] } else { cblinds[*p - np] }),
        })
        .collect();
    multiopen::create_proof(&params, cx.rng(), &mut t, pq).map_err(|e| format!("create_proof failed: {} for queries {:?}", e, qs))?;
    let proof = t.finalize();

    // The verifier's view: commitments, points, evaluations, all changeable.
    let verify = |coms: &[C], msms: &[MSM<C>], qs: &[(usize, F, F)], proof: &[u8]| -> bool {
        let mut slice = proof;
        let mut t: Blake2bRead<_, C, Challenge255<C>> = Blake2bRead::init(&mut slice);
        let mut read = vec![];
        for _ in 0..coms.len() {
            match t.read_point() {
                Ok(p) => read.push(p),
                Err(_) => return false,
            }
        }
        for p in &pts {
            t.common_scalar(*p).unwrap();
        }
        for _ in 0..evals.len() {
            if t.read_scalar().is_err() {
                return false;
            }
        }
        let vq: Vec<VerifierQuery<C>> = qs
            .iter()
            .map(|(p, x, e)| if *p < np { VerifierQuery::new_commitment(&coms[*p], *x, *e) } else { VerifierQuery::new_msm(&msms[*p - np], *x, *e) })
            .collect();
        let r = match multiopen::verify_proof(&params, &mut t, vq, params.empty_msm()) {
            Ok(g) => g.use_challenges().eval(),
            Err(_) => return false,
        };
        r && slice.is_empty()
    };
    let vqs: Vec<(usize, F, F)> = qs.iter().zip(&evals).map(|((p, j), e)| (*p, pts[*j], *e)).collect();
    ensure!(verify(&coms, &cmsms, &vqs, &proof), "an honest multi-opening is rejected: k={} queries {:?}", k, qs);
    cx.eval();
    for _ in 0..cx.usize(1, 4) {
        let (mut c2, mut m2, mut q2, mut p2) = (coms.clone(), cmsms.clone(), vqs.clone(), proof.clone());
        let qi = cx.usize(0, q2.len() - 1);
        let what = match cx.below(9) {
            0 => {
                q2[qi].2 += cx.nz_field::<F>();
                "evaluation"
            }
            1 => {
                // two evaluations changed so that their sum is kept
                let qj = cx.usize(0, q2.len() - 1);
                let d: F = cx.nz_field();
                if qi == qj {
                    continue;
                }
                q2[qi].2 += d;
                q2[qj].2 -= d;
                "two evaluations"
            }
            2 => {
                q2[qi].1 += cx.nz_field::<F>();
                if q2[qi].2 == horner(val(q2[qi].0), q2[qi].1) {
                    // A true statement about another point, but not the one proven; only
                    // constant polynomials make this ambiguous.
                    continue;
                }
                "point"
            }
            3 => {
                let i = q2[qi].0;
                if i >= np {
                    m2[i - np].append_term(cx.nz_field(), params.get_g()[0]);
                } else {
                    c2[i] = (c2[i] + params.get_g()[cx.usize(0, n - 1)]).to_affine();
                }
                "commitment"
            }
            4 => {
                let from = 32 * (coms.len() + evals.len());
                let i = cx.usize(from, p2.len() - 1);
                p2[i] ^= 1 << cx.below(8);
                "proof bit"
            }
            5 => {
                p2.truncate(cx.usize(0, p2.len() - 1));
                "truncated"
            }
            6 => {
                // the same query twice with different values
                let mut q = q2[qi];
                q.2 += cx.nz_field::<F>();
                let at = cx.usize(0, q2.len());
                q2.insert(at, q);
                "ambiguous duplicate"
            }
            7 => {
                // swap two evaluations
                let qj = cx.usize(0, q2.len() - 1);
                if q2[qi].2 == q2[qj].2 {
                    continue;
                }
                let e = q2[qi].2;
                q2[qi].2 = q2[qj].2;
                q2[qj].2 = e;
                "evaluations swapped"
            }
            _ => {
                // an evaluation of a random commitment's blind: shift by a multiple of w is a
                // different commitment to the same polynomial, for which this proof is no opening
                let i = q2[qi].0;
                if i >= np {
                    continue;
                }
                c2[i] = (C::generator() * cx.nz_field::<F>() + c2[i]).to_affine();
                "other commitment"
            }
        };
        cx.label(what);
        let ok = catch(|| verify(&c2, &m2, &q2, &p2)).map_err(|e| format!("verification panics ({}): {}", what, e))?;
        ensure!(!ok, "a falsified multi-opening ({}, query {}) is accepted: k={} queries {:?}", what, qi, k, qs);
        cx.eval();
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

fn w_and_u<C: CurveAffine>(params: &Params<C>) -> (C, C) {
    let mut b = vec![];
    params.write(&mut b).unwrap();
    let at = |i: usize| {
        let mut r = C::Repr::default();
        r.as_mut().copy_from_slice(&b[b.len() - 32 * i..b.len() - 32 * (i - 1)]);
        C::from_bytes(&r).unwrap()
    };
    (at(2), at(1))
}

fn c09<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 3) as u32;
    let params = C::params(k);
    let n = 1usize << k;
    let (w, u) = w_and_u(&*params);
    let g = params.get_g();
    let np = cx.usize(1, 4);
    let mut pool: Vec<C> = (0..np).map(|_| point::<F, C>(cx)).collect();
    pool.push(g[0]);
    pool.push(w);
    pool.push(u);
    let neg: Vec<C> = pool.iter().map(|p| -*p).collect();
    pool.extend(neg);
    pool.push(C::identity());
    let nm = cx.usize(1, 3);
    let mut ms: Vec<(MSM<C>, C::Curve)> = (0..nm).map(|_| (params.empty_msm(), C::Curve::identity())).collect();
    let mut log = vec![];
    let nops = cx.usize(0, 30);
    for _ in 0..nops {
        let i = cx.usize(0, nm - 1);
        match cx.weighted(&[8, 2, 2, 2, 2, 4, 4, 1, 3]) {
            0 => {
                let j = cx.usize(0, pool.len() - 1);
                let s: F = cx.field();
                ms[i].0.append_term(s, pool[j]);
                ms[i].1 += pool[j] * s;
                log.push(format!("m{}+=[{}]P{}", i, short(&s), j));
            }
            1 => {
                let s: F = cx.field();
                ms[i].0.add_constant_term(s);
                ms[i].1 += g[0] * s;
                log.push(format!("m{}+=[{}]g0", i, short(&s)));
            }
            2 => {
                let v = gen_vec::<F>(cx, n);
                ms[i].0.add_to_g_scalars(&v);
                for (a, b) in v.iter().zip(&g) {
                    ms[i].1 += *b * *a;
                }
                log.push(format!("m{}+=g scalars", i));
            }
            3 => {
                let s: F = cx.field();
                ms[i].0.add_to_w_scalar(s);
                ms[i].1 += w * s;
                log.push(format!("m{}+=[{}]w", i, short(&s)));
            }
            4 => {
                let s: F = cx.field();
                ms[i].0.add_to_u_scalar(s);
                ms[i].1 += u * s;
                log.push(format!("m{}+=[{}]u", i, short(&s)));
            }
            5 => {
                let s: F = cx.field();
                ms[i].0.scale(s);
                ms[i].1 *= s;
                log.push(format!("m{}*={}", i, short(&s)));
            }
            6 => {
                let j = cx.usize(0, nm - 1);
                let o = ms[j].clone();
                ms[i].0.add_msm(&o.0);
                ms[i].1 += o.1;
                log.push(format!("m{}+=m{}", i, j));
            }
            7 => {
                let j = cx.usize(0, nm - 1);
                ms[i] = ms[j].clone();
                log.push(format!("m{}=m{}", i, j));
            }
            _ => {
                // cancel exactly
                let r = ms[i].1.to_affine();
                match cx.below(3) {
                    0 => ms[i].0.append_term(-F::ONE, r),
                    1 => ms[i].0.append_term(F::ONE, -r),
                    _ => {
                        let mut o = params.empty_msm();
                        o.append_term(F::from(2), r);
                        o.scale(-F::TWO_INV);
                        ms[i].0.add_msm(&o);
                    }
                }
                ms[i].1 = C::Curve::identity();
                log.push(format!("cancel m{}", i));
            }
        }
        if cx.chance(1, 3) {
            let want = bool::from(ms[i].1.is_identity());
            let got = ms[i].0.clone().eval();
            ensure!(got == want, "MSM evaluates to zero: {}, the group expression is the identity: {}; history {:?}", got, want, log);
            cx.label(if want { "zero" } else { "nonzero" });
            cx.eval();
        }
    }
    for (i, (m, p)) in ms.into_iter().enumerate() {
        let want = bool::from(p.is_identity());
        let got = m.eval();
        ensure!(got == want, "MSM m{} evaluates to zero: {}, the group expression is the identity: {}; history {:?}", i, got, want, log);
        cx.label(if want { "zero" } else { "nonzero" });
        cx.eval();
    }
    cx.sample(|| log.join("; "));
    cx.nontrivial = nops >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C10

fn params_bytes<C: CurveAffine>(p: &Params<C>) -> Vec<u8> {
    let mut b = vec![];
    p.write(&mut b).unwrap();
    b
}

fn naive_msm<F: Fld, C: Cv<F>>(s: &[F], b: &[C]) -> C::Curve {
    s.iter().zip(b).fold(C::Curve::identity(), |a, (s, b)| a + *b * *s)
}

fn c10_derive<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(0, if cx.tier_thorough { 9 } else { 7 }) as u32;
    let n = 1usize << k;
    cx.sample(|| format!("k={} threads={}", k, cx_threads()));
    cx.nontrivial = true;
    let p: Params<C> = Params::new(k);
    let b = params_bytes(&p);
    ensure!(p.k() == k, "k() is {}", p.k());
    let p2: Params<C> = pool(1).install(|| Params::new(k));
    ensure!(params_bytes(&p2) == b, "parameters depend on the thread count");
    ensure!(b.len() == 4 + 32 * (2 * n + 2), "encoding has {} bytes for k={}", b.len(), k);
    // derivation
    let h = C::CurveExt::hash_to_curve("Halo2-Parameters");
    let mut want = k.to_le_bytes().to_vec();
    let mut g = vec![];
    for i in 0..n {
        let mut m = vec![0u8];
        m.extend_from_slice(&(i as u32).to_le_bytes());
        let q: C = h(&m).to_affine();
        g.push(q);
        want.extend_from_slice(q.to_bytes().as_ref());
    }
    ensure!(b[..want.len()] == want[..], "generators are not the hash-to-curve outputs for k={}", k);
    ensure!(p.get_g() == g, "get_g differs from the encoding");
    let w: C = h(&[1]).to_affine();
    let u: C = h(&[2]).to_affine();
    let mut tail = w.to_bytes().as_ref().to_vec();
    tail.extend_from_slice(u.to_bytes().as_ref());
    ensure!(b[b.len() - 64..] == tail[..], "w, u are not the hash-to-curve outputs");
    // Lagrange generators: sum over j of l_i's coefficients
    let mut omega = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        omega = omega.square();
    }
    let ninv = F::from(n as u64).invert().unwrap();
    let mut idx: Vec<usize> = vec![0, n - 1, cx.usize(0, n - 1), cx.usize(0, n - 1)];
    idx.dedup();
    for i in idx {
        let wi = omega.pow_vartime([(n - i) as u64 % n as u64]);
        let mut c = ninv;
        let mut coeffs = vec![];
        for _ in 0..n {
            coeffs.push(c);
            c *= wi;
        }
        let q = naive_msm::<F, C>(&coeffs, &g).to_affine();
        let at = 4 + 32 * (n + i);
        ensure!(b[at..at + 32] == *q.to_bytes().as_ref(), "Lagrange generator {} is wrong for k={}", i, k);
    }
    // round trip, leaving what follows alone
    let mut data = b.clone();
    data.extend_from_slice(&[1, 2, 3]);
    let mut r = &data[..];
    let q = Params::<C>::read(&mut r).map_err(|e| format!("read: {}", e))?;
    ensure!(r == [1, 2, 3], "read consumed {} bytes of {}", data.len() - r.len(), b.len());
    ensure!(params_bytes(&q) == b, "parameters change in a round trip");
    ensure!(q.k() == k, "k changes in a round trip");
    let v = gen_vec::<F>(cx, n);
    let bl: F = cx.field();
    let d = EvaluationDomain::<F>::new(1, k);
    ensure!(
        q.commit(&d.coeff_from_vec(v.clone()), Blind(bl)) == p.commit(&d.coeff_from_vec(v.clone()), Blind(bl))
            && q.commit_lagrange(&d.lagrange_from_vec(v.clone()), Blind(bl)) == p.commit_lagrange(&d.lagrange_from_vec(v), Blind(bl)),
        "parameters read back commit differently"
    );
    Ok(())
}
fn cx_threads() -> usize {
    rayon::current_num_threads()
}

fn c10_linear<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 6) as u32;
    let n = 1usize << k;
    let p = C::params(k);
    let d = EvaluationDomain::<F>::new(1, k);
    let a = gen_vec::<F>(cx, n);
    let b = gen_vec::<F>(cx, n);
    let (ra, rb, s): (F, F, F) = (cx.field(), cx.field(), cx.field());
    cx.sample(|| format!("k={} a0={} ra={} s={}", k, short(&a[0]), short(&ra), short(&s)));
    cx.nontrivial = true;
    let (w, _) = w_and_u(&*p);
    let commit = |v: &[F], r: F| p.commit(&d.coeff_from_vec(v.to_vec()), Blind(r));
    let ca = commit(&a, ra);
    let cb = commit(&b, rb);
    ensure!(ca == naive_msm::<F, C>(&a, &p.get_g()) + w * ra, "commit differs from the sum of products: k={}", k);
    // evaluation form
    let la = d.lagrange_from_vec(a.clone());
    let as_coeff = d.lagrange_to_coeff(la.clone());
    ensure!(
        p.commit_lagrange(&la, Blind(ra)) == p.commit(&as_coeff, Blind(ra)),
        "commitments in coefficient and evaluation form differ: k={}",
        k
    );
    // homomorphic
    let sum: Vec<F> = a.iter().zip(&b).map(|(x, y)| *x + *y).collect();
    ensure!(commit(&sum, ra + rb) == ca + cb, "commitments are not additive");
    let sc: Vec<F> = a.iter().map(|x| *x * s).collect();
    ensure!(commit(&sc, ra * s) == ca * s, "commitments are not homogeneous");
    // Blind arithmetic
    let mut bb = Blind(ra) + Blind(rb);
    bb += Blind(ra);
    bb *= Blind(rb);
    bb += s;
    bb *= s;
    ensure!(bb == Blind(((ra + rb + ra) * rb + s) * s) && (Blind(ra) * Blind(rb)).0 == ra * rb, "blinding factor arithmetic");
    // binding
    if a != b {
        ensure!(commit(&a, ra) != commit(&b, ra), "two polynomials have the same commitment");
    }
    if ra != rb {
        ensure!(commit(&a, ra) != commit(&a, rb), "two blinding factors give the same commitment");
    }
    Ok(())
}

fn c10_malformed<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 3) as u32;
    let p = C::params(k);
    let mut b = params_bytes(&*p);
    let n = 1usize << k;
    let what;
    match cx.below(5) {
        0 => {
            b.truncate(cx.usize(0, b.len() - 1));
            what = "truncated".to_string();
        }
        1 => {
            // an impossible size
            let bad = *cx.pick(&[32u32, 33, 63, 64, 65, 68, 96, 127, 128, 256, 1 << 16, u32::MAX, u32::MAX - 31]);
            b[..4].copy_from_slice(&bad.to_le_bytes());
            what = format!("size {}", bad);
        }
        2 => {
            // a larger size than the data
            b[..4].copy_from_slice(&(k + 1 + cx.below(8) as u32).to_le_bytes());
            what = "size too large for the data".to_string();
        }
        _ => {
            let i = cx.usize(0, 2 * n + 1);
            let at = 4 + 32 * i;
            let mut e = [0u8; 32];
            e.copy_from_slice(&b[at..at + 32]);
            match cx.below(4) {
                0 => {
                    let mut x = e;
                    x[31] &= 0x7f;
                    if let Some(v) = add_le(&x, &modulus::<C::Base>()) {
                        let s = e[31] & 0x80;
                        if v[31] < 0x80 {
                            e.copy_from_slice(&v);
                            e[31] |= s;
                        }
                    }
                }
                1 => e = [0xff; 32],
                2 => {
                    e = [0; 32];
                    e[31] = 0x80;
                }
                _ => e.copy_from_slice(&cx.bytes(32)),
            }
            if e == [0u8; 32] || point_valid::<C>(&e) {
                return Ok(());
            }
            b[at..at + 32].copy_from_slice(&e);
            what = format!("element {} of {}", i, 2 * n + 2);
        }
    }
    cx.label(what.split(' ').next().unwrap().to_string());
    cx.sample(|| format!("k={} {}", k, what));
    cx.nontrivial = true;
    let r = catch(|| Params::<C>::read(&mut &b[..]).is_ok()).map_err(|e| format!("reading malformed parameters panics ({}): {}", what, e))?;
    ensure!(!r, "malformed parameters are accepted: k={} {}", k, what);
    Ok(())
}

// ------------------------------------------------------------------ C11

fn c11_domain<F: Fld>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 7) as u32;
    let n = 1usize << k;
    let j = cx.usize(1, 12) as u32;
    let d = EvaluationDomain::<F>::new(j, k);
    let qd = (j - 1) as usize;
    cx.sample(|| format!("k={} j={} threads={}", k, j, cx_threads()));
    cx.nontrivial = k >= 1;
    cx.label(format!("k={}", k));
    cx.label(format!("j={}", j));
    let omega = d.get_omega();
    let eo = d.get_extended_omega();
    let en = d.extended_len();
    let order = |w: F, n: usize| w.pow_vartime([n as u64]) == F::ONE && (n == 1 || w.pow_vartime([n as u64 / 2]) != F::ONE);
    ensure!(order(omega, n), "omega does not have order n: k={} j={}", k, j);
    ensure!(omega * d.get_omega_inv() == F::ONE, "omega_inv is wrong");
    ensure!(en.is_power_of_two() && en >= n && en >= n * qd && (en == n || en / 2 < n * qd), "extended length {} for k={} j={}", en, k, j);
    ensure!(order(eo, en), "extended omega does not have order {}", en);
    ensure!(eo.pow_vartime([(en / n) as u64]) == omega, "the extended domain does not refine the domain");
    ensure!(d.get_quotient_poly_degree() == qd, "quotient degree {}", d.get_quotient_poly_degree());
    let zeta = <F as WithSmallOrderMulGroup<3>>::ZETA;

    // Lagrange to coefficients
    let vals = gen_vec::<F>(cx, n);
    let lag = d.lagrange_from_vec(vals.clone());
    let co = d.lagrange_to_coeff(lag.clone());
    ensure!(co.num_coeffs() == n, "wrong length");
    let cv: Vec<F> = co.iter().cloned().collect();
    let mut x = F::ONE;
    for v in &vals {
        ensure!(horner(&cv, x) == *v, "interpolated polynomial has the wrong value: k={}", k);
        x *= omega;
    }
    // coefficients to coset and back
    let c2 = gen_vec::<F>(cx, n);
    let ext = d.coeff_to_extended(d.coeff_from_vec(c2.clone()));
    ensure!(ext.num_coeffs() == en, "wrong extended length");
    let mut pts: Vec<F> = Vec::with_capacity(en);
    let mut x = zeta;
    for _ in 0..en {
        pts.push(x);
        x *= eo;
    }
    let check: Vec<usize> = if en <= 64 { (0..en).collect() } else { (0..24).map(|_| cx.usize(0, en - 1)).collect() };
    for i in &check {
        ensure!(ext[*i] == horner(&c2, pts[*i]), "coset evaluation {} is wrong: k={} j={}", i, k, j);
    }
    if qd >= 1 {
        let back = d.extended_to_coeff(ext.clone());
        let mut want = c2.clone();
        want.resize(n * qd, F::ZERO);
        ensure!(back == want, "coset form does not convert back: k={} j={}", k, j);
    }
    // rotation over the coset
    let r = cx.usize(0, 2 * n) as i32 - n as i32;
    let rot = d.rotate_extended(&ext, Rotation(r));
    let wr = if r >= 0 { omega.pow_vartime([r as u64]) } else { d.get_omega_inv().pow_vartime([(-r) as u64]) };
    for i in &check {
        ensure!(rot[*i] == horner(&c2, pts[*i] * wr), "rotated coset evaluation {} is wrong: k={} j={} r={}", i, k, j, r);
    }
    let lr = lag.rotate(Rotation(r));
    for i in 0..n {
        ensure!(lr[i] == vals[(i as i64 + r as i64).rem_euclid(n as i64) as usize], "rotation of evaluations is wrong: k={} r={}", k, r);
    }
    let v0: F = cx.field();
    let big = cx.below(1 << 20) as i32 - (1 << 19);
    for r in [r, big] {
        let e = (r as i64).rem_euclid(n as i64) as u64;
        ensure!(d.rotate_omega(v0, Rotation(r)) == v0 * omega.pow_vartime([e]), "rotate_omega is wrong for {}", r);
    }
    // division by the vanishing polynomial
    if qd >= 2 {
        let q = gen_vec::<F>(cx, n * (qd - 1));
        let evals: Vec<F> = {
            // (X^n - 1) q(X) on the coset
            let mut t = vec![F::ZERO; n * qd];
            for (i, c) in q.iter().enumerate() {
                t[i + n] += *c;
                t[i] -= *c;
            }
            // by FFT-free evaluation
            if n * qd <= 256 {
                pts.iter().map(|x| horner(&t, *x)).collect()
            } else {
                vec![]
            }
        };
        if !evals.is_empty() {
            let mut a = d.empty_extended();
            ensure!(a.iter().all(|x| bool::from(x.is_zero())) && a.num_coeffs() == en, "empty_extended is not zero");
            for (i, e) in evals.iter().enumerate() {
                a[i] = *e;
            }
            let h = d.divide_by_vanishing_poly(a);
            let back = d.extended_to_coeff(h);
            let mut want = q.clone();
            want.resize(n * qd, F::ZERO);
            ensure!(back == want, "division by the vanishing polynomial is wrong: k={} j={}", k, j);
            cx.label("vanishing division");
        }
    }
    // Lagrange basis evaluations
    let mut x: F = cx.field();
    while x.pow_vartime([n as u64]) == F::ONE {
        x += F::from(3);
    }
    let lo = cx.usize(0, 6) as i32 - 6;
    let hi = lo + cx.usize(0, 9) as i32;
    let xn = x.pow_vartime([n as u64]);
    let ls = d.l_i_range(x, xn, lo..=hi);
    ensure!(ls.len() == (hi - lo + 1) as usize, "l_i_range returns {} values", ls.len());
    for (i, l) in (lo..=hi).zip(&ls) {
        let i = (i as i64).rem_euclid(n as i64) as usize;
        // prod over m != i of (x - w^m) / (w^i - w^m)
        let wi = omega.pow_vartime([i as u64]);
        let (mut nu, mut de) = (F::ONE, F::ONE);
        let mut wm = F::ONE;
        for m in 0..n {
            if m != i {
                nu *= x - wm;
                de *= wi - wm;
            }
            wm *= omega;
        }
        ensure!(*l == nu * de.invert().unwrap(), "l_{} at a point is wrong: k={}", i, k);
    }
    // constants, sums, scaling
    ensure!(d.constant_lagrange(v0).iter().all(|x| *x == v0) && d.constant_lagrange(v0).num_coeffs() == n, "constant_lagrange");
    ensure!(d.constant_extended(v0).iter().all(|x| *x == v0) && d.constant_extended(v0).num_coeffs() == en, "constant_extended");
    ensure!(d.empty_coeff().iter().all(|x| *x == F::ZERO) && d.empty_coeff().num_coeffs() == n, "empty_coeff");
    ensure!(d.empty_lagrange().iter().all(|x| *x == F::ZERO) && d.empty_lagrange().num_coeffs() == n, "empty_lagrange");
    let s = lag.clone() + &lr;
    let m = lag.clone() * v0;
    for i in 0..n {
        ensure!(s[i] == lag[i] + lr[i], "sum of polynomials is wrong");
        ensure!(m[i] == lag[i] * v0, "scaled polynomial is wrong");
    }
    let _: &Polynomial<F, LagrangeCoeff> = &m;
    Ok(())
}

fn c11_fft<F: Fld>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 9) as u32;
    let n = 1usize << k;
    let mut omega = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        omega = omega.square();
    }
    if cx.bool() {
        omega = omega.invert().unwrap();
    }
    let a = gen_vec::<F>(cx, n);
    let mut b = a.clone();
    best_fft(&mut b, omega, k);
    cx.sample(|| format!("k={} threads={}", k, cx_threads()));
    cx.label(format!("threads={}", cx_threads()));
    cx.nontrivial = k >= 1;
    let idx: Vec<usize> = if n <= 32 { (0..n).collect() } else { (0..20).map(|_| cx.usize(0, n - 1)).collect() };
    for i in idx {
        ensure!(b[i] == horner(&a, omega.pow_vartime([i as u64])), "FFT output {} is wrong: k={} threads={}", i, k, cx_threads());
    }
    let mut c = a.clone();
    pool(1).install(|| best_fft(&mut c, omega, k));
    ensure!(c == b, "FFT depends on the thread count: k={}", k);
    best_fft(&mut c, omega.invert().unwrap(), k);
    let ninv = F::from(n as u64).invert().unwrap();
    ensure!(c.iter().zip(&a).all(|(x, y)| *x * ninv == *y), "inverse FFT does not invert: k={}", k);
    Ok(())
}

fn c11_fft_group<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let k = cx.usize(0, 5) as u32;
    let n = 1usize << k;
    let mut omega = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        omega = omega.square();
    }
    let s = gen_vec::<F>(cx, n);
    let mut g: Vec<C::Curve> = s.iter().map(|x| C::generator() * *x).collect();
    best_fft(&mut g, omega, k);
    cx.sample(|| format!("k={} threads={}", k, cx_threads()));
    cx.nontrivial = k >= 1;
    for (i, p) in g.iter().enumerate() {
        let want = C::generator() * horner(&s, omega.pow_vartime([i as u64]));
        ensure!(*p == want, "group FFT output {} is wrong: k={} threads={}", i, k, cx_threads());
    }
    Ok(())
}

fn c11_arith<F: Fld>(cx: &mut Cx) -> R {
    let n = cx.usize(1, 40);
    let a = gen_vec::<F>(cx, n);
    let b = gen_vec::<F>(cx, n);
    let x: F = cx.field();
    cx.sample(|| format!("n={} a0={} x={}", n, short(&a[0]), short(&x)));
    cx.nontrivial = n >= 2;
    ensure!(eval_polynomial(&a, x) == horner(&a, x), "eval_polynomial: n={} x={}", n, short(&x));
    ensure!(eval_polynomial::<F>(&[], x) == F::ZERO, "eval_polynomial of nothing");
    let ip: F = a.iter().zip(&b).map(|(x, y)| *x * *y).sum();
    ensure!(compute_inner_product(&a, &b) == ip, "compute_inner_product: n={}", n);
    // a = q (X - x) + a(x)
    let q = kate_division(&a, x);
    ensure!(q.len() == n - 1, "kate_division returns {} coefficients for {}", q.len(), n);
    let mut back = vec![F::ZERO; n];
    back[0] = horner(&a, x);
    for (i, c) in q.iter().enumerate() {
        back[i + 1] += *c;
        back[i] -= *c * x;
    }
    ensure!(back == a, "kate_division: n={} x={}", n, short(&x));
    // interpolation
    let m = cx.usize(1, 12);
    let mut pts: Vec<F> = vec![];
    let mut guard = 0;
    while pts.len() < m && guard < 40 {
        let p: F = cx.field();
        if !pts.contains(&p) {
            pts.push(p);
        }
        guard += 1;
    }
    let evals: Vec<F> = gen_vec(cx, pts.len());
    let poly = lagrange_interpolate(&pts, &evals);
    ensure!(poly.len() == pts.len(), "lagrange_interpolate returns {} coefficients for {} points", poly.len(), pts.len());
    for (p, e) in pts.iter().zip(&evals) {
        ensure!(horner(&poly, *p) == *e, "interpolated polynomial misses a point ({} points)", pts.len());
    }
    Ok(())
}

fn c11_parallelize(cx: &mut Cx) -> R {
    let n = cx.usize(1, 300);
    let mut v: Vec<(u32, usize)> = vec![(0, usize::MAX); n];
    parallelize(&mut v, |c, start| {
        for (i, x) in c.iter_mut().enumerate() {
            x.0 += 1;
            x.1 = start + i;
        }
    });
    cx.sample(|| format!("n={} threads={}", n, cx_threads()));
    cx.label(format!("threads={}", cx_threads()));
    cx.nontrivial = n > 1;
    ensure!(v.iter().enumerate().all(|(i, x)| *x == (1, i)), "parallelize visits an element not exactly once with its index: n={} threads={}", n, cx_threads());
    Ok(())
}

// ------------------------------------------------------------------ C12

fn c12<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let n = match cx.weighted(&[6, 4, 3, 1]) {
        0 => cx.usize(0, 9),
        1 => cx.usize(10, 40),
        2 => *cx.pick(&[31, 32, 33, 54, 55, 63, 64, 65, 148, 149, 150]),
        _ => *cx.pick(&[403, 404, 1024, 1096, 1097]),
    };
    let np = cx.usize(1, 5);
    let mut pool_: Vec<C> = (0..np).map(|_| point::<F, C>(cx)).collect();
    let neg: Vec<C> = pool_.iter().map(|p| -*p).collect();
    pool_.extend(neg);
    if cx.chance(1, 2) {
        pool_.push(C::identity());
    }
    let style = cx.below(4);
    let mut rng = cx.rng();
    let mut bases: Vec<C> = vec![];
    let mut scalars: Vec<F> = vec![];
    let fixed: F = cx.field();
    for i in 0..n {
        bases.push(match style {
            0 => pool_[0],
            1 => pool_[i % pool_.len()],
            _ => {
                pool_[rng.next_u32() as usize % pool_.len()]
            }
        });
        use rand::RngCore;
        let sel = if style == 0 { 0 } else { rng.next_u32() % 8 };
        scalars.push(match sel {
            0 => fixed,
            1 => F::ZERO,
            2 => F::ONE,
            3 => -F::ONE,
            4 => F::from(rng.next_u64()),
            5 => F::from(2).pow_vartime([rng.next_u64() % 255]) - F::from(rng.next_u64() % 2),
            6 => -F::from(rng.next_u64() % 8),
            _ => F::random(&mut rng),
        });
    }
    cx.label(format!("threads={}", cx_threads()));
    cx.label(if n < 4 { "n<4" } else if n < 32 { "n<32" } else { "n>=32" });
    cx.sample(|| format!("n={} style={} threads={}", n, style, cx_threads()));
    cx.nontrivial = n >= 2;
    // The oracle groups terms by base, so that few scalar multiplications are needed.
    let mut want = C::Curve::identity();
    for p in &pool_ {
        let s: F = bases.iter().zip(&scalars).filter(|(b, _)| *b == p).map(|(_, s)| *s).sum();
        if pool_.iter().position(|q| q == p) == pool_.iter().rposition(|q| std::ptr::eq(q, p)) {
            want += *p * s;
        }
    }
    let got = best_multiexp(&scalars, &bases);
    ensure!(got == want, "best_multiexp differs from the sum: n={} style={} threads={}", n, style, cx_threads());
    if n <= 150 {
        let got = small_multiexp(&scalars, &bases);
        ensure!(got == want, "small_multiexp differs from the sum: n={} style={}", n, style);
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

fn gen_assigned<F: Fld>(cx: &mut Cx) -> Assigned<F> {
    match cx.weighted(&[1, 3, 3, 1, 1]) {
        0 => Assigned::Zero,
        1 => Assigned::Trivial(cx.field()),
        2 => Assigned::Rational(cx.field(), cx.field()),
        3 => Assigned::Rational(cx.field(), F::ZERO),
        _ => Assigned::Rational(cx.field(), F::ONE),
    }
}
fn inv0<F: Field>(x: F) -> F {
    x.invert().unwrap_or(F::ZERO)
}
/// A random computation on fractions and, in parallel, on field elements.
fn gen_tree<F: Fld>(cx: &mut Cx, depth: usize, ops: &mut usize) -> (Assigned<F>, F, String) {
    if depth == 0 || cx.chance(1, 5) {
        let a = gen_assigned::<F>(cx);
        let v = eval_assigned(&a);
        let s = match &a {
            Assigned::Zero => "Z".to_string(),
            Assigned::Trivial(x) => short(x),
            Assigned::Rational(n, d) => format!("{}/{}", short(n), short(d)),
        };
        return (a, v, s);
    }
    *ops += 1;
    let op = cx.below(9);
    let (a, va, sa) = gen_tree::<F>(cx, depth - 1, ops);
    if op >= 4 {
        return match op {
            4 => (if cx.bool() { -a } else { -&a }, -va, format!("-{}", sa)),
            5 => (a.double(), va + va, format!("2{}", sa)),
            6 => (a.square(), va * va, format!("{}^2", sa)),
            7 => (a.cube(), va * va * va, format!("{}^3", sa)),
            _ => (a.invert(), inv0(va), format!("1/({})", sa)),
        };
    }
    let form = cx.below(8);
    if form >= 6 {
        // a field element on the right
        let f: F = cx.field();
        let r = match (op, form) {
            (0, 6) => a + f,
            (0, _) => &a + f,
            (1, 6) => a - f,
            (1, _) => &a - f,
            (_, 6) => a * f,
            (_, _) => &a * f,
        };
        let v = match op {
            0 => va + f,
            1 => va - f,
            _ => va * f,
        };
        return (r, v, format!("({}{}{})", sa, ["+", "-", "*", "*"][op as usize], short(&f)));
    }
    let (b, vb, sb) = gen_tree::<F>(cx, depth - 1, ops);
    let r = match (op, form) {
        (0, 0) => a + b,
        (0, 1) => a + &b,
        (0, 2) => &a + b,
        (0, 3) => &a + &b,
        (0, 4) => {
            let mut x = a;
            x += b;
            x
        }
        (0, _) => {
            let mut x = a;
            x += &b;
            x
        }
        (1, 0) => a - b,
        (1, 1) => a - &b,
        (1, 2) => &a - b,
        (1, 3) => &a - &b,
        (1, 4) => {
            let mut x = a;
            x -= b;
            x
        }
        (1, _) => {
            let mut x = a;
            x -= &b;
            x
        }
        (_, 0) | (_, 2) => a * b,
        (_, 1) | (_, 3) => a * &b,
        (_, 4) => {
            let mut x = a;
            x *= b;
            x
        }
        (_, _) => {
            let mut x = a;
            x *= &b;
            x
        }
    };
    let v = match op {
        0 => va + vb,
        1 => va - vb,
        _ => va * vb,
    };
    (r, v, format!("({}{}{})", sa, ["+", "-", "*", "*"][op as usize], sb))
}

fn c13_assigned<F: Fld>(cx: &mut Cx) -> R {
    let mut ops = 0;
    let d = cx.usize(1, 5);
    let (a, va, sa) = gen_tree::<F>(cx, d, &mut ops);
    cx.sample(|| sa.clone());
    cx.nontrivial = ops >= 1;
    ensure!(eval_assigned(&a) == va, "{} is {:?}, expected {}", sa, a, short(&va));
    ensure!(a.evaluate() == va, "{} evaluates to {}, expected {}", sa, short(&a.evaluate()), short(&va));
    ensure!(a.is_zero_vartime() == bool::from(va.is_zero()), "is_zero of {}", sa);
    // numerator and denominator describe the same value
    let nd = a.numerator() * inv0(a.denominator().unwrap_or(F::ONE));
    ensure!(nd == va, "numerator/denominator of {} give {}", sa, short(&nd));
    let (b, vb, sb) = match cx.below(3) {
        0 => {
            let mut o = 0;
            gen_tree::<F>(cx, 2, &mut o)
        }
        1 => (Assigned::from(va), va, short(&va)),
        _ => {
            // the same value as another fraction
            let f: F = cx.field();
            let den = a.denominator().unwrap_or(F::ONE);
            let x = Assigned::from((a.numerator() * f, den * f));
            (x, eval_assigned(&x), format!("{}*f/f", sa))
        }
    };
    ensure!((a == b) == (va == vb), "{} == {} is {}, values {} and {}", sa, sb, a == b, short(&va), short(&vb));
    ensure!((b == a) == (va == vb), "equality is not symmetric: {} and {}", sa, sb);
    cx.label(if va == vb { "equal" } else { "different" });
    if bool::from(va.is_zero()) {
        cx.label("zero");
    }
    Ok(())
}

fn opt<T>(v: Value<T>) -> Option<T> {
    let mut out = None;
    let _ = v.map(|x| out = Some(x));
    out
}
fn mk<T>(o: Option<T>) -> Value<T> {
    o.map(Value::known).unwrap_or_else(Value::unknown)
}

fn c13_value(cx: &mut Cx) -> R {
    type F = Fp;
    let oa: Option<F> = if cx.chance(1, 4) { None } else { Some(cx.field()) };
    let ob: Option<F> = if cx.chance(1, 4) { None } else { Some(cx.field()) };
    let (a, b) = (mk(oa), mk(ob));
    cx.sample(|| format!("{:?} {:?}", oa.map(|x| short(&x)), ob.map(|x| short(&x))));
    cx.nontrivial = oa.is_some() || ob.is_some();
    cx.label(match (oa.is_some(), ob.is_some()) {
        (true, true) => "known",
        (false, false) => "unknown",
        _ => "mixed",
    });
    let z = |f: fn(F, F) -> F| oa.zip(ob).map(|(x, y)| f(x, y));
    let add = z(|x, y| x + y);
    let sub_ = z(|x, y| x - y);
    let mul = z(|x, y| x * y);
    macro_rules! same {
        ($w:expr, $($e:expr),* $(,)?) => { $( ensure!(opt($e) == $w, "{} is {:?}, expected {:?}", stringify!($e), opt($e), $w); )* };
    }
    same!(add, a + b, &a + &b, a + b.as_ref(), a.as_ref() + b, a + &b, &a + b);
    same!(sub_, a - b, &a - &b, a - b.as_ref(), a.as_ref() - b, a - &b, &a - b);
    same!(mul, a * b, &a * &b, a * b.as_ref(), a.as_ref() * b, a * &b, &a * b);
    same!(oa.map(|x| -x), -a);
    same!(oa, a.as_ref().copied(), a.as_ref().cloned(), { let mut c = a; c.as_mut().copied() }, { let mut c = a; c.as_mut().cloned() }, a.map(|x| x));
    same!(oa.map(|x| x.square()), a.map(|x| x.square()), a.and_then(|x| Value::known(x.square())));
    same!(None::<F>, a.and_then(|_| Value::<F>::unknown()), Value::<F>::unknown(), Value::<F>::default());
    ensure!(opt(a.zip(b)) == oa.zip(ob), "zip");
    let (l, r) = a.zip(b).unzip();
    ensure!(opt(l) == oa.zip(ob).map(|x| x.0) && opt(r) == oa.zip(ob).map(|x| x.1), "unzip");
    // assertions see the value exactly when it is known
    let mut seen = None;
    a.assert_if_known(|x| {
        seen = Some(*x);
        true
    });
    ensure!(seen == oa, "assert_if_known saw {:?}", seen);
    ensure!(a.error_if_known_and(|_| true).is_err() == oa.is_some(), "error_if_known_and(true)");
    ensure!(a.error_if_known_and(|_| false).is_ok(), "error_if_known_and(false)");
    ensure!(catch(|| a.assert_if_known(|_| false)).is_err() == oa.is_some(), "assert_if_known(false)");
    // fractions
    let oq: Option<Assigned<F>> = if cx.chance(1, 5) { None } else { Some(gen_assigned(cx)) };
    let q = mk(oq);
    let qv = oq.map(|x| eval_assigned(&x));
    let f: F = cx.field();
    macro_rules! eval {
        ($w:expr, $($e:expr),* $(,)?) => { $( let got = opt(($e).map(|x: Assigned<F>| eval_assigned(&x))); ensure!(got == $w, "{} is {:?}, expected {:?}", stringify!($e), got, $w); )* };
    }
    let zb = |g: fn(F, F) -> F| qv.zip(ob).map(|(x, y)| g(x, y));
    eval!(zb(|x, y| x + y), q + b, q.as_ref() + b);
    eval!(zb(|x, y| x - y), q - b, q.as_ref() - b);
    eval!(zb(|x, y| x * y), q * b, q.as_ref() * b);
    eval!(qv.map(|x| x + f), q + f, q.as_ref() + f);
    eval!(qv.map(|x| x - f), q - f, q.as_ref() - f);
    eval!(qv.map(|x| x * f), q * f, q.as_ref() * f);
    eval!(qv.map(|x| x.double()), q.double(), q.as_ref().double());
    eval!(qv.map(|x| x.square()), q.square(), q.as_ref().square());
    eval!(qv.map(|x| x.cube()), q.cube(), q.as_ref().cube());
    eval!(qv.map(inv0), q.invert(), q.as_ref().invert());
    eval!(oa, Value::<Assigned<F>>::from(a), a.to_field::<F>(), a.into_field::<F>());
    same!(qv, q.evaluate());
    let oq2: Option<Assigned<F>> = if cx.chance(1, 5) { None } else { Some(gen_assigned(cx)) };
    let q2 = mk(oq2);
    let zz = |g: fn(F, F) -> F| qv.zip(oq2.map(|x| eval_assigned(&x))).map(|(x, y)| g(x, y));
    eval!(zz(|x, y| x + y), q + q2, q.as_ref() + q2, q + q2.as_ref());
    eval!(zz(|x, y| x - y), q - q2, q.as_ref() - q2, q - q2.as_ref());
    eval!(zz(|x, y| x * y), q * q2, q * q2.as_ref());
    Ok(())
}

fn c13_containers(cx: &mut Cx) -> R {
    let n = cx.usize(0, 6);
    let xs: Vec<Option<u64>> = (0..n).map(|_| if cx.chance(1, 8) { None } else { Some(cx.below(100)) }).collect();
    let want: Option<Vec<u64>> = xs.iter().cloned().collect();
    let v: Value<Vec<u64>> = xs.iter().map(|x| mk(*x)).collect();
    cx.sample(|| format!("{:?}", xs));
    cx.nontrivial = n >= 1;
    ensure!(opt(v.clone()) == want, "collect of {:?} gives {:?}", xs, opt(v));
    let t = v.transpose_vec(n);
    ensure!(t.len() == n, "transpose_vec gives {} values", t.len());
    for (i, x) in t.into_iter().enumerate() {
        ensure!(opt(x) == want.as_ref().map(|w| w[i]), "transpose_vec element {}", i);
    }
    let arr: Value<[u64; 3]> = if cx.bool() { Value::known([n as u64, 7, 9]) } else { Value::unknown() };
    let oarr = opt(arr);
    for (i, x) in arr.transpose_array().iter().enumerate() {
        ensure!(opt(*x) == oarr.map(|a| a[i]), "transpose_array element {}", i);
    }
    let wrong: Value<Vec<u64>> = Value::known(vec![1; n]);
    ensure!(catch(move || wrong.transpose_vec(n + 1)).is_err(), "transpose_vec with the wrong length");
    Ok(())
}

/// Fractions in advice and fixed cells of a real circuit, next to the field elements they stand for.
#[derive(Clone)]
struct FracCircuit {
    adv: Vec<(Assigned<Fp>, Fp)>,
    fix: Vec<(Assigned<Fp>, Fp)>,
    known: bool,
}
impl Circuit<Fp> for FracCircuit {
    type Config = (Column<Advice>, Column<Advice>, Column<Fixed>, Column<Fixed>, Selector, Selector);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        FracCircuit { known: false, ..self.clone() }
    }
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let (a, b, f, g) = (m.advice_column(), m.advice_column(), m.fixed_column(), m.fixed_column());
        let (s, t) = (m.selector(), m.selector());
        m.create_gate("advice", |v| {
            let s = v.query_selector(s);
            let a = v.query_advice(a, Rotation::cur());
            let b = v.query_advice(b, Rotation::cur());
            vec![s * (a - b)]
        });
        m.create_gate("fixed", |v| {
            let t = v.query_selector(t);
            let f = v.query_fixed(f);
            let g = v.query_fixed(g);
            vec![t * (f - g)]
        });
        (a, b, f, g, s, t)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        l.assign_region(
            || "r",
            |mut r| {
                for (i, (q, v)) in self.adv.iter().enumerate() {
                    c.4.enable(&mut r, i)?;
                    let val = |x: Assigned<Fp>| if self.known { Value::known(x) } else { Value::unknown() };
                    r.assign_advice(|| "q", c.0, i, || val(*q))?;
                    r.assign_advice(|| "v", c.1, i, || val((*v).into()))?;
                }
                for (i, (q, v)) in self.fix.iter().enumerate() {
                    c.5.enable(&mut r, i)?;
                    r.assign_fixed(|| "q", c.2, i, || Value::known(*q))?;
                    r.assign_fixed(|| "v", c.3, i, || Value::known(*v))?;
                }
                Ok(())
            },
        )
    }
}

fn c13_circuit(cx: &mut Cx) -> R {
    let k = 5;
    let rows = cx.usize(1, 20);
    let list = |cx: &mut Cx| -> Vec<(Assigned<Fp>, Fp)> {
        (0..rows)
            .map(|_| {
                let mut o = 0;
                let (a, v, _) = gen_tree::<Fp>(cx, 3, &mut o);
                (a, v)
            })
            .collect()
    };
    let mut c = FracCircuit { adv: list(cx), fix: list(cx), known: true };
    let bad = match cx.below(3) {
        0 => {
            let i = cx.usize(0, rows - 1);
            c.adv[i].1 += cx.nz_field::<Fp>();
            1
        }
        1 => {
            let i = cx.usize(0, rows - 1);
            c.fix[i].1 += cx.nz_field::<Fp>();
            2
        }
        _ => 0,
    };
    cx.sample(|| format!("rows={} bad={}", rows, bad));
    cx.label(format!("bad={}", bad));
    cx.nontrivial = true;
    let m = MockProver::run(k, &c, vec![]).map_err(|e| format!("mock: {:?}", e))?;
    ensure!(m.verify().is_ok() == (bad == 0), "mock prover verdict {:?}, {} fractions changed", m.verify().is_ok(), bad);
    let params = <EqAffine as Cv<Fp>>::params(k);
    let vk = keygen_vk(&params, &c.without_witnesses()).map_err(|e| format!("keygen_vk: {:?}", e))?;
    let pk = keygen_pk(&params, vk, &c.without_witnesses()).map_err(|e| format!("keygen_pk: {:?}", e))?;
    let mut t: W<EqAffine> = Blake2bWrite::init(vec![]);
    let rng: ChaCha8Rng = cx.rng();
    let r = plonk_prove(&params, &pk, &[c], &[&[]], rng, &mut t);
    let ok = match r {
        Ok(()) => crate::spec::verify::<Fp, EqAffine>(&params, pk.get_vk(), &[vec![]], &t.finalize()).is_ok(),
        Err(_) => false,
    };
    ensure!(ok == (bad == 0), "proof accepted={} with {} fractions changed ({} rows)", ok, bad, rows);
    let _ = BTreeSet::<usize>::new();
    Ok(())
}
