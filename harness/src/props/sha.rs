//! C31 SHA-256 rounds of the table-based circuit.
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

use ff::Field;
use halo2_gadgets::sha256::{BlockWord, Sha256, Sha256Instructions, Table16Chip, Table16Config, BLOCK_SIZE};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::{Circuit, ConstraintSystem, Error};
use pasta_curves::Fp;
use rand::seq::SliceRandom;
use rand::{Rng, RngCore};
use rand_chacha::ChaCha8Rng;

use crate::engine::{sub, Cx, Prop, R};
use crate::ensure;
use crate::forge::{self, Trace};
use crate::gadget::{attack, attack_roots, honest, Plan};
use crate::tamper::{Pos, Tamper, K};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "at least one block compressed and its digest compared with the reference; distinct by generator tape",
        assumptions: &[
            "k = 17 (the spread table has 2^16 rows)",
            "digests are compared with the chained rounds of SHA-256: the gadget leaves feed-forward and length padding out",
        ],
        subs: vec![sub("mock", 1, 20, c31_mock), sub("chip", 24, 1500, c31_chip), sub("updates", 24, 1500, c31_updates), sub("cells", 8, 200, c31_cells), sub("forge", 16, 400, c31_forge)],
    }]
}

// ------------------------------------------------------------------------------------------------
// Reference

const PRIMES: [u64; 64] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149,
    151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311,
];
/// First 32 bits of the fractional part of the root of a prime.
fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(root(p) * 2^32) by bisection in 128-bit arithmetic
    let (mut lo, mut hi) = (0u128, 1u128 << 38);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        // m <= root(p) * 2^32 ?
        let le = if cube {
            // m^3 <= p * 2^96
            m * m <= ((p as u128) << 96) / m
        } else {
            m * m <= (p as u128) << 64
        };
        if le {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}
lazy_static::lazy_static! {
    static ref KS: Vec<u32> = PRIMES.iter().map(|p| frac_root(*p, true)).collect();
    static ref IV: [u32; 8] = {
        let v: Vec<u32> = PRIMES[..8].iter().map(|p| frac_root(*p, false)).collect();
        v.try_into().unwrap()
    };
}
fn schedule(block: &[u32]) -> Vec<u32> {
    let mut w = block.to_vec();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    w
}
/// All states of the 64 rounds, without the final addition of the initial state.
fn rounds(st: [u32; 8], block: &[u32]) -> Vec<[u32; 8]> {
    let w = schedule(block);
    let mut all = vec![st];
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = st;
    for i in 0..64 {
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(KS[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        h = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(s0).wrapping_add(maj);
        all.push([a, b, c, d, e, f, g, h]);
    }
    all
}
fn compress(st: [u32; 8], block: &[u32]) -> [u32; 8] {
    rounds(st, block)[64]
}

// ------------------------------------------------------------------------------------------------
// Circuit

#[derive(Clone, Debug)]
enum Job {
    /// blocks of one message through the chip; a digest after the marked blocks
    Chip(Vec<(Vec<u32>, bool)>),
    /// a sequence of updates of the gadget
    Updates(Vec<Vec<u32>>),
    /// the one-call form
    Once(Vec<u32>),
}
#[derive(Clone, Debug, Default)]
struct Sha {
    jobs: Vec<Job>,
    out: Arc<Mutex<Vec<Vec<Option<u32>>>>>,
}
fn words(w: &[u32]) -> Vec<BlockWord> {
    w.iter().map(|w| BlockWord(Value::known(*w))).collect()
}
fn known(v: &BlockWord) -> Option<u32> {
    let mut o = None;
    let _ = v.0.map(|v| o = Some(v));
    o
}
/// The digest of the gadget has no public accessor; its `Debug` form lists the words.
fn digest_words(s: &str) -> Vec<Option<u32>> {
    let mut v: Vec<Option<u32>> = vec![];
    for p in s.split("BlockWord(").skip(1) {
        v.push(p.find("Some(").and_then(|i| p[i + 5..].split(|c: char| !c.is_ascii_digit()).next().and_then(|d| d.parse().ok())));
    }
    v
}
impl Circuit<Fp> for Sha {
    type Config = Table16Config;
    type FloorPlanner = Tamper<SimpleFloorPlanner>;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let _ = meta.instance_column();
        Table16Chip::configure(meta)
    }
    fn synthesize(&self, cfg: Self::Config, mut layouter: impl Layouter<Fp>) -> Result<(), Error> {
        Table16Chip::load(cfg.clone(), &mut layouter)?;
        let chip = Table16Chip::construct(cfg);
        let mut out = vec![];
        for j in &self.jobs {
            match j {
                Job::Chip(blocks) => {
                    let mut st = chip.initialization_vector(&mut layouter)?;
                    for (i, (b, digest)) in blocks.iter().enumerate() {
                        if i > 0 {
                            st = chip.initialization(&mut layouter, &st)?;
                        }
                        st = chip.compress(&mut layouter, &st, words(b).try_into().unwrap())?;
                        if *digest {
                            out.push(chip.digest(&mut layouter, &st)?.iter().map(known).collect());
                        }
                    }
                }
                Job::Updates(us) => {
                    let mut h = Sha256::new(chip.clone(), layouter.namespace(|| "new"))?;
                    for u in us {
                        h.update(layouter.namespace(|| "update"), &words(u))?;
                    }
                    out.push(digest_words(&format!("{:?}", h.finalize(layouter.namespace(|| "final"))?)));
                }
                Job::Once(m) => out.push(digest_words(&format!("{:?}", Sha256::digest(chip.clone(), layouter.namespace(|| "once"), &words(m))?))),
            }
        }
        *self.out.lock().unwrap() = out;
        Ok(())
    }
}
impl Sha {
    fn expected(&self) -> Vec<Vec<Option<u32>>> {
        let whole = |m: &[u32]| {
            let mut m = m.to_vec();
            m.resize((m.len() + BLOCK_SIZE - 1) / BLOCK_SIZE * BLOCK_SIZE, 0);
            m.chunks(BLOCK_SIZE).fold(*IV, |s, b| compress(s, b)).iter().map(|w| Some(*w)).collect::<Vec<_>>()
        };
        let mut out = vec![];
        for j in &self.jobs {
            match j {
                Job::Chip(blocks) => {
                    let mut s = *IV;
                    for (b, d) in blocks {
                        s = compress(s, b);
                        if *d {
                            out.push(s.iter().map(|w| Some(*w)).collect());
                        }
                    }
                }
                Job::Updates(us) => out.push(whole(&us.concat())),
                Job::Once(m) => out.push(whole(m)),
            }
        }
        out
    }
}
fn word(cx: &mut Cx) -> u32 {
    match cx.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << cx.below(32),
        3 => !(1 << cx.below(32)),
        4 => (cx.u64() as u32) & 0xffff,
        5 => (cx.u64() as u32) << 16,
        _ => cx.u64() as u32,
    }
}
fn block(cx: &mut Cx) -> Vec<u32> {
    match cx.below(6) {
        0 => {
            let w = word(cx);
            vec![w; 16]
        }
        1 | 2 => (0..16).map(|_| word(cx)).collect(),
        _ => (0..16).map(|_| cx.u64() as u32).collect(),
    }
}
fn repr(v: &Fp) -> [u8; 32] {
    use ff::PrimeField;
    v.to_repr()
}
/// Synthesis with the mock prover's assignment backend; the constraints are checked by the harness
/// (the mock prover takes half a minute for the 2^17 rows).
fn trace(c: &Sha) -> Result<Trace<Fp>, String> {
    let log = forge::run_synth(17, c, &[vec![]]).map_err(|e| format!("synthesis of an honest witness failed: {} for {:?}", e, c.jobs))?;
    let t: Trace<Fp> = Trace::new(forge::system::<Fp, Sha>("sha"), 17, &log, &[vec![]], "sha");
    t.holds().map_err(|e| format!("an honest witness violates {} for {:?}", e, c.jobs))?;
    Ok(t)
}
fn run(cx: &mut Cx, c: &Sha, mock: bool) -> R {
    cx.eval();
    cx.sample(|| format!("{:?}", c.jobs).chars().take(300).collect());
    if mock {
        let _: Trace<Fp> = honest(17, c, &[vec![]], "sha", "sha", false).map_err(|e| format!("{} for {:?}", e, c.jobs))?;
    } else {
        trace(c)?;
    }
    let (got, want) = (c.out.lock().unwrap().clone(), c.expected());
    ensure!(got.len() == want.len(), "{} digests instead of {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "digest {}: {:?} instead of {:?} for {:?}", i, g, w, c.jobs);
    }
    cx.nontrivial = true;
    Ok(())
}
/// One circuit with both interfaces, judged by the mock prover.
fn c31_mock(cx: &mut Cx) -> R {
    let m: Vec<u32> = (0..cx.usize(1, 40)).map(|_| word(cx)).collect();
    let at = cx.usize(0, m.len());
    let jobs = vec![
        Job::Chip(vec![(block(cx), false), (block(cx), true)]),
        Job::Updates(vec![m[..at].to_vec(), m[at..].to_vec()]),
        Job::Once(m),
    ];
    run(cx, &Sha { jobs, out: Default::default() }, true)
}
fn c31_chip(cx: &mut Cx) -> R {
    let mut jobs = vec![];
    let mut left = cx.usize(1, 24);
    while left > 0 {
        let n = cx.usize(1, left.min(6));
        left -= n;
        jobs.push(Job::Chip((0..n).map(|i| (block(cx), i + 1 == n || cx.bool())).collect()));
    }
    run(cx, &Sha { jobs, out: Default::default() }, false)
}
fn c31_updates(cx: &mut Cx) -> R {
    let mut jobs = vec![];
    for _ in 0..cx.usize(1, 5) {
        let total = match cx.below(4) {
            0 => 16 * cx.usize(0, 4),
            _ => cx.usize(0, 70),
        };
        let m: Vec<u32> = (0..total).map(|_| word(cx)).collect();
        if cx.chance(1, 4) {
            jobs.push(Job::Once(m));
            continue;
        }
        let mut us = vec![];
        let mut at = 0;
        while at < total {
            let n = match cx.below(4) {
                0 => 16,
                1 => 16 - at % 16,
                2 => cx.usize(0, 3),
                _ => cx.usize(0, 40),
            }
            .min(total - at);
            us.push(m[at..at + n].to_vec());
            at += n;
        }
        if cx.bool() {
            us.push(vec![]);
        }
        jobs.push(Job::Updates(us));
    }
    run(cx, &Sha { jobs, out: Default::default() }, false)
}
/// No cell of the computation can be changed alone.
fn c31_cells(cx: &mut Cx) -> R {
    let n = cx.usize(1, 2);
    let c = Sha { jobs: vec![Job::Chip((0..n).map(|_| (block(cx), true)).collect())], out: Default::default() };
    cx.sample(|| format!("{:?}", c.jobs).chars().take(300).collect());
    let mut t: Trace<Fp> = trace(&c)?;
    let mut rng = cx.rng();
    for cl in 0..t.classes() {
        let p = t.member(cl);
        let v = t.get(&p);
        for x in [v + Fp::ONE, v - Fp::ONE, Fp::ZERO, t.other(&mut rng, v), Fp::random(&mut rng)] {
            cx.eval();
            ensure!(x == v || t.breaks(cl, x), "cell {:?} holds {:?} and can be changed to {:?} alone (blocks {:?})", p, v, x, c.jobs);
        }
    }
    cx.nontrivial = true;
    Ok(())
}
fn spread(h: u32) -> u64 {
    (0..16).map(|i| (((h >> i) & 1) as u64) << (2 * i)).sum()
}
/// With the message fixed, no word of the schedule or the rounds can be chosen.
fn c31_forge(cx: &mut Cx) -> R {
    let make = |b: &[Vec<u32>]| Sha { jobs: vec![Job::Chip(b.iter().map(|b| (b.to_vec(), true)).collect())], out: Default::default() };
    let mut rng = cx.rng();
    let mut fresh = || -> Vec<u32> { (0..16).map(|_| rng.next_u32()).collect() };
    // one or two blocks; the second witness may share the second block
    let (mut a, mut b) = (vec![fresh()], vec![fresh()]);
    if cx.chance(1, 3) {
        a.push(fresh());
        b.push(if cx.chance(1, 3) { fresh() } else { a[1].clone() });
        cx.label("two blocks");
    }
    let c = make(&a);
    let mut t: Trace<Fp> = trace(&c)?;
    let other: Trace<Fp> = trace(&make(&b))?;
    let fixed: HashSet<[u8; 32]> = a.iter().flatten().map(|w| repr(&Fp::from(*w as u64))).collect();
    let mut keep: HashSet<Pos> = HashSet::new();
    let mut by: HashMap<[u8; 32], HashSet<usize>> = HashMap::new();
    for (c, r) in &t.cells {
        let p = (K::A, *c, *r);
        let v = repr(&t.get(&p));
        if fixed.contains(&v) {
            keep.insert(p);
        }
        if let Some(cl) = t.class_of(&p) {
            by.entry(v).or_default().insert(cl);
        }
    }
    // cells that hold a schedule or state word of their own; the spread halves of a state word are
    // only used, and only constrained, as low + 2^32 high
    let mut watch: Vec<(Vec<Pos>, u64, Fp)> = vec![];
    let own = |v: u64| by.get(&repr(&Fp::from(v))).filter(|s| s.len() == 1).map(|s| t.member(*s.iter().next().unwrap()));
    let all = |v: u32| -> Vec<Pos> { by.get(&repr(&Fp::from(v as u64))).map(|s| s.iter().map(|c| t.member(*c)).collect()).unwrap_or_default() };
    let mut st = *IV;
    for blk in &a {
        for w in schedule(blk).iter().skip(16) {
            watch.extend(all(*w).into_iter().map(|p| (vec![p], 0, Fp::from(*w as u64))));
        }
        let states = rounds(st, blk);
        for s in states.iter().take(64).skip(1) {
            for w in [s[0], s[4]] {
                if let (Some(l), Some(h)) = (own(spread(w & 0xffff)), own(spread(w >> 16))) {
                    watch.push((vec![l, h], 1 << 32, Fp::from(spread(w & 0xffff)) + Fp::from(spread(w >> 16)) * Fp::from(1 << 32)));
                }
            }
        }
        st = states[64];
        for w in [st[0], st[4]] {
            if let (Some(l), Some(h)) = (own((w & 0xffff) as u64), own((w >> 16) as u64)) {
                watch.push((vec![l, h], 1 << 16, Fp::from((w & 0xffff) as u64) + Fp::from((w >> 16) as u64) * Fp::from(1 << 16)));
                cx.label("last round watched");
            }
        }
        for w in st {
            for p in all(w) {
                watch.push((vec![p], 0, Fp::from(w as u64)));
                cx.label("digest watched");
            }
        }
    }
    ensure!(watch.len() > 100, "HARNESS: only {} words found in the trace", watch.len());
    cx.nontrivial = true;
    cx.label(format!("watched words >= {}", watch.len() / 50 * 50));
    // words are only determined up to multiples of 2^32, their excess ends in the carry of a round
    let multiples: HashSet<[u8; 32]> = (0..16u64).flat_map(|k| [Fp::from(k << 32), -Fp::from(k << 32)]).map(|v| repr(&v)).collect();
    let rel = |t: &Trace<Fp>| {
        watch.iter().all(|(p, b, v)| {
            let x = p.iter().rev().fold(Fp::ZERO, |x, p| x * Fp::from(*b) + t.get(p));
            x == *v || *b != 1 << 32 && multiples.contains(&repr(&(x - v)))
        })
    };
    let keep = |p: &Pos| keep.contains(p);
    let plan = Plan { repairs: if cx.tier_thorough { 4000 } else { 1000 }, splices: if cx.tier_thorough { 20000 } else { 6000 }, budget: 300, rel: &rel, keep: &keep, roots: vec![] };
    attack(cx, 17, &c, &[vec![]], &mut t, Some(&other), &plan)?;
    // rows of the schedule and the rounds rewritten, and their consequences computed
    t.spread = true;
    let mut rows = t.selected();
    rows.sort_by_key(|(s, r)| (*r, *s));
    let near = rows.len() - 60;
    let mut roots = vec![];
    for (i, (s, r)) in rows.iter().enumerate() {
        let n = if i >= near { 60 } else { 2 };
        let g: Vec<usize> = t.group(*s, *r);
        let lin = t.linear(*s, *r);
        for _ in 0..n {
            roots.push(rewrite(&mut rng, &t, &other, &g, &lin));
        }
    }
    // the last decomposition of every kind: all ways to move something between its pieces
    let mut seen = HashSet::new();
    let last_rows = rows[near].1;
    for (s, r) in rows.iter().rev() {
        if !seen.insert(*s) {
            continue;
        }
        let g = t.group(*s, *r);
        let mut all = vec![];
        for eq in t.linear(*s, *r).iter().filter(|e| e.len() > 4) {
            for x in eq {
                for y in eq {
                    for j in 0..3 {
                        all.push((*x, *y, j));
                    }
                }
            }
        }
        for (x, y, j) in all {
            for _ in 0..if *r >= last_rows { 4 } else { 1 } {
                roots.extend(shift(&mut rng, &t, &g, x, y, j));
            }
        }
    }
    attack_roots(cx, 17, &c, &[vec![]], &mut t, &rel, roots, 2000, &keep)
}
/// Another content for some of the cells of one gate row.
fn rewrite(rng: &mut ChaCha8Rng, t: &Trace<Fp>, b: &Trace<Fp>, g: &[usize], lin: &[Vec<(usize, Fp)>]) -> Vec<(Pos, Fp)> {
    let from_b = |c: &usize| (t.member(*c), b.get(&t.member(*c)));
    match rng.gen_range(0..5u32) {
        // all of it
        0 => g.iter().map(from_b).collect(),
        // a part
        1 => g.iter().filter(|_| rng.gen_bool(0.5)).map(from_b).collect(),
        2 => {
            let p = t.member(*g.choose(rng).unwrap());
            let v = t.get(&p);
            let x = match rng.gen_range(0..4u32) {
                0 => return vec![(p, b.get(&p))],
                1 => v + Fp::ONE,
                2 => v - Fp::ONE,
                _ => Fp::from(rng.next_u64() & 0xffff),
            };
            vec![(p, x)]
        }
        // an amount moved between two cells that are added up, with or without their spread forms
        _ => {
            let eq = lin.choose(rng).unwrap();
            if eq.len() > 1 {
                let (x, y, j) = (*eq.choose(rng).unwrap(), *eq.choose(rng).unwrap(), rng.gen_range(0..16u32) as u32);
                if let Some(out) = shift(rng, t, g, x, y, j) {
                    return out;
                }
            }
            vec![from_b(g.choose(rng).unwrap())]
        }
    }
}
/// An amount moved between two cells that are added up, with or without their spread forms.
fn shift(rng: &mut ChaCha8Rng, t: &Trace<Fp>, g: &[usize], (x, wx): (usize, Fp), (y, wy): (usize, Fp), j: u32) -> Option<Vec<(Pos, Fp)>> {
    let int = |c: usize| u64::from_le_bytes(repr(&t.get(&t.member(c)))[..8].try_into().unwrap());
    let (vx, vy) = (int(x), int(y));
    let spread_of = |v: u64| g.iter().copied().filter(|c| v < 1 << 16 && int(*c) == spread(v as u32)).collect::<Vec<_>>();
    let (sx, sy) = (spread_of(vx), spread_of(vy));
    if x == y || vy == 0 || vy >= 1 << 16 || vx >= 1 << 16 || sx.is_empty() || sy.is_empty() {
        return None;
    }
    // y loses what x gains
    let small = |v: Fp| Some(repr(&v)).filter(|r| r[4..].iter().all(|b| *b == 0)).map(|r| u64::from_le_bytes(r[..8].try_into().unwrap()));
    let (nx, ny) = match (small(wy * wx.invert().unwrap()), small(wx * wy.invert().unwrap())) {
        (Some(m), _) => (vx + (m << j), vy.wrapping_sub(1 << j)),
        (_, Some(m)) => (vx + (1 << j), vy.wrapping_sub(m << j)),
        _ => return None,
    };
    if ny > vy {
        return None;
    }
    let mut out = vec![(t.member(x), Fp::from(nx)), (t.member(y), Fp::from(ny))];
    if rng.gen_bool(0.5) {
        return Some(out);
    }
    let (px, py) = (*sx.choose(rng).unwrap(), *sy.choose(rng).unwrap());
    if nx < 1 << 16 && px != py && px != x && py != y && px != y && py != x {
        out.push((t.member(px), Fp::from(spread(nx as u32))));
        out.push((t.member(py), Fp::from(spread(ny as u32))));
    }
    Some(out)
}
