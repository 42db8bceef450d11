//! C01 completeness, C02 soundness, C03 mock prover, C15 lookups, C16 selectors, C17 copies.
use std::collections::BTreeSet;
use std::sync::Arc;

use halo2_proofs::dev::{FailureLocation, VerifyFailure};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};

use crate::ensure;
use crate::engine::*;
use crate::spec::*;
use crate::tamper::{idx_of, Ev, K};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a generated circuit with at least one gate or lookup, two or more cells, whose generated witness the independent reference evaluator accepts; distinct by generator tape",
            assumptions: &["generated circuits: <=9 gate groups, |rotation|<=3 (up to the domain size in prove_wide), k in 3..=9, degree<=9", "the reference evaluator in harness/src/spec.rs states the constraint semantics"],
            subs: vec![
                sub("prove_vesta", 400, 20000, c01_prove::<Fp, EqAffine>),
                sub("prove_pallas", 120, 8000, c01_prove::<Fq, EpAffine>),
                sub("prove_bare", 120, 2000, c01_bare),
                sub("prove_wide", 60, 2000, c01_wide),
                sub("mock", 20000, 600000, c01_mock),
            ],
        },
        Prop {
            id: "C02",
            rule: "a generated circuit with a witness perturbed so that the reference evaluator says a constraint is violated; distinct by generator tape",
            assumptions: &["the prover is the honest prover run on a violating witness", "perturbations: one cell, a copy class, an instance value, several cells"],
            subs: vec![
                sub("reject_vesta", 220, 12000, c02::<Fp, EqAffine>),
                sub("reject_pallas", 60, 4000, c02::<Fq, EpAffine>),
                sub("reject_multi", 60, 3000, c02_multi::<Fp, EqAffine>),
            ],
        },
        Prop {
            id: "C03",
            rule: "a generated circuit and an assignment (satisfying or perturbed) with at least one gate, lookup or copy; distinct by generator tape",
            assumptions: &["except in the sub-check unassigned, all cells queried by active gates are assigned in the region that activates them"],
            subs: vec![
                sub("verdict_fp", 12000, 400000, c03::<Fp>),
                sub("verdict_fq", 4000, 100000, c03::<Fq>),
                sub("exhaustive_cells", 500, 20000, c03_exhaustive::<Fp>),
                sub("unassigned", 20000, 600000, c03_unassigned::<Fp>),
            ],
        },
        Prop {
            id: "C15",
            rule: "a generated circuit with a lookup and an assignment where some lookup input was changed (in or out of the table); distinct by generator tape",
            assumptions: &["tables of at most the usable rows, tuple width <= 3"],
            subs: vec![
                sub("mock", 6000, 200000, c15_mock),
                sub("real", 200, 8000, c15_real),
                sub("malformed_tables", 6000, 200000, crate::layout::c15_malformed),
            ],
        },
        Prop {
            id: "C16",
            rule: "a generated circuit with at least two selectors, every active gate row perturbed; distinct by generator tape",
            assumptions: &["up to 9 selector groups"],
            subs: vec![
                sub("mock", 2500, 80000, c16_mock),
                sub("real", 150, 6000, c16_real),
            ],
        },
        Prop {
            id: "C17",
            rule: "a generated circuit with at least one requested equality over two cells, each class perturbed; distinct by generator tape",
            assumptions: &["equality classes of up to a few dozen cells"],
            subs: vec![
                sub("mock", 2500, 80000, c17_mock),
                sub("real", 150, 6000, c17_real),
            ],
        },
    ]
}

pub fn none<F>() -> Ov<F> {
    Ov::default()
}

/// The generator must produce satisfying witnesses (checked by the reference).
pub fn check_gen<F: Fld>(b: &Built<F>) -> R {
    for w in &b.wits {
        let v = b.reference(w, &none());
        if !v.ok() {
            return Err(format!("HARNESS: generated witness is not satisfying: {} for {}", v.show(), b.describe()));
        }
    }
    Ok(())
}

pub fn label_shape<F: Fld>(cx: &mut Cx, b: &Built<F>) {
    cx.label(format!("k={}", b.k));
    cx.label(format!("planner={}", PLANNERS[b.planner]));
    cx.label(format!("degree={}", b.cs_degree));
    cx.label(format!("circuits={}", b.wits.len()));
    cx.label(format!("lookups={}", b.conf.lookups.len()));
    if b.full {
        cx.label("full");
    }
    if b.conf.eq.is_empty() && b.conf.consts.is_empty() {
        cx.label("no-permutation");
    } else {
        let sets = (b.conf.eq.len() + b.conf.consts.len() + b.cs_degree - 3) / (b.cs_degree - 2).max(1);
        cx.label(format!("perm-sets~{}", sets));
    }
    if b.conf.n_inst > 0 {
        cx.label("instances");
    }
}

fn c01_mock(cx: &mut Cx) -> R {
    let o = Opts { max_wits: 2, ..Opts::default() };
    let b = gen::<Fp>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    for w in &b.wits {
        let m = b.mock(w, &none());
        ensure!(matches!(m, Ok(Ok(()))), "mock prover rejects a satisfied circuit: {:?} for {}", m, b.describe());
        cx.eval();
    }
    label_shape(cx, &b);
    cx.nontrivial = b.conf.gates.len() + b.conf.lookups.len() > 0 && b.syn.cells.len() > 1;
    Ok(())
}

pub fn prove_ok<F: Fld, C: Cv<F>>(cx: &mut Cx, b: &Built<F>) -> R {
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
    let proof =
        b.prove(&params, &pk, &cs, cx.rng()).map_err(|e| format!("proving a satisfied circuit failed: {:?} for {}", e, b.describe()))?;
    let insts: Vec<_> = b.wits.iter().map(|w| w.inst.clone()).collect();
    verify(&params, pk.get_vk(), &insts, &proof).map_err(|e| format!("honest proof rejected: {:?} for {}", e, b.describe()))?;
    cx.eval();
    Ok(())
}

fn c01_prove<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = match cx.below(4) {
        0 => Opts { max_wits: 1, ..Opts::default() },
        1 => Opts { max_wits: 3, copies: true, max_adv: 9, max_degree: 3, ..Opts::default() },
        2 => Opts { max_wits: 2, max_degree: 9, ..Opts::default() },
        _ => Opts { max_wits: 2, max_lookups: 3, force_lookup: true, ..Opts::default() },
    };
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    prove_ok::<F, C>(cx, &b)?;
    label_shape(cx, &b);
    cx.nontrivial = b.conf.gates.len() + b.conf.lookups.len() > 0 && b.syn.cells.len() > 1;
    Ok(())
}

/// Small shapes: no gates / no permutation / no lookup / a single column, and so on.
fn c01_bare(cx: &mut Cx) -> R {
    let o = Opts { max_wits: 2, max_adv: 1, max_groups: 1, max_regions: 1, max_lookups: 1, ..Opts::default() };
    let b = gen::<Fp>(cx, &o);
    let mut b = b;
    let mut conf = (*b.conf).clone();
    // Drop whole arguments.
    if cx.bool() {
        conf.lookups.clear();
    }
    if cx.bool() {
        conf.gates.clear();
    }
    conf.min_degree = None;
    b.conf = Arc::new(conf);
    cx.sample(|| b.describe());
    if usable_rows(&b.conf, b.k) != Some(b.usable) {
        return Ok(());
    }
    check_gen(&b)?;
    prove_ok::<Fp, EqAffine>(cx, &b)?;
    label_shape(cx, &b);
    cx.nontrivial = b.syn.cells.len() > 0;
    Ok(())
}

/// Rotations up to the whole domain, also ones that name the same cell (equal modulo n).
fn c01_wide(cx: &mut Cx) -> R {
    let k = cx.usize(4, 6) as u32;
    let n = 1i32 << k;
    let n_adv = cx.usize(1, 3);
    let n_inst = cx.usize(0, 1);
    let leaf = |c: usize, r: i32| if c < n_adv { Ex::A(c, r) } else { Ex::I(c - n_adv, r) };
    let mut gates = vec![];
    let mut on = vec![];
    let guess = n as usize - 16; // the rows used below are usable for any of these shapes
    let guess = guess.min(if k == 4 { 2 } else { n as usize });
    for i in 0..cx.usize(1, 3) {
        let c = cx.usize(0, n_adv + n_inst - 1);
        let row = cx.usize(0, guess.max(1) - 1);
        let at = cx.usize(0, guess.max(1) - 1);
        // the same cell under two names
        let r1 = at as i32 - row as i32;
        let r2 = if r1 > 0 { r1 - n } else if r1 < 0 { r1 + n } else { *cx.pick(&[n, -n]) };
        let (r1, r2) = if cx.bool() { (r2, r1) } else { (r1, r2) };
        let id = leaf(c, r1).sub(leaf(c, r2));
        let id = if cx.bool() { id.mul(leaf(cx.usize(0, n_adv + n_inst - 1), 0)) } else { id };
        gates.push(vec![Ex::S(1 + i).mul(id)]);
        on.push(row);
        // never enabled
        let r3 = cx.usize(0, 2 * n as usize) as i32 - n;
        gates.push(vec![Ex::S(0).mul(leaf(cx.usize(0, n_adv + n_inst - 1), r3).add(Ex::C(Fp::from(1))))]);
    }
    let conf = Arc::new(Conf {
        n_adv,
        n_inst,
        fix: vec![],
        sels: vec![false; on.len() + 1],
        eq: if cx.bool() { vec![(K::A, 0)] } else { vec![] },
        consts: vec![],
        gates,
        lookups: vec![],
        lookups_first: false,
        eq_last: false,
        min_degree: None,
        named: false,
    });
    let usable = match usable_rows(&conf, k) {
        Some(u) => u,
        None => return Ok(()),
    };
    let mut cells = vec![];
    let mut ops = vec![];
    if usable <= *on.iter().max().unwrap() || usable < guess {
        return Ok(());
    }
    for (i, row) in on.iter().enumerate() {
        ops.push(Op::Sel(1 + i, *row));
    }
    for c in 0..n_adv {
        for off in 0..usable {
            ops.push(Op::Adv(cells.len()));
            cells.push(CellD { region: 0, kind: K::A, col: c, off });
        }
    }
    let mut rng = cx.rng();
    let mut wits = vec![];
    for _ in 0..cx.usize(1, 2) {
        wits.push(Arc::new(Wit {
            vals: cells.iter().map(|_| ff::Field::random(&mut rng)).collect(),
            inst: (0..n_inst).map(|_| (0..usable).map(|_| ff::Field::random(&mut rng)).collect()).collect(),
        }));
    }
    let b = Built {
        conf,
        syn: Arc::new(Syn { items: vec![Item::Region(ops)], cells }),
        planner: cx.usize(0, 1),
        k,
        n: n as usize,
        usable,
        starts: vec![0],
        wits,
        cs_degree: 0,
        full: true,
        const_fix: vec![],
    };
    cx.sample(|| format!("k={} gates {:?}", k, b.conf.gates.iter().map(|g| g[0].show()).collect::<Vec<_>>()));
    for w in &b.wits {
        let m = b.mock(w, &none());
        ensure!(matches!(m, Ok(Ok(()))), "mock prover rejects a satisfied circuit: {:?} for {}", m, b.describe());
    }
    prove_ok::<Fp, EqAffine>(cx, &b)?;
    cx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = match cx.below(3) {
        0 => Opts::default(),
        1 => Opts { copies: true, ..Opts::default() },
        _ => Opts { force_lookup: true, max_regions: 3, ..Opts::default() },
    };
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let w = b.wits[0].clone();
    for _ in 0..cx.usize(1, 6) {
        if let Some(p) = b.perturb(cx, &w) {
            judge::<F, C>(cx, &b, &params, &pk, &p)?;
        }
    }
    label_shape(cx, &b);
    Ok(())
}

/// Proves the perturbed assignment and compares acceptance with the reference verdict.
pub fn judge<F: Fld, C: Cv<F>>(
    cx: &mut Cx,
    b: &Built<F>,
    params: &halo2_proofs::poly::commitment::Params<C>,
    pk: &halo2_proofs::plonk::ProvingKey<C>,
    p: &Pert<F>,
) -> R {
    let v = b.reference(&p.wit, &p.ov);
    let r = b.prove(params, pk, &[(p.wit.clone(), p.ov.clone())], cx.rng());
    cx.eval();
    if v.ok() {
        cx.label("perturbed but satisfied");
        let proof = r.map_err(|e| format!("proving a satisfied assignment failed: {:?}; {} in {}", e, p.what, b.describe()))?;
        verify(params, pk.get_vk(), &[p.wit.inst.clone()], &proof)
            .map_err(|e| format!("proof of a satisfied assignment rejected: {:?}; {} in {}", e, p.what, b.describe()))?;
    } else {
        cx.nontrivial = true;
        if !v.gates.is_empty() {
            cx.label("violates gate");
        }
        if !v.lookups.is_empty() {
            cx.label("violates lookup");
        }
        if !v.copies.is_empty() {
            cx.label("violates copy");
        }
        match r {
            Err(_) => cx.label("prover error"),
            Ok(proof) => {
                let acc = verify(params, pk.get_vk(), &[p.wit.inst.clone()], &proof);
                ensure!(
                    acc.is_err(),
                    "ACCEPTED a proof of a violated circuit: {}; violated: {}; {}",
                    p.what,
                    v.show(),
                    b.describe()
                );
                cx.label("verifier rejects");
            }
        }
    }
    Ok(())
}

fn c02_multi<F: Fld, C: Cv<F>>(cx: &mut Cx) -> R {
    let o = Opts { max_wits: 3, copies: cx.bool(), ..Opts::default() };
    let b = gen::<F>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let params = C::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    for bad in 0..b.wits.len() {
        let p = match b.perturb(cx, &b.wits[bad]) {
            Some(p) => p,
            None => continue,
        };
        let v = b.reference(&p.wit, &p.ov);
        let mut cs: Vec<_> = b.wits.iter().map(|w| (w.clone(), none())).collect();
        cs[bad] = (p.wit.clone(), p.ov.clone());
        let insts: Vec<_> = cs.iter().map(|(w, _)| w.inst.clone()).collect();
        let r = b.prove(&params, &pk, &cs, cx.rng());
        cx.eval();
        if v.ok() {
            let proof = r.map_err(|e| format!("proving failed: {:?}; {} in {}", e, p.what, b.describe()))?;
            verify(&params, pk.get_vk(), &insts, &proof)
                .map_err(|e| format!("satisfied multi-circuit proof rejected: {:?}; {} in {}", e, p.what, b.describe()))?;
        } else {
            cx.nontrivial = true;
            cx.label(format!("bad circuit {}/{}", bad, b.wits.len()));
            if let Ok(proof) = r {
                let acc = verify(&params, pk.get_vk(), &insts, &proof);
                ensure!(acc.is_err(), "ACCEPTED a multi-circuit proof with circuit {} violated: {}; violated: {}; {}", bad, p.what, v.show(), b.describe());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn region_start<F: Fld>(b: &Built<F>, name: &str) -> usize {
    let i: usize = name[1..].parse().expect("HARNESS: region name");
    if name.starts_with('t') {
        return 0;
    }
    b.syn.cells.iter().filter(|c| c.region == i).map(|c| b.starts[i] + c.off).min().expect("HARNESS: region without cells")
}

fn loc_row<F: Fld>(b: &Built<F>, l: &FailureLocation) -> usize {
    match l {
        FailureLocation::InRegion { region, offset } => {
            let s = format!("{}", region);
            let name = s.split('\'').nth(1).expect("HARNESS: region display").to_string();
            region_start(b, &name) + offset
        }
        FailureLocation::OutsideRegion { row } => *row,
    }
}

/// Compares the mock prover's verdict and its failures with the reference verdict.
pub fn compare_mock<F: Fld>(b: &Built<F>, w: &Arc<Wit<F>>, ov: &Ov<F>, what: &str) -> Result<bool, String> {
    let v = b.reference(w, ov);
    let m = b.mock(w, ov).map_err(|e| format!("MockProver::run failed: {:?}; {} in {}", e, what, b.describe()))?;
    match m {
        Ok(()) => {
            ensure!(v.ok(), "mock prover ACCEPTS a violated circuit: {}; violated: {}; {}", what, v.show(), b.describe());
            Ok(true)
        }
        Err(fs) => {
            ensure!(!v.ok(), "mock prover rejects a satisfied circuit: {:?}; {}; {}", fs, what, b.describe());
            let mut gates = BTreeSet::new();
            let mut looks = BTreeSet::new();
            let mut cols = BTreeSet::new();
            for f in &fs {
                match f {
                    VerifyFailure::ConstraintNotSatisfied { constraint, location, .. } => {
                        // Display: "Constraint {index} in gate {gate_index} ('name')"
                        let s = format!("{:?}", constraint);
                        let nums: Vec<usize> = ints(&s);
                        gates.insert((nums[0], nums[1], loc_row(b, location)));
                    }
                    VerifyFailure::Lookup { lookup_index, location } => {
                        looks.insert((*lookup_index, loc_row(b, location)));
                    }
                    VerifyFailure::Permutation { column, .. } => {
                        let s = format!("{}", column);
                        let k = if s.contains("Advice") {
                            K::A
                        } else if s.contains("Fixed") {
                            K::F
                        } else {
                            K::I
                        };
                        cols.insert((k, *ints(&s).last().unwrap()));
                    }
                    other => {
                        return Err(format!("unexpected mock failure {:?}; {}; {}", other, what, b.describe()));
                    }
                }
            }
            let rg: BTreeSet<_> = v.gates.iter().cloned().collect();
            let rl: BTreeSet<_> = v.lookups.iter().cloned().collect();
            ensure!(gates == rg, "mock gate failures {:?} differ from the violated gates {:?}; {}; {}", gates, rg, what, b.describe());
            ensure!(looks == rl, "mock lookup failures {:?} differ from the violated lookups {:?}; {}; {}", looks, rl, what, b.describe());
            ensure!(
                cols.is_empty() == v.copies.is_empty(),
                "mock permutation failures {:?} but violated copies {:?}; {}; {}",
                cols,
                v.copies,
                what,
                b.describe()
            );
            // Columns reported must belong to a violated class.
            let mut allowed: BTreeSet<(K, usize)> = v.copy_cols.clone();
            for c in b.classes() {
                if c.iter().any(|p| v.copy_cols.contains(&(p.0, p.1))) {
                    allowed.extend(c.iter().map(|p| (p.0, p.1)));
                }
            }
            allowed.extend(b.conf.consts.iter().map(|c| (K::F, *c)));
            ensure!(cols.is_subset(&allowed), "mock permutation failure names columns {:?}, violated are {:?}; {}; {}", cols, allowed, what, b.describe());
            Ok(false)
        }
    }
}

/// All integers in a debug string, ignoring those inside quotes.
pub fn ints(s: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut q = false;
    let mut cur: Option<usize> = None;
    for ch in s.chars() {
        if ch == '"' {
            q = !q;
        }
        if !q && ch.is_ascii_digit() {
            cur = Some(cur.unwrap_or(0) * 10 + ch as usize - '0' as usize);
        } else if let Some(c) = cur.take() {
            out.push(c);
        }
    }
    if let Some(c) = cur {
        out.push(c);
    }
    out
}

fn c03<F: Fld>(cx: &mut Cx) -> R {
    let o = match cx.below(4) {
        0 => Opts::default(),
        1 => Opts { copies: true, ..Opts::default() },
        2 => Opts { force_lookup: true, ..Opts::default() },
        _ => Opts { many_sels: true, ..Opts::default() },
    };
    let b = gen::<F>(cx, &o);
    cx.sample(|| b.describe());
    check_gen(&b)?;
    let w = b.wits[0].clone();
    compare_mock(&b, &w, &none(), "unperturbed")?;
    for _ in 0..cx.usize(1, 8) {
        if let Some(p) = b.perturb(cx, &w) {
            let ok = compare_mock(&b, &p.wit, &p.ov, &p.what)?;
            cx.eval();
            cx.label(if ok { "accept" } else { "reject" });
        }
    }
    cx.nontrivial = b.conf.gates.len() + b.conf.lookups.len() + b.equalities().len() > 0;
    Ok(())
}

/// Circuits that leave queried cells unassigned, enable selectors in regions without cells, or read
/// unusable rows: every such cell is reported, and nothing panics.
fn c03_unassigned<F: Fld>(cx: &mut Cx) -> R {
    let o = if cx.bool() { Opts::default() } else { Opts { many_sels: true, max_regions: 3, ..Opts::default() } };
    let b0 = gen::<F>(cx, &o);
    let w = b0.wits[0].clone();
    let mut syn = (*b0.syn).clone();
    let mut used = BTreeSet::new();
    for it in &syn.items {
        match it {
            Item::Region(ops) => {
                for o in ops {
                    match o {
                        Op::Copy(a, b) | Op::Eq(a, b) => {
                            used.insert(*a);
                            used.insert(*b);
                        }
                        Op::Const(a, _) => {
                            used.insert(*a);
                        }
                        _ => {}
                    }
                }
            }
            Item::Bind(a, ..) => {
                used.insert(*a);
            }
            _ => {}
        }
    }
    // drop assignments
    let rate = cx.usize(0, 3) as u64;
    for it in syn.items.iter_mut() {
        if let Item::Region(ops) = it {
            ops.retain(|o| match o {
                Op::Adv(id) | Op::Fix(id, _) if !used.contains(id) => !cx.chance(rate, 12),
                _ => true,
            });
        }
    }
    // regions that only enable selectors
    if !b0.conf.sels.is_empty() {
        for _ in 0..cx.usize(0, 3) {
            let mut ops = vec![];
            for _ in 0..cx.usize(1, 2) {
                ops.push(Op::Sel(cx.usize(0, b0.conf.sels.len() - 1), cx.usize(0, 2)));
            }
            syn.items.push(Item::Region(ops));
        }
        // and stray activations, also on the last usable row
        for i in 0..syn.items.len() {
            let sel = cx.usize(0, b0.conf.sels.len() - 1);
            if let Item::Region(ops) = &mut syn.items[i] {
                if cx.chance(1, 4) {
                    let top = ops.iter().filter_map(|o| if let Op::Adv(id) = o { Some(syn.cells[*id].off) } else { None }).max();
                    if let Some(t) = top {
                        ops.push(Op::Sel(sel, cx.usize(t.saturating_sub(1), t)));
                    }
                }
            }
        }
    }
    let syn = Arc::new(syn);
    let evs = match record(&b0.conf, &syn, b0.planner, None) {
        Ok(e) => e,
        Err(_) => return Ok(()), // V1 ran out of rows for constants
    };
    let (starts, end) = starts_of(&syn, &evs);
    if end > b0.usable {
        return Ok(());
    }
    let mut b = b0.clone();
    b.syn = syn;
    b.starts = starts;
    b.const_fix.clear();
    let mut inr = false;
    for e in &evs {
        match e {
            Ev::Enter(_) => inr = true,
            Ev::Exit => inr = false,
            Ev::Fix(c, r, Some(v)) if !inr => b.const_fix.push((*c, *r, *v)),
            _ => {}
        }
    }
    // table cells are not const_fix entries
    b.const_fix.retain(|(c, ..)| b.conf.consts.contains(c));
    cx.sample(|| b.describe());
    let g = Grid::new(&b, &w, &none());
    let n = b.n as i64;
    let mut want: BTreeSet<(usize, usize, String, usize)> = BTreeSet::new();
    let mut want_inst: BTreeSet<(usize, usize, usize, usize)> = BTreeSet::new();
    for (ri, it) in b.syn.items.iter().enumerate() {
        if let Item::Region(ops) = it {
            let mut cells = BTreeSet::new();
            for o in ops {
                match o {
                    Op::Adv(id) | Op::FromConst(id, _) | Op::FromInst(id, ..) | Op::Copy(id, _) | Op::Fix(id, _) => {
                        cells.insert(b.pos(*id));
                    }
                    _ => {}
                }
            }
            for o in ops {
                if let Op::Sel(s, off) = o {
                    let row = b.starts[ri] + off;
                    for (gi, gate) in b.conf.gates.iter().enumerate() {
                        let mut active = false;
                        for p in gate {
                            p.leaves(&mut |l| active |= *l == Ex::S(*s));
                        }
                        if !active {
                            continue;
                        }
                        for p in gate {
                            p.leaves(&mut |l| {
                                let at = |r: i32| ((row as i64 + r as i64 + n) % n) as usize;
                                match l {
                                    Ex::A(c, r) if !cells.contains(&(K::A, *c, at(*r))) => {
                                        want.insert((gi, row, format!("A{}", c), at(*r)));
                                    }
                                    Ex::X(c) if !cells.contains(&(K::F, *c, row)) => {
                                        want.insert((gi, row, format!("F{}", c), row));
                                    }
                                    Ex::I(c, r) if at(*r) >= w.inst[*c].len() => {
                                        want_inst.insert((gi, row, *c, at(*r)));
                                    }
                                    _ => {}
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    let mut unsat = BTreeSet::new();
    let mut poisoned = BTreeSet::new();
    for (gi, gate) in b.conf.gates.iter().enumerate() {
        for (pi, p) in gate.iter().enumerate() {
            for row in 0..b.n {
                match veval(p, &|l| g.leaf(l, row)) {
                    V::P => {
                        poisoned.insert((gi, pi));
                    }
                    v if v != V::R(F::ZERO) => {
                        unsat.insert((gi, pi));
                    }
                    _ => {}
                }
            }
        }
    }
    let v = b.reference(&w, &none());
    let m = catch(|| b.mock(&w, &none()));
    let m = m.map_err(|e| format!("the mock prover panics: {}; {}", e, b.describe()))?;
    let m = m.map_err(|e| format!("MockProver::run failed: {:?}; {}", e, b.describe()))?;
    let expect_ok = want.is_empty() && want_inst.is_empty() && v.ok();
    cx.label(if expect_ok { "accept" } else { "reject" });
    if !poisoned.is_empty() {
        cx.label("poisoned");
    }
    if !want.is_empty() {
        cx.label("cells-unassigned");
    }
    if !want_inst.is_empty() {
        cx.label("instance-unassigned");
    }
    cx.nontrivial = !want.is_empty() || !want_inst.is_empty() || !poisoned.is_empty();
    let fs = match m {
        Ok(()) => {
            ensure!(expect_ok, "the mock prover accepts although cells are unassigned {:?} {:?} or constraints fail {}; {}", want, want_inst, v.show(), b.describe());
            return Ok(());
        }
        Err(fs) => fs,
    };
    ensure!(!expect_ok, "the mock prover rejects a satisfied circuit: {:?}; {}", fs, b.describe());
    let (mut got, mut got_inst, mut gu, mut gp) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for f in &fs {
        match f {
            VerifyFailure::CellNotAssigned { gate, gate_offset, column, .. } => {
                let c = format!("{:?}", column);
                let k = if c.contains("Advice") { "A" } else { "F" };
                got.insert((ints(&format!("{:?}", gate))[0], *gate_offset, format!("{}{}", k, ints(&format!("{:?}", column))[0])));
            }
            VerifyFailure::InstanceCellNotAssigned { gate, gate_offset, column, row, .. } => {
                got_inst.insert((ints(&format!("{:?}", gate))[0], *gate_offset, ints(&format!("{:?}", column))[0], *row));
            }
            VerifyFailure::ConstraintNotSatisfied { constraint, .. } => {
                let i = ints(&format!("{:?}", constraint));
                gu.insert((i[0], i[1]));
            }
            VerifyFailure::ConstraintPoisoned { constraint } => {
                let i = ints(&format!("{:?}", constraint));
                gp.insert((i[0], i[1]));
            }
            _ => {}
        }
    }
    let want: BTreeSet<(usize, usize, String)> = want.into_iter().map(|(g, o, c, _)| (g, o, c)).collect();
    ensure!(got == want, "unassigned cells reported {:?}, expected {:?}; {}", got, want, b.describe());
    ensure!(got_inst == want_inst, "unassigned instance cells reported {:?}, expected {:?}; {}", got_inst, want_inst, b.describe());
    ensure!(gu == unsat, "violated constraints reported {:?}, expected {:?}; {}", gu, unsat, b.describe());
    ensure!(gp == poisoned, "poisoned constraints reported {:?}, expected {:?}; {}", gp, poisoned, b.describe());
    Ok(())
}

/// Every advice cell of the circuit, one at a time, and every instance value.
fn c03_exhaustive<F: Fld>(cx: &mut Cx) -> R {
    let b = gen::<F>(cx, &Opts::default());
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let w = b.wits[0].clone();
    for id in b.adv_cells() {
        let p = b.pos(id);
        let v = b.alter(cx, &w, w.vals[id]);
        let ov: Ov<F> = std::iter::once(((p.1, p.2), v)).collect();
        let ok = compare_mock(&b, &w, &ov, &format!("cell a{}@{} = {}", p.1, p.2, short(&v)))?;
        cx.eval();
        cx.label(if ok { "accept" } else { "reject" });
    }
    cx.nontrivial = b.conf.gates.len() + b.conf.lookups.len() + b.equalities().len() > 0;
    Ok(())
}

// ------------------------------------------------------------------ C15

fn lookup_cells<F: Fld>(b: &Built<F>) -> Vec<usize> {
    let mut cols = BTreeSet::new();
    for l in &b.conf.lookups {
        for (e, _) in l {
            e.leaves(&mut |x| {
                if let Ex::A(c, _) = x {
                    cols.insert(*c);
                }
            });
        }
    }
    b.adv_cells().into_iter().filter(|i| cols.contains(&b.syn.cells[*i].col)).collect()
}

fn lookup_pert<F: Fld>(cx: &mut Cx, b: &Built<F>) -> Option<Pert<F>> {
    let w = b.wits[0].clone();
    let cells = lookup_cells(b);
    if cells.is_empty() {
        return None;
    }
    let mut ov = Ov::default();
    let mut what = String::new();
    for _ in 0..cx.usize(1, 3) {
        let id = *cx.pick(&cells);
        let v = b.alter(cx, &w, w.vals[id]);
        let p = b.pos(id);
        // change the whole class, so that the lookup decides
        let mut all = vec![p];
        for c in b.classes() {
            if c.contains(&p) {
                all = c.iter().cloned().collect();
            }
        }
        for q in all.iter().filter(|q| q.0 == K::A) {
            ov.insert((q.1, q.2), v);
        }
        what += &format!("a{}@{} (and copies) = {}; ", p.1, p.2, short(&v));
    }
    Some(Pert { what, wit: w, ov })
}

fn lookup_opts(cx: &mut Cx) -> Opts {
    Opts {
        force_lookup: true,
        max_lookups: 3,
        max_groups: if cx.bool() { 0 } else { 2 },
        max_regions: 5,
        ..Opts::default()
    }
}

fn c15_mock(cx: &mut Cx) -> R {
    let o = lookup_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    compare_mock(&b, &b.wits[0], &none(), "unperturbed")?;
    for _ in 0..6 {
        if let Some(p) = lookup_pert(cx, &b) {
            let ok = compare_mock(&b, &p.wit, &p.ov, &p.what)?;
            cx.label(if ok { "in table" } else { "rejected" });
            cx.nontrivial = true;
            cx.eval();
        }
    }
    Ok(())
}
fn c15_real(cx: &mut Cx) -> R {
    let o = lookup_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let params = EqAffine::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let p0 = Pert { what: "unperturbed".into(), wit: b.wits[0].clone(), ov: none() };
    judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p0)?;
    for _ in 0..4 {
        if let Some(p) = lookup_pert(cx, &b) {
            judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

fn sel_opts(cx: &mut Cx) -> Opts {
    Opts { many_sels: true, max_regions: cx.usize(2, 9), max_degree: cx.usize(3, 9), max_lookups: 1, ..Opts::default() }
}

/// Cells read by activated gates: changing any of them is decided by the reference.
fn c16_mock(cx: &mut Cx) -> R {
    let o = sel_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let w = b.wits[0].clone();
    compare_mock(&b, &w, &none(), "unperturbed")?;
    for id in b.adv_cells() {
        let p = b.pos(id);
        let v = w.vals[id] + Fp::from(1 + cx.below(3));
        let ov: Ov<Fp> = std::iter::once(((p.1, p.2), v)).collect();
        compare_mock(&b, &w, &ov, &format!("cell a{}@{} = {}", p.1, p.2, short(&v)))?;
        cx.eval();
    }
    cx.label(format!("selectors={}", b.conf.sels.len()));
    cx.nontrivial = b.conf.sels.len() >= 2;
    Ok(())
}
fn c16_real(cx: &mut Cx) -> R {
    let o = sel_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let params = EqAffine::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let w = b.wits[0].clone();
    let p0 = Pert { what: "unperturbed".into(), wit: w.clone(), ov: none() };
    judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p0)?;
    let cells = b.adv_cells();
    for _ in 0..4 {
        if cells.is_empty() {
            break;
        }
        let id = *cx.pick(&cells);
        let p = b.pos(id);
        let v = w.vals[id] + Fp::from(1 + cx.below(3));
        let ov: Ov<Fp> = std::iter::once(((p.1, p.2), v)).collect();
        let p = Pert { what: format!("cell a{}@{} = {}", p.1, p.2, short(&v)), wit: w.clone(), ov };
        judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p)?;
    }
    cx.nontrivial = b.conf.sels.len() >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C17

fn copy_opts(cx: &mut Cx) -> Opts {
    Opts {
        copies: true,
        max_adv: cx.usize(1, 8),
        max_groups: 1,
        max_lookups: 0,
        max_regions: cx.usize(2, 10),
        max_degree: cx.usize(2, 6),
        ..Opts::default()
    }
}

/// One member of each class changed alone (must be rejected), and each class changed as a
/// whole (the reference decides).
fn class_perts<F: Fld>(cx: &mut Cx, b: &Built<F>) -> Vec<Pert<F>> {
    let w = b.wits[0].clone();
    let mut out = vec![];
    for c in b.classes() {
        for p in &c {
            match p.0 {
                K::A => {
                    let old = b.value_at(&w, p);
                    let v = b.alter(cx, &w, old);
                    out.push(Pert {
                        what: format!("member {:?} of a class of {} = {}", p, c.len(), short(&v)),
                        wit: w.clone(),
                        ov: std::iter::once(((p.1, p.2), v)).collect(),
                    });
                }
                K::I => {
                    let mut w2 = (*w).clone();
                    w2.inst[p.1][p.2] += F::ONE;
                    let ov = c.iter().filter(|q| q.0 == K::A).map(|q| ((q.1, q.2), b.value_at(&w, q))).collect();
                    out.push(Pert { what: format!("instance {:?} of a class changed", p), wit: Arc::new(w2), ov });
                }
                K::F => {}
            }
        }
        if let Some(rep) = c.iter().find(|p| p.0 == K::A) {
            let old = b.value_at(&w, rep);
            let v = b.alter(cx, &w, old);
            let mut w2 = (*w).clone();
            let mut ov = Ov::default();
            for p in &c {
                match p.0 {
                    K::A => {
                        ov.insert((p.1, p.2), v);
                    }
                    K::I => w2.inst[p.1][p.2] = v,
                    K::F => {}
                }
            }
            out.push(Pert { what: format!("whole class of {} = {}", c.len(), short(&v)), wit: Arc::new(w2), ov });
        }
    }
    out
}

fn c17_mock(cx: &mut Cx) -> R {
    let o = copy_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    compare_mock(&b, &b.wits[0], &none(), "unperturbed")?;
    for p in class_perts(cx, &b) {
        let ok = compare_mock(&b, &p.wit, &p.ov, &p.what)?;
        cx.label(if ok { "accept" } else { "reject" });
        cx.eval();
    }
    for c in b.classes() {
        cx.nontrivial |= c.len() > 1;
        cx.label(format!("class size {}", if c.len() < 6 { c.len().to_string() } else { "6+".into() }));
    }
    Ok(())
}
fn c17_real(cx: &mut Cx) -> R {
    let o = copy_opts(cx);
    let b = gen::<Fp>(cx, &o);
    check_gen(&b)?;
    cx.sample(|| b.describe());
    let params = EqAffine::params(b.k);
    let pk = b.keys(&params).map_err(|e| format!("keygen failed: {:?} for {}", e, b.describe()))?;
    let p0 = Pert { what: "unperturbed".into(), wit: b.wits[0].clone(), ov: none() };
    judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p0)?;
    let mut ps = class_perts(cx, &b);
    cx.shuffle(&mut ps);
    ps.truncate(5);
    for p in ps {
        judge::<Fp, EqAffine>(cx, &b, &params, &pk, &p)?;
    }
    label_shape(cx, &b);
    Ok(())
}

#[allow(dead_code)]
fn _unused() {
    let _ = idx_of(&0usize);
}
