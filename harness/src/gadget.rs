//! Shared driver of the gadget checks: completeness against a primitive, then search for witnesses
//! that satisfy the circuit although the relation between its instance values does not hold.
use std::collections::HashMap;

use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::Circuit;
use rand::Rng;

use crate::engine::{Cx, R};
use crate::ensure;
use crate::forge::{self, Trace};
use crate::spec::Fld;
use crate::tamper::{self, Pos, K};

/// Runs a circuit that must be satisfied; returns its trace.
/// `name` determines the constraint system, `tables` the contents of its lookup tables.
pub fn honest<F: Fld, C: Circuit<F>>(k: u32, c: &C, inst: &[Vec<F>], name: &str, tables: &str, validate: bool) -> Result<Trace<F>, String> {
    let (v, log) = forge::run_mock(k, c, inst).map_err(|e| format!("synthesis of an honest witness failed: {}", e))?;
    v.map_err(|e| format!("an honest witness is rejected: {}", e))?;
    let t = Trace::new(forge::system::<F, C>(name), k, &log, inst, tables);
    if validate {
        t.holds().map_err(|e| format!("an accepted honest trace violates {}", e))?;
    }
    Ok(t)
}
/// Runs a circuit with wrong instance values; they must be rejected.
pub fn rejects<F: Fld, C: Circuit<F>>(k: u32, c: &C, inst: &[Vec<F>], what: &str) -> R {
    let m = match MockProver::run(k, c, inst.to_vec()) {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    ensure!(m.verify().is_err(), "{} is accepted", what);
    Ok(())
}

pub struct Plan<'a, F> {
    /// tries of the constraint-repairing search
    pub repairs: usize,
    /// splice every cell of the second trace into the first
    pub splices: usize,
    pub budget: usize,
    /// whether the witness described by the trace satisfies the relation under test
    pub rel: &'a dyn Fn(&Trace<F>) -> bool,
    /// further cells that keep their values
    pub keep: &'a dyn Fn(&Pos) -> bool,
    /// gadget-specific starting points for the repairing search
    pub roots: Vec<Vec<(Pos, F)>>,
}

/// Instance column 0 holds the inputs, every other instance column outputs.
pub fn attack<F: Fld, C: Circuit<F>>(cx: &mut Cx, k: u32, c: &C, inst: &[Vec<F>], t: &mut Trace<F>, b: Option<&Trace<F>>, plan: &Plan<F>) -> R {
    let mut rng = cx.rng();
    let lens: Vec<usize> = inst.iter().map(|v| v.len()).collect();
    let check = |cx: &mut Cx, t: &mut Trace<F>, undo: Vec<(Pos, F)>, how: String| judge(cx, k, c, &lens, t, plan.rel, undo, how);
    let free = |_: &Pos| false;
    let inputs = |p: &Pos| p.0 == K::I && p.1 == 0;
    let outputs = |p: &Pos| p.0 == K::I && p.1 != 0;
    if let Some(b) = b {
        let total = t.classes();
        let all = total <= plan.splices;
        let n = if all { total } else { plan.splices };
        for i in 0..n {
            let root = if all { i } else { rng.gen_range(0..total) };
            if t.get(&t.member(root)) == b.get(&t.member(root)) {
                continue;
            }
            let pin = |p: &Pos| inputs(p) || (plan.keep)(p);
            let nopin = |p: &Pos| (plan.keep)(p);
            let forward = rng.gen_bool(0.9);
            let pins: &dyn Fn(&Pos) -> bool = if rng.gen_bool(0.8) { &pin } else { &nopin };
            cx.eval();
            if let Some(u) = t.splice(b, root, forward, pins, plan.budget, &mut rng) {
                let p = t.member(root);
                check(cx, t, u, format!("two witnesses spliced at {:?}", p))?;
            }
        }
        cx.label(format!("spliced roots >= {}", n / 500 * 500));
    }
    for i in 0..plan.repairs + plan.roots.len() {
        let mode = rng.gen_range(0..10);
        let mut roots: Vec<(Pos, F)> = vec![];
        let mut pins: &dyn Fn(&Pos) -> bool = &inputs;
        let how;
        if i < plan.roots.len() {
            roots = plan.roots[i].clone();
            how = "chosen cells changed".to_string();
        } else if mode < 3 && lens.len() > 1 && lens[1..].iter().any(|l| *l > 0) {
            let c = loop {
                let c = rng.gen_range(1..lens.len());
                if lens[c] > 0 {
                    break c;
                }
            };
            let p = (K::I, c, rng.gen_range(0..lens[c]));
            let v = t.get(&p);
            roots.push((p, t.other(&mut rng, v)));
            how = format!("output {:?} changed", p);
        } else if mode < 5 && lens[0] > 0 {
            let p = (K::I, 0, rng.gen_range(0..lens[0]));
            let v = t.get(&p);
            roots.push((p, t.other(&mut rng, v)));
            pins = if rng.gen_bool(0.6) { &outputs } else { &free };
            how = format!("input {:?} changed", p);
        } else {
            for _ in 0..1 + rng.gen_range(0..8usize).saturating_sub(5) {
                let p = t.random_cell(&mut rng);
                let v = t.get(&p);
                roots.push((p, t.other(&mut rng, v)));
            }
            if rng.gen_bool(0.15) {
                pins = &free;
            }
            how = format!("cells {:?} changed", roots.iter().map(|r| r.0).collect::<Vec<_>>());
        }
        let pin = |p: &Pos| pins(p) || (plan.keep)(p);
        cx.eval();
        if let Some(u) = t.repair(&mut rng, &roots, &pin, plan.budget) {
            cx.label("repaired");
            check(cx, t, u, how)?;
        }
    }
    Ok(())
}

/// Decides whether a changed trace, which satisfies the constraints as read, is a false witness that
/// the mock prover accepts; restores the trace.
fn judge<F: Fld, C: Circuit<F>>(
    cx: &mut Cx,
    k: u32,
    c: &C,
    lens: &[usize],
    t: &mut Trace<F>,
    rel: &dyn Fn(&Trace<F>) -> bool,
    undo: Vec<(Pos, F)>,
    how: String,
) -> R {
    let ok = rel(t);
    let res = if ok {
        cx.label("another witness with the relation intact");
        Ok(())
    } else {
        let over: HashMap<(usize, usize), F> = t.overrides(&undo);
        let inst2: Vec<Vec<F>> = t.inst.iter().zip(lens).map(|(v, n)| v[..*n].to_vec()).collect();
        let n = over.len();
        tamper::set_overrides(over);
        let m = MockProver::run(k, c, inst2.clone());
        tamper::clear();
        match m.map(|m| m.verify()) {
            Ok(Ok(())) => {
                let cells: Vec<String> = undo.iter().take(8).map(|(p, v)| format!("{:?}: {:?} -> {:?}", p, v, t.get(p))).collect();
                Err(format!(
                    "a false witness satisfies the circuit ({}; {} cells changed: {}; instance {:?})",
                    how,
                    n,
                    cells.join(", "),
                    inst2.iter().map(|v| v.iter().take(12).collect::<Vec<_>>()).collect::<Vec<_>>()
                ))
            }
            _ => {
                cx.label("forged witness not confirmed");
                if std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("not confirmed: {} {:?}", how, t.holds());
                }
                Ok(())
            }
        }
    };
    t.restore(undo);
    res
}
/// Starts the repairing search from chosen cells; only `keep` is pinned.
pub fn attack_roots<F: Fld, C: Circuit<F>>(
    cx: &mut Cx,
    k: u32,
    c: &C,
    inst: &[Vec<F>],
    t: &mut Trace<F>,
    rel: &dyn Fn(&Trace<F>) -> bool,
    roots: Vec<Vec<(Pos, F)>>,
    budget: usize,
    keep: &dyn Fn(&Pos) -> bool,
) -> R {
    let mut rng = cx.rng();
    let lens: Vec<usize> = inst.iter().map(|v| v.len()).collect();
    for r in roots {
        cx.eval();
        if let Some(u) = t.repair(&mut rng, &r, keep, budget) {
            cx.label("repaired");
            judge(cx, k, c, &lens, t, rel, u, format!("{:?} changed", r.iter().map(|x| x.0).collect::<Vec<_>>()))?;
        }
    }
    Ok(())
}

/// The low n bits of a value.
pub fn bits_below<F: ff::PrimeField>(v: &F, n: usize) -> F {
    let r = v.to_repr();
    (0..n.min(254)).rev().fold(F::ZERO, |a, i| a.double() + F::from(((r.as_ref()[i / 8] >> (i % 8)) & 1) as u64))
}
