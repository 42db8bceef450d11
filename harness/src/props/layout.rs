//! C14 floor planner layouts; C15 malformed tables.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;

use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{
    create_proof, keygen_pk, keygen_vk, Advice, Any, Assigned, Circuit, Column, ConstraintSystem, Error, Fixed, FloorPlanner,
    Instance, Selector, TableColumn,
};
use halo2_proofs::transcript::{Blake2bWrite, Challenge255};
use pasta_curves::{EqAffine, Fp};

use crate::engine::{sub, Cx, Prop, R};
use crate::ensure;
use crate::spec::Cv;
use crate::tamper::{self, Ev, Pos, Recorder, Tamper, K};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "at least two regions sharing a column, or a constant, copy or instance binding; distinct by generator tape",
        assumptions: &[
            "up to 14 items per circuit, offsets below 40, 6 advice, 5 fixed and 5 selector columns",
            "region closures are pure: every pass makes the same requests",
            "the V1 planner may refuse constants that do not fit the free rows of the constant columns within the rows the regions occupy",
        ],
        subs: vec![
            sub("recorded", 20000, 1500000, c14_recorded),
            sub("mock", 2500, 100000, c14_mock),
            sub("keys", 120, 5000, c14_keys),
        ],
    }]
}

#[derive(Clone, Debug)]
struct CellD {
    item: usize,
    kind: K,
    col: usize,
    off: usize,
}
#[derive(Clone, Debug)]
enum Op {
    Sel(usize, usize),
    /// cell id, value
    Adv(usize, Fp),
    Fix(usize, Fp),
    FromConst(usize, Fp),
    ConstrainConst(usize, Fp),
    /// cell id, instance column, row
    FromInst(usize, usize, usize),
    InstValue(usize, usize),
    /// cell id, source cell id
    Copy(usize, usize),
    Equal(usize, usize),
}
#[derive(Clone, Debug)]
enum Item {
    Region(Vec<Op>),
    /// table columns and rows of values
    Table(Vec<usize>, Vec<Vec<Fp>>),
    /// cell, instance column, row
    Instance(usize, usize, usize),
}
#[derive(Clone, Debug)]
struct Plan {
    na: usize,
    nf: usize,
    ni: usize,
    ns: usize,
    nt: usize,
    consts: Vec<usize>,
    complex: Vec<bool>,
    items: Vec<Item>,
    cells: Vec<CellD>,
    nested: bool,
}
#[derive(Clone)]
struct Cfg {
    a: Vec<Column<Advice>>,
    f: Vec<Column<Fixed>>,
    i: Vec<Column<Instance>>,
    s: Vec<Selector>,
    t: Vec<TableColumn>,
}
thread_local! {
    static PLAN: RefCell<Option<Arc<Plan>>> = RefCell::new(None);
}
struct Circ<P> {
    plan: Arc<Plan>,
    known: bool,
    _p: PhantomData<P>,
}
impl<P> Circ<P> {
    fn new(plan: &Arc<Plan>, known: bool) -> Self {
        Circ { plan: plan.clone(), known, _p: PhantomData }
    }
}
fn configure(meta: &mut ConstraintSystem<Fp>) -> Cfg {
    let p = PLAN.with(|p| p.borrow().clone()).expect("HARNESS: no plan");
    let c = Cfg {
        a: (0..p.na).map(|_| meta.advice_column()).collect(),
        f: (0..p.nf).map(|_| meta.fixed_column()).collect(),
        i: (0..p.ni).map(|_| meta.instance_column()).collect(),
        s: p.complex.iter().map(|c| if *c { meta.complex_selector() } else { meta.selector() }).collect(),
        t: (0..p.nt).map(|_| meta.lookup_table_column()).collect(),
    };
    for x in &c.a {
        meta.enable_equality(*x);
    }
    for x in &c.f {
        meta.enable_equality(*x);
    }
    for x in &c.i {
        meta.enable_equality(*x);
    }
    for x in &p.consts {
        meta.enable_constant(c.f[*x]);
    }
    c
}
/// The floor planner marker is a tag that names a real planner.
impl<P: FloorPlanner> Circuit<Fp> for Circ<P> {
    type Config = Cfg;
    type FloorPlanner = Tamper<P>;
    fn without_witnesses(&self) -> Self {
        Circ::new(&self.plan, false)
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Cfg {
        configure(meta)
    }
    fn synthesize(&self, cfg: Cfg, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let p = &self.plan;
        let val = |f: Fp| if self.known { Value::known(f) } else { Value::unknown() };
        let mut got: HashMap<usize, AssignedCell<Fp, Fp>> = HashMap::new();
        for (n, it) in p.items.iter().enumerate() {
            let mut ns;
            let mut ns2;
            macro_rules! with {
                ($l:ident, $b:expr) => {
                    if p.nested && n % 2 == 1 {
                        ns = l.namespace(|| format!("n{}", n));
                        ns2 = ns.namespace(|| "inner");
                        let $l = &mut ns2;
                        $b
                    } else {
                        let $l = &mut l;
                        $b
                    }
                };
            }
            match it {
                Item::Region(ops) => {
                    let new = with!(
                        l,
                        l.assign_region(
                            || format!("r{}", n),
                            |mut r| {
                                let mut here: HashMap<usize, AssignedCell<Fp, Fp>> = HashMap::new();
                                for op in ops {
                                    let d = |id: &usize| (p.cells[*id].col, p.cells[*id].off);
                                    let find = |here: &HashMap<usize, AssignedCell<Fp, Fp>>, id: &usize| {
                                        here.get(id).or_else(|| got.get(id)).expect("HARNESS: cell").clone()
                                    };
                                    match op {
                                        Op::Sel(s, off) => cfg.s[*s].enable(&mut r, *off)?,
                                        Op::Adv(id, v) => {
                                            let (c, o) = d(id);
                                            here.insert(*id, r.assign_advice(|| "a", cfg.a[c], o, || val(*v))?);
                                        }
                                        Op::Fix(id, v) => {
                                            let (c, o) = d(id);
                                            here.insert(*id, r.assign_fixed(|| "f", cfg.f[c], o, || Value::known(*v))?);
                                        }
                                        Op::FromConst(id, v) => {
                                            let (c, o) = d(id);
                                            here.insert(*id, r.assign_advice_from_constant(|| "c", cfg.a[c], o, *v)?);
                                        }
                                        Op::ConstrainConst(id, v) => r.constrain_constant(find(&here, id).cell(), Assigned::Trivial(*v))?,
                                        Op::FromInst(id, ic, ir) => {
                                            let (c, o) = d(id);
                                            here.insert(*id, r.assign_advice_from_instance(|| "i", cfg.i[*ic], *ir, cfg.a[c], o)?);
                                        }
                                        Op::InstValue(ic, ir) => {
                                            let _ = r.instance_value(cfg.i[*ic], *ir)?;
                                        }
                                        Op::Copy(id, src) => {
                                            let (c, o) = d(id);
                                            let s = find(&here, src);
                                            here.insert(*id, s.copy_advice(|| "k", &mut r, cfg.a[c], o)?);
                                        }
                                        Op::Equal(x, y) => {
                                            let (x, y) = (find(&here, x), find(&here, y));
                                            r.constrain_equal(x.cell(), y.cell())?;
                                        }
                                    }
                                }
                                Ok(here)
                            },
                        )
                    )?;
                    got.extend(new);
                }
                Item::Table(cols, rows) => {
                    with!(
                        l,
                        l.assign_table(
                            || format!("r{}", n),
                            |mut t| {
                                for (ri, row) in rows.iter().enumerate() {
                                    for (c, v) in cols.iter().zip(row) {
                                        t.assign_cell(|| "t", cfg.t[*c], ri, || Value::known(*v))?;
                                    }
                                }
                                Ok(())
                            }
                        )
                    )?;
                }
                Item::Instance(id, ic, ir) => {
                    let c = got[id].cell();
                    with!(l, l.constrain_instance(c, cfg.i[*ic], *ir))?;
                }
            }
        }
        Ok(())
    }
}

impl Plan {
    fn requests(&self) -> Vec<(usize, Fp)> {
        let mut v = vec![];
        for it in &self.items {
            if let Item::Region(ops) = it {
                for o in ops {
                    match o {
                        Op::FromConst(id, x) | Op::ConstrainConst(id, x) => v.push((*id, *x)),
                        _ => (),
                    }
                }
            }
        }
        v
    }
    fn without_constants(&self) -> Plan {
        let mut p = self.clone();
        for it in &mut p.items {
            if let Item::Region(ops) = it {
                for o in ops.iter_mut() {
                    if let Op::FromConst(id, x) = o {
                        *o = Op::Adv(*id, *x);
                    }
                }
                ops.retain(|o| !matches!(o, Op::ConstrainConst(..)));
            }
        }
        p
    }
    /// Columns used by a region and its number of rows.
    fn shape(&self, ops: &[Op]) -> (BTreeSet<(u8, usize)>, usize) {
        let mut cols = BTreeSet::new();
        let mut rows = 0;
        for o in ops {
            let (c, off) = match o {
                Op::Sel(s, off) => ((2, *s), *off),
                Op::Adv(id, _) | Op::FromConst(id, _) | Op::FromInst(id, ..) | Op::Copy(id, _) => {
                    ((0, self.cells[*id].col), self.cells[*id].off)
                }
                Op::Fix(id, _) => ((1, self.cells[*id].col), self.cells[*id].off),
                _ => continue,
            };
            cols.insert(c);
            rows = rows.max(off + 1);
        }
        (cols, rows)
    }
    fn describe(&self) -> String {
        let mut s = format!("a={} f={} consts={:?}", self.na, self.nf, self.consts);
        for (n, it) in self.items.iter().enumerate() {
            match it {
                Item::Region(ops) => {
                    s += &format!("; r{}:", n);
                    for o in ops {
                        let c = |id: &usize| {
                            let d = &self.cells[*id];
                            format!("{}{}@{}", if d.kind == K::A { "a" } else { "f" }, d.col, d.off)
                        };
                        s += &match o {
                            Op::Sel(i, off) => format!(" s{}@{}", i, off),
                            Op::Adv(id, _) | Op::Fix(id, _) => format!(" {}", c(id)),
                            Op::FromConst(id, _) => format!(" {}=const", c(id)),
                            Op::ConstrainConst(id, _) => format!(" r{}.{}==const", self.cells[*id].item, c(id)),
                            Op::FromInst(id, ic, ir) => format!(" {}=i{}@{}", c(id), ic, ir),
                            Op::InstValue(ic, ir) => format!(" ?i{}@{}", ic, ir),
                            Op::Copy(id, src) => format!(" {}=r{}.{}", c(id), self.cells[*src].item, c(src)),
                            Op::Equal(x, y) => format!(" r{}.{}==r{}.{}", self.cells[*x].item, c(x), self.cells[*y].item, c(y)),
                        };
                    }
                }
                Item::Table(c, r) => s += &format!("; table {:?}x{}", c, r.len()),
                Item::Instance(id, ic, ir) => s += &format!("; cell {}==i{}@{}", id, ic, ir),
            }
        }
        s.chars().take(1500).collect()
    }
}

fn gen_plan(cx: &mut Cx, max_off: usize) -> Plan {
    let na = cx.usize(1, 6);
    let nf = if cx.chance(7, 8) { cx.usize(1, 5) } else { 0 };
    let ni = cx.usize(0, 2);
    let ns = cx.usize(0, 5);
    let nt = cx.usize(0, 3);
    let mut consts: Vec<usize> = (0..nf).collect();
    cx.shuffle(&mut consts);
    let lo = cx.bool() as usize;
    consts.truncate(cx.usize(lo, 3).min(nf));
    let wc = if consts.is_empty() { cx.usize(0, 5) / 5 } else { cx.usize(0, 2) } as u64;
    let complex = (0..ns).map(|_| cx.bool()).collect();
    let mut p = Plan { na, nf, ni, ns, nt, consts, complex, items: vec![], cells: vec![], nested: cx.bool() };
    let n = cx.usize(1, 14);
    let mut tables: Vec<usize> = (0..nt).collect();
    let small = cx.usize(1, max_off);
    for it in 0..n {
        match cx.weighted(&[12, 1, 2]) {
            1 if !tables.is_empty() => {
                let take = cx.usize(1, tables.len());
                let cols: Vec<usize> = tables.drain(..take).collect();
                let rows = cx.usize(1, 8);
                let vals = (0..rows).map(|_| cols.iter().map(|_| cx.field()).collect()).collect();
                p.items.push(Item::Table(cols, vals));
            }
            2 if ni > 0 && !p.cells.is_empty() => {
                let id = cx.usize(0, p.cells.len() - 1);
                let (ic, ir) = (cx.usize(0, ni - 1), cx.usize(0, 5));
                p.items.push(Item::Instance(id, ic, ir));
            }
            _ => {
                let mut ops = vec![];
                let mut used: BTreeSet<(u8, usize, usize)> = BTreeSet::new();
                // a region uses a few of the columns
                let acols: Vec<usize> = {
                    let mut v: Vec<usize> = (0..na).collect();
                    cx.shuffle(&mut v);
                    v.truncate(cx.usize(1, na));
                    v
                };
                let span = cx.usize(1, small);
                for _ in 0..cx.usize(0, 9) {
                    let off = cx.usize(0, span - 1) + if cx.chance(1, 12) { cx.usize(0, max_off) } else { 0 };
                    let kind = cx.weighted(&[8, 3, 3, wc, wc, 1, 1, 2, 2]);
                    let ac = *cx.pick(&acols);
                    let dup = cx.chance(1, 20);
                    let mut fresh = |used: &mut BTreeSet<(u8, usize, usize)>, k, c| used.insert((k, c, off)) || dup;
                    let cell = |p: &mut Plan, kind, col| {
                        p.cells.push(CellD { item: it, kind, col, off });
                        p.cells.len() - 1
                    };
                    match kind {
                        1 if ns > 0 => {
                            let s = cx.usize(0, ns - 1);
                            if fresh(&mut used, 2, s) {
                                ops.push(Op::Sel(s, off));
                            }
                        }
                        2 if nf > 0 => {
                            let c = cx.usize(0, nf - 1);
                            if fresh(&mut used, 1, c) {
                                let id = cell(&mut p, K::F, c);
                                ops.push(Op::Fix(id, cx.field()));
                            }
                        }
                        3 if fresh(&mut used, 0, ac) => {
                            let id = cell(&mut p, K::A, ac);
                            ops.push(Op::FromConst(id, cx.field()));
                        }
                        4 if !p.cells.is_empty() => {
                            let id = cx.usize(0, p.cells.len() - 1);
                            ops.push(Op::ConstrainConst(id, cx.field()));
                        }
                        5 if ni > 0 && fresh(&mut used, 0, ac) => {
                            let id = cell(&mut p, K::A, ac);
                            ops.push(Op::FromInst(id, cx.usize(0, ni - 1), cx.usize(0, 5)));
                        }
                        6 if ni > 0 => ops.push(Op::InstValue(cx.usize(0, ni - 1), cx.usize(0, 5))),
                        7 if !p.cells.is_empty() => {
                            if fresh(&mut used, 0, ac) {
                                let src = cx.usize(0, p.cells.len() - 1);
                                let id = cell(&mut p, K::A, ac);
                                ops.push(Op::Copy(id, src));
                            }
                        }
                        8 if !p.cells.is_empty() => {
                            let (x, y) = (cx.usize(0, p.cells.len() - 1), cx.usize(0, p.cells.len() - 1));
                            ops.push(Op::Equal(x, y));
                        }
                        _ => {
                            if fresh(&mut used, 0, ac) {
                                let id = cell(&mut p, K::A, ac);
                                ops.push(Op::Adv(id, cx.field()));
                            }
                        }
                    }
                }
                p.items.push(Item::Region(ops));
            }
        }
    }
    p
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Layout {
    starts: BTreeMap<usize, usize>,
    /// request -> fixed cells it is bound to
    constants: Vec<BTreeSet<(usize, usize)>>,
}

/// Checks one recorded synthesis against the plan.
fn check(p: &Plan, evs: &[Ev<Fp>], known: bool, inst: &[Vec<Fp>]) -> Result<Layout, String> {
    // value of every cell
    let mut vals: Vec<Fp> = vec![Fp::zero(); p.cells.len()];
    let iv = |c: usize, r: usize| inst.get(c).and_then(|v| v.get(r)).copied().unwrap_or_default();
    for it in &p.items {
        if let Item::Region(ops) = it {
            for o in ops {
                match o {
                    Op::Adv(id, v) | Op::Fix(id, v) | Op::FromConst(id, v) => vals[*id] = *v,
                    Op::FromInst(id, c, r) => vals[*id] = iv(*c, *r),
                    Op::Copy(id, s) => vals[*id] = vals[*s],
                    _ => (),
                }
            }
        }
    }
    // split by region
    let mut per: BTreeMap<usize, Vec<&Ev<Fp>>> = BTreeMap::new();
    let mut outside: Vec<&Ev<Fp>> = vec![];
    let mut copies: Vec<(Pos, Pos)> = vec![];
    let mut cur: Option<usize> = None;
    for e in evs {
        match e {
            Ev::Enter(n) => {
                ensure!(cur.is_none(), "region entered inside a region");
                let i: usize = n.strip_prefix('r').and_then(|x| x.parse().ok()).ok_or(format!("unknown region name {}", n))?;
                ensure!(per.insert(i, vec![]).is_none(), "item {} is assigned twice", i);
                cur = Some(i);
            }
            Ev::Exit => {
                ensure!(cur.take().is_some(), "exit without a region");
            }
            Ev::Copy(a, b) => copies.push((*a.min(b), *a.max(b))),
            e => match cur {
                Some(i) => per.get_mut(&i).unwrap().push(e),
                None => outside.push(e),
            },
        }
    }
    ensure!(cur.is_none(), "region not left");
    let mut starts = BTreeMap::new();
    for (i, it) in p.items.iter().enumerate() {
        match it {
            Item::Region(ops) => {
                let got = per.remove(&i).ok_or(format!("region {} is never entered", i))?;
                let mut want: Vec<(u8, usize, usize, Option<Fp>)> = vec![];
                let mut wq: BTreeSet<(usize, usize)> = BTreeSet::new();
                for o in ops {
                    match o {
                        Op::Sel(s, off) => want.push((2, *s, *off, None)),
                        Op::Adv(id, _) | Op::FromConst(id, _) | Op::Copy(id, _) => {
                            want.push((0, p.cells[*id].col, p.cells[*id].off, known.then(|| vals[*id])))
                        }
                        Op::FromInst(id, c, r) => {
                            wq.insert((*c, *r));
                            want.push((0, p.cells[*id].col, p.cells[*id].off, known.then(|| vals[*id])))
                        }
                        Op::InstValue(c, r) => {
                            wq.insert((*c, *r));
                        }
                        Op::Fix(id, v) => want.push((1, p.cells[*id].col, p.cells[*id].off, Some(*v))),
                        _ => (),
                    }
                }
                let mut have: Vec<(u8, usize, usize, Option<Fp>)> = vec![];
                let mut hq: BTreeSet<(usize, usize)> = BTreeSet::new();
                for e in got {
                    match e {
                        Ev::Sel(s, r) => have.push((2, *s, *r, None)),
                        Ev::Adv(c, r, v) => have.push((0, *c, *r, if known { *v } else { None })),
                        Ev::Fix(c, r, v) => have.push((1, *c, *r, *v)),
                        Ev::QInst(c, r) => {
                            hq.insert((*c, *r));
                        }
                        e => return Err(format!("unexpected event {:?} in region {}", e, i)),
                    }
                }
                ensure!(wq.is_superset(&hq), "region {} queries instance cells {:?}, asked for {:?}", i, hq, wq);
                if known {
                    ensure!(wq == hq || hq.is_empty(), "region {} queries instance cells {:?}, asked for {:?}", i, hq, wq);
                }
                if want.is_empty() {
                    ensure!(have.is_empty(), "region {} asks for nothing and gets {:?}", i, have);
                    continue;
                }
                let lo = want.iter().map(|w| w.2).min().unwrap();
                let first = have.iter().map(|w| w.2).min().ok_or(format!("region {} gets no assignments", i))?;
                ensure!(first >= lo, "region {} starts before row 0", i);
                let start = first - lo;
                let key = |v: &(u8, usize, usize, Option<Fp>)| (v.0, v.1, v.2, v.3.map(|f| format!("{:?}", f)));
                for w in &mut want {
                    w.2 += start;
                }
                want.sort_by_key(key);
                have.sort_by_key(key);
                ensure!(
                    want == have,
                    "region {} (start {}) asked for {:?} but gets {:?}",
                    i,
                    start,
                    want.iter().filter(|w| !have.contains(w)).collect::<Vec<_>>(),
                    have.iter().filter(|w| !want.contains(w)).collect::<Vec<_>>()
                );
                starts.insert(i, start);
            }
            Item::Table(cols, rows) => {
                let got = per.remove(&i).ok_or(format!("table {} is never assigned", i))?;
                let nf = |c: usize| p.nf + c;
                let mut want: BTreeMap<(usize, usize), Fp> = BTreeMap::new();
                for (r, row) in rows.iter().enumerate() {
                    for (c, v) in cols.iter().zip(row) {
                        want.insert((nf(*c), r), *v);
                    }
                }
                let mut have: BTreeMap<(usize, usize), Fp> = BTreeMap::new();
                for e in got {
                    match e {
                        Ev::Fix(c, r, Some(v)) => {
                            have.insert((*c, *r), *v);
                        }
                        e => return Err(format!("unexpected event {:?} in table {}", e, i)),
                    }
                }
                ensure!(want == have, "table {} asked for {:?} but gets {:?}", i, want, have);
                for (j, c) in cols.iter().enumerate() {
                    let fills: Vec<_> = outside
                        .iter()
                        .filter_map(|e| match e {
                            Ev::Fill(fc, r, v) if *fc == nf(*c) => Some((*r, *v)),
                            _ => None,
                        })
                        .collect();
                    ensure!(
                        fills == vec![(rows.len(), Some(rows[0][j]))],
                        "table {} column {} with {} rows is filled by {:?}",
                        i,
                        c,
                        rows.len(),
                        fills
                    );
                }
            }
            Item::Instance(..) => (),
        }
    }
    ensure!(per.is_empty(), "unknown regions {:?}", per.keys());
    // regions that share a column do not overlap
    let shapes: Vec<(usize, usize, usize, BTreeSet<(u8, usize)>)> = starts
        .iter()
        .map(|(i, s)| {
            let ops = match &p.items[*i] {
                Item::Region(o) => o,
                _ => unreachable!(),
            };
            let (cols, rows) = p.shape(ops);
            (*i, *s, s + rows, cols)
        })
        .collect();
    for (x, a) in shapes.iter().enumerate() {
        for b in &shapes[..x] {
            if a.1 < b.2 && b.1 < a.2 {
                if let Some(c) = a.3.intersection(&b.3).next() {
                    return Err(format!("regions {} (rows {}..{}) and {} (rows {}..{}) overlap in column {:?}", b.0, b.1, b.2, a.0, a.1, a.2, c));
                }
            }
        }
    }
    // equality constraints
    let pos = |id: usize| -> Pos {
        let d = &p.cells[id];
        (d.kind, d.col, starts.get(&d.item).expect("HARNESS: start") + d.off)
    };
    let mut want: Vec<(Pos, Pos)> = vec![];
    let mut pair = |a: Pos, b: Pos| want.push((a.min(b), a.max(b)));
    for it in &p.items {
        match it {
            Item::Region(ops) => {
                for o in ops {
                    match o {
                        Op::FromInst(id, c, r) => pair(pos(*id), (K::I, *c, *r)),
                        Op::Copy(id, s) => pair(pos(*id), pos(*s)),
                        Op::Equal(x, y) => pair(pos(*x), pos(*y)),
                        _ => (),
                    }
                }
            }
            Item::Instance(id, c, r) => pair(pos(*id), (K::I, *c, *r)),
            _ => (),
        }
    }
    for w in &want {
        match copies.iter().position(|c| c == w) {
            Some(i) => {
                copies.swap_remove(i);
            }
            None => return Err(format!("the equality of {:?} and {:?} is not requested from the constraint system", w.0, w.1)),
        }
    }
    // constants
    let mut cells: BTreeMap<(usize, usize), Fp> = BTreeMap::new();
    for e in outside {
        match e {
            Ev::Fix(c, r, Some(v)) => {
                ensure!(p.consts.contains(c), "fixed cell assigned outside regions in column {}, which holds no constants", c);
                ensure!(cells.insert((*c, *r), *v).is_none(), "constant cell {}@{} assigned twice", c, r);
                for s in &shapes {
                    ensure!(
                        !(s.3.contains(&(1, *c)) && s.1 <= *r && *r < s.2),
                        "constant cell {}@{} lies in region {} (rows {}..{}), which uses that column",
                        c,
                        r,
                        s.0,
                        s.1,
                        s.2
                    );
                }
            }
            Ev::Fill(..) => (),
            Ev::QInst(..) => (),
            e => return Err(format!("unexpected event {:?} outside regions", e)),
        }
    }
    let reqs = p.requests();
    let mut bound: Vec<BTreeSet<(usize, usize)>> = vec![BTreeSet::new(); reqs.len()];
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (a, b) in &copies {
        let mut just = false;
        for (i, (id, v)) in reqs.iter().enumerate() {
            let at = pos(*id);
            for (x, y) in [(a, b), (b, a)] {
                if *x == at && y.0 == K::F && cells.get(&(y.1, y.2)) == Some(v) {
                    bound[i].insert((y.1, y.2));
                    used.insert((y.1, y.2));
                    just = true;
                }
            }
        }
        ensure!(just, "equality of {:?} and {:?} was not asked for", a, b);
    }
    for (i, (id, v)) in reqs.iter().enumerate() {
        ensure!(!bound[i].is_empty(), "cell {:?} is not bound to its constant {:?}", pos(*id), v);
    }
    ensure!(used.len() == cells.len(), "{} constant cells assigned, {} used", cells.len(), used.len());
    Ok(Layout { starts, constants: bound })
}

fn record<P: FloorPlanner>(p: &Arc<Plan>, known: bool, inst: &[Vec<Fp>]) -> Result<Vec<Ev<Fp>>, Error> {
    PLAN.with(|x| *x.borrow_mut() = Some(p.clone()));
    let mut cs = ConstraintSystem::default();
    let cfg = configure(&mut cs);
    let consts = p.consts.iter().map(|i| cfg.f[*i]).collect();
    let c = Circ::<P>::new(p, known);
    let mut rec = Recorder::<Fp>::new(inst.to_vec(), known, known);
    P::synthesize(&mut rec, &c, cfg, consts)?;
    let mut e = rec.events;
    // queries are recorded separately, only their set per region matters
    e.extend(rec.q.into_inner());
    Ok(e)
}
fn strip(e: &[Ev<Fp>]) -> Vec<Ev<Fp>> {
    // fills come in unspecified order
    let mut v: Vec<Ev<Fp>> = vec![];
    let mut fills: Vec<Ev<Fp>> = vec![];
    for x in e {
        match x {
            Ev::Adv(c, r, _) => v.push(Ev::Adv(*c, *r, None)),
            Ev::Fill(..) => fills.push(x.clone()),
            Ev::QInst(..) => (),
            x => v.push(x.clone()),
        }
    }
    fills.sort_by_key(|f| format!("{:?}", f));
    v.extend(fills);
    v
}

/// The planner's answer when there are constants it cannot place: legitimate or not.
fn refusal<P: FloorPlanner>(p: &Plan, v1: bool, e: &Error) -> Result<(), String> {
    ensure!(matches!(e, Error::NotEnoughColumnsForConstants), "synthesis fails with {:?}", e);
    let reqs = p.requests().len();
    ensure!(reqs > 0, "constants refused, but none are requested");
    if p.consts.is_empty() {
        return Ok(());
    }
    ensure!(v1, "constants refused although there is a column for them");
    // the layout of the same regions without the constants
    let q = Arc::new(p.without_constants());
    let evs = record::<P>(&q, false, &[]).map_err(|e| format!("without constants: {:?}", e))?;
    let lay = check(&q, &evs, false, &[])?;
    let mut end = 0;
    let mut taken: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (i, s) in &lay.starts {
        if let Item::Region(ops) = &q.items[*i] {
            let (cols, rows) = q.shape(ops);
            end = end.max(s + rows);
            for (k, c) in cols {
                if k == 1 {
                    for r in *s..s + rows {
                        taken.insert((c, r));
                    }
                }
            }
        }
    }
    let free = p.consts.iter().map(|c| (0..end).filter(|r| !taken.contains(&(*c, *r))).count()).sum::<usize>();
    ensure!(free < reqs, "{} constants refused with {} free cells in the constant columns", reqs, free);
    Ok(())
}

fn gen_inst(cx: &mut Cx, p: &Plan) -> Vec<Vec<Fp>> {
    (0..p.ni).map(|_| (0..6).map(|_| cx.field()).collect()).collect()
}
fn labels(cx: &mut Cx, p: &Plan) {
    let regions = p.items.iter().filter(|i| matches!(i, Item::Region(_))).count();
    cx.label(format!("regions {}", if regions > 6 { ">6".into() } else { regions.to_string() }));
    let r = p.requests().len();
    cx.label(format!("constants {}", if r > 2 { ">2".into() } else { r.to_string() }));
    cx.nontrivial = regions >= 2 || r > 0;
}

fn c14_recorded(cx: &mut Cx) -> R {
    if cx.bool() {
        recorded::<SimpleFloorPlanner>(cx, false)
    } else {
        recorded::<V1>(cx, true)
    }
}
fn recorded<P: FloorPlanner>(cx: &mut Cx, v1: bool) -> R {
    let p = Arc::new(gen_plan(cx, 40));
    cx.label(if v1 { "planner V1" } else { "planner simple" });
    labels(cx, &p);
    let inst = gen_inst(cx, &p);
    cx.sample(|| p.describe());
    let a = match record::<P>(&p, true, &inst) {
        Err(e) => {
            refusal::<P>(&p, v1, &e).map_err(|m| format!("{} [{}]", m, p.describe()))?;
            cx.label("constants refused");
            let r = record::<P>(&p, false, &inst);
            ensure!(r.is_err(), "refused with witnesses, laid out without");
            return Ok(());
        }
        Ok(e) => e,
    };
    ensure!(p.requests().is_empty() || !p.consts.is_empty(), "constants accepted without a column for them");
    let at = a.iter().position(|e| matches!(e, Ev::QInst(..))).unwrap_or(a.len());
    let lay = check(&p, &a[..at], true, &inst).map_err(|m| format!("{} [{}]", m, p.describe()))?;
    let asked: BTreeSet<(usize, usize)> = p
        .items
        .iter()
        .flat_map(|i| match i {
            Item::Region(o) => o.clone(),
            _ => vec![],
        })
        .filter_map(|o| match o {
            Op::FromInst(_, c, r) | Op::InstValue(c, r) => Some((c, r)),
            _ => None,
        })
        .collect();
    let queried: BTreeSet<(usize, usize)> =
        a[at..].iter().filter_map(|e| if let Ev::QInst(c, r) = e { Some((*c, *r)) } else { None }).collect();
    ensure!(asked == queried, "instance cells {:?} queried, {:?} asked for", queried, asked);
    let b = record::<P>(&p, false, &[]).map_err(|e| format!("without witnesses: {:?}", e))?;
    let at = b.iter().position(|e| matches!(e, Ev::QInst(..))).unwrap_or(b.len());
    let lay2 = check(&p, &b[..at], false, &[]).map_err(|m| format!("without witnesses: {} [{}]", m, p.describe()))?;
    ensure!(lay == lay2, "layout with and without witnesses differs [{}]", p.describe());
    ensure!(strip(&a) == strip(&b), "events with and without witnesses differ [{}]", p.describe());
    let c = record::<P>(&p, true, &inst).map_err(|e| format!("second run: {:?}", e))?;
    ensure!(strip(&a) == strip(&c), "two runs differ [{}]", p.describe());
    Ok(())
}

fn c14_mock(cx: &mut Cx) -> R {
    if cx.bool() {
        mock::<SimpleFloorPlanner>(cx, false)
    } else {
        mock::<V1>(cx, true)
    }
}
/// The real backends see the layout that the recorder saw.
fn mock<P: FloorPlanner>(cx: &mut Cx, v1: bool) -> R {
    let p = Arc::new(gen_plan(cx, 6));
    labels(cx, &p);
    cx.label(if v1 { "planner V1" } else { "planner simple" });
    let inst = gen_inst(cx, &p);
    cx.sample(|| p.describe());
    let want = match record::<P>(&p, false, &[]) {
        Err(e) => return refusal::<P>(&p, v1, &e),
        Ok(e) => e,
    };
    PLAN.with(|x| *x.borrow_mut() = Some(p.clone()));
    tamper::start_log::<Fp>();
    let r = MockProver::run(8, &Circ::<P>::new(&p, true), inst.clone());
    let log = tamper::take_log::<Fp>();
    r.map_err(|e| format!("mock prover: {:?} [{}]", e, p.describe()))?;
    check(&p, &log, true, &inst).map_err(|m| format!("mock prover: {} [{}]", m, p.describe()))?;
    ensure!(strip(&log) == strip(&want), "layout in the mock prover differs [{}]", p.describe());
    Ok(())
}

fn c14_keys(cx: &mut Cx) -> R {
    if cx.bool() {
        keys::<SimpleFloorPlanner>(cx, false)
    } else {
        keys::<V1>(cx, true)
    }
}
fn keys<P: FloorPlanner>(cx: &mut Cx, v1: bool) -> R {
    let p = Arc::new(gen_plan(cx, 3));
    labels(cx, &p);
    cx.label(if v1 { "planner V1" } else { "planner simple" });
    let inst = gen_inst(cx, &p);
    cx.sample(|| p.describe());
    let want = match record::<P>(&p, false, &[]) {
        Err(e) => return refusal::<P>(&p, v1, &e),
        Ok(e) => strip(&e),
    };
    PLAN.with(|x| *x.borrow_mut() = Some(p.clone()));
    let k = 7;
    let params = <EqAffine as Cv<Fp>>::params(k);
    let empty = Circ::<P>::new(&p, false);
    let full = Circ::<P>::new(&p, true);
    tamper::start_log::<Fp>();
    let vk = keygen_vk(&params, &empty);
    let l1 = tamper::take_log::<Fp>();
    let vk = vk.map_err(|e| format!("keygen_vk: {:?} [{}]", e, p.describe()))?;
    tamper::start_log::<Fp>();
    let pk = keygen_pk(&params, vk, &full);
    let l2 = tamper::take_log::<Fp>();
    let pk = pk.map_err(|e| format!("keygen_pk: {:?} [{}]", e, p.describe()))?;
    // an unsatisfied circuit can still be laid out by the prover
    let refs: Vec<&[Fp]> = inst.iter().map(|v| &v[..]).collect();
    let mut t: Blake2bWrite<Vec<u8>, EqAffine, Challenge255<EqAffine>> = Blake2bWrite::init(vec![]);
    tamper::start_log::<Fp>();
    let r = create_proof(&params, &pk, &[full], &[&refs], cx.rng(), &mut t);
    let l3 = tamper::take_log::<Fp>();
    r.map_err(|e| format!("create_proof: {:?} [{}]", e, p.describe()))?;
    for (what, l, known) in [("keygen_vk", &l1, false), ("keygen_pk", &l2, false), ("create_proof", &l3, true)] {
        ensure!(strip_backend(l, what) == strip_backend_want(&want, what), "layout in {} differs [{}]", what, p.describe());
        if known {
            // the prover does not look at fixed cells and copies
            let adv: Vec<Option<Fp>> = l.iter().filter_map(|e| if let Ev::Adv(_, _, v) = e { Some(*v) } else { None }).collect();
            ensure!(adv.iter().all(|v| v.is_some()), "prover leaves advice cells out");
        } else {
            check(&p, l, false, &[]).map_err(|m| format!("{}: {} [{}]", what, m, p.describe()))?;
        }
    }
    Ok(())
}
fn strip_backend(e: &[Ev<Fp>], what: &str) -> Vec<Ev<Fp>> {
    let mut v = strip(e);
    if what == "create_proof" {
        for x in &mut v {
            match x {
                Ev::Fix(_, _, v) | Ev::Fill(_, _, v) => *v = None,
                _ => (),
            }
        }
        v.sort_by_key(|e| matches!(e, Ev::Fill(..)) as usize * 1000 + if let Ev::Fill(c, ..) = e { *c } else { 0 });
    }
    v
}
fn strip_backend_want(e: &[Ev<Fp>], what: &str) -> Vec<Ev<Fp>> {
    strip_backend(e, what)
}

// ------------------------------------------------------------------ C15: malformed tables

thread_local! {
    static TABLES: RefCell<Vec<Vec<(usize, usize, Fp)>>> = RefCell::new(vec![]);
}
struct TableCircuit<P>(Vec<Vec<(usize, usize, Fp)>>, PhantomData<P>);
impl<P: FloorPlanner> Circuit<Fp> for TableCircuit<P> {
    type Config = (Vec<TableColumn>, Column<Advice>);
    type FloorPlanner = Tamper<P>;
    fn without_witnesses(&self) -> Self {
        TableCircuit(self.0.clone(), PhantomData)
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
        let a = meta.advice_column();
        ((0..3).map(|_| meta.lookup_table_column()).collect(), a)
    }
    fn synthesize(&self, (t, _): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        for call in &self.0 {
            l.assign_table(
                || "t",
                |mut table| {
                    for (c, r, v) in call {
                        table.assign_cell(|| "c", t[*c], *r, || Value::known(*v))?;
                    }
                    Ok(())
                },
            )?;
        }
        Ok(())
    }
}
/// What the table calls mean: the errors that are due, or the columns.
fn table_model(calls: &[Vec<(usize, usize, Fp)>]) -> Result<BTreeMap<usize, Vec<Fp>>, Vec<&'static str>> {
    let mut done: BTreeMap<usize, Vec<Fp>> = BTreeMap::new();
    for call in calls {
        let mut cols: BTreeMap<usize, BTreeMap<usize, Fp>> = BTreeMap::new();
        for (c, r, v) in call {
            if done.contains_key(c) {
                return Err(vec!["UsedColumn"]);
            }
            let e = cols.entry(*c).or_default();
            if *r == 0 && e.contains_key(&0) {
                return Err(vec!["OverwriteDefault"]);
            }
            e.insert(*r, *v);
        }
        let mut due = vec![];
        for m in cols.values() {
            let len = m.keys().max().unwrap() + 1;
            if m.len() != len {
                due.push("ColumnNotAssigned");
            }
        }
        let lens: BTreeSet<usize> = cols.values().map(|m| m.keys().max().unwrap() + 1).collect();
        if lens.len() > 1 {
            due.push("UnevenColumnLengths");
        }
        if !due.is_empty() {
            return Err(due);
        }
        for (c, m) in cols {
            done.insert(c, m.values().cloned().collect());
        }
    }
    Ok(done)
}
pub fn c15_malformed(cx: &mut Cx) -> R {
    if cx.bool() {
        malformed::<SimpleFloorPlanner>(cx)
    } else {
        malformed::<V1>(cx)
    }
}
fn malformed<P: FloorPlanner>(cx: &mut Cx) -> R {
    let ncalls = cx.usize(1, 3);
    let mut calls = vec![];
    let mut free: Vec<usize> = vec![0, 1, 2];
    for _ in 0..ncalls {
        let mut cols: Vec<usize> = vec![];
        for _ in 0..cx.usize(1, 2) {
            if !free.is_empty() && !cx.chance(1, 12) {
                let i = cx.usize(0, free.len() - 1);
                cols.push(free.remove(i));
            } else if cx.chance(1, 3) {
                cols.push(cx.usize(0, 2));
            }
        }
        cols.sort_unstable();
        cols.dedup();
        let rows = cx.usize(1, 6);
        let mut ops: Vec<(usize, usize, Fp)> = vec![];
        for r in 0..rows {
            for c in &cols {
                ops.push((*c, r, cx.field()));
            }
        }
        if cx.chance(1, 2) && !ops.is_empty() {
            match cx.below(5) {
                0 => {
                    let i = cx.usize(0, ops.len() - 1);
                    ops.remove(i);
                }
                1 => {
                    let i = cx.usize(0, ops.len() - 1);
                    let (c, r, _) = ops[i];
                    ops.push((c, r, cx.field()));
                }
                2 => {
                    let c = *cx.pick(&cols);
                    ops.push((c, rows + cx.usize(0, 2), cx.field()));
                }
                3 => {
                    // column order instead of row order, or any order
                    cx.shuffle(&mut ops);
                }
                _ => {
                    let c = *cx.pick(&cols);
                    ops.retain(|o| o.0 != c || o.1 + 1 < rows);
                }
            }
        }
        calls.push(ops);
    }
    let want = table_model(&calls);
    cx.label(match &want {
        Ok(_) => "well formed".to_string(),
        Err(e) => e.join("+"),
    });
    cx.nontrivial = want.is_err();
    cx.sample(|| {
        format!("{:?} -> {:?}", calls.iter().map(|c| c.iter().map(|o| (o.0, o.1)).collect::<Vec<_>>()).collect::<Vec<_>>(), want.as_ref().err())
    });
    let c = TableCircuit::<P>(calls.clone(), PhantomData);
    let k = 5;
    tamper::start_log::<Fp>();
    let m = MockProver::run(k, &c, vec![]);
    let log = tamper::take_log::<Fp>();
    let text = |e: &Error| format!("{:?}", e);
    match (&want, &m) {
        (Ok(cols), Ok(_)) => {
            // every column is filled up with its first row
            let mut fills: BTreeMap<usize, (usize, Option<Fp>)> = BTreeMap::new();
            let mut fixed: BTreeMap<(usize, usize), Fp> = BTreeMap::new();
            for e in &log {
                match e {
                    Ev::Fill(c, r, v) => {
                        ensure!(fills.insert(*c, (*r, *v)).is_none(), "table column {} filled twice", c);
                    }
                    Ev::Fix(c, r, Some(v)) => {
                        fixed.insert((*c, *r), *v);
                    }
                    _ => (),
                }
            }
            for (c, v) in cols {
                ensure!(fills.get(c) == Some(&(v.len(), Some(v[0]))), "table column {} of {} rows is filled by {:?}", c, v.len(), fills.get(c));
                for (r, x) in v.iter().enumerate() {
                    ensure!(fixed.get(&(*c, r)) == Some(x), "table cell {}@{} holds {:?}", c, r, fixed.get(&(*c, r)));
                }
            }
            ensure!(fills.len() == cols.len(), "{} columns filled, {} assigned", fills.len(), cols.len());
        }
        (Err(due), Err(e)) => {
            let t = text(e);
            ensure!(t.contains("TableError") && due.iter().any(|d| t.contains(d)), "error {} where {:?} is due: {:?}", t, due, calls);
        }
        (Ok(_), Err(e)) => return Err(format!("well-formed tables refused with {}: {:?}", text(e), calls)),
        (Err(due), Ok(_)) => return Err(format!("malformed tables accepted ({:?} due): {:?}", due, calls)),
    }
    if cx.chance(1, 20) {
        let params = <EqAffine as Cv<Fp>>::params(k);
        let vk = keygen_vk(&params, &c);
        ensure!(vk.is_ok() == want.is_ok(), "keygen_vk {:?} where {:?} is due", vk.err(), want.err());
    }
    let _ = Any::Advice;
    Ok(())
}
