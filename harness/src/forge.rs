//! Search for witnesses that should not exist. A satisfying trace of a circuit is recorded from the
//! real floor planner, one or more cells are changed, and violated constraints are repaired by
//! solving them for cells that have not been touched yet, until everything holds again or nothing
//! is left to solve. A repaired trace is then handed to the real mock prover, and the relation
//! between its instance values decides whether it is an attack.
//!
//! The constraint system is read from `ConstraintSystem::pinned()`.
use std::any::Any as StdAny;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::{Arc, Mutex};

use ff::PrimeField;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{Circuit, ConstraintSystem};
use rand::Rng;
use rand_chacha::ChaCha8Rng;

use crate::spec::Fld;
use crate::tamper::{self, Ev, Pos, K};

#[derive(Clone, Debug)]
pub enum E<F> {
    Const(F),
    Sel(usize),
    Fix(usize, i32),
    Adv(usize, i32),
    Inst(usize, i32),
    Neg(Box<E<F>>),
    Sum(Box<E<F>>, Box<E<F>>),
    Prod(Box<E<F>>, Box<E<F>>),
    Scaled(Box<E<F>>, F),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str) {
        self.ws();
        assert!(self.s[self.i..].starts_with(t.as_bytes()), "HARNESS: expected {} at {}", t, String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 60)]));
        self.i += t.len();
    }
    fn peek(&mut self, t: &str) -> bool {
        self.ws();
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn int(&mut self) -> i32 {
        self.ws();
        let st = self.i;
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).parse().expect("HARNESS: int")
    }
    fn felt<F: PrimeField>(&mut self) -> F {
        let w = self.word();
        let h = w.strip_prefix("0x").expect("HARNESS: field element");
        assert_eq!(h.len(), 64, "HARNESS: field element");
        let mut r = F::Repr::default();
        for j in 0..32 {
            r.as_mut()[31 - j] = u8::from_str_radix(&h[2 * j..2 * j + 2], 16).expect("HARNESS: hex");
        }
        F::from_repr(r).expect("HARNESS: field element")
    }
    fn query(&mut self) -> (usize, i32) {
        self.lit("{ query_index:");
        self.int();
        self.lit(", column_index:");
        let c = self.int();
        self.lit(", rotation: Rotation(");
        let r = self.int();
        self.lit(") }");
        (c as usize, r)
    }
    fn expr<F: PrimeField>(&mut self) -> E<F> {
        match &self.word()[..] {
            "Constant" => {
                self.lit("(");
                let f = self.felt();
                self.lit(")");
                E::Const(f)
            }
            "Selector" => {
                self.lit("(Selector(");
                let i = self.int();
                self.lit(",");
                self.word();
                self.lit("))");
                E::Sel(i as usize)
            }
            "Fixed" => {
                let (c, r) = self.query();
                E::Fix(c, r)
            }
            "Advice" => {
                let (c, r) = self.query();
                E::Adv(c, r)
            }
            "Instance" => {
                let (c, r) = self.query();
                E::Inst(c, r)
            }
            "Negated" => {
                self.lit("(");
                let a = self.expr();
                self.lit(")");
                E::Neg(Box::new(a))
            }
            "Sum" => {
                self.lit("(");
                let a = self.expr();
                self.lit(",");
                let b = self.expr();
                self.lit(")");
                E::Sum(Box::new(a), Box::new(b))
            }
            "Product" => {
                self.lit("(");
                let a = self.expr();
                self.lit(",");
                let b = self.expr();
                self.lit(")");
                E::Prod(Box::new(a), Box::new(b))
            }
            "Scaled" => {
                self.lit("(");
                let a = self.expr();
                self.lit(",");
                let f = self.felt();
                self.lit(")");
                E::Scaled(Box::new(a), f)
            }
            w => panic!("HARNESS: unknown expression {:?}", w),
        }
    }
    fn exprs<F: PrimeField>(&mut self) -> Vec<E<F>> {
        self.lit("[");
        let mut v = vec![];
        while !self.peek("]") {
            v.push(self.expr());
            if self.peek(",") {
                self.lit(",");
            }
        }
        self.lit("]");
        v
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F> {
    e: E<F>,
    /// cells read: kind, column, rotation
    reads: Vec<(K, usize, i32)>,
    /// selectors that are factors of the whole expression
    factors: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Lookup<F> {
    ins: Vec<E<F>>,
    tabs: Vec<E<F>>,
    reads: Vec<(K, usize, i32)>,
}
#[derive(Clone, Debug)]
pub struct System<F> {
    pub na: usize,
    pub nf: usize,
    pub ni: usize,
    pub ns: usize,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub unusable: usize,
    /// readers of a column: (constraint number, rotation)
    readers: HashMap<(K, usize), Vec<(usize, i32)>>,
}

fn reads<F>(e: &E<F>, out: &mut Vec<(K, usize, i32)>) {
    match e {
        E::Const(_) | E::Sel(_) => (),
        E::Fix(..) => (),
        E::Adv(c, r) => out.push((K::A, *c, *r)),
        E::Inst(c, r) => out.push((K::I, *c, *r)),
        E::Neg(a) | E::Scaled(a, _) => reads(a, out),
        E::Sum(a, b) | E::Prod(a, b) => {
            reads(a, out);
            reads(b, out);
        }
    }
}
fn factors<F>(e: &E<F>, out: &mut Vec<usize>) {
    match e {
        E::Sel(s) => out.push(*s),
        E::Neg(a) | E::Scaled(a, _) => factors(a, out),
        E::Prod(a, b) => {
            factors(a, out);
            factors(b, out);
        }
        _ => (),
    }
}

impl<F: Fld> System<F> {
    pub fn of<C: Circuit<F>>() -> System<F> {
        let mut cs = ConstraintSystem::<F>::default();
        let _ = C::configure(&mut cs);
        let unusable = cs.blinding_factors() + 1;
        Self::parse(&format!("{:?}", cs.pinned()), unusable)
    }
    fn parse(text: &str, unusable: usize) -> System<F> {
        let num = |k: &str| -> usize {
            let at = text.find(k).expect("HARNESS: pinned") + k.len();
            let mut p = P { s: text.as_bytes(), i: at };
            p.lit(":");
            p.int() as usize
        };
        let (na, nf, ni, ns) = (num("num_advice_columns"), num("num_fixed_columns"), num("num_instance_columns"), num("num_selectors"));
        let mut p = P { s: text.as_bytes(), i: text.find("gates: ").expect("HARNESS: gates") + 7 };
        let gates: Vec<E<F>> = p.exprs();
        let mut p = P { s: text.as_bytes(), i: text.find("lookups: ").expect("HARNESS: lookups") + 9 };
        let mut lookups = vec![];
        p.lit("[");
        while !p.peek("]") {
            p.lit("Argument { input_expressions:");
            let ins: Vec<E<F>> = p.exprs();
            p.lit(", table_expressions:");
            let tabs: Vec<E<F>> = p.exprs();
            p.lit("}");
            if p.peek(",") {
                p.lit(",");
            }
            let mut r = vec![];
            for e in &ins {
                reads(e, &mut r);
            }
            r.sort();
            r.dedup();
            lookups.push(Lookup { ins, tabs, reads: r });
        }
        let gates: Vec<Gate<F>> = gates
            .into_iter()
            .map(|e| {
                let mut r = vec![];
                reads(&e, &mut r);
                r.sort();
                r.dedup();
                let mut f = vec![];
                factors(&e, &mut f);
                Gate { e, reads: r, factors: f }
            })
            .collect();
        let mut readers: HashMap<(K, usize), Vec<(usize, i32)>> = HashMap::new();
        for (i, r) in gates.iter().map(|g| &g.reads).chain(lookups.iter().map(|l| &l.reads)).enumerate() {
            for (k, c, rot) in r {
                readers.entry((*k, *c)).or_default().push((i, *rot));
            }
        }
        System { na, nf, ni, ns, gates, lookups, unusable, readers }
    }
}

struct Table<F> {
    rows: Vec<Vec<F>>,
    set: HashSet<Vec<Vec<u8>>>,
    by: Vec<HashMap<Vec<u8>, Vec<usize>>>,
}
fn key<F: PrimeField>(f: &F) -> Vec<u8> {
    f.to_repr().as_ref().to_vec()
}

/// A recorded trace.
pub struct Trace<F> {
    pub sys: Arc<System<F>>,
    n: usize,
    pub adv: Vec<Vec<F>>,
    fix: Vec<Vec<F>>,
    pub inst: Vec<Vec<F>>,
    sel: Vec<Vec<bool>>,
    /// assigned advice cells in order of assignment
    pub cells: Vec<(usize, usize)>,
    order: HashMap<(usize, usize), usize>,
    class: HashMap<Pos, usize>,
    members: Vec<Vec<Pos>>,
    tables: Vec<Arc<Table<F>>>,
    /// violated sums of two spread words and their doubled odd parts are split bit by bit
    pub spread: bool,
}

lazy_static::lazy_static! {
    static ref SYSTEMS: Mutex<HashMap<String, Arc<dyn StdAny + Send + Sync>>> = Default::default();
    static ref TABLES: Mutex<HashMap<String, Arc<dyn StdAny + Send + Sync>>> = Default::default();
}
/// The constraint system of a circuit, cached under a name that determines it.
pub fn system<F: Fld, C: Circuit<F>>(name: &str) -> Arc<System<F>> {
    if let Some(s) = SYSTEMS.lock().unwrap().get(name) {
        return s.clone().downcast::<System<F>>().expect("HARNESS: system type");
    }
    let s = Arc::new(System::<F>::of::<C>());
    SYSTEMS.lock().unwrap().insert(name.to_string(), s.clone());
    s
}

/// Runs the mock prover on a circuit that uses a `Tamper` planner; returns its verdict and the log.
pub fn run_mock<F: Fld, C: Circuit<F>>(k: u32, c: &C, inst: &[Vec<F>]) -> Result<(Result<(), String>, Vec<Ev<F>>), String> {
    tamper::start_log::<F>();
    let m = MockProver::run(k, c, inst.to_vec());
    let log = tamper::take_log::<F>();
    match m {
        Err(e) => Err(format!("{:?}", e)),
        Ok(m) => Ok((
            m.verify().map_err(|e| {
                let s: Vec<String> = e.iter().take(3).map(|e| format!("{}", e).chars().take(250).collect()).collect();
                format!("{} failures: {}", e.len(), s.join("; "))
            }),
            log,
        )),
    }
}

/// Synthesis alone with the mock prover as the backend.
pub fn run_synth<F: Fld, C: Circuit<F>>(k: u32, c: &C, inst: &[Vec<F>]) -> Result<Vec<Ev<F>>, String> {
    tamper::start_log::<F>();
    let m = MockProver::run(k, c, inst.to_vec());
    let log = tamper::take_log::<F>();
    m.map(|_| log).map_err(|e| format!("{:?}", e))
}

impl<F: Fld> Trace<F> {
    /// `tables`: a name that determines the contents of the lookup tables.
    pub fn new(sys: Arc<System<F>>, k: u32, log: &[Ev<F>], inst: &[Vec<F>], tables: &str) -> Self {
        let n = 1usize << k;
        let mut adv = vec![vec![F::ZERO; n]; sys.na];
        let mut fix = vec![vec![F::ZERO; n]; sys.nf];
        let mut sel = vec![vec![false; n]; sys.ns];
        let mut cells = vec![];
        let mut order = HashMap::new();
        let usable = n - sys.unusable;
        let mut parent: HashMap<Pos, Pos> = HashMap::new();
        fn find(p: &mut HashMap<Pos, Pos>, mut x: Pos) -> Pos {
            while let Some(y) = p.get(&x).copied() {
                if y == x {
                    break;
                }
                if let Some(z) = p.get(&y).copied() {
                    p.insert(x, z);
                }
                x = y;
            }
            x
        }
        for e in log {
            match e {
                Ev::Adv(c, r, v) => {
                    adv[*c][*r] = v.unwrap_or(F::ZERO);
                    if order.insert((*c, *r), cells.len()).is_none() {
                        cells.push((*c, *r));
                    }
                }
                Ev::Fix(c, r, v) => fix[*c][*r] = v.unwrap_or(F::ZERO),
                Ev::Fill(c, r, v) => {
                    for x in *r..usable {
                        fix[*c][x] = v.unwrap_or(F::ZERO);
                    }
                }
                Ev::Sel(s, r) => sel[*s][*r] = true,
                Ev::Copy(a, b) => {
                    let (x, y) = (find(&mut parent, *a), find(&mut parent, *b));
                    parent.entry(*a).or_insert(*a);
                    parent.entry(*b).or_insert(*b);
                    parent.insert(x, y);
                    parent.entry(y).or_insert(y);
                }
                _ => (),
            }
        }
        let mut class = HashMap::new();
        let mut members: Vec<Vec<Pos>> = vec![];
        let mut root: BTreeMap<Pos, usize> = BTreeMap::new();
        let mut all: Vec<Pos> = parent.keys().copied().collect();
        all.sort();
        for p in all {
            let r = find(&mut parent, p);
            let id = *root.entry(r).or_insert_with(|| {
                members.push(vec![]);
                members.len() - 1
            });
            members[id].push(p);
            class.insert(p, id);
        }
        for (c, r) in &cells {
            let p = (K::A, *c, *r);
            class.entry(p).or_insert_with(|| {
                members.push(vec![p]);
                members.len() - 1
            });
        }
        let mut full: Vec<Vec<F>> = inst.to_vec();
        for col in &mut full {
            col.resize(n, F::ZERO);
        }
        let mut t = Trace { sys, n, adv, fix, inst: full, sel, cells, order, class, members, tables: vec![], spread: false };
        let cached: Option<Vec<Arc<Table<F>>>> = TABLES
            .lock()
            .unwrap()
            .get(tables)
            .map(|v| v.clone().downcast::<Vec<Arc<Table<F>>>>().expect("HARNESS: table").to_vec());
        t.tables = cached.unwrap_or_else(|| {
            let made: Vec<Arc<Table<F>>> = t
                .sys
                .lookups
                .iter()
                .map(|l| {
                    let mut rows = vec![];
                    let mut set = HashSet::new();
                    let mut by: Vec<HashMap<Vec<u8>, Vec<usize>>> = vec![HashMap::new(); l.tabs.len()];
                    for r in 0..usable {
                        let row: Vec<F> = l.tabs.iter().map(|e| t.eval(e, r, None)).collect();
                        let ks: Vec<Vec<u8>> = row.iter().map(key).collect();
                        if set.insert(ks.clone()) {
                            for (b, k) in by.iter_mut().zip(ks) {
                                b.entry(k).or_default().push(rows.len());
                            }
                            rows.push(row);
                        }
                    }
                    Arc::new(Table { rows, set, by })
                })
                .collect();
            TABLES.lock().unwrap().insert(tables.to_string(), Arc::new(made.clone()));
            made
        });
        t
    }
    fn at(&self, row: usize, rot: i32) -> usize {
        (row as i64 + rot as i64).rem_euclid(self.n as i64) as usize
    }
    pub fn get(&self, p: &Pos) -> F {
        match p.0 {
            K::A => self.adv[p.1][p.2],
            K::F => self.fix[p.1][p.2],
            K::I => self.inst[p.1][p.2],
        }
    }
    /// Evaluates at a row, with a class replaced by a value.
    fn eval(&self, e: &E<F>, row: usize, with: Option<(usize, F)>) -> F {
        let cell = |k: K, c: usize, rot: i32| {
            let p = (k, c, self.at(row, rot));
            if let Some((cl, v)) = with {
                if self.class.get(&p) == Some(&cl) {
                    return v;
                }
            }
            self.get(&p)
        };
        match e {
            E::Const(f) => *f,
            E::Sel(s) => {
                if self.sel[*s][row] {
                    F::ONE
                } else {
                    F::ZERO
                }
            }
            E::Fix(c, r) => self.fix[*c][self.at(row, *r)],
            E::Adv(c, r) => cell(K::A, *c, *r),
            E::Inst(c, r) => cell(K::I, *c, *r),
            E::Neg(a) => -self.eval(a, row, with),
            E::Sum(a, b) => self.eval(a, row, with) + self.eval(b, row, with),
            E::Prod(a, b) => {
                let x = self.eval(a, row, with);
                if bool::from(x.is_zero()) {
                    x
                } else {
                    x * self.eval(b, row, with)
                }
            }
            E::Scaled(a, f) => self.eval(a, row, with) * f,
        }
    }
    /// Checks everything; used to validate the engine against the mock prover.
    pub fn holds(&self) -> Result<(), String> {
        for (i, g) in self.sys.gates.iter().enumerate() {
            for r in 0..self.n {
                if g.factors.iter().any(|s| !self.sel[*s][r]) {
                    continue;
                }
                if r >= self.n - self.sys.unusable && g.factors.is_empty() {
                    continue;
                }
                if !bool::from(self.eval(&g.e, r, None).is_zero()) {
                    return Err(format!("gate polynomial {} at row {}", i, r));
                }
            }
        }
        for (i, l) in self.sys.lookups.iter().enumerate() {
            for r in 0..self.n - self.sys.unusable {
                let v: Vec<Vec<u8>> = l.ins.iter().map(|e| key(&self.eval(e, r, None))).collect();
                if !self.tables[i].set.contains(&v) {
                    return Err(format!("lookup {} at row {}", i, r));
                }
            }
        }
        for m in &self.members {
            if m.iter().any(|p| self.get(p) != self.get(&m[0])) {
                return Err(format!("copies of {:?}", m[0]));
            }
        }
        Ok(())
    }
    fn assigned(&self, p: &Pos) -> bool {
        match p.0 {
            K::A => self.order.contains_key(&(p.1, p.2)),
            K::I => self.class.contains_key(p),
            K::F => false,
        }
    }
    /// A plausible other value for a cell.
    pub fn other(&self, rng: &mut ChaCha8Rng, v: F) -> F {
        loop {
            let w = match rng.gen_range(0..10) {
                0 => F::ZERO,
                1 => F::ONE,
                2 | 3 => F::ONE - v,
                4 => -v,
                5 => v + F::ONE,
                6 => v - F::ONE,
                7 => {
                    let (c, r) = self.cells[rng.gen_range(0..self.cells.len())];
                    self.adv[c][r]
                }
                8 => v + F::from(2).pow_vartime([rng.gen_range(0..255u64)]),
                _ => F::random(&mut *rng),
            };
            if w != v {
                return w;
            }
        }
    }
    pub fn random_cell(&self, rng: &mut ChaCha8Rng) -> Pos {
        let (c, r) = self.cells[rng.gen_range(0..self.cells.len())];
        (K::A, c, r)
    }

    /// Changes the given cells and repairs what breaks. On success the trace holds the new witness
    /// and the undo list is returned; otherwise the trace is restored.
    pub fn repair(&mut self, rng: &mut ChaCha8Rng, roots: &[(Pos, F)], pinned: &dyn Fn(&Pos) -> bool, budget: usize) -> Option<Vec<(Pos, F)>> {
        let mut undo: Vec<(Pos, F)> = vec![];
        let mut frozen: HashSet<usize> = HashSet::new();
        if self.try_repair(rng, roots, pinned, budget, &mut undo, &mut frozen) {
            Some(undo)
        } else {
            self.restore(undo);
            None
        }
    }
    fn put(&mut self, p: &Pos, v: F) {
        match p.0 {
            K::A => self.adv[p.1][p.2] = v,
            K::I => self.inst[p.1][p.2] = v,
            K::F => unreachable!(),
        }
    }
    fn set_class(
        &mut self,
        cl: usize,
        v: F,
        pinned: &dyn Fn(&Pos) -> bool,
        undo: &mut Vec<(Pos, F)>,
        queue: &mut VecDeque<(usize, usize)>,
        queued: &mut HashSet<(usize, usize)>,
    ) -> bool {
        let ms = self.members[cl].clone();
        if !self.free(cl, pinned) {
            return false;
        }
        for p in &ms {
            undo.push((*p, self.get(p)));
            self.put(p, v);
        }
        for p in &ms {
            if let Some(rs) = self.sys.readers.get(&(p.0, p.1)) {
                for (i, rot) in rs {
                    let row = self.at(p.2, -*rot);
                    if queued.insert((*i, row)) {
                        queue.push_back((*i, row));
                    }
                }
            }
        }
        true
    }
    fn free(&self, cl: usize, pinned: &dyn Fn(&Pos) -> bool) -> bool {
        self.members[cl].iter().all(|p| p.0 != K::F && self.assigned(p) && !pinned(p))
    }
    fn try_repair(
        &mut self,
        rng: &mut ChaCha8Rng,
        roots: &[(Pos, F)],
        pinned: &dyn Fn(&Pos) -> bool,
        budget: usize,
        undo: &mut Vec<(Pos, F)>,
        frozen: &mut HashSet<usize>,
    ) -> bool {
        let mut queue = VecDeque::new();
        let mut queued = HashSet::new();
        for (p, v) in roots {
            let cl = match self.class.get(p) {
                Some(c) => *c,
                None => return false,
            };
            if self.get(p) == *v || !frozen.insert(cl) {
                continue;
            }
            if !self.set_class(cl, *v, pinned, undo, &mut queue, &mut queued) {
                return false;
            }
        }
        let ng = self.sys.gates.len();
        let sys = self.sys.clone();
        let mut steps = 0;
        let lifo = rng.gen_bool(0.3);
        while let Some((i, row)) = if lifo { queue.pop_back() } else { queue.pop_front() } {
            queued.remove(&(i, row));
            steps += 1;
            if steps > budget {
                return false;
            }
            if i < ng {
                let g = &sys.gates[i];
                if g.factors.iter().any(|s| !self.sel[*s][row]) || bool::from(self.eval(&g.e, row, None).is_zero()) {
                    continue;
                }
                if row >= self.n - sys.unusable && g.factors.is_empty() {
                    continue;
                }
                if self.spread {
                    if let Some(sol) = self.split(&g.e, &g.reads, row, pinned, frozen) {
                        for (cl, v) in sol {
                            frozen.insert(cl);
                            if !self.set_class(cl, v, pinned, undo, &mut queue, &mut queued) {
                                return false;
                            }
                        }
                        continue;
                    }
                }
                // constraints of this row that depend on the same cells are solved together
                if let Some(sol) = self.solve_row(i, row, pinned, frozen) {
                    for (cl, v) in sol {
                        frozen.insert(cl);
                        if !self.set_class(cl, v, pinned, undo, &mut queue, &mut queued) {
                            return false;
                        }
                    }
                    continue;
                }
                match self.solve(rng, &g.e, &g.reads, row, F::ZERO, pinned, frozen) {
                    Some((cl, v)) => {
                        frozen.insert(cl);
                        if !self.set_class(cl, v, pinned, undo, &mut queue, &mut queued) {
                            return false;
                        }
                        // it may still be violated through another cell of the class
                    }
                    None => return false,
                }
            } else {
                if row >= self.n - sys.unusable {
                    continue;
                }
                let l = &sys.lookups[i - ng];
                let vals: Vec<F> = l.ins.iter().map(|e| self.eval(e, row, None)).collect();
                let tab = self.tables[i - ng].clone();
                if tab.set.contains(&vals.iter().map(key).collect::<Vec<_>>()) {
                    continue;
                }
                // inputs without untouched cells decide the row; otherwise choose a row to aim for
                let fixed: Vec<usize> = (0..vals.len())
                    .filter(|j| {
                        let mut rd = vec![];
                        reads(&l.ins[*j], &mut rd);
                        !rd.is_empty() && self.open_classes(&rd, row, pinned, frozen).is_empty()
                    })
                    .collect();
                let target = if !fixed.is_empty() {
                    let all = match tab.by[fixed[0]].get(&key(&vals[fixed[0]])) {
                        Some(rs) => rs,
                        None => return false,
                    };
                    let ok: Vec<usize> = all.iter().filter(|r| fixed.iter().all(|j| tab.rows[**r][*j] == vals[*j])).copied().take(64).collect();
                    if ok.is_empty() {
                        return false;
                    }
                    ok[rng.gen_range(0..ok.len())]
                } else if vals.len() > 1 && rng.gen_bool(0.85) {
                    let mut hit = None;
                    let st = rng.gen_range(0..vals.len());
                    for d in 0..vals.len() {
                        let j = if rng.gen_bool(0.6) { d } else { (st + d) % vals.len() };
                        if let Some(rs) = tab.by[j].get(&key(&vals[j])) {
                            hit = Some(rs[rng.gen_range(0..rs.len())]);
                            break;
                        }
                    }
                    match hit {
                        Some(h) => h,
                        None => return false,
                    }
                } else if vals.len() == 1 && rng.gen_bool(0.7) {
                    // low bits of one of the cells
                    let cands: Vec<&(K, usize, i32)> = l.reads.iter().collect();
                    let (k, c, rot) = *cands[rng.gen_range(0..cands.len())];
                    let v = self.get(&(k, c, self.at(row, rot)));
                    let low = u64::from_le_bytes(v.to_repr().as_ref()[..8].try_into().unwrap());
                    let bits = (usize::BITS - 1 - tab.rows.len().leading_zeros()) as u64;
                    let w = F::from(low & ((1 << bits) - 1));
                    match tab.by[0].get(&key(&w)) {
                        Some(rs) => rs[0],
                        None => rng.gen_range(0..tab.rows.len()),
                    }
                } else {
                    rng.gen_range(0..tab.rows.len())
                };
                let want = tab.rows[target].clone();
                for (j, e) in l.ins.iter().enumerate() {
                    if self.eval(e, row, None) == want[j] {
                        continue;
                    }
                    let mut rd = vec![];
                    reads(e, &mut rd);
                    rd.sort();
                    rd.dedup();
                    match self.solve(rng, e, &rd, row, want[j], pinned, frozen) {
                        Some((cl, v)) => {
                            frozen.insert(cl);
                            if !self.set_class(cl, v, pinned, undo, &mut queue, &mut queued) {
                                return false;
                            }
                        }
                        None => return false,
                    }
                }
                if queued.insert((i, row)) {
                    queue.push_back((i, row));
                }
            }
        }
        true
    }
    /// Gate rows that are switched on by a selector.
    pub fn selected(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (s, rows) in self.sel.iter().enumerate() {
            v.extend((0..self.n).filter(|r| rows[*r]).map(|r| (s, r)));
        }
        v
    }
    /// Classes read by the gates of a selector at a row.
    pub fn group(&self, sel: usize, row: usize) -> Vec<usize> {
        let mut v = vec![];
        for g in self.sys.gates.iter().filter(|g| g.factors.contains(&sel)) {
            for (k, c, rot) in &g.reads {
                if let Some(cl) = self.class.get(&(*k, *c, self.at(row, *rot))) {
                    if !v.contains(cl) {
                        v.push(*cl);
                    }
                }
            }
        }
        v
    }
    /// For every gate of a selector at a row, the cells it is linear in and their coefficients.
    pub fn linear(&self, sel: usize, row: usize) -> Vec<Vec<(usize, F)>> {
        let mut out = vec![];
        for g in self.sys.gates.iter().filter(|g| g.factors.contains(&sel)) {
            let mut v: Vec<(usize, F)> = vec![];
            for (k, c, rot) in &g.reads {
                if let Some(cl) = self.class.get(&(*k, *c, self.at(row, *rot))) {
                    if !v.iter().any(|x| x.0 == *cl) {
                        if let Some(f) = self.coeff(&g.e, row, *cl) {
                            if !bool::from(f.is_zero()) {
                                v.push((*cl, f));
                            }
                        }
                    }
                }
            }
            out.push(v);
        }
        out
    }
    /// The coefficient of a cell in a constraint that is linear in it.
    fn coeff(&self, e: &E<F>, row: usize, cl: usize) -> Option<F> {
        let p = |x: u64| self.eval(e, row, Some((cl, F::from(x))));
        let (a, b, c, d) = (p(0), p(1), p(2), p(5));
        if b - a == c - b && d - a == (b - a) * F::from(5) {
            Some(b - a)
        } else {
            None
        }
    }
    /// Even and odd halves for a sum of spread words: c (x + 2^32 y + 2 u + 2^33 v) + rest = 0.
    fn split(&self, e: &E<F>, rd: &[(K, usize, i32)], row: usize, pinned: &dyn Fn(&Pos) -> bool, frozen: &HashSet<usize>) -> Option<Vec<(usize, F)>> {
        let open: Vec<(usize, F)> = self.open_classes(rd, row, pinned, frozen).into_iter().filter_map(|c| self.coeff(e, row, c).map(|f| (c, f))).collect();
        for (_, c) in &open {
            if bool::from(c.is_zero()) {
                continue;
            }
            let find = |m: u64| open.iter().find(|o| o.1 == *c * F::from(m)).map(|o| o.0);
            let (x, y, u, v) = match (find(1), find(1 << 32), find(2), find(1 << 33)) {
                (Some(x), Some(y), Some(u), Some(v)) => (x, y, u, v),
                _ => continue,
            };
            let mut rest = self.eval(e, row, None);
            for (cl, f) in &open {
                if [x, y, u, v].contains(cl) {
                    rest -= *f * self.get(&self.members[*cl][0]);
                }
            }
            let total = -rest * c.invert().unwrap();
            let r = total.to_repr();
            if r.as_ref()[8..].iter().any(|b| *b != 0) {
                continue;
            }
            let n = u64::from_le_bytes(r.as_ref()[..8].try_into().unwrap());
            let (even, odd) = (n & 0x5555_5555_5555_5555, (n >> 1) & 0x5555_5555_5555_5555);
            return Some(vec![
                (x, F::from(even & 0xffff_ffff)),
                (y, F::from(even >> 32)),
                (u, F::from(odd & 0xffff_ffff)),
                (v, F::from(odd >> 32)),
            ]);
        }
        None
    }
    fn age(&self, cl: usize) -> usize {
        self.members[cl]
            .iter()
            .filter_map(|m| self.order.get(&(m.1, m.2)).filter(|_| m.0 == K::A))
            .min()
            .copied()
            .unwrap_or(usize::MAX)
    }
    fn open_classes(&self, rd: &[(K, usize, i32)], row: usize, pinned: &dyn Fn(&Pos) -> bool, frozen: &HashSet<usize>) -> Vec<usize> {
        let mut v = vec![];
        for (k, c, rot) in rd {
            if let Some(cl) = self.class.get(&(*k, *c, self.at(row, *rot))) {
                if !frozen.contains(cl) && !v.contains(cl) && self.free(*cl, pinned) {
                    v.push(*cl);
                }
            }
        }
        v
    }
    /// Solves the violated constraint of a row together with the other active constraints of the row
    /// that share untouched cells with it, as a linear system, preferring the latest cells.
    /// None if there is only one such constraint, or no solution.
    fn solve_row(&self, first: usize, row: usize, pinned: &dyn Fn(&Pos) -> bool, frozen: &HashSet<usize>) -> Option<Vec<(usize, F)>> {
        let sys = &self.sys;
        let active: Vec<usize> = (0..sys.gates.len()).filter(|i| !sys.gates[*i].factors.iter().any(|s| !self.sel[*s][row])).collect();
        let open: HashMap<usize, Vec<usize>> = active.iter().map(|i| (*i, self.open_classes(&sys.gates[*i].reads, row, pinned, frozen))).collect();
        let mut eqs = vec![first];
        let mut vars: Vec<usize> = open.get(&first)?.clone();
        loop {
            let before = eqs.len();
            for i in &active {
                if !eqs.contains(i) && open[i].iter().any(|c| vars.contains(c)) {
                    eqs.push(*i);
                    for c in &open[i] {
                        if !vars.contains(c) {
                            vars.push(*c);
                        }
                    }
                }
            }
            if eqs.len() == before {
                break;
            }
        }
        if eqs.len() < 2 || vars.is_empty() {
            return None;
        }
        // cells that enter some equation non-linearly keep their values
        let lin = |e: &E<F>, cl: usize| -> Option<F> {
            let p = |x: u64| self.eval(e, row, Some((cl, F::from(x))));
            let (a, b, c, d) = (p(0), p(1), p(2), p(5));
            if b - a == c - b && d - a == (b - a) * F::from(5) {
                Some(b - a)
            } else {
                None
            }
        };
        let mut cols: Vec<(usize, Vec<F>)> = vec![];
        for v in vars {
            let col: Option<Vec<F>> = eqs.iter().map(|i| lin(&sys.gates[*i].e, v)).collect();
            if let Some(c) = col {
                if c.iter().any(|x| !bool::from(x.is_zero())) {
                    cols.push((v, c));
                }
            }
        }
        cols.sort_by_key(|(v, _)| std::cmp::Reverse(self.age(*v)));
        let m = eqs.len();
        let mut rhs: Vec<F> = eqs.iter().map(|i| -self.eval(&sys.gates[*i].e, row, None)).collect();
        let mut used = vec![false; m];
        let mut pivots: Vec<(usize, usize)> = vec![];
        for j in 0..cols.len() {
            let r = match (0..m).find(|r| !used[*r] && !bool::from(cols[j].1[*r].is_zero())) {
                Some(r) => r,
                None => continue,
            };
            used[r] = true;
            let inv = cols[j].1[r].invert().unwrap();
            for c in cols.iter_mut() {
                c.1[r] *= inv;
            }
            rhs[r] *= inv;
            for q in 0..m {
                if q != r {
                    let f = cols[j].1[q];
                    if !bool::from(f.is_zero()) {
                        for c in cols.iter_mut() {
                            let x = c.1[r];
                            c.1[q] -= f * x;
                        }
                        let x = rhs[r];
                        rhs[q] -= f * x;
                    }
                }
            }
            pivots.push((j, r));
        }
        if (0..m).any(|r| !used[r] && !bool::from(rhs[r].is_zero())) {
            return None;
        }
        Some(
            pivots
                .into_iter()
                .filter(|(_, r)| !bool::from(rhs[*r].is_zero()))
                .map(|(j, r)| {
                    let cl = cols[j].0;
                    (cl, self.get(&self.members[cl][0]) + rhs[r])
                })
                .collect(),
        )
    }

    /// Undoes a successful repair or splice.
    pub fn restore(&mut self, undo: Vec<(Pos, F)>) {
        for (p, v) in undo.into_iter().rev() {
            self.put(&p, v);
        }
    }
    pub fn overrides(&self, undo: &[(Pos, F)]) -> HashMap<(usize, usize), F> {
        undo.iter().filter(|(p, _)| p.0 == K::A).map(|(p, _)| ((p.1, p.2), self.adv[p.1][p.2])).collect()
    }
    pub fn classes(&self) -> usize {
        self.members.len()
    }
    pub fn class_of(&self, p: &Pos) -> Option<usize> {
        self.class.get(p).copied()
    }
    pub fn member(&self, cl: usize) -> Pos {
        self.members[cl][0]
    }

    /// Whether giving the cells of a class another value, and nothing else, violates a constraint.
    pub fn breaks(&mut self, cl: usize, v: F) -> bool {
        let (mut undo, mut queue, mut queued) = (vec![], VecDeque::new(), HashSet::new());
        let none = |_: &Pos| false;
        if !self.set_class(cl, v, &none, &mut undo, &mut queue, &mut queued) {
            return true;
        }
        let ng = self.sys.gates.len();
        let bad = queue.iter().any(|(i, row)| {
            if *i < ng {
                let g = &self.sys.gates[*i];
                !(g.factors.iter().any(|s| !self.sel[*s][*row]) || (*row >= self.n - self.sys.unusable && g.factors.is_empty()))
                    && !bool::from(self.eval(&g.e, *row, None).is_zero())
            } else {
                *row < self.n - self.sys.unusable && {
                    let l = &self.sys.lookups[*i - ng];
                    let vals: Vec<Vec<u8>> = l.ins.iter().map(|e| key(&self.eval(e, *row, None))).collect();
                    !self.tables[*i - ng].set.contains(&vals)
                }
            }
        });
        self.restore(undo);
        bad
    }
    pub fn members(&self, cl: usize) -> &[Pos] {
        &self.members[cl]
    }
    /// Advice columns read by lookups.
    pub fn lookup_columns(&self) -> HashSet<usize> {
        self.sys.lookups.iter().flat_map(|l| l.reads.iter()).filter(|r| r.0 == K::A).map(|r| r.1).collect()
    }

    /// Mixes two satisfying traces of the same shape: the class `root` takes its value from `b`, and
    /// every constraint this violates is satisfied by taking more cells from `b` (with `forward`, only
    /// cells assigned after the root). Where a constraint is missing the mixture closes early.
    pub fn splice(&mut self, b: &Trace<F>, root: usize, forward: bool, pinned: &dyn Fn(&Pos) -> bool, budget: usize, rng: &mut ChaCha8Rng) -> Option<Vec<(Pos, F)>> {
        let mut undo = vec![];
        let ok = self.try_splice(b, root, forward, pinned, budget, rng, &mut undo);
        if ok {
            Some(undo)
        } else {
            self.restore(undo);
            None
        }
    }
    fn try_splice(
        &mut self,
        b: &Trace<F>,
        root: usize,
        forward: bool,
        pinned: &dyn Fn(&Pos) -> bool,
        budget: usize,
        rng: &mut ChaCha8Rng,
        undo: &mut Vec<(Pos, F)>,
    ) -> bool {
        if self.members.len() != b.members.len() || !self.free(root, pinned) {
            return false;
        }
        let limit = if forward { self.age(root) } else { 0 };
        let ng = self.sys.gates.len();
        let sys = self.sys.clone();
        let mut queue: VecDeque<(usize, usize)> = VecDeque::new();
        let mut queued = HashSet::new();
        let mut done: HashSet<usize> = HashSet::new();
        if b.get(&self.members[root][0]) == self.get(&self.members[root][0]) {
            return false;
        }
        done.insert(root);
        if !self.set_class(root, b.get(&self.members[root][0]), pinned, undo, &mut queue, &mut queued) {
            return false;
        }
        let mut steps = 0;
        while let Some((i, row)) = queue.pop_front() {
            queued.remove(&(i, row));
            steps += 1;
            if steps > budget {
                return false;
            }
            loop {
                let rd = if i < ng {
                    let g = &sys.gates[i];
                    if g.factors.iter().any(|s| !self.sel[*s][row])
                        || (row >= self.n - sys.unusable && g.factors.is_empty())
                        || bool::from(self.eval(&g.e, row, None).is_zero())
                    {
                        break;
                    }
                    &g.reads
                } else {
                    if row >= self.n - sys.unusable {
                        break;
                    }
                    let l = &sys.lookups[i - ng];
                    let vals: Vec<Vec<u8>> = l.ins.iter().map(|e| key(&self.eval(e, row, None))).collect();
                    if self.tables[i - ng].set.contains(&vals) {
                        break;
                    }
                    &l.reads
                };
                let mut best: Option<(usize, usize)> = None;
                let shuffle = !forward && rng.gen_bool(0.2);
                for cl in self.open_classes(rd, row, pinned, &done) {
                    let age = self.age(cl);
                    if age < limit || b.get(&self.members[cl][0]) == self.get(&self.members[cl][0]) {
                        continue;
                    }
                    if best.map_or(true, |(a, _)| if shuffle { rng.gen_bool(0.5) } else { age > a }) {
                        best = Some((age, cl));
                    }
                }
                match best {
                    None => return false,
                    Some((_, cl)) => {
                        done.insert(cl);
                        let v = b.get(&self.members[cl][0]);
                        if !self.set_class(cl, v, pinned, undo, &mut queue, &mut queued) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }
    /// A class not yet touched and a value for it that gives the expression the wanted value.
    fn solve(
        &self,
        rng: &mut ChaCha8Rng,
        e: &E<F>,
        rd: &[(K, usize, i32)],
        row: usize,
        want: F,
        pinned: &dyn Fn(&Pos) -> bool,
        frozen: &HashSet<usize>,
    ) -> Option<(usize, F)> {
        let mut cands: Vec<(usize, usize)> = self.open_classes(rd, row, pinned, frozen).into_iter().map(|c| (self.age(c), c)).collect();
        cands.sort();
        cands.dedup();
        cands.reverse();
        if rng.gen_bool(0.25) {
            for i in (1..cands.len()).rev() {
                cands.swap(i, rng.gen_range(0..=i));
            }
        }
        for (_, cl) in cands {
            let p = |x: u64| self.eval(e, row, Some((cl, F::from(x)))) - want;
            let (p0, p1, p2, p3) = (p(0), p(1), p(2), p(3));
            // a x^2 + b x + c
            let half = F::from(2).invert().unwrap();
            let a = (p2 - p1.double() + p0) * half;
            let b = p1 - p0 - a;
            let c = p0;
            if a * F::from(9) + b * F::from(3) + c != p3 {
                continue;
            }
            let v = if bool::from(a.is_zero()) {
                if bool::from(b.is_zero()) {
                    continue;
                }
                -c * b.invert().unwrap()
            } else {
                let disc = b.square() - a * c * F::from(4);
                let s = Option::<F>::from(disc.sqrt());
                match s {
                    None => continue,
                    Some(s) => {
                        let s = if rng.gen_bool(0.5) { s } else { -s };
                        (s - b) * (a.double()).invert().unwrap()
                    }
                }
            };
            return Some((cl, v));
        }
        None
    }
}
