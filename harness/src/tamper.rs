//! A floor planner wrapper that sits between the real floor planner and the constraint
//! system backend (keygen, prover, mock prover). It records what passes through and can
//! override the values of chosen advice cells, without any change to the code under test.

use std::any::Any as StdAny;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;

use ff::Field;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::{
    Advice, Any, Assigned, Assignment, Circuit, Column, Error, Fixed, FloorPlanner, Instance, Selector,
};

/// Column kind of a recorded cell.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    A,
    F,
    I,
}
/// (kind, column index, absolute row)
pub type Pos = (K, usize, usize);

/// The first integer in the `Debug` output (column index / selector index).
pub fn idx_of<T: Debug>(t: &T) -> usize {
    let s = format!("{:?}", t);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && !b[i].is_ascii_digit() {
        i += 1;
    }
    let mut v = 0usize;
    while i < b.len() && b[i].is_ascii_digit() {
        v = v * 10 + (b[i] - b'0') as usize;
        i += 1;
    }
    v
}
pub fn any_pos(c: &Column<Any>, row: usize) -> Pos {
    let k = match c.column_type() {
        Any::Advice => K::A,
        Any::Fixed => K::F,
        Any::Instance => K::I,
    };
    (k, idx_of(c), row)
}

/// One call to the `Assignment` backend.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev<F> {
    Enter(String),
    Exit,
    Sel(usize, usize),
    Adv(usize, usize, Option<F>),
    Fix(usize, usize, Option<F>),
    Copy(Pos, Pos),
    Fill(usize, usize, Option<F>),
    QInst(usize, usize),
}

pub fn val_opt<F: Field, V: Into<Assigned<F>>>(v: Value<V>) -> Option<F> {
    let mut out = None;
    let _ = v.map(|v| {
        let a: Assigned<F> = v.into();
        out = Some(eval_assigned(&a));
    });
    out
}
/// Harness-side evaluation of an `Assigned`, independent from `Assigned::evaluate`.
pub fn eval_assigned<F: Field>(a: &Assigned<F>) -> F {
    match a {
        Assigned::Zero => F::ZERO,
        Assigned::Trivial(x) => *x,
        Assigned::Rational(n, d) => *n * d.invert().unwrap_or(F::ZERO),
    }
}

struct State {
    on: bool,
    record: bool,
    overrides: Option<Box<dyn StdAny>>,
    log: Option<Box<dyn StdAny>>,
}
thread_local! {
    static ST: RefCell<State> = RefCell::new(State { on: false, record: false, overrides: None, log: None });
}

/// Sets the advice overrides used by subsequent synthesis on this thread.
pub fn set_overrides<F: Field>(o: HashMap<(usize, usize), F>) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.on = !o.is_empty();
        s.overrides = Some(Box::new(o));
    })
}
pub fn clear() {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.on = false;
        s.record = false;
        s.overrides = None;
        s.log = None;
    })
}
pub fn start_log<F: Field>() {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.record = true;
        s.log = Some(Box::new(Vec::<Ev<F>>::new()));
    })
}
pub fn take_log<F: Field>() -> Vec<Ev<F>> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.record = false;
        *s.log.take().expect("HARNESS: no log").downcast::<Vec<Ev<F>>>().expect("HARNESS: log type")
    })
}
fn recording() -> bool {
    ST.with(|s| s.borrow().record)
}
fn push<F: Field>(e: Ev<F>) {
    ST.with(|s| {
        if let Some(l) = s.borrow_mut().log.as_mut() {
            l.downcast_mut::<Vec<Ev<F>>>().expect("HARNESS: log type").push(e)
        }
    })
}
fn lookup<F: Field>(c: &Column<Advice>, row: usize) -> Option<F> {
    ST.with(|s| {
        let s = s.borrow();
        if !s.on {
            return None;
        }
        s.overrides.as_ref().and_then(|o| o.downcast_ref::<HashMap<(usize, usize), F>>()).and_then(|m| m.get(&(idx_of(c), row)).copied())
    })
}

#[derive(Debug)]
pub struct Tamper<P>(PhantomData<P>);

impl<P: FloorPlanner> FloorPlanner for Tamper<P> {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(
        cs: &mut CS,
        circuit: &C,
        config: C::Config,
        constants: Vec<Column<Fixed>>,
    ) -> Result<(), Error> {
        let mut w = Wrap { cs, _p: PhantomData };
        P::synthesize(&mut w, circuit, config, constants)
    }
}

pub struct Wrap<'a, F: Field, CS: Assignment<F>> {
    cs: &'a mut CS,
    _p: PhantomData<F>,
}

impl<'a, F: Field, CS: Assignment<F>> Assignment<F> for Wrap<'a, F, CS> {
    fn enter_region<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if recording() {
            let n: String = name_fn().into();
            push::<F>(Ev::Enter(n.clone()));
            self.cs.enter_region(|| n)
        } else {
            self.cs.enter_region(name_fn)
        }
    }
    fn exit_region(&mut self) {
        if recording() {
            push::<F>(Ev::Exit);
        }
        self.cs.exit_region()
    }
    fn enable_selector<A, AR>(&mut self, annotation: A, selector: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if recording() {
            push::<F>(Ev::Sel(idx_of(selector), row));
        }
        self.cs.enable_selector(annotation, selector, row)
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        if recording() {
            push::<F>(Ev::QInst(idx_of(&column), row));
        }
        self.cs.query_instance(column, row)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, annotation: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if let Some(o) = lookup::<F>(&column, row) {
            return self.cs.assign_advice(annotation, column, row, || to().map(|_| Assigned::from(o)));
        }
        if recording() {
            let mut seen = None;
            let mut called = false;
            let r = self.cs.assign_advice(annotation, column, row, || {
                called = true;
                to().map(|v| {
                    let a: Assigned<F> = v.into();
                    seen = Some(eval_assigned(&a));
                    a
                })
            });
            let _ = called;
            push::<F>(Ev::Adv(idx_of(&column), row, seen));
            r
        } else {
            self.cs.assign_advice(annotation, column, row, to)
        }
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, annotation: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if recording() {
            let mut seen = None;
            let r = self.cs.assign_fixed(annotation, column, row, || {
                to().map(|v| {
                    let a: Assigned<F> = v.into();
                    seen = Some(eval_assigned(&a));
                    a
                })
            });
            push::<F>(Ev::Fix(idx_of(&column), row, seen));
            r
        } else {
            self.cs.assign_fixed(annotation, column, row, to)
        }
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        if recording() {
            push::<F>(Ev::Copy(any_pos(&lc, lr), any_pos(&rc, rr)));
        }
        self.cs.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        if recording() {
            push::<F>(Ev::Fill(idx_of(&column), row, val_opt(to)));
        }
        self.cs.fill_from_row(column, row, to)
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.push_namespace(name_fn)
    }
    fn pop_namespace(&mut self, gadget_name: Option<String>) {
        self.cs.pop_namespace(gadget_name)
    }
}

/// Stand-alone recording backend (no constraint system behind it, unlimited rows).
pub struct Recorder<F: Field> {
    pub events: Vec<Ev<F>>,
    pub instances: Vec<Vec<F>>,
    pub q: RefCell<Vec<Ev<F>>>,
    /// Whether `query_instance` knows values.
    pub know_instances: bool,
    pub call_values: bool,
}
impl<F: Field> Recorder<F> {
    pub fn new(instances: Vec<Vec<F>>, know: bool, call_values: bool) -> Self {
        Recorder { events: vec![], instances, q: RefCell::new(vec![]), know_instances: know, call_values }
    }
}
impl<F: Field> Assignment<F> for Recorder<F> {
    fn enter_region<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.events.push(Ev::Enter(name_fn().into()));
    }
    fn exit_region(&mut self) {
        self.events.push(Ev::Exit);
    }
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.events.push(Ev::Sel(idx_of(s), row));
        Ok(())
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        let c = idx_of(&column);
        self.q.borrow_mut().push(Ev::QInst(c, row));
        if self.know_instances {
            Ok(Value::known(self.instances.get(c).and_then(|v| v.get(row)).copied().unwrap_or(F::ZERO)))
        } else {
            Ok(Value::unknown())
        }
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.call_values { val_opt(to()) } else { None };
        self.events.push(Ev::Adv(idx_of(&column), row, v));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.events.push(Ev::Fix(idx_of(&column), row, val_opt(to())));
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.events.push(Ev::Copy(any_pos(&lc, lr), any_pos(&rc, rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.events.push(Ev::Fill(idx_of(&column), row, val_opt(to)));
        Ok(())
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}
