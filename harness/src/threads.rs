//! Many lexers and parsers on shared caches at once.  Every round starts from a freshly decoded automaton; all threads start
//! together.  Allocation inside the threads yields or sleeps now and then, which moves the points where threads are preempted
//! into the middle of lookups, computations and insertions.
use crate::lex::{self, fresh, shared, Shared};
use crate::parse::{self, Gram};
use crate::util::*;
use antlr_rust::dfa::DFA;
use antlr_rust::RwLock;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Arc, Barrier};

thread_local! { static DICE: Cell<u64> = const { Cell::new(0) } }
pub struct Nudge;
unsafe impl GlobalAlloc for Nudge {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        nudge();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[inline(always)]
fn nudge() {
    let _ = DICE.try_with(|d| {
        let mut x = d.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            d.set(x);
            if x % 97 == 0 {
                std::thread::yield_now();
            } else if x % 1543 == 0 {
                std::thread::sleep(std::time::Duration::from_micros(x / 1543 % 120));
            }
        }
    });
}

fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

struct World {
    lx: Vec<Shared>,
    ps: Vec<Gram>,
}
impl World {
    fn share(&self) -> World {
        World { lx: self.lx.clone(), ps: self.ps.iter().map(|g| g.share()).collect() }
    }
    fn emptied(&self) -> World {
        let w = self.share();
        World {
            lx: w.lx.iter().map(|s| fresh(&s.atn)).collect(),
            ps: w.ps.into_iter().map(|g| {
                let a = g.sh.borrow().atn.clone();
                *g.sh.borrow_mut() = fresh(&a);
                g
            }).collect(),
        }
    }
}

fn item(w: &World, c: &Value) -> Value {
    let word = |c: &Value| -> Vec<u32> { c["in"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() };
    match c["k"].as_str().unwrap() {
        "l" => {
            let input = word(c);
            guarded(|| json!({"ev": lex::run_enc(&w.lx[n(&c["lg"])], c["enc"].as_str().unwrap(), c["fac"].as_str().unwrap(), &input, input.len() * 2 + 6), "tree": []}))
        }
        "p" => parse::one(&w.ps[n(&c["g"])], c),
        _ => {
            let s: String = word(c).iter().map(|c| std::char::from_u32(*c).unwrap()).collect();
            parse::piped(&w.ps[n(&c["g"])], c, &w.lx[n(&c["lg"])], &s)
        }
    }
}

const NONE: usize = usize::MAX;
fn dump(d: &RwLock<DFA>) -> Value {
    let d = d.read();
    let st: Vec<Value> = d.states.iter().map(|s| {
        let e: Vec<Value> = s.edges.iter().enumerate().filter(|(_, t)| **t != 0).map(|(k, t)| json!([k, if *t == NONE { -1 } else { *t as isize }])).collect();
        json!({"num": if s.state_number == NONE { -1 } else { s.state_number as isize }, "acc": s.is_accept_state as i32, "alt": s.prediction, "full": s.requires_full_context as i32, "preds": s.predicates.len(), "e": e})
    }).collect();
    json!({"s0": d.s0.map(|x| x as isize).unwrap_or(-1), "prec": d.is_precedence_dfa() as i32, "st": st})
}
fn dumps(w: &World) -> Value {
    let one = |s: &Shared| json!(s.dfas.iter().map(dump).collect::<Vec<_>>());
    json!(w.lx.iter().map(one).chain(w.ps.iter().map(|g| one(&g.sh.borrow()))).collect::<Vec<_>>())
}

/// {"lx":[serial..],"grammars":[..],"rounds":[{"lx":[..],"ps":[..],"thr":[[item..]..],"seed":..}]}; items index into the round's lists
pub fn main(job: &Value, out: &mut Out) {
    for (k, r) in job["rounds"].as_array().unwrap().iter().enumerate() {
        out.begin(k);
        let w = World {
            lx: r["lx"].as_array().unwrap().iter().map(|i| shared(&serial(&job["lx"][n(i)]))).collect(),
            ps: r["ps"].as_array().unwrap().iter().map(|i| parse::gram(&job["grammars"][n(i)])).collect(),
        };
        let thr = r["thr"].as_array().unwrap();
        let gate = Arc::new(Barrier::new(thr.len()));
        let seed = r["seed"].as_u64().unwrap();
        let hs: Vec<_> = thr.iter().enumerate().map(|(t, items)| {
            let (w, items, gate) = (w.share(), items.clone(), gate.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                gate.wait();
                DICE.with(|d| d.set(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(t as u64 * 7919) | 1));
                let v = items.as_array().unwrap().iter().map(|c| item(&w, c)).collect::<Vec<_>>();
                DICE.with(|d| d.set(0));
                v
            }).unwrap()
        }).collect();
        let con: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let dcon = dumps(&w);
        // on the caches that phase left behind, one after another
        let again = |w: &World| thr.iter().map(|items| items.as_array().unwrap().iter().map(|c| item(w, c)).collect::<Vec<_>>()).collect::<Vec<_>>();
        let after = again(&w);
        // alone, each from empty caches; and one after another from empty caches
        let solo: Vec<Vec<Value>> = thr.iter().map(|items| items.as_array().unwrap().iter().map(|c| item(&w.emptied(), c)).collect()).collect();
        let w2 = w.emptied();
        again(&w2);
        out.result(json!({"con": con, "after": after, "solo": solo, "dcon": dcon, "dseq": dumps(&w2)}));
    }
}
