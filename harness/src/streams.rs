//! Scripts of operations on character streams, token streams and interval sets; every answer is recorded.
use crate::util::*;
use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::{IntStream, IterWrapper};
use antlr_rust::interval_set::{Interval, IntervalSet};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::{CommonTokenFactory, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::TokenSource;
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn i(v: &Value, k: usize) -> isize {
    v[k].as_i64().unwrap() as isize
}

/// runs an operation that may be refused by panicking
fn tried<F: FnOnce() -> Value>(f: F) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!([-99]))
}

/// off: unit offset of every symbol position
fn chars_session<S: IntStream>(mut s: S, off: &[isize], ops: &[Value], text: &dyn Fn(&S, isize, isize) -> Value, reset: &dyn Fn(&mut S)) -> Value {
    let mut out = vec![];
    let mut marks = vec![];
    for op in ops {
        let res = match op[0].as_str().unwrap() {
            "la" => tried(|| json!([s.la(i(op, 1))])),
            "consume" => tried(|| {
                s.consume();
                json!([])
            }),
            "seek" => tried(|| {
                s.seek(off[i(op, 1) as usize]);
                json!([])
            }),
            "size" => tried(|| json!([s.size()])),
            "mark" => {
                marks.push(s.mark());
                json!([])
            }
            "release" => {
                let m = marks.pop().unwrap_or(-1);
                s.release(m);
                json!([])
            }
            // both ends given by the first unit of a symbol
            "text" => tried(|| text(&s, off[i(op, 1) as usize], off[i(op, 2) as usize])),
            // stop given by the last unit of a symbol; possibly empty span
            "texte" => tried(|| text(&s, off[i(op, 1) as usize], off[(i(op, 2) + 1) as usize] - 1)),
            // stop beyond the end
            "texto" => tried(|| text(&s, off[i(op, 1) as usize], off[off.len() - 1] + i(op, 2))),
            "iter" => tried(|| json!(IterWrapper(&mut s).collect::<Vec<isize>>())),
            "reset" => {
                reset(&mut s);
                json!([])
            }
            _ => panic!("harness: op"),
        };
        out.push(json!([op[0], res, s.index()]));
    }
    json!(out)
}

pub fn chars(job: &Value, out: &mut Out) {
    for (n, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(n);
        let w: Vec<u32> = c["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let off = ints(&c["off"]);
        let ops = c["ops"].as_array().unwrap();
        let s: String = w.iter().map(|c| std::char::from_u32(*c).unwrap()).collect();
        let b8: Vec<u8> = w.iter().map(|c| *c as u8).collect();
        let b16: Vec<u16> = w.iter().map(|c| *c as u16).collect();
        macro_rules! go {
            ($st:expr, $t:ty) => {
                chars_session($st, &off, ops, &|s, a, b| {
                    let t: $t = CharStream::<$t>::get_text(s, a, b);
                    json!(t.to_display().chars().map(|c| c as u32).collect::<Vec<u32>>())
                }, &|s| s.reset())
            };
        }
        let r = match c["enc"].as_str().unwrap() {
            "str" => go!(InputStream::new(&s[..]), &str),
            "strs" => go!(InputStream::new(&s[..]), String),
            "box" => go!(InputStream::new_owned(s.clone().into_boxed_str()), String),
            "u8" => go!(InputStream::new(&b8[..]), &[u8]),
            "u8s" => go!(InputStream::new(&b8[..]), String),
            "u8c" => go!(InputStream::new(&b8[..]), Cow<'_, [u8]>),
            "bu8" => go!(InputStream::new_owned(b8.clone().into_boxed_slice()), Vec<u8>),
            "u16" => go!(InputStream::new(&b16[..]), &[u16]),
            "u16c" => go!(InputStream::new(&b16[..]), Cow<'_, str>),
            "u32" => go!(InputStream::new(&w[..]), &[u32]),
            "u32s" => go!(InputStream::new(&w[..]), String),
            "bu32" => go!(InputStream::new_owned(w.clone().into_boxed_slice()), Vec<u32>),
            _ => panic!("harness: enc"),
        };
        out.result(r);
    }
}

// ---------------------------------------------------------------------------------------------- token streams
pub struct Src {
    pub toks: Vec<(isize, isize, String)>,
    pub at: usize,
    /// what the source is asked, so that a test can see that nothing is fetched twice
    pub asked: usize,
}
antlr_rust::tid! {impl<'a> TidAble<'a> for Src}

impl<'a> TokenSource<'a> for Src {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'a>>::Tok {
        self.asked += 1;
        let k = self.at;
        let n = self.toks.len();
        let (ty, ch, tx) = if k < n {
            self.at += 1;
            self.toks[k].clone()
        } else {
            (TOKEN_EOF, 0, "<EOF>".to_string())
        };
        CommonTokenFactory.create(None::<&mut InputStream<&'a str>>, ty, Some(tx), ch, k as isize, k as isize, 1, k as isize)
    }
    fn get_line(&self) -> isize {
        1
    }
    fn get_char_position_in_line(&self) -> isize {
        self.at as isize
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "src".into()
    }
    fn get_token_factory(&self) -> &'a Self::TF {
        &CommonTokenFactory
    }
}

pub fn src(v: &Value) -> Src {
    Src {
        toks: v.as_array().unwrap().iter().map(|t| (i(t, 0), i(t, 1), std::char::from_u32(i(t, 2) as u32).unwrap().to_string())).collect(),
        at: 0,
        asked: 0,
    }
}

fn tok<'a, T: Token + ?Sized>(t: &T) -> Value {
    json!([t.get_token_type(), t.get_channel(), t.get_token_index(), t.get_start(), cps(&t.get_text().to_display())])
}

fn toks_session<'a, S: TokenStream<'a>>(mut s: S, ops: &[Value], reset: &dyn Fn(&mut S), tokiter: &dyn Fn(&mut S) -> Value) -> Value {
    let mut out = vec![];
    let mut marks = vec![];
    for op in ops {
        let mut args = op.as_array().unwrap().clone();
        let res = match op[0].as_str().unwrap() {
            "la" => tried(|| json!([s.la(i(op, 1))])),
            "lt" => tried(|| match s.lt(i(op, 1)) {
                None => json!([]),
                Some(t) => tok(t.borrow()),
            }),
            "consume" => tried(|| {
                s.consume();
                json!([])
            }),
            "seek" => tried(|| {
                s.seek(i(op, 1));
                json!([])
            }),
            "mark" => tried(|| {
                let m = s.mark();
                marks.push(m);
                json!([])
            }),
            "release" => tried(|| {
                let m = marks.pop().unwrap();
                s.release(m);
                json!([])
            }),
            "get" => tried(|| tok(s.get(i(op, 1)).borrow())),
            "text" => tried(|| cps(&s.get_text_from_interval(i(op, 1), i(op, 2)))),
            "ttext" => tried(|| {
                let a = s.get(i(op, 1)).clone();
                let b = s.get(i(op, 2)).clone();
                cps(&s.get_text_from_tokens(a.borrow(), b.borrow()))
            }),
            "alltext" => tried(|| {
                // text of what has been buffered so far: its extent is observed, not prescribed
                args.push(json!(s.size()));
                cps(&s.get_all_text())
            }),
            "iter" => tried(|| json!(IterWrapper(&mut s).collect::<Vec<isize>>())),
            "titer" => tried(|| tokiter(&mut s)),
            "reset" => tried(|| {
                reset(&mut s);
                json!([])
            }),
            _ => panic!("harness: op"),
        };
        out.push(json!([args, res, s.index()]));
    }
    json!(out)
}

pub fn toks(job: &Value, out: &mut Out) {
    for (n, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(n);
        let ops = c["ops"].as_array().unwrap();
        let r = match c["kind"].as_str().unwrap() {
            "common" => {
                let s = CommonTokenStream::with_channel(src(&c["toks"]), i(c.get("chan").map(|x| x).unwrap(), 0));
                toks_session(s, ops, &|s| s.reset(), &|s| json!(s.iter().collect::<Vec<isize>>()))
            }
            "default" => {
                let s = CommonTokenStream::new(src(&c["toks"]));
                toks_session(s, ops, &|s| s.reset(), &|s| json!(s.iter().collect::<Vec<isize>>()))
            }
            "unbuf" => toks_session(UnbufferedTokenStream::new_unbuffered(src(&c["toks"])), ops, &|_| {}, &|s| {
                json!(s.token_iter().map(|t| t.get_token_type()).collect::<Vec<isize>>())
            }),
            "buf" => toks_session(UnbufferedTokenStream::new_buffered(src(&c["toks"])), ops, &|_| {}, &|s| {
                json!(s.token_iter().map(|t| t.get_token_type()).collect::<Vec<isize>>())
            }),
            _ => panic!("harness: kind"),
        };
        out.result(r);
    }
}

// ---------------------------------------------------------------------------------------------- interval sets
fn show(s: &IntervalSet) -> Value {
    let t = s.to_index_string();
    if t == "{}" {
        return json!([0]);
    }
    let brace = t.starts_with('{') && t.ends_with('}');
    let body = if brace { &t[1..t.len() - 1] } else { &t[..] };
    let mut v = vec![if brace { 1 } else { 0 }];
    for e in body.split(", ") {
        v.push(match e {
            "<EOF>" => -1,
            "<EPSILON>" => -2,
            e => e.parse::<isize>().unwrap_or(-777),
        });
    }
    json!(v)
}

pub fn ivs(job: &Value, out: &mut Out) {
    for (n, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(n);
        let (lo, hi) = (i(&c["u"], 0), i(&c["u"], 1));
        let mut r: Vec<IntervalSet> = vec![IntervalSet::new(), IntervalSet::new(), IntervalSet::new()];
        let mut evs = vec![];
        for op in c["ops"].as_array().unwrap() {
            let d = i(op, 1) as usize;
            let res = tried(|| {
                match op[0].as_str().unwrap() {
                    "add" => r[d].add_range(i(op, 2), i(op, 3)),
                    "addi" => r[d].add_interval(Interval { a: i(op, 2), b: i(op, 3) }),
                    "one" => r[d].add_one(i(op, 2)),
                    "rm" => r[d].remove_one(i(op, 2)),
                    "new" => r[d] = IntervalSet::new(),
                    "cp" => r[d] = r[i(op, 2) as usize].clone(),
                    "union" => {
                        let o = r[i(op, 2) as usize].clone();
                        r[d].add_set(&o)
                    }
                    "sub" => {
                        let o = r[i(op, 2) as usize].clone();
                        r[d].substract(&o)
                    }
                    "compl" => r[d] = r[i(op, 2) as usize].complement(i(op, 3), i(op, 4)),
                    _ => panic!("harness: op"),
                }
                let s = &r[d];
                let mem: Vec<isize> = (lo - 1..=hi + 1).filter(|x| s.contains(*x)).collect();
                let eq: Vec<usize> = (0..3).filter(|k| r[*k] == *s).collect();
                json!([mem, s.get_min().map(|x| vec![x]).unwrap_or_default(), s.length(), show(s), eq])
            });
            evs.push(res);
        }
        // how two intervals relate
        let mut rel = vec![];
        if let Some(ps) = c.get("pairs").and_then(|x| x.as_array()) {
            for p in ps {
                let x = Interval { a: i(p, 0), b: i(p, 1) };
                let y = Interval { a: i(p, 2), b: i(p, 3) };
                rel.push(json!([x.starts_before_disjoint(&y), x.starts_before_non_disjoint(&y), x.starts_after(&y), x.starts_after_disjoint(&y),
                    x.starts_after_non_disjoint(&y), x.disjoint(&y), x.adjacent(&y)]));
            }
        }
        out.result(json!({"ev": evs, "rel": rel}));
    }
}
