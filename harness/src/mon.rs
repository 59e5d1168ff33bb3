//! Streams that record how recognizers use them: every look, consumption, mark, release, seek and text request.
use crate::lex::Log;
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::Token;
use antlr_rust::token_factory::{CommonTokenFactory, TokenFactory};
use antlr_rust::token_stream::TokenStream;
use antlr_rust::TokenSource;
use crate::streams::Src;
use serde_json::{json, Value};
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

/// what is recorded; shared with the driver
#[derive(Clone, Default)]
pub struct Use {
    pub log: Log,
    /// furthest position looked at since the driver last reset it
    pub far: Rc<Cell<isize>>,
}
impl Use {
    pub fn say(&self, v: Value) {
        self.log.borrow_mut().push(v);
    }
    fn saw(&self, at: isize) {
        if at > self.far.get() {
            self.far.set(at);
        }
    }
}

struct Marks {
    next: isize,
    held: HashMap<isize, isize>,
}
impl Marks {
    fn mark(&mut self, u: &Use, inner: isize) -> isize {
        self.next += 1;
        self.held.insert(self.next, inner);
        u.say(json!(["mk", self.next]));
        self.next
    }
    fn release(&mut self, u: &Use, m: isize) -> isize {
        u.say(json!(["rl", m]));
        self.held.remove(&m).expect("release of a mark that is not held")
    }
}

pub struct MonTok<'i> {
    s: CommonTokenStream<'i, Src>,
    u: Use,
    m: Marks,
}
antlr_rust::tid! {impl<'i> TidAble<'i> for MonTok<'i>}
impl<'i> MonTok<'i> {
    pub fn new(src: Src, u: Use) -> Self {
        MonTok { s: CommonTokenStream::new(src), u, m: Marks { next: 0, held: HashMap::new() } }
    }
}
impl<'i> IntStream for MonTok<'i> {
    fn consume(&mut self) {
        let v = self.s.la(1);
        self.s.consume();
        self.u.say(json!(["co", v, self.s.index()]));
    }
    fn la(&mut self, i: isize) -> isize {
        self.lt(i).map(|t| { let t: &<CommonTokenFactory as TokenFactory<'i>>::Inner = t.borrow(); t.get_token_type() }).unwrap_or(0)
    }
    fn mark(&mut self) -> isize {
        let m = self.s.mark();
        self.m.mark(&self.u, m)
    }
    fn release(&mut self, marker: isize) {
        let m = self.m.release(&self.u, marker);
        self.s.release(m)
    }
    fn index(&self) -> isize {
        self.s.index()
    }
    fn seek(&mut self, index: isize) {
        self.u.say(json!(["sk", index]));
        self.s.seek(index)
    }
    fn size(&self) -> isize {
        self.s.size()
    }
    fn get_source_name(&self) -> String {
        self.s.get_source_name()
    }
}
impl<'i> TokenStream<'i> for MonTok<'i> {
    type TF = CommonTokenFactory;
    fn lt(&mut self, k: isize) -> Option<&<Self::TF as TokenFactory<'i>>::Tok> {
        let r = self.s.lt(k);
        let at = match r {
            Some(t) => {
                let t: &<CommonTokenFactory as TokenFactory<'i>>::Inner = t.borrow();
                t.get_token_index()
            }
            None => -1,
        };
        if k > 0 {
            self.u.saw(at);
        }
        self.u.say(json!(["la", k, at]));
        r
    }
    fn get(&self, index: isize) -> &<Self::TF as TokenFactory<'i>>::Tok {
        self.u.say(json!(["gt", index]));
        self.s.get(index)
    }
    fn get_token_source(&self) -> &dyn TokenSource<'i, TF = Self::TF> {
        self.s.get_token_source()
    }
    fn get_text_from_interval(&self, start: isize, stop: isize) -> String {
        self.s.get_text_from_interval(start, stop)
    }
}

pub struct MonChar<S> {
    s: S,
    u: Use,
    m: Marks,
}
impl<S: IntStream> MonChar<S> {
    pub fn new(s: S, u: Use) -> Self {
        MonChar { s, u, m: Marks { next: 0, held: HashMap::new() } }
    }
}
impl<S: IntStream> IntStream for MonChar<S> {
    fn consume(&mut self) {
        let v = self.s.la(1);
        self.s.consume();
        self.u.say(json!(["co", v, self.s.index()]));
    }
    fn la(&mut self, k: isize) -> isize {
        let at = self.s.index() + if k > 0 { k - 1 } else { k };
        if k > 0 {
            self.u.saw(at);
        }
        self.u.say(json!(["la", k, at]));
        self.s.la(k)
    }
    fn mark(&mut self) -> isize {
        let m = self.s.mark();
        self.m.mark(&self.u, m)
    }
    fn release(&mut self, marker: isize) {
        let m = self.m.release(&self.u, marker);
        self.s.release(m)
    }
    fn index(&self) -> isize {
        self.s.index()
    }
    fn seek(&mut self, index: isize) {
        self.u.say(json!(["sk", index]));
        self.s.seek(index)
    }
    fn size(&self) -> isize {
        self.s.size()
    }
    fn get_source_name(&self) -> String {
        self.s.get_source_name()
    }
}
impl<D, S: CharStream<D>> CharStream<D> for MonChar<S> {
    fn get_text(&self, a: isize, b: isize) -> D {
        self.u.say(json!(["tx", a, b]));
        self.s.get_text(a, b)
    }
}
