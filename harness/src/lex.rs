//! Generic lexer over an arbitrary serialized ATN: runs the real `BaseLexer`/`LexerATNSimulator` and records
//! every externally visible effect (custom action calls, errors, tokens, mode after each call).
use crate::util::*;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::char_stream::CharStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::input_stream::InputStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::LexerATNSimulator;
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::rule_context::EmptyContext;
use antlr_rust::token::Token;
use antlr_rust::token_factory::{
    ArenaCommonFactory, ArenaOwningFactory, CommonTokenFactory, OwningTokenFactory, TokenAware,
    TokenFactory,
};
use antlr_rust::{PredictionContextCache, RwLock, TokenSource};
use serde_json::{json, Value};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub struct Shared {
    pub atn: Arc<ATN>,
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}

pub fn shared(serial: &str) -> Shared {
    let atn = Arc::new(ATNDeserializer::new(None).deserialize(serial.chars()));
    fresh(&atn)
}

pub fn fresh(atn: &Arc<ATN>) -> Shared {
    let mut v = vec![];
    for i in 0..atn.decision_to_state.len() {
        v.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
    }
    Shared {
        atn: atn.clone(),
        dfas: Arc::new(v),
        cache: Arc::new(PredictionContextCache::new()),
    }
}

pub type Log = Rc<RefCell<Vec<Value>>>;

pub struct Rec {
    pub log: Log,
    pub flag: bool,
    pub before_emit: bool,
}

impl<'input, Input, TF> Actions<'input, BaseLexer<'input, Rec, Input, TF>> for Rec
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input> + 'input,
    <TF::Data as ToOwned>::Owned: From<String>,
{
    fn action(
        _c: Option<&EmptyContext<'input, TF>>,
        rule_index: isize,
        action_index: isize,
        recog: &mut BaseLexer<'input, Rec, Input, TF>,
    ) {
        let idx = recog.get_char_index();
        let text = antlr_rust::char_stream::InputData::to_display(&*recog.get_text());
        recog.log.borrow_mut().push(json!(["act", rule_index, action_index, idx, cps(&text)]));
        match action_index {
            0 => {}
            1 => recog.flag = !recog.flag,
            2 => recog.set_type(50),
            3 => recog.skip(),
            4 => recog.more(),
            5 => recog.push_mode(1),
            6 => {
                recog.pop_mode();
            }
            7 => recog.set_channel(7),
            8 => {
                let t: String = "X".into();
                recog.set_text(t.into())
            }
            9 => recog.set_mode(0),
            11 => recog.set_text(String::new().into()),
            12 => recog.set_text((text.clone() + &text).into()),
            10 => {
                // replace the whole token, as a user action may
                let f = recog.get_token_factory();
                let t: String = "Y".into();
                let tok = f.create(
                    None::<&mut Input>,
                    60,
                    Some(t.into()),
                    0,
                    recog.token_start_char_index,
                    idx - 1,
                    recog.token_start_line,
                    recog.token_start_column,
                );
                recog.token = Some(tok);
            }
            _ => {}
        }
    }
    fn sempred(
        _c: Option<&EmptyContext<'input, TF>>,
        _rule_index: isize,
        pred_index: isize,
        recog: &mut BaseLexer<'input, Rec, Input, TF>,
    ) -> bool {
        let col = recog.get_char_position_in_line();
        let line = recog.get_line();
        match pred_index {
            0 => true,
            1 => false,
            2 => col % 2 == 0,
            3 => recog.flag,
            4 => !recog.flag,
            5 => line == 1,
            6 => recog.mode_stack.is_empty(),
            _ => true,
        }
    }
}

impl<'input, Input, TF> LexerRecog<'input, BaseLexer<'input, Rec, Input, TF>> for Rec
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input> + 'input,
    <TF::Data as ToOwned>::Owned: From<String>,
{
    fn before_emit(lexer: &mut BaseLexer<'input, Rec, Input, TF>) {
        if lexer.before_emit {
            let idx = lexer.get_char_index();
            lexer.log.borrow_mut().push(json!(["emit", idx, lexer.token_type]));
        }
    }
}

struct L(Log);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for L {
    fn syntax_error(
        &self,
        _r: &T,
        _o: Option<&<T::TF as TokenFactory<'a>>::Inner>,
        line: isize,
        column: isize,
        msg: &str,
        _e: Option<&ANTLRError>,
    ) {
        let pre = "token recognition error at: '";
        let txt = if msg.starts_with(pre) && msg.ends_with('\'') {
            cps(&msg[pre.len()..msg.len() - 1])
        } else {
            json!([-1, cps(msg)])
        };
        self.0.borrow_mut().push(json!(["err", line, column, txt]));
    }
}

/// a lexer that reports to nobody
pub fn lexer<'input, Input, TF>(sh: &Shared, input: Input, tf: &'input TF) -> BaseLexer<'input, Rec, Input, TF>
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input> + 'input,
    <TF::Data as ToOwned>::Owned: From<String>,
{
    let sim = LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfas.clone(), sh.cache.clone());
    let rec = Rec { log: Rc::new(RefCell::new(vec![])), flag: false, before_emit: false };
    let mut lexer = BaseLexer::new_base_lexer(input, sim, rec, tf);
    lexer.remove_error_listeners();
    lexer
}

/// One lexing session over one input. Returns the event list.
pub fn session<'input, Input, TF>(sh: &Shared, input: Input, tf: &'input TF, max: usize, usage: Option<crate::mon::Use>) -> Vec<Value>
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input> + 'input,
    <TF::Data as ToOwned>::Owned: From<String>,
    TF::Inner: Token<Data = TF::Data>,
{
    let log: Log = Rc::new(RefCell::new(vec![]));
    let sim = LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfas.clone(), sh.cache.clone());
    let rec = Rec { log: log.clone(), flag: false, before_emit: true };
    let mut lexer = BaseLexer::new_base_lexer(input, sim, rec, tf);
    lexer.remove_error_listeners();
    lexer.add_error_listener(Box::new(L(log.clone())));
    let mut eofs = 0;
    for _ in 0..max {
        if let Some(u) = &usage {
            u.say(json!(["t0"]));
            u.far.set(-1);
        }
        let t = lexer.next_token();
        if let Some(u) = &usage {
            u.say(json!(["t1"]));
            log.borrow_mut().push(json!(["far", u.far.get()]));
        }
        let t: &TF::Inner = t.borrow();
        let text = antlr_rust::char_stream::InputData::to_display(t.get_text());
        log.borrow_mut().push(json!([
            "tok",
            t.get_token_type(),
            t.get_channel(),
            t.get_start(),
            t.get_stop(),
            t.get_line(),
            t.get_column(),
            cps(&text),
            lexer.mode,
            lexer.mode_stack.clone(),
            lexer.get_line(),
            lexer.get_char_position_in_line(),
            lexer.get_char_index()
        ]));
        if t.get_token_type() == -1 {
            eofs += 1;
            if eofs == 2 {
                break;
            }
        }
    }
    let r = (*log).borrow().clone();
    r
}

impl<'input> TokenAware<'input> for Rec {
    type TF = CommonTokenFactory;
}

pub fn run_enc(sh: &Shared, enc: &str, fac: &str, input: &[u32], max: usize) -> Vec<Value> {
    let s: String = input.iter().map(|c| std::char::from_u32(*c).unwrap_or('\u{fffd}')).collect();
    let u8s: Vec<u8> = input.iter().map(|c| *c as u8).collect();
    let u16s: Vec<u16> = input.iter().map(|c| *c as u16).collect();
    match (enc, fac) {
        ("str", "common") => session(sh, InputStream::new(&s[..]), &CommonTokenFactory, max, None),
        ("str", "owning") => session(sh, InputStream::new(&s[..]), &OwningTokenFactory, max, None),
        ("str", "arenac") => session(sh, InputStream::new(&s[..]), &ArenaCommonFactory::default(), max, None),
        ("str", "arenao") => session(sh, InputStream::new(&s[..]), &ArenaOwningFactory::default(), max, None),
        ("box", "common") => session(sh, InputStream::new_owned(s.clone().into_boxed_str()), &CommonTokenFactory, max, None),
        ("box", "owning") => session(sh, InputStream::new_owned(s.clone().into_boxed_str()), &OwningTokenFactory, max, None),
        ("u8", "common") => session(sh, InputStream::new(&u8s[..]), &CommonTokenFactory, max, None),
        ("u8", "owning") => session(sh, InputStream::new(&u8s[..]), &OwningTokenFactory, max, None),
        ("u16", "common") => session(sh, InputStream::new(&u16s[..]), &CommonTokenFactory, max, None),
        ("u16", "arenao") => session(sh, InputStream::new(&u16s[..]), &ArenaOwningFactory::default(), max, None),
        ("u32", "common") => session(sh, InputStream::new(input), &CommonTokenFactory, max, None),
        ("u32", "owning") => session(sh, InputStream::new(input), &OwningTokenFactory, max, None),
        ("u32", "arenac") => session(sh, InputStream::new(input), &ArenaCommonFactory::default(), max, None),
        ("mon", _) => {
            let u = crate::mon::Use::default();
            let mut v = session(sh, crate::mon::MonChar::new(InputStream::new(input), u.clone()), &CommonTokenFactory, max, Some(u.clone()));
            let us: Vec<Value> = (*u.log).borrow().clone();
            v.push(json!(["use", us]));
            v
        }
        _ => panic!("harness: bad encoding {} {}", enc, fac),
    }
}

/// input: {"gs":[{"serial":[..]}..], "cases":[{"g":i,"in":[..],"enc":..,"fac":..}]}
pub fn main(job: &Value, out: &mut Out) {
    let gs: Vec<Shared> = job["gs"].as_array().unwrap().iter().map(|g| shared(&serial(&g["serial"]))).collect();
    for (i, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(i);
        let g = &gs[c["g"].as_u64().unwrap() as usize];
        let input: Vec<u32> = c["in"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let enc = c["enc"].as_str().unwrap();
        let fac = c["fac"].as_str().unwrap();
        let max = input.len() * 2 + 6;
        let cold = guarded(|| json!(run_enc(&fresh(&g.atn), enc, fac, &input, max)));
        let warm = guarded(|| json!(run_enc(g, enc, fac, &input, max)));
        // the same input again, immediately: now every edge is cached
        let again = guarded(|| json!(run_enc(g, enc, fac, &input, max)));
        out.result(json!({"cold": cold, "warm": warm, "again": again}));
    }
}

/// one of several error listeners of a lexer
struct LK {
    id: usize,
    log: Log,
}
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for LK {
    fn syntax_error(&self, _r: &T, o: Option<&<T::TF as TokenFactory<'a>>::Inner>, line: isize, column: isize, msg: &str, e: Option<&ANTLRError>) {
        let off = o.map(|t| t.get_token_index()).unwrap_or(-5);
        self.log.borrow_mut().push(json!([self.id, ["e", off, line, column, e.is_some() as i32, msg]]));
    }
}
fn heard(sh: &Shared, input: &str, eops: &[(isize, isize)]) -> Vec<Value> {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut lx = lexer(sh, InputStream::new(input), &CommonTokenFactory);
    let mut nid = 0;
    for k in 0..(input.len() as isize * 2 + 6) {
        if k > 0 {
            log.borrow_mut().push(json!([-1, ["a", k]]));
        }
        for (_, o) in eops.iter().filter(|x| x.0 == k) {
            if *o == 0 {
                lx.add_error_listener(Box::new(LK { id: nid, log: log.clone() }));
                nid += 1;
            } else {
                lx.remove_error_listeners();
            }
            log.borrow_mut().push(json!([-1, ["op", o]]));
        }
        if k > 0 && lx.next_token().get_token_type() == -1 {
            break;
        }
    }
    let r = (*log).borrow().clone();
    r
}
/// what the error listeners of a lexer hear: {"cases":[{"g","in","eops":[[k,op]]}]}
pub fn listen(job: &Value, out: &mut Out) {
    let gs: Vec<Shared> = job["gs"].as_array().unwrap().iter().map(|g| shared(&serial(&g["serial"]))).collect();
    for (i, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(i);
        let g = &gs[c["g"].as_u64().unwrap() as usize];
        let s: String = c["in"].as_array().unwrap().iter().map(|x| std::char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
        let ops: Vec<(isize, isize)> = c["eops"].as_array().unwrap().iter().map(|o| (ints(o)[0], ints(o)[1])).collect();
        let one = guarded(|| json!(heard(g, &s, &[(0, 3), (0, 0)])));
        let all = guarded(|| json!(heard(g, &s, &ops)));
        out.result(json!({"ref": one, "elog": all}));
    }
}
