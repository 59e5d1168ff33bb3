//! Generic recursive-descent parser over an arbitrary serialized ATN.  It performs, call for call, what the parser generated
//! by the tool for the grammar does (the "code" of a grammar lists its statements), on the real `BaseParser`, interpreter and
//! error strategies, and records everything visible from outside.
use crate::lex::{fresh, shared, Log, Shared};
use crate::streams::Src;
use crate::util::*;
use antlr_rust::atn::INVALID_ALT;
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::{DiagnosticErrorListener, ErrorListener};
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy};
use antlr_rust::errors::{ANTLRError, FailedPredicateError};
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::lexer::BaseLexer;
use antlr_rust::parser::{BaseParser, ListenerId, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext, RuleContextExt};
use antlr_rust::PredictionMode;
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::semantic_context::SemanticContext;
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::tree::{
    ErrorNode, Listenable, ParseTree, ParseTreeListener, ParseTreeVisitor, ParseTreeVisitorCompat, ParseTreeWalker, TerminalNode, Tree, VisitChildren, Visitable, VisitableDyn,
};
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{TidAble, TidExt, TokenSource};
use bit_set::BitSet;
use serde_json::{json, Value};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ node and listener types
pub trait VCtx<'input>:
    for<'x> Listenable<dyn VListener<'input> + 'x> + for<'x> Visitable<dyn VVisitor<'input> + 'x> + ParserRuleContext<'input, TF = CommonTokenFactory, Ctx = VType>
{
}
antlr_rust::coerce_from! { 'input : VCtx<'input> }
impl<'input> VCtx<'input> for TerminalNode<'input, VType> {}
impl<'input> VCtx<'input> for ErrorNode<'input, VType> {}
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VCtx<'input> + 'input }

pub trait VListener<'input>: ParseTreeListener<'input, VType> {
    fn enter_node(&mut self, _ctx: &(dyn VCtx<'input> + 'input)) {}
    fn exit_node(&mut self, _ctx: &(dyn VCtx<'input> + 'input)) {}
}
antlr_rust::coerce_from! { 'input : VListener<'input> }
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VListener<'input> + 'input }

/// one callback per kind of rule node, as in a generated visitor
pub trait VVisitor<'input>: ParseTreeVisitor<'input, VType> {
    fn visit_kind(&mut self, _k: usize, ctx: &(dyn VCtx<'input> + 'input)) {
        self.visit_children(ctx)
    }
}
pub trait VVisitorCompat<'input>: ParseTreeVisitorCompat<'input, Node = VType> {
    fn visit_kind(&mut self, _k: usize, ctx: &(dyn VCtx<'input> + 'input)) -> Self::Return {
        self.visit_children(ctx)
    }
}
impl<'input, T: VVisitorCompat<'input>> VVisitor<'input> for T {
    fn visit_kind(&mut self, k: usize, ctx: &(dyn VCtx<'input> + 'input)) {
        let r = <Self as VVisitorCompat>::visit_kind(self, k, ctx);
        *<Self as ParseTreeVisitorCompat>::temp_result(self) = r;
    }
}
impl<'input, 'x, T: VVisitor<'input> + 'x> VisitableDyn<T> for dyn VCtx<'input> + 'input {
    fn accept_dyn(&self, v: &mut T) {
        self.accept(v as &mut (dyn VVisitor<'input> + 'x))
    }
}

pub struct VType;
antlr_rust::tid! {VType}
impl<'input> ParserNodeType<'input> for VType {
    type TF = CommonTokenFactory;
    type Type = dyn VCtx<'input> + 'input;
}
/// rule nodes come in three types; the type goes with the rule
pub trait Kind: 'static {
    const N: usize;
}
pub struct K0;
pub struct K1;
pub struct K2;
impl Kind for K0 {
    const N: usize = 0;
}
impl Kind for K1 {
    const N: usize = 1;
}
impl Kind for K2 {
    const N: usize = 2;
}
pub type VNode<'input, K> = BaseParserRuleContext<'input, VExt<'input, K>>;
pub struct VExt<'input, K: 'static> {
    rule: usize,
    alt: Cell<isize>,
    ph: PhantomData<(&'input str, fn() -> K)>,
}
antlr_rust::tid! { impl<'input, K: 'static> TidAble<'input> for VExt<'input, K> }
impl<'input, K: Kind> CustomRuleContext<'input> for VExt<'input, K> {
    type TF = CommonTokenFactory;
    type Ctx = VType;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
    fn get_alt_number(&self) -> isize {
        self.alt.get()
    }
    fn set_alt_number(&self, a: isize) {
        self.alt.set(a)
    }
}
impl<'input, K: Kind> VCtx<'input> for VNode<'input, K> {}
impl<'input, 'a, K: Kind> Listenable<dyn VListener<'input> + 'a> for VNode<'input, K> {
    fn enter(&self, l: &mut (dyn VListener<'input> + 'a)) {
        l.enter_every_rule(self);
        l.enter_node(self);
    }
    fn exit(&self, l: &mut (dyn VListener<'input> + 'a)) {
        l.exit_node(self);
        l.exit_every_rule(self);
    }
}
impl<'input, 'a, K: Kind> Visitable<dyn VVisitor<'input> + 'a> for VNode<'input, K> {
    fn accept(&self, v: &mut (dyn VVisitor<'input> + 'a)) {
        v.visit_kind(K::N, self)
    }
}
fn node_of<'input, K: Kind>(rule: usize, parent: Option<Rc<dyn VCtx<'input> + 'input>>, inv: isize) -> Rc<dyn VCtx<'input> + 'input> {
    Rc::new(BaseParserRuleContext::new_parser_ctx(parent, inv, VExt::<'input, K> { rule, alt: Cell::new(INVALID_ALT), ph: PhantomData }))
}
fn node<'input>(rule: usize, parent: Option<Rc<dyn VCtx<'input> + 'input>>, inv: isize) -> Rc<dyn VCtx<'input> + 'input> {
    match rule % 3 {
        0 => node_of::<K0>(rule, parent, inv),
        1 => node_of::<K1>(rule, parent, inv),
        _ => node_of::<K2>(rule, parent, inv),
    }
}
fn copy_of<'input, K: Kind>(from: &(dyn VCtx<'input> + 'input)) -> Rc<dyn VCtx<'input> + 'input> {
    Rc::new(BaseParserRuleContext::copy_from(from, VExt::<'input, K> { rule: from.get_rule_index(), alt: Cell::new(INVALID_ALT), ph: PhantomData }))
}
fn copied<'input>(from: &(dyn VCtx<'input> + 'input)) -> Rc<dyn VCtx<'input> + 'input> {
    match from.get_rule_index() % 3 {
        0 => copy_of::<K0>(from),
        1 => copy_of::<K1>(from),
        _ => copy_of::<K2>(from),
    }
}

/// records the events of one listener
pub struct Lis {
    pub id: usize,
    pub log: Log,
}
antlr_rust::tid! {impl<'a> TidAble<'a> for Lis}
impl<'input> ParseTreeListener<'input, VType> for Lis {
    fn visit_terminal(&mut self, n: &TerminalNode<'input, VType>) {
        self.log.borrow_mut().push(json!(["te", self.id, n.symbol.get_token_index()]));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'input, VType>) {
        self.log.borrow_mut().push(json!(["er", self.id, n.symbol.get_token_index()]));
    }
    fn enter_every_rule(&mut self, c: &(dyn VCtx<'input> + 'input)) {
        self.log.borrow_mut().push(json!(["en", self.id, c.get_rule_index()]));
    }
    fn exit_every_rule(&mut self, c: &(dyn VCtx<'input> + 'input)) {
        self.log.borrow_mut().push(json!(["ex", self.id, c.get_rule_index()]));
    }
}
impl<'input> VListener<'input> for Lis {}

// ------------------------------------------------------------------------------------------------ recognizer
pub struct PExt<'input> {
    names: Arc<Vec<&'static str>>,
    voc: Arc<VocabularyImpl>,
    pv: Vec<[isize; 2]>,
    cnt: isize,
    _pd: PhantomData<&'input str>,
}
antlr_rust::tid! { PExt<'a> }
impl<'input> TokenAware<'input> for PExt<'input> {
    type TF = CommonTokenFactory;
}
type Base<'input, I> = BaseParser<'input, PExt<'input>, I, VType, dyn VListener<'input> + 'input>;

impl<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> ParserRecog<'input, Base<'input, I>> for PExt<'input> {}
impl<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> Actions<'input, Base<'input, I>> for PExt<'input> {
    fn get_grammar_file_name(&self) -> &str {
        "V.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &self.names
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &*self.voc
    }
    fn sempred(ctx: Option<&(dyn VCtx<'input> + 'input)>, _rule: isize, pred: isize, recog: &mut Base<'input, I>) -> bool {
        // [kind, arg]: 0 constant, 1 type of the next token, 2 number of actions executed, 3 start token of the context
        let [k, a] = recog.pv.get(pred as usize).copied().unwrap_or([0, 1]);
        match k {
            0 => a != 0,
            1 => recog.get_input_stream_mut().la(1) == a,
            2 => recog.cnt % 2 == a,
            3 => ctx.map(|c| c.start().get_token_index() % 2 == a).unwrap_or(false),
            _ => ctx.map(|c| c.get_invoking_state() == a).unwrap_or(false),
        }
    }
}

fn ivs(s: &IntervalSet) -> Value {
    // (the generated vocabularies are far smaller than 200 tokens)
    json!((-3..200).filter(|x| s.contains(*x)).collect::<Vec<isize>>())
}
fn bits(b: &BitSet) -> Value {
    json!(b.iter().collect::<Vec<usize>>())
}

struct ErrL {
    log: Log,
}
/// one of several error listeners
struct ErrK {
    id: usize,
    log: Log,
}
impl<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> ErrorListener<'input, Base<'input, I>> for ErrK {
    fn syntax_error(
        &self,
        _r: &Base<'input, I>,
        off: Option<&<CommonTokenFactory as antlr_rust::token_factory::TokenFactory<'input>>::Inner>,
        line: isize,
        col: isize,
        msg: &str,
        e: Option<&ANTLRError>,
    ) {
        self.log.borrow_mut().push(json!([self.id, ["e", off.map(|t| t.get_token_index()).unwrap_or(-5), line, col, e.is_some() as i32, msg]]));
    }
    fn report_ambiguity(&self, r: &Base<'input, I>, d: &DFA, a: isize, b: isize, x: bool, alts: &BitSet, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!([self.id, ["am", d.decision, a, b, x as i32, bits(alts), r.get_input_stream().index()]]));
    }
    fn report_attempting_full_context(&self, r: &Base<'input, I>, d: &DFA, a: isize, b: isize, alts: &BitSet, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!([self.id, ["fc", d.decision, a, b, bits(alts), r.get_input_stream().index()]]));
    }
    fn report_context_sensitivity(&self, r: &Base<'input, I>, d: &DFA, a: isize, b: isize, p: isize, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!([self.id, ["cs", d.decision, a, b, p, r.get_input_stream().index()]]));
    }
}
impl<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> ErrorListener<'input, Base<'input, I>> for ErrL {
    fn syntax_error(
        &self,
        r: &Base<'input, I>,
        off: Option<&<CommonTokenFactory as antlr_rust::token_factory::TokenFactory<'input>>::Inner>,
        line: isize,
        col: isize,
        msg: &str,
        e: Option<&ANTLRError>,
    ) {
        let (kind, exp) = match e {
            None => (if msg.starts_with("extraneous") { "unwanted" } else { "missing" }, ivs(&r.get_expected_tokens())),
            Some(ANTLRError::InputMismatchError(x)) => ("mismatch", ivs(&x.base.get_expected_tokens(r))),
            Some(ANTLRError::NoAltError(x)) => ("noalt", json!([x.start_token.get_token_index()])),
            Some(ANTLRError::PredicateError(_)) => ("pred", json!([])),
            _ => ("other", json!([])),
        };
        self.log.borrow_mut().push(json!(["e", kind, off.map(|t| t.get_token_index()).unwrap_or(-5), line, col, exp, msg]));
    }
    fn report_ambiguity(&self, _r: &Base<'input, I>, d: &DFA, a: isize, b: isize, x: bool, alts: &BitSet, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!(["am", d.decision, a, b, x as i32, bits(alts)]));
    }
    fn report_attempting_full_context(&self, _r: &Base<'input, I>, d: &DFA, a: isize, b: isize, alts: &BitSet, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!(["fc", d.decision, a, b, bits(alts)]));
    }
    fn report_context_sensitivity(&self, _r: &Base<'input, I>, d: &DFA, a: isize, b: isize, p: isize, _c: &ATNConfigSet) {
        self.log.borrow_mut().push(json!(["cs", d.decision, a, b, p]));
    }
}

// ------------------------------------------------------------------------------------------------ the interpreter of generated code
#[derive(Clone, Debug)]
pub enum Code {
    Tok(isize, isize),
    Set(isize, Vec<(isize, isize)>, bool),
    Any(isize),
    Rule(isize, usize, isize),
    Pred(isize, isize, isize, bool),
    Act(isize, isize, isize),
    Prec(isize, isize),
    Seq(Vec<usize>),
    Alt { s: isize, d: isize, ks: Vec<usize>, greedy: bool, opt: bool },
    Star { s: isize, d: isize, b: usize, lb: isize, greedy: bool },
    Plus { s: isize, d: isize, b: usize, lb: isize, greedy: bool },
}
pub struct Prog {
    lr: bool,
    n: usize,
    en: isize,
    lb: isize,
    sb: isize,
    ks: Vec<usize>,
    top: bool,
    d: isize,
    sd: isize,
}
pub struct Gram {
    pub sh: RefCell<Shared>,
    pub code: Arc<Vec<Code>>,
    pub prog: Arc<Vec<Prog>>,
    pub rstart: Vec<isize>,
    pub names: Arc<Vec<&'static str>>,
    pub voc: Arc<VocabularyImpl>,
}
impl Gram {
    /// the same grammar with the same caches, for another thread
    pub fn share(&self) -> Gram {
        Gram {
            sh: RefCell::new(self.sh.borrow().clone()),
            code: self.code.clone(),
            prog: self.prog.clone(),
            rstart: self.rstart.clone(),
            names: self.names.clone(),
            voc: self.voc.clone(),
        }
    }
}
fn n(v: &Value) -> isize {
    v.as_i64().unwrap_or_else(|| panic!("harness: int expected, got {}", v)) as isize
}
fn us(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|x| x as usize).collect()
}
pub fn gram(g: &Value) -> Gram {
    let code = g["code"].as_array().unwrap().iter().map(|c| {
        let s = c["s"].as_i64().unwrap_or(-1) as isize;
        let iv = || c["iv"].as_array().unwrap().iter().map(|p| (n(&p[0]), n(&p[1]))).collect::<Vec<_>>();
        match c["k"].as_str().unwrap() {
            "tok" => Code::Tok(s, n(&c["t"])),
            "set" => Code::Set(s, iv(), false),
            "nset" => Code::Set(s, iv(), true),
            "any" => Code::Any(s),
            "rule" => Code::Rule(s, n(&c["r"]) as usize, n(&c["p"])),
            "pred" => Code::Pred(s, n(&c["r"]), n(&c["i"]), n(&c["cd"]) != 0),
            "act" => Code::Act(s, n(&c["r"]), n(&c["i"])),
            "prec" => Code::Prec(s, n(&c["p"])),
            "seq" => Code::Seq(us(&c["ks"])),
            "alt" => Code::Alt { s, d: n(&c["d"]), ks: us(&c["ks"]), greedy: n(&c["g"]) != 0, opt: n(&c["o"]) != 0 },
            "star" => Code::Star { s, d: n(&c["d"]), b: n(&c["b"]) as usize, lb: n(&c["lb"]), greedy: n(&c["g"]) != 0 },
            "plus" => Code::Plus { s, d: n(&c["d"]), b: n(&c["b"]) as usize, lb: n(&c["lb"]), greedy: n(&c["g"]) != 0 },
            k => panic!("harness: code {}", k),
        }
    }).collect();
    let prog = g["prog"].as_array().unwrap().iter().map(|p| Prog {
        lr: n(&p["lr"]) != 0,
        n: n(&p["n"]) as usize,
        en: n(&p["en"]),
        lb: n(&p["lb"]),
        sb: n(&p["sb"]),
        ks: us(&p["ks"]),
        top: p["top"].as_i64() == Some(1),
        d: n(&p["d"]),
        sd: n(&p["sd"]),
    }).collect();
    let names: Vec<&'static str> = g["rules"].as_array().unwrap().iter().map(|x| &*Box::leak(x.as_str().unwrap().to_string().into_boxed_str())).collect();
    let strs = |k: &str| g[k].as_array().map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect::<Vec<_>>()).unwrap_or_default();
    let (lit, sym) = (strs("lit"), strs("sym"));
    let lit: Vec<Option<&str>> = lit.iter().map(|x| x.as_deref()).collect();
    let sym: Vec<Option<&str>> = sym.iter().map(|x| x.as_deref()).collect();
    Gram {
        sh: RefCell::new(shared(&serial(&g["serial"]))),
        code: Arc::new(code),
        prog: Arc::new(prog),
        rstart: ints(&g["rstart"]),
        names: Arc::new(names),
        voc: Arc::new(VocabularyImpl::new(lit.iter(), sym.iter(), None)),
    }
}

type Strat<'input, I> = Box<dyn ErrorStrategy<'input, Base<'input, I>> + 'input>;
type R<T> = Result<T, ANTLRError>;

struct P<'g, 'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> {
    base: Base<'input, I>,
    eh: Strat<'input, I>,
    g: &'g Gram,
    it: Arc<ParserATNSimulator>,
    log: Log,
    x: bool,
    lab: bool,
    /// listener operations: at the k-th action, add or remove
    lops: Vec<(isize, isize)>,
    ids: Vec<(usize, ListenerId<Lis>)>,
    nlis: usize,
    /// error listener operations: at the k-th action, 0 add a recorder, 1 / 2 add a diagnostic listener (2: exact only), 3 remove all
    eops: Vec<(isize, isize)>,
    nerr: usize,
    elog: Log,
    /// record the invocation stack at every match
    inv: bool,
    /// how the input stream is used, when that is recorded
    usage: Option<crate::mon::Use>,
}

impl<'g, 'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>> P<'g, 'input, I> {
    fn push(&self, v: Value) {
        self.log.borrow_mut().push(v);
    }
    fn add_listener(&mut self) {
        let l = Lis { id: self.nlis, log: self.log.clone() };
        let id = self.base.add_parse_listener(Box::new(l));
        self.ids.push((self.nlis, id));
        self.nlis += 1;
    }
    fn err_op(&mut self, o: isize) {
        match o {
            0 => {
                self.base.add_error_listener(Box::new(ErrK { id: self.nerr, log: self.elog.clone() }));
                self.nerr += 1;
            }
            1 => self.base.add_error_listener(Box::new(DiagnosticErrorListener::new(false))),
            2 => self.base.add_error_listener(Box::new(DiagnosticErrorListener::new(true))),
            _ => self.base.remove_error_listeners(),
        }
        self.elog.borrow_mut().push(json!([-1, ["op", o]]));
    }
    fn stack(&mut self) {
        if self.inv {
            let v = self.base.get_rule_invocation_stack();
            self.push(json!(["ri", v]));
        }
    }
    fn remove_listener(&mut self, k: usize) {
        if let Some(p) = self.ids.iter().position(|x| x.0 == k) {
            let (_, id) = self.ids.remove(p);
            let l = self.base.remove_parse_listener(id);
            self.push(json!(["rm", k, l.id]));
        }
    }
    fn predict(&mut self, d: isize) -> R<isize> {
        let it = self.it.clone();
        let at = self.base.input.index();
        if let Some(u) = &self.usage {
            u.say(json!(["d0"]));
            u.far.set(-1);
        }
        let r = it.adaptive_predict(d, &mut self.base);
        if let Some(u) = &self.usage {
            u.say(json!(["d1"]));
            self.push(json!(["far", u.far.get()]));
        }
        let same = (self.base.input.index() == at) as i32;
        match r {
            Ok(a) => {
                self.push(json!(["p", d, a, same]));
                Ok(a)
            }
            Err(e) => {
                self.push(json!(["p", d, 0, same]));
                Err(e)
            }
        }
    }
    fn sync(&mut self, s: isize) -> R<()> {
        self.base.set_state(s);
        self.eh.sync(&mut self.base)
    }
    fn decide(&mut self, s: isize, d: isize) -> R<isize> {
        self.sync(s)?;
        self.expect();
        self.predict(d)
    }
    fn expect(&mut self) {
        if self.x {
            let e = self.base.get_expected_tokens();
            self.push(json!(["x", ivs(&e)]));
        }
    }
    fn got(&mut self, t: isize, ty: isize) {
        if let Some(u) = &self.usage {
            u.say(json!(["m"]));
        }
        self.push(json!(["m", t, ty]));
    }
    fn bad(&self) -> ANTLRError {
        panic!("prediction returned an alternative that does not exist")
    }
    fn run(&mut self, k: usize) -> R<()> {
        let g = self.g;
        match &g.code[k - 1] {
            Code::Tok(s, t) => {
                self.base.set_state(*s);
                self.expect();
                self.stack();
                let tok = self.base.match_token(*t, &mut self.eh)?;
                self.got(tok.get_token_index(), tok.get_token_type());
            }
            Code::Any(s) => {
                self.base.set_state(*s);
                self.expect();
                let tok = self.base.match_wildcard(&mut self.eh)?;
                self.got(tok.get_token_index(), tok.get_token_type());
            }
            Code::Set(s, iv, neg) => {
                self.base.set_state(*s);
                self.expect();
                let la = self.base.input.la(1);
                let mut tok = self.base.input.lt(1).unwrap().clone();
                let inside = iv.iter().any(|(a, b)| *a <= la && la <= *b);
                if if *neg { la <= 0 || inside } else { !inside } {
                    tok = self.eh.recover_inline(&mut self.base)?;
                } else {
                    if la == TOKEN_EOF {
                        self.base.matched_eof = true;
                    }
                    self.eh.report_match(&mut self.base);
                    self.base.consume(&mut self.eh);
                }
                self.got(tok.get_token_index(), tok.get_token_type());
            }
            Code::Rule(s, r, p) => {
                self.base.set_state(*s);
                self.rule(*r, *p)?;
            }
            Code::Pred(s, r, i, cd) => {
                self.base.set_state(*s);
                let c = self.base.ctx.clone();
                let v = self.base.sempred(if *cd { c.as_deref() } else { None }, *r, *i);
                if !v {
                    return Err(FailedPredicateError::new(&mut self.base, Some(format!("P{}", i)), None));
                }
            }
            Code::Prec(s, p) => {
                self.base.set_state(*s);
                if !self.base.precpred(None, *p) {
                    return Err(FailedPredicateError::new(&mut self.base, Some(format!("recog.precpred(None, {})", p)), None));
                }
            }
            Code::Act(_, _, i) => {
                self.base.cnt += 1;
                let c = self.base.cnt;
                let ops: Vec<_> = self.lops.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
                for o in ops {
                    if o < 0 {
                        self.add_listener()
                    } else {
                        self.remove_listener(o as usize)
                    }
                }
                if !self.eops.is_empty() {
                    self.elog.borrow_mut().push(json!([-1, ["a", c]]));
                }
                let ops: Vec<_> = self.eops.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
                for o in ops {
                    self.err_op(o)
                }
                let ix = self.base.input.index();
                self.push(json!(["a", i, ix]));
            }
            Code::Seq(ks) => {
                for x in ks {
                    self.run(*x)?;
                }
            }
            Code::Alt { s, d, ks, greedy, opt } => {
                let a = self.decide(*s, *d)? as usize;
                let i = if *opt && !*greedy { a.wrapping_sub(1) } else { a };
                if *opt && (if *greedy { a == ks.len() + 1 } else { a == 1 }) {
                    return Ok(());
                }
                if i < 1 || i > ks.len() {
                    return Err(self.bad());
                }
                self.run(ks[i - 1])?;
            }
            Code::Star { s, d, b, lb, greedy } => {
                let body = if *greedy { 1 } else { 2 };
                let mut a = self.decide(*s, *d)?;
                while a == body {
                    self.run(*b)?;
                    a = self.decide(*lb, *d)?;
                }
            }
            Code::Plus { s, d, b, lb, greedy } => {
                let body = if *greedy { 1 } else { 2 };
                self.sync(*s)?;
                loop {
                    self.run(*b)?;
                    if self.decide(*lb, *d)? != body {
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&mut self, r: usize, p: isize) -> R<Rc<dyn VCtx<'input> + 'input>> {
        let g = self.g;
        let pr = &g.prog[r];
        let parent = self.base.ctx.take();
        let pstate = self.base.get_state();
        let local = node(r, parent.clone(), pstate);
        let start = g.rstart[r];
        if !pr.lr {
            self.base.enter_rule(local, start, r);
            let res = self.body(pr);
            match res {
                Ok(_) => {}
                Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
                Err(ref e) => {
                    self.eh.report_error(&mut self.base, e);
                    self.eh.recover(&mut self.base, e)?;
                }
            }
            let me = self.base.ctx.clone().unwrap();
            self.base.exit_rule();
            Ok(me)
        } else {
            self.base.enter_recursion_rule(local, start, r, p);
            let res = self.recbody(pr, r, start, &parent, pstate);
            match res {
                Ok(_) => {}
                Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
                Err(ref e) => {
                    self.eh.report_error(&mut self.base, e);
                    self.eh.recover(&mut self.base, e)?;
                }
            }
            let me = self.base.ctx.clone().unwrap();
            self.base.unroll_recursion_context(parent);
            Ok(me)
        }
    }
    fn body(&mut self, pr: &Prog) -> R<()> {
        if pr.top {
            if let Code::Alt { s, d, ks, .. } = &self.g.code[pr.n - 1] {
                let a = self.decide(*s, *d)?;
                if a < 1 || a as usize > ks.len() {
                    return Err(self.bad());
                }
                self.outer(a);
                return self.run(ks[a as usize - 1]);
            }
        }
        self.outer(1);
        self.run(pr.n)
    }
    fn outer(&mut self, a: isize) {
        if self.lab {
            let c = copied(&**self.base.ctx.as_ref().unwrap());
            self.base.enter_outer_alt(Some(c), a);
        } else {
            self.base.enter_outer_alt(None, a);
        }
    }
    fn recbody(&mut self, pr: &Prog, r: usize, start: isize, parent: &Option<Rc<dyn VCtx<'input> + 'input>>, pstate: isize) -> R<()> {
        self.base.enter_outer_alt(None, 1);
        match &self.g.code[pr.n - 1] {
            Code::Alt { s, d, ks, .. } if self.lab => {
                let a = self.decide(*s, *d)?;
                if a < 1 || a as usize > ks.len() {
                    return Err(self.bad());
                }
                let c = copied(&**self.base.ctx.as_ref().unwrap());
                self.base.ctx = Some(c);
                self.run(ks[a as usize - 1])?
            }
            _ if self.lab => {
                let c = copied(&**self.base.ctx.as_ref().unwrap());
                self.base.ctx = Some(c);
                self.run(pr.n)?
            }
            _ => self.run(pr.n)?,
        }
        let tmp = self.base.input.lt(-1).cloned();
        self.base.ctx.as_ref().unwrap().set_stop(tmp);
        let mut a = self.decide(pr.en, pr.d)?;
        while a == 1 {
            self.base.trigger_exit_rule_event();
            let i = if pr.sb >= 0 { self.decide(pr.sb, pr.sd)? } else { 1 };
            if i < 1 || i as usize > pr.ks.len() {
                return Err(self.bad());
            }
            let tmp = node(r, parent.clone(), pstate);
            self.base.push_new_recursion_context(tmp, start, r);
            self.run(pr.ks[i as usize - 1])?;
            a = self.decide(pr.lb, pr.d)?;
        }
        Ok(())
    }
}

fn leaf<'input>(t: &Rc<dyn VCtx<'input> + 'input>) -> bool {
    (**t).downcast_ref::<TerminalNode<'input, VType>>().is_some() || (**t).downcast_ref::<ErrorNode<'input, VType>>().is_some()
}
fn dump<'input>(t: &Rc<dyn VCtx<'input> + 'input>, bad: &mut Vec<String>) -> Value {
    if let Some(x) = (**t).downcast_ref::<TerminalNode<'input, VType>>() {
        return json!([1, x.symbol.get_token_index(), x.symbol.get_token_type(), t.get_source_interval().a, t.get_source_interval().b, t.get_text()]);
    }
    if let Some(x) = (**t).downcast_ref::<ErrorNode<'input, VType>>() {
        return json!([2, x.symbol.get_token_index(), x.symbol.get_token_type(), t.get_source_interval().a, t.get_source_interval().b, t.get_text()]);
    }
    let mut ch = vec![];
    for (i, c) in t.get_children().enumerate() {
        if !leaf(&c) && !c.get_parent().map(|p| Rc::as_ptr(&p) as *const () == Rc::as_ptr(t) as *const ()).unwrap_or(false) {
            bad.push(format!("child {} of a node of rule {} has another parent", i, t.get_rule_index()));
        }
        match t.get_child(i) {
            Some(d) if Rc::as_ptr(&d) as *const () == Rc::as_ptr(&c) as *const () => {}
            _ => bad.push(format!("get_child({}) differs", i)),
        }
        ch.push(dump(&c, bad));
    }
    if t.get_child_count() != ch.len() {
        bad.push("child count differs".into());
    }
    let iv = t.get_source_interval();
    json!([0, t.get_rule_index(), t.get_alt_number(), t.start().get_token_index(), t.stop().get_token_index(), t.get_invoking_state(), iv.a, iv.b, t.get_text(), ch])
}

fn walk_of<'input, K: Kind>(t: &Rc<dyn VCtx<'input> + 'input>, wl: &Log) {
    if let Some(x) = (**t).downcast_ref::<VNode<'input, K>>() {
        let l = Lis { id: 99, log: wl.clone() };
        let back = ParseTreeWalker::<'input, '_, VType, dyn VListener<'input> + '_>::walk(Box::new(l), x);
        wl.borrow_mut().push(json!(["back", back.id]));
    }
}

/// what the query functions of every rule node say, in document order
fn query<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>>(
    t: &Rc<dyn VCtx<'input> + 'input>,
    root: &Rc<dyn VCtx<'input> + 'input>,
    names: &[&str],
    types: &[isize],
    base: &Base<'input, I>,
    out: &mut Vec<Value>,
) {
    query_of::<K0, I>(t, root, names, types, base, out);
    query_of::<K1, I>(t, root, names, types, base, out);
    query_of::<K2, I>(t, root, names, types, base, out);
    for c in t.get_children() {
        if !leaf(&c) {
            query(&c, root, names, types, base, out);
        }
    }
}
fn query_of<'input, K: Kind, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input>>(
    t: &Rc<dyn VCtx<'input> + 'input>,
    root: &Rc<dyn VCtx<'input> + 'input>,
    names: &[&str],
    types: &[isize],
    base: &Base<'input, I>,
    out: &mut Vec<Value>,
) {
    if let Ok(x) = t.clone().downcast_rc::<VNode<'input, K>>() {
        let ch: Vec<_> = x.get_children().map(|c| Rc::as_ptr(&c) as *const ()).collect();
        let at = |p: *const ()| ch.iter().position(|c| *c == p).map(|i| i as isize + 1).unwrap_or(-1);
        let mut toks = vec![];
        for ty in types {
            let all: Vec<isize> = x.get_tokens(*ty).iter().map(|l| at(Rc::as_ptr(l) as *const ())).collect();
            let one: Vec<isize> = (0..all.len() + 2).map(|i| x.get_token(*ty, i).map(|l| at(Rc::as_ptr(&l) as *const ())).unwrap_or(0)).collect();
            toks.push(json!([ty, all, one]));
        }
        fn kids<'input, K: Kind, L: Kind>(x: &VNode<'input, K>, at: &dyn Fn(*const ()) -> isize) -> Value {
            let all: Vec<isize> = x.children_of_type::<VNode<'input, L>>().iter().map(|l| at(Rc::as_ptr(l) as *const ())).collect();
            let one: Vec<isize> = (0..all.len() + 2).map(|i| x.child_of_type::<VNode<'input, L>>(i).map(|l| at(Rc::as_ptr(&l) as *const ())).unwrap_or(0)).collect();
            json!([L::N, all, one])
        }
        let ks = vec![kids::<K, K0>(&x, &at), kids::<K, K1>(&x, &at), kids::<K, K2>(&x, &at)];
        let none: Option<Rc<dyn VCtx<'input> + 'input>> = None;
        out.push(json!({
            "lisp": t.to_string_tree(base),
            "inv": RuleContextExt::to_string(&x, None, none.clone()),
            "names": RuleContextExt::to_string(&x, Some(names), none),
            "upto": RuleContextExt::to_string(&x, Some(names), Some(root.clone())),
            "toks": toks,
            "kids": ks,
        }));
    }
}

/// a visitor that only looks at leaves
struct Leaves(Vec<Value>);
impl<'input> ParseTreeVisitor<'input, VType> for Leaves {
    fn visit_terminal(&mut self, n: &TerminalNode<'input, VType>) {
        self.0.push(json!(["t", n.symbol.get_token_index()]));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'input, VType>) {
        self.0.push(json!(["r", n.symbol.get_token_index()]));
    }
}
impl<'input> VVisitor<'input> for Leaves {}
/// a visitor that looks at everything
struct Every(Vec<Value>);
impl<'input> ParseTreeVisitor<'input, VType> for Every {
    fn visit_terminal(&mut self, n: &TerminalNode<'input, VType>) {
        self.0.push(json!(["t", n.symbol.get_token_index()]));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'input, VType>) {
        self.0.push(json!(["r", n.symbol.get_token_index()]));
    }
}
impl<'input> VVisitor<'input> for Every {
    fn visit_kind(&mut self, k: usize, ctx: &(dyn VCtx<'input> + 'input)) {
        self.0.push(json!(["(", k, ctx.get_rule_index()]));
        self.visit_children(ctx);
        self.0.push(json!([")", k, ctx.get_rule_index()]));
    }
}
/// a visitor with results: combines them and stops when it has enough
struct Fold {
    temp: Vec<isize>,
    lim: usize,
}
impl<'input> ParseTreeVisitorCompat<'input> for Fold {
    type Node = VType;
    type Return = Vec<isize>;
    fn temp_result(&mut self) -> &mut Vec<isize> {
        &mut self.temp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'input, VType>) -> Vec<isize> {
        vec![n.symbol.get_token_type()]
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'input, VType>) -> Vec<isize> {
        vec![-100 - n.symbol.get_token_type()]
    }
    fn aggregate_results(&self, mut a: Vec<isize>, b: Vec<isize>) -> Vec<isize> {
        a.push(b.len() as isize);
        a.extend(b);
        a
    }
    fn should_visit_next_child(&self, x: &(dyn VCtx<'input> + 'input), cur: &Vec<isize>) -> bool {
        let stop = x.downcast_ref::<TerminalNode<'input, VType>>().map(|t| t.symbol.get_token_type() == (self.lim % 7) as isize);
        cur.len() < self.lim && stop != Some(true)
    }
}
impl<'input> VVisitorCompat<'input> for Fold {}
/// a visitor with results that keeps the default way of combining them
struct Last {
    temp: Vec<isize>,
}
impl<'input> ParseTreeVisitorCompat<'input> for Last {
    type Node = VType;
    type Return = Vec<isize>;
    fn temp_result(&mut self) -> &mut Vec<isize> {
        &mut self.temp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'input, VType>) -> Vec<isize> {
        vec![n.symbol.get_token_index()]
    }
}
impl<'input> VVisitorCompat<'input> for Last {
    fn visit_kind(&mut self, k: usize, ctx: &(dyn VCtx<'input> + 'input)) -> Vec<isize> {
        let mut r = ParseTreeVisitorCompat::visit_children(self, ctx);
        r.push(-(k as isize) - 10);
        r
    }
}
fn visits<'input>(t: &Rc<dyn VCtx<'input> + 'input>, lim: usize) -> Value {
    let mut a = Leaves(vec![]);
    a.visit_node(&**t);
    let mut b = Every(vec![]);
    b.visit_node(&**t);
    let mut d = Every(vec![]);
    t.accept_children(&mut d);
    let mut e = Fold { temp: vec![], lim };
    let er = e.visit(&**t);
    let mut f = Last { temp: vec![] };
    let fr = f.visit(&**t);
    json!({"leaves": a.0, "every": b.0, "kids": d.0, "fold": er, "last": fr})
}

fn run_one<'input, I: TokenStream<'input, TF = CommonTokenFactory> + TidAble<'input> + 'input>(g: &Gram, c: &Value, input: I, usage: Option<crate::mon::Use>) -> Value {
    let sh = g.sh.borrow().clone();
    let it = Arc::new(ParserATNSimulator::new(sh.atn.clone(), sh.dfas.clone(), sh.cache.clone()));
    it.set_prediction_mode(match n(&c["mode"]) {
        0 => PredictionMode::LL,
        1 => PredictionMode::SLL,
        _ => PredictionMode::LL_EXACT_AMBIG_DETECTION,
    });
    let log: Log = Rc::new(RefCell::new(vec![]));
    let elog: Log = Rc::new(RefCell::new(vec![]));
    let pv = c["pv"].as_array().map(|a| a.iter().map(|x| [n(&x[0]), n(&x[1])]).collect()).unwrap_or_default();
    let mut base = BaseParser::new_base_parser(input, it.clone(), PExt { names: g.names.clone(), voc: g.voc.clone(), pv, cnt: 0, _pd: PhantomData });
    base.remove_error_listeners();
    base.add_error_listener(Box::new(ErrL { log: log.clone() }));
    base.build_parse_trees = n(&c["tree"]) != 0;
    let eh: Strat<'input, I> = if n(&c["bail"]) != 0 { Box::new(BailErrorStrategy::new()) } else { Box::new(DefaultErrorStrategy::new()) };
    let mut p = P {
        base,
        eh,
        g,
        it,
        log: log.clone(),
        x: c["x"].as_i64() == Some(1),
        lab: c["lab"].as_i64() == Some(1),
        lops: c["lops"].as_array().map(|a| a.iter().map(|x| (n(&x[0]), n(&x[1]))).collect()).unwrap_or_default(),
        ids: vec![],
        nlis: 0,
        eops: c["eops"].as_array().map(|a| a.iter().map(|x| (n(&x[0]), n(&x[1]))).collect()).unwrap_or_default(),
        nerr: 0,
        elog: elog.clone(),
        inv: c["ri"].as_i64() == Some(1),
        usage: usage.clone(),
    };
    for _ in 0..n(&c["lis"]) {
        p.add_listener();
    }
    let first: Vec<_> = p.eops.iter().filter(|x| x.0 == 0).map(|x| x.1).collect();
    if !first.is_empty() {
        for o in first {
            p.err_op(o)
        }
    }
    let r = p.rule(n(&c["start"]) as usize, 0);
    let at = p.base.input.index();
    let res = match &r {
        Ok(_) => "ok".to_string(),
        Err(ANTLRError::FallThrough(_)) => "bail".to_string(),
        Err(e) => format!("error {:?}", e),
    };
    p.push(json!(["end", res, at, p.base.ctx.is_none() as i32, p.base.get_precedence()]));
    let mut bad = vec![];
    let mut walk = json!([]);
    let mut q = json!([]);
    let tree = match &r {
        Ok(t) => {
            if t.get_parent().is_some() {
                bad.push("the root has a parent".into());
            }
            let d = dump(t, &mut bad);
            if c["walk"].as_i64() == Some(1) {
                let wl: Log = Rc::new(RefCell::new(vec![]));
                walk_of::<K0>(t, &wl);
                walk_of::<K1>(t, &wl);
                walk_of::<K2>(t, &wl);
                walk = json!(Rc::try_unwrap(wl).map(|x| x.into_inner()).unwrap_or_default());
            }
            if let Some(qt) = c["q"].as_array() {
                let qt: Vec<isize> = qt.iter().map(n).collect();
                let names: Vec<&str> = g.names.iter().copied().collect();
                let mut nodes = vec![];
                query(t, t, &names, &qt, &p.base, &mut nodes);
                q = json!({"nodes": nodes, "visits": visits(t, c["lim"].as_u64().unwrap_or(3) as usize)});
            }
            d
        }
        Err(_) => json!([]),
    };
    let ev: Vec<Value> = RefCell::borrow(&log).clone();
    let el: Vec<Value> = RefCell::borrow(&elog).clone();
    let us: Vec<Value> = usage.map(|u| RefCell::borrow(&u.log).clone()).unwrap_or_default();
    json!({"ev": ev, "tree": tree, "bad": bad, "walk": walk, "q": q, "elog": el, "use": us})
}

pub fn one(g: &Gram, c: &Value) -> Value {
    if c["fresh"].as_i64() == Some(1) {
        let a = g.sh.borrow().atn.clone();
        *g.sh.borrow_mut() = fresh(&a);
    }
    let toks = c["toks"].as_array().unwrap().iter().map(|t| (n(&t[0]), n(&t[1]), t[2].as_str().unwrap().to_string())).collect();
    let src = Src { toks, at: 0, asked: 0 };
    let v = guarded(|| match c["stream"].as_i64().unwrap_or(0) {
        0 => run_one(g, c, CommonTokenStream::new(src), None),
        1 => run_one(g, c, UnbufferedTokenStream::new_buffered(src), None),
        2 => run_one(g, c, UnbufferedTokenStream::new_unbuffered(src), None),
        _ => {
            let u = crate::mon::Use::default();
            run_one(g, c, crate::mon::MonTok::new(src, u.clone()), Some(u))
        }
    });
    whole(v)
}

fn whole(v: Value) -> Value {
    if v.is_array() {
        json!({"ev": v, "tree": [], "bad": [], "walk": [], "q": [], "elog": [], "use": []})
    } else {
        v
    }
}

struct LexSrc<'a>(BaseLexer<'a, crate::lex::Rec, InputStream<&'a str>>);
antlr_rust::tid! {impl<'a> TidAble<'a> for LexSrc<'a>}
impl<'a> TokenSource<'a> for LexSrc<'a> {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'a>>::Tok {
        self.0.next_token()
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        self.0.get_input_stream()
    }
    fn get_source_name(&self) -> String {
        "src".into()
    }
    fn get_token_factory(&self) -> &'a Self::TF {
        self.0.get_token_factory()
    }
}

/// a parser reading from a lexer
pub fn piped(g: &Gram, c: &Value, lx: &Shared, s: &str) -> Value {
    whole(guarded(|| run_one(g, c, CommonTokenStream::new(LexSrc(crate::lex::lexer(lx, InputStream::new(s), &CommonTokenFactory))), None)))
}

pub fn main(job: &Value, out: &mut Out) {
    let gs: Vec<Gram> = job["grammars"].as_array().unwrap().iter().map(gram).collect();
    for (k, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(k);
        let v = one(&gs[n(&c["g"]) as usize], c);
        out.result(v);
    }
}

/// the tokens that can come next, asked of the automaton itself
pub fn nexts(job: &Value, out: &mut Out) {
    let gs: Vec<Gram> = job["grammars"].as_array().unwrap().iter().map(gram).collect();
    for (k, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(k);
        let g = &gs[n(&c["g"]) as usize];
        let v = guarded(|| {
            let sh = g.sh.borrow();
            let atn = &sh.atn;
            let local = c["states"].as_array().unwrap().iter().map(|s| ivs(atn.next_tokens(&*atn.states[n(s) as usize]))).collect::<Vec<_>>();
            let q = c["q"].as_array().unwrap().iter().map(|q| ivs(&atn.get_expected_tokens(n(&q[0]), ints(&q[1]).into_iter()))).collect::<Vec<_>>();
            json!({"local": local, "q": q})
        });
        out.result(v);
    }
}

fn sem(e: &Value) -> SemanticContext {
    match e[0].as_str().unwrap() {
        "n" => SemanticContext::NONE,
        "p" => SemanticContext::Predicate { rule_index: n(&e[2]), pred_index: n(&e[1]), is_ctx_dependent: n(&e[3]) != 0 },
        "q" => SemanticContext::Precedence(n(&e[1])),
        "and" => SemanticContext::and(Some(sem(&e[1])), Some(sem(&e[2]))),
        _ => SemanticContext::or(Some(sem(&e[1])), Some(sem(&e[2]))),
    }
}
fn show(c: &SemanticContext) -> Value {
    if *c == SemanticContext::NONE {
        return json!(["n"]);
    }
    match c {
        SemanticContext::Predicate { rule_index, pred_index, is_ctx_dependent } => json!(["p", pred_index, rule_index, *is_ctx_dependent as i32]),
        SemanticContext::Precedence(p) => json!(["q", p]),
        SemanticContext::AND(x) => json!(["all", x.iter().map(show).collect::<Vec<_>>()]),
        SemanticContext::OR(x) => json!(["any", x.iter().map(show).collect::<Vec<_>>()]),
    }
}
/// conjunctions and disjunctions of guards
pub fn guards(job: &Value, out: &mut Out) {
    for (k, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(k);
        let v = guarded(|| json!({"r": show(&sem(&c["e"]))}));
        out.result(v);
    }
}
