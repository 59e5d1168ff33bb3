//! Names of token types, printed token sets and printed tokens.
use crate::util::*;
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::token::{GenericToken, OwningToken, Token};
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::sync::atomic::AtomicIsize;

fn text(v: &Value) -> String {
    ints(v).into_iter().map(|x| std::char::from_u32(x as u32).unwrap()).collect()
}
/// a name is [] (none) or [[code points]]
fn table(v: &Value) -> Vec<Option<String>> {
    v.as_array().unwrap().iter().map(|x| x.as_array().unwrap().first().map(text)).collect()
}
fn opt(x: Option<&str>) -> Value {
    x.map(|s| json!([cps(s)])).unwrap_or(json!([]))
}
fn voc(c: &Value) -> Value {
    let (l, s, d) = (table(&c["lit"]), table(&c["sym"]), table(&c["disp"]));
    let refs = |v: &'static Vec<Option<String>>| v.iter().map(|x| x.as_deref()).collect::<Vec<Option<&'static str>>>();
    let leak = |v: Vec<Option<String>>| &*Box::leak(Box::new(v));
    let (l, s, d) = (refs(leak(l)), refs(leak(s)), refs(leak(d)));
    let v = match c["how"].as_str().unwrap() {
        "tables" => VocabularyImpl::new(l.iter(), s.iter(), Some(d.iter())),
        "two" => VocabularyImpl::new(l.iter(), s.iter(), None),
        _ => VocabularyImpl::from_token_names(&l),
    };
    let names: Vec<Value> = ints(&c["q"]).into_iter().map(|t| json!([cps(&v.get_display_name(t)), opt(v.get_literal_name(t)), opt(v.get_symbolic_name(t))])).collect();
    let sets: Vec<Value> = c["sets"].as_array().unwrap().iter().map(|x| {
        let mut s = IntervalSet::new();
        ints(x).into_iter().for_each(|e| s.add_one(e));
        cps(&s.to_token_string(&v))
    }).collect();
    json!({"max": v.get_max_token_type(), "names": names, "sets": sets})
}
fn fields(t: &OwningToken) -> Value {
    json!([t.token_type, t.channel, t.start, t.stop, t.get_token_index(), t.line, t.column, cps(&t.text)])
}
fn tok(c: &Value) -> Value {
    let f = ints(&c["f"]);
    let s = text(&c["text"]);
    let common = GenericToken { token_type: f[0], channel: f[1], start: f[2], stop: f[3], token_index: AtomicIsize::new(f[4]), line: f[5], column: f[6], text: Cow::Borrowed(&s[..]), read_only: false };
    let owned = Token::to_owned(&common);
    let twice = Token::to_owned(&owned);
    common.set_token_index(f[4] + 7);
    let copy = Clone::clone(&common);
    json!({"shown": [cps(&format!("{}", GenericToken { token_type: f[0], channel: f[1], start: f[2], stop: f[3], token_index: AtomicIsize::new(f[4]), line: f[5], column: f[6], text: Cow::Borrowed(&s[..]), read_only: false })),
            cps(&format!("{}", owned)), cps(&format!("{}", twice))],
        "own": [fields(&owned), fields(&twice)],
        "said": [cps(common.get_text()), cps(owned.get_text()), cps(copy.get_text())],
        "moved": [common.get_token_index(), copy.get_token_index(), owned.get_token_index()],
        "copy": [copy.token_type, copy.channel, copy.start, copy.stop, copy.line, copy.column]})
}
pub fn main(job: &Value, out: &mut Out) {
    for (i, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(i);
        out.result(guarded(|| if c["k"] == "voc" { voc(c) } else { tok(c) }));
    }
}
