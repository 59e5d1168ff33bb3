//! Decodes a serialized ATN with the real deserializer and dumps what is publicly visible of it.
use crate::util::*;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::{ATNDecisionState, ATNStateType};
use antlr_rust::transition::*;
use serde_json::{json, Value};

pub fn dump(text: &str, probes: &[isize]) -> Value {
    let atn = ATNDeserializer::new(None).deserialize(text.chars());
    let mut st = vec![];
    for s in atn.states.iter() {
        let (mut end, mut lb, mut ng, mut dec, mut lr, mut stop, mut prec) = (-1isize, -1isize, 0, -1isize, 0, -1isize, 0);
        match s.get_state_type() {
            ATNStateType::RuleStartState { stop_state, is_left_recursive } => {
                stop = *stop_state as isize;
                lr = *is_left_recursive as isize;
            }
            ATNStateType::LoopEndState(x) => lb = *x as isize,
            ATNStateType::DecisionState { decision, nongreedy, state } => {
                dec = *decision;
                ng = *nongreedy as isize;
                match state {
                    ATNDecisionState::BlockStartState { end_state, .. } => end = *end_state as isize,
                    ATNDecisionState::StarLoopEntry { is_precedence, .. } => prec = *is_precedence as isize,
                    _ => {}
                }
            }
            _ => {}
        }
        let mut trs = vec![];
        for t in s.get_transitions() {
            let tgt = t.get_target();
            let (min, max) = (0, 0x10FFFF);
            let m: Vec<isize> = if t.is_epsilon() { vec![] } else { probes.iter().cloned().filter(|p| t.matches(*p, min, max)).collect() };
            let lab: Vec<isize> = t.get_label().map(|l| probes.iter().cloned().filter(|p| l.contains(*p)).collect()).unwrap_or_default();
            let e = t.is_epsilon() as isize;
            trs.push(match t.get_serialization_type() {
                TransitionType::TRANSITION_EPSILON => {
                    let r = t.cast::<EpsilonTransition>().outermost_precedence_return;
                    // only meaningful on the way out of a rule
                    let r = if matches!(s.get_state_type(), ATNStateType::RuleStopState) { r } else { -1 };
                    json!(["eps", tgt, [r], m, lab, e])
                }
                TransitionType::TRANSITION_RULE => {
                    let x = t.cast::<RuleTransition>();
                    json!(["rule", tgt, [x.follow_state, x.rule_index, x.precedence], m, lab, e])
                }
                TransitionType::TRANSITION_PREDICATE => {
                    let x = t.cast::<PredicateTransition>();
                    json!(["pred", tgt, [x.rule_index, x.pred_index, x.is_ctx_dependent as isize], m, lab, e])
                }
                TransitionType::TRANSITION_ACTION => {
                    let x = t.cast::<ActionTransition>();
                    json!(["act", tgt, [x.rule_index, x.action_index, x.is_ctx_dependent as isize], m, lab, e])
                }
                TransitionType::TRANSITION_PRECEDENCE => {
                    let x = t.cast::<PrecedencePredicateTransition>();
                    json!(["prec", tgt, [x.precedence], m, lab, e])
                }
                TransitionType::TRANSITION_ATOM => json!(["set", tgt, [], m, lab, e]),
                TransitionType::TRANSITION_RANGE => json!(["set", tgt, [], m, lab, e]),
                TransitionType::TRANSITION_SET => json!(["set", tgt, [], m, lab, e]),
                TransitionType::TRANSITION_NOTSET => json!(["nset", tgt, [], m, [], e]),
                TransitionType::TRANSITION_WILDCARD => json!(["any", tgt, [], m, [], e]),
            });
        }
        let r = s.get_rule_index();
        let r = if r > 1 << 30 { -1 } else { r as isize };
        st.push(json!([s.get_state_type_id(), r, end, lb, ng, dec, lr, stop, prec, s.get_state_number(), s.has_epsilon_only_transitions() as isize, trs]));
    }
    json!({
        "kind": format!("{:?}", atn.grammar_type), "max": atn.max_token_type, "st": st, "rstart": atn.rule_to_start_state,
        "rstop": atn.rule_to_stop_state, "tok": atn.rule_to_token_type, "modes": atn.mode_to_start_state, "dec": atn.decision_to_state,
        "decst": (0..atn.decision_to_state.len()).map(|i| atn.get_decision_state(i)).collect::<Vec<_>>()
    })
}

pub fn main(job: &Value, out: &mut Out) {
    for (i, c) in job["cases"].as_array().unwrap().iter().enumerate() {
        out.begin(i);
        let text = serial(&c["serial"]);
        let probes = ints(&c["probes"]);
        let r = guarded(|| dump(&text, &probes));
        out.result(if r.is_array() { json!({"refused": 1, "d": {}}) } else { json!({"refused": 0, "d": r}) });
    }
}
