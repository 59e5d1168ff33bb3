"""Planted changes: exact text edits against /repo, with the job that demonstrates each (run by the harness copy beside the demo)."""
from lexgen import *
import lexgen
SEEDS = []


def seed(id, prop, edits, needs, breaks, cmd, job):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, cmd=cmd, job=job))


def lexjob(g, *ws, enc='str', fac='common'):
    return lambda: dict(gs=[dict(serial=g.serial())], cases=[{'g': 0, 'in': [ord(c) for c in w], 'enc': enc, 'fac': fac} for w in ws])


SIM = 'src/lexer_atn_simulator.rs'
seed('lexdeaderr', 'C05', [(SIM, '            if !reach.has_semantic_context() {\n                self.add_dfaedge(&mut dfa_mut.states[s], _t, ERROR_DFA_STATE_REF);\n            }',
                                 '            self.add_dfaedge(&mut dfa_mut.states[s], _t, ERROR_DFA_STATE_REF);')],
     'a predicate inside a token that is false the first time a prefix is seen and true later, with a shared cache',
     'a dead end caused by a false predicate is cached, so the match stays impossible when the predicate holds later',
     'lex', lexjob(lexer('p', [('A', seq(t('a'), alt(seq(pred(3), t('b'))))), ('F', seq(t('c'), act(1)))]), 'abab', 'cab', 'ab', 'cabcab'))
seed('lexbackcol', 'C03', [(SIM, """        input.seek(self.prev_accept.index);
        self.current_pos.line.set(self.prev_accept.line);
        self.current_pos
            .char_position_in_line
            .set(self.prev_accept.column);
""", """        let ahead = input.index() - self.prev_accept.index;
        input.seek(self.prev_accept.index);
        let column = if self.current_pos.line.get() == self.prev_accept.line {
            // still on the same line, just step back
            self.current_pos.char_position_in_line.get() - ahead
        } else {
            self.prev_accept.column
        };
        self.current_pos.line.set(self.prev_accept.line);
        self.current_pos.char_position_in_line.set(column);
""")],
     'a longer match that is tried over a character of several bytes on the same line and then given up',
     'column of everything that follows on the line', 'lex', lexjob(lexer('q', [('A', t('a')), ('B', seq(t('a'), t('\u00e9'), t('b'))), ('C', t('\u00e9'))]), 'a\u00e9a', 'aa\u00e9ab'))
seed('lexmode', 'C04', [('src/lexer.rs', '''        self.mode_stack.pop().map(|mode| {
            self.mode = mode;
            mode
        })''', '''        self.mode_stack.pop().map(|mode| {
            if self.token_type != LEXER_MORE {
                self.mode = mode;
            }
            mode
        })''')],
     'a rule that continues the token (more) and pops the mode afterwards, in that order',
     'the mode is popped from the stack but the old mode stays in force', 'lex',
     lexjob(lexer('m', [('A', seq(t('a'), cmd(PUSH, 1))), ('X', t('x')), ('B', seq(t('b'), cmd(MORE), cmd(POP)), 1), ('X1', t('x'), 1)], 2), 'abx', 'ab', 'axbx'))
seed('lexskiperr', 'C02', [('src/lexer.rs', '''                if self.token_type == LEXER_SKIP {
                    continue 'outer;
                }''', '''                if self.token_type == LEXER_SKIP {
                    if ttype == LEXER_SKIP && self.text.is_some() {
                        continue 'inner;
                    }
                    continue 'outer;
                }''')],
     'an error after a custom action has set the text of a token being continued (more)',
     'the failed part is not dropped but becomes part of the following token', 'lex',
     lexjob(lexer('e', [('A', seq(t('a'), act(8), cmd(MORE))), ('B', t('b'))]), 'azb', 'ab', 'aazbb'))
seed('unbufclear', 'C08', [('src/token_stream.rs', 'if self.p == self.tokens.len() as isize && self.markers_count == 0 {', 'if self.p + 1 == self.tokens.len() as isize && self.markers_count == 0 {')],
     'consuming the last token buffered while no mark is held, then looking behind',
     'the last consumed token is no longer visible by lookbehind', 'toks',
     lambda: dict(cases=[dict(kind='unbuf', toks=[[1, 0, 97], [2, 0, 98], [3, 0, 99]], chan=[0], ops=[['lt', 1], ['consume'], ['lt', -1], ['lt', 1], ['consume'], ['lt', -1], ['mark'], ['lt', 2], ['consume'], ['release'], ['lt', -1]])]))
seed('ivsub', 'C09', [('src/interval_set.rs', """                (None, Some(after_curr)) => {
                    result.intervals[result_i] = after_curr;
                    right_i += 1;
                }""", """                (None, Some(after_curr)) => {
                    result.intervals[result_i] = after_curr;
                    result_i += 1;
                    right_i += 1;
                }""")],
     'subtracting a set two of whose intervals hit the same interval of the left operand, the first one at its start',
     'elements of the second interval stay in the difference', 'ivs',
     lambda: dict(cases=[dict(u=[0, 10], pairs=[], ops=[['add', 0, 0, 9], ['add', 1, 0, 1], ['add', 1, 4, 5], ['sub', 0, 1]])]))

# found with the mutation batches; the demonstrating job is the smallest one found on which the answers differ
import json
import os


def jobfile(n):
    return lambda: json.load(open(os.path.join(os.path.dirname(__file__), "jobs", n + ".json")))


seed('llmergeparent', 'C11', [('src/prediction_context.rs', 'let ax_ax = a_parent.is_some() && b_parent.is_some() && a_parent == b_parent;', 'let ax_ax = a_parent.is_some() && b_parent.is_some() && a_parent.map(|x| x.length()) == b_parent.map(|x| x.length()) && a_parent.map(|x| x.get_return_state(0)) == b_parent.map(|x| x.get_return_state(0));')],
     'two call stacks whose top frames agree but whose deeper frames differ, merged during prediction',
     'call stacks that differ below the top frame are taken for the same when merged, so a valid input is refused', 'parse', jobfile('llmergeparent'))
seed('llouterctx', 'C11', [('src/prediction_context.rs', '        if outer_context.get_parent_ctx().is_none() || outer_context.is_empty()\n', '        if outer_context.get_parent_ctx().map_or(true, |p| p.get_parent_ctx().map_or(true, |g| g.get_invoking_state() == outer_context.get_invoking_state())) || outer_context.is_empty()\n')],
     'a full-context prediction in a rule invoked twice from the same place',
     'the outer context handed to full-context prediction loses a recursive invocation', 'parse', jobfile('llouterctx'))
seed('precdeep', 'C13', [('src/parser.rs', 'precedence >= self.get_precedence()', 'precedence >= self.get_precedence() || self.precedence_stack.len() > 9')],
     'an operator expression nested ten levels deep',
     'beyond a nesting depth the precedence of the surrounding operator is ignored', 'parse', jobfile('precdeep'))
seed('precloop', 'C13', [('src/parser_atn_simulator.rs', '            //            println!("test2");\n            return false;', '            if i == 0 { return false; }')],
     'a left-recursive rule called from two places whose stacks are merged while predicting its loop',
     'the check whether the loop of a left-recursive rule may be left at once looks at the first merged stack only', 'parse', jobfile('precloop'))
seed('precstartshare', 'C14', [('src/dfa.rs', '                edges[precedence] = _start_state;', '                edges[precedence] = _start_state;\n                if precedence > 0 && edges[0] == 0 {\n                    edges[0] = _start_state;\n                }')],
     'a nested operand (higher precedence) parsed before the first operand of lowest precedence, with a shared cache',
     'the start state cached for one precedence is used for another', 'parse', jobfile('precstartshare'))
seed('llcalled', 'C17', [('src/ll1_analyzer.rs', '                    called_rule_stack.remove(target.get_rule_index());\n', '                    if !target.get_rule_index() == 0 { called_rule_stack.remove(target.get_rule_index()); }\n')],
     'a rule reached twice on one path through the automaton',
     'rules once entered are treated as recursive for ever, expected tokens get lost', 'nexts', jobfile('llcalled'))
seed('llnotset', 'C17', [('src/ll1_analyzer.rs', 'set.complement(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type)', 'set.complement(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type - 1)')],
     'a negated set in a state whose expected tokens are asked for',
     'the last token type of the vocabulary is missing from the expected set', 'nexts', jobfile('llnotset'))
seed('reachmin', 'C19', [('src/atn_config_set.rs', '            existing.set_reaches_into_outer_context(max(', '            existing.set_reaches_into_outer_context(std::cmp::min(')],
     'the same configuration reached twice, once after leaving the rule of the decision',
     'a configuration forgets that it left the rule of the decision, another alternative is taken on an error', 'parse', jobfile('reachmin'))
seed('insertctx', 'C19', [('src/error_strategy.rs', '            Some(recognizer.get_parser_rule_context().deref()),\n        );\n        if expect', '            None,\n        );\n        if expect')],
     'a missing token at the end of a rule, where what follows comes from the caller',
     'single-token insertion is judged without the callers, so the repair differs', 'parse', jobfile('insertctx'))
seed('synclate', 'C19', [('src/error_strategy.rs', '                expecting.add_set(&self.get_error_recovery_set(recognizer));\n', '                if !expecting.contains(TOKEN_EOF) { expecting.add_set(&self.get_error_recovery_set(recognizer)); }\n')],
     'a loop in a start rule that ends with end-of-file and garbage inside the loop',
     'resynchronisation stops at other tokens than the documented set', 'parse', jobfile('synclate'))
seed('baileof', 'C20', [('src/error_strategy.rs', '        let err = ANTLRError::InputMismatchError(InputMisMatchError::new(recognizer));\n\n        Err(self.process_error(recognizer, &err))', '        if recognizer.get_input_stream_mut().la(1) == TOKEN_EOF && self.0.single_token_insertion(recognizer) { return Ok(self.0.get_missing_symbol(recognizer)); }\n        let err = ANTLRError::InputMismatchError(InputMisMatchError::new(recognizer));\n\n        Err(self.process_error(recognizer, &err))')],
     'input that ends right before its last token',
     'the bail-out strategy inserts a missing token instead of failing', 'parse', jobfile('baileof'))
seed('stopeof', 'C21', [('src/parser.rs', '        retctx.set_stop(self.input.lt(-1).cloned());\n        if !self.parse', '        if self.matched_eof { retctx.set_stop(self.input.lt(1).cloned()) } else { retctx.set_stop(self.input.lt(-1).cloned()) }\n        if !self.parse')],
     'a rule that returns after end-of-file was matched inside it',
     'the rule node ends at the wrong token', 'parse', jobfile('stopeof'))
seed('lisswap', 'C22', [('src/parser.rs', 'listener_id.into_listener(self.parse_listeners.remove(index))', 'listener_id.into_listener(self.parse_listeners.swap_remove(index))')],
     'a listener removed while at least two more are attached after it',
     'the order of the remaining listeners changes', 'parse', jobfile('lisswap'))
seed('lisnotree', 'C22', [('src/parser.rs', '        self.trigger_enter_rule_event();\n    }\n\n    pub fn unroll', '        if self.build_parse_trees { self.trigger_enter_rule_event(); }\n    }\n\n    pub fn unroll')],
     'a left-recursive rule parsed with listeners but without trees',
     'the enter event of the operator node is missing', 'parse', jobfile('lisnotree'))
seed('predorfirst', 'C23', [('src/parser_atn_simulator.rs', '                alt_to_pred[alt] = Some(SemanticContext::or(\n                    alt_to_pred[alt].as_ref(),\n                    Some(&*c.semantic_context),\n                ));', '                alt_to_pred[alt] = Some(match &alt_to_pred[alt] { Some(x) if *x != SemanticContext::NONE => SemanticContext::or(Some(x), Some(&*c.semantic_context)), _ => (*c.semantic_context).clone() });')],
     'two configurations of one alternative, one guarded and one free',
     'an alternative that is also available without a predicate stays guarded', 'parse', jobfile('predorfirst'))
seed('cshidden', 'C24', [('src/parser_atn_simulator.rs', '        if prev.get_unique_alt() != INVALID_ALT {\n            self.report_context_sensitivity(', '        if prev.get_unique_alt() != INVALID_ALT && prev.get_alts().len() == 1 && local.input().index() >= self.start_index.get() + 1 {\n            self.report_context_sensitivity(')],
     'a decision resolved by full context at its first token',
     'no context-sensitivity report', 'parse', jobfile('cshidden'))
seed('reachstopsll', 'C24', [('src/parser_atn_simulator.rs', '&& (!full_ctx || !self.has_config_in_rule_stop_state(&reach))', '&& !self.has_config_in_rule_stop_state(&reach)')],
     'a prediction that ends at end of rule for one alternative while another continues',
     'configurations at the end of the rule are dropped in the context-insensitive stage, conflicts are reported differently', 'parse', jobfile('reachstopsll'))
seed('tokpos', 'C26', [('src/parser_rule_context.rs', '            .filter(|it| it.symbol.borrow().get_token_type() == ttype)\n            .nth(pos)', '            .skip(pos)\n            .find(|it| it.symbol.borrow().get_token_type() == ttype)')],
     'asking for the second token of a type with other children before the first',
     'the query by position counts children instead of tokens of the type', 'parse', jobfile('tokpos'))
seed('escapecr', 'C26', [('src/utils.rs', '        \'\\r\' => res.extend("\\\\r".chars()),\n', '')],
     'a token text with a carriage return in a printed tree',
     'carriage return is dropped instead of escaped', 'parse', jobfile('escapecr'))
seed('visitrefuse', 'C27', [('src/tree.rs', '                break;\n            }\n\n            let child_result', '                continue;\n            }\n\n            let child_result')],
     'a visitor that refuses to go on and would agree again later',
     'children after the refusal are visited', 'parse', jobfile('visitrefuse'))
seed('lisfour', 'C28', [('src/parser.rs', '        for listener in self.error_listeners.borrow().iter() {', '        for listener in self.error_listeners.borrow().iter().take(3) {')],
     'more than three error listeners attached',
     'only the first three hear syntax errors', 'parse', jobfile('lisfour'))
seed('diagexact', 'C28', [('src/error_listener.rs', '        if self.exact_only && !exact {', '        if self.exact_only != exact {')],
     'a diagnostic listener in exact-only mode off/on and ambiguities of both kinds',
     'exact ambiguities are left out instead of inexact ones', 'parse', jobfile('diagexact'))
seed('diagrulename', 'C28', [('src/error_listener.rs', 'recog.get_atn().states[dfa.atn_start_state].get_rule_index()', 'dfa.atn_start_state % 2')],
     'a diagnostic report about a decision outside the first rule',
     'the report names another rule', 'parse', jobfile('diagrulename'))
seed('ngfragment', 'C01', [('src/lexer_atn_simulator.rs', '                if !_current_alt_reached_accept_state || !passed_through_non_greedy_decision {', '                if !_current_alt_reached_accept_state || !passed_through_non_greedy_decision || _speculative && config.get_context().map_or(false, |x| !x.is_empty()) {')],
     'a non-greedy loop inside a fragment rule',
     'paths inside a fragment are lost once the alternative has reached an accept state, longest match missed', 'lex', jobfile('ngfragment'))
seed('backfront', 'C06', [('src/char_stream.rs', '            if index < 0 || index > self.len() as isize {\n                return None;', '            if index < 0 || index > self.len() as isize {\n                if item_offset == -1 { return Some(0); }\n                return None;')],
     'look-behind in front of the first character of text input',
     'the first character is returned instead of end-of-file', 'chars', jobfile('backfront'))
seed('boxedtext', 'C06', [('src/input_stream.rs', '    fn get_text_owned(&self, start: isize, stop: isize) -> Data::Owned {\n        let start = start as usize;\n        let stop = self.data_raw.offset(stop, 1).unwrap_or(stop) as usize;\n', '    fn get_text_owned(&self, start: isize, stop: isize) -> Data::Owned {\n        let start = start as usize;\n        let stop = (stop + 1) as usize;\n')],
     'text of an interval that ends with a character of several bytes, on owned text',
     'the text is cut in the middle of the character', 'chars', jobfile('boxedtext'))
seed('behindhidden', 'C07', [('src/common_token_stream.rs', 'while i >= 0 && self.base.tokens[i as usize].borrow().get_channel() != channel {', 'while i > 0 && self.base.tokens[i as usize].borrow().get_channel() != channel {')],
     'look-behind when the first token of the input is on another channel',
     'a hidden token is returned', 'toks', jobfile('behindhidden'))
seed('smpplane', 'C10', [('src/atn_deserializer.rs', '(data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16', '(data.next().unwrap() & 0xFFFF) | (data.next().unwrap() & 0xF) << 16')],
     'a set with a symbol in the last plane (U+100000 and above)',
     'the symbol is decoded modulo the planes', 'atn', jobfile('smpplane'))
seed('ngbigstate', 'C10', [('src/atn_deserializer.rs', '            let st = data.next().unwrap() as usize;\n            if let ATNStateType::DecisionState { nongreedy: ng, .. } =', '            let st = data.next().unwrap() as usize & 0xff;\n            if let ATNStateType::DecisionState { nongreedy: ng, .. } =')],
     'a non-greedy loop whose decision state has a number above 255',
     'another state is marked non-greedy', 'atn', jobfile('ngbigstate'))
seed('actoffset', 'C04', [('src/lexer_action_executor.rs', '                LexerAction::LexerIndexedCustomAction { .. } => {}\n', '                LexerAction::LexerIndexedCustomAction { offset: o, .. } if *o > offset => {}\n                LexerAction::LexerIndexedCustomAction { offset: o, .. } => *o = (*o).max(offset - 1),\n')],
     'two actions at different offsets inside one token',
     'an action runs at the offset of a later one', 'lex', jobfile('actoffset'))
seed('emptytext', 'C25', [('src/token_factory.rs', '            (Some(t), _) => t,\n            (None, Some(x)) => {', '            (Some(t), _) if !t.is_empty() => t,\n            (_, Some(x)) => {')],
     'an action that sets the text of a token to the empty text, with an owning token factory',
     'the token shows the matched text instead', 'lex', jobfile('emptytext'))
LX = 'src/lexer.rs'
seed('eofmark', 'C29', [(LX, "            if self.hit_eof {\n                self.emit_eof();\n                break;", "            if self.hit_eof {\n                self.emit_eof();\n                return self.token.take().unwrap();")],
     'an input stream that keeps only what is marked, and a token requested at the end of the input',
     'the mark taken for the end-of-file token is never released', 'lex', lexjob(lexer('e', [('A', t('a'))]), 'a', 'aa', enc='mon'))
seed('predmark', 'C29', [(SIM, "        let marker = lexer.input().mark();\n        if lexer.input().la(1)", "        let marker = if index > self.start_index { lexer.input().mark() } else { 0 };\n        if lexer.input().la(1)")],
     'a predicate right behind the first character of a token, on a stream that counts marks',
     'a mark that was not taken is released', 'lex', lexjob(lexer('p', [('A', seq(t('a'), pred(2), t('b'))), ('B', t('a'))]), 'ab', 'a', 'aab', enc='mon'))
VO = 'src/vocabulary.rs'


def vocjob(*cs):
    o = lambda tab: [[] if x is None else [[ord(ch) for ch in x]] for x in tab]
    return lambda: dict(cases=[dict(k='voc', how=how, lit=o(a), sym=o(b), disp=o(c), q=list(range(-2, 6)), sets=[[-2, -1, 1], [1, 2, 3], [-1, 0, 1, 2]]) for how, a, b, c in cs])


seed('quotename', 'C30', [(VO, "Some(tn) if !tn.is_empty() && tn.chars().next().unwrap() == '\\'' => {", "Some(tn) if tn.len() > 2 && tn.starts_with('\\'') && tn.ends_with('\\'') => {")],
     'a vocabulary built from one list of token names with a literal whose closing quote is missing or that is empty',
     'the name is no longer a literal name', 'names', vocjob(('names', [None, "''", "'a'", 'ID'], [], []), ('names', [None, "'x"], [], [])))
seed('epsname', 'C30', [('src/interval_set.rs', "                    buf += self.element_name(vocabulary, i).as_ref();\n                }\n            }", "                    let name = if i > int.a {\n                        vocabulary.get_display_name(i)\n                    } else {\n                        self.element_name(vocabulary, i)\n                    };\n                    buf += name.as_ref();\n                }\n            }")],
     'a token set with both the epsilon mark and end-of-file in it',
     'end-of-file is printed by another name when it follows another element of the same interval', 'names', vocjob(('two', [None, "'a'"], [None, 'A', 'B'], [])))
seed('maxtype', 'C30', [(VO, "max(it.symbolic_names.len(), it.display_names.len()),", "if it.symbolic_names.is_empty() {\n                    it.display_names.len()\n                } else {\n                    it.symbolic_names.len()\n                },")],
     'a table of display names longer than the tables of literal and symbolic names',
     'the largest token type is too small', 'names', vocjob(('tables', [None, "'a'"], [None, 'A'], [None, 'x', 'y', 'z'])))
seed('escorder', 'C30', [('src/token.rs', '        let txt = txt.replace("\\n", "\\\\n");\n        let txt = txt.replace("\\r", "\\\\r");', '        let txt = txt.replace("\\r\\n", "\\\\n");\n        let txt = txt.replace("\\n", "\\\\n");\n        let txt = txt.replace("\\r", "\\\\r");')],
     'a token whose text contains a carriage return followed by a line feed',
     'the carriage return disappears from the printed token', 'names',
     lambda: dict(cases=[dict(k='tok', f=[1, 0, 0, 2, 5, 1, 0], text=[97, 13, 10]), dict(k='tok', f=[2, 1, 0, 2, 5, 1, 0], text=[9])]))
PS = 'src/parser_atn_simulator.rs'
seed('depthret', 'C23', [(PS, "                        if new_depth >= 0 {\n                            new_depth += 1\n                        }", "                        new_depth += 1")],
     'a context-dependent predicate at the start of a rule that follows the rule with the decision, whose alternative may be empty',
     'the predicate of the following rule is evaluated in the wrong context and decides', 'parse', jobfile('depthret'))
seed('predlate', 'C23', [(PS, "                != TransitionType::TRANSITION_ACTION\n                && collect_predicates;", "                != TransitionType::TRANSITION_ACTION\n                && collect_predicates || full_ctx && depth > 0;")],
     'alternatives that tie until full context is needed, with a predicate in a nested rule behind the first token',
     'the predicate is evaluated at the start of the decision instead of where it stands', 'parse', jobfile('actcont'))
seed('outeronce', 'C19', [(PS, "                    c.reaches_into_outer_context += 1;", "                    c.reaches_into_outer_context += if new_depth < 0 { 0 } else { 1 };")],
     'an error while predicting, after an alternative that finished the rule of the decision through a nested rule',
     'the alternative is forgotten and an error is reported at the decision', 'parse', jobfile('sllpref'))
seed('stopkept', 'C18', [(PS, "            && (!full_ctx || !self.has_config_in_rule_stop_state(&reach))", "            && (!full_ctx || reach.is_empty())")],
     'full-context prediction in which one alternative ends before the others, on broken input or without end of file in the grammar',
     'the alternative that ends earlier is dropped', 'parse', jobfile('skipst'))
seed('lookmore', 'C29', [(PS, "        if predicted_alt != INVALID_ALT {\n            D.is_accept_state = true;", "        if predicted_alt != INVALID_ALT && !(reach.has_semantic_context() && reach.length() > 1) {\n            D.is_accept_state = true;")],
     'a decision with predicates whose remaining configurations all belong to one alternative',
     'prediction goes on looking although the alternative is settled', 'parse', jobfile('uniqextra'))
