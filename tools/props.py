import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'observe_at':obs} if obs else {}))))
S='src/'
p('C01','Lexer takes the longest match, then the first rule',
 'At every position the lexer produces the token of the rule that matches the longest prefix of the remaining input in the current mode, and of the rule listed first among those that match it equally long; non-greedy loops stop at the first point where the rest of their rule can match. This holds for every grammar and every input, including fragments, recursion, character sets, negated sets, wildcards, code points outside the basic plane and end-of-file inside a rule.',
 ['inputs','programs'],'all lexer grammars and all inputs','Tests run a handful of fixed sentences through a few generated lexers; they never vary the grammar and reach only the paths those sentences take.',
 [S+'lexer_atn_simulator.rs',S+'transition.rs',S+'lexer.rs'],[('ordered configuration sets; accept state remembered while going on','src/lexer_atn_simulator.rs'),('transition matching','src/transition.rs')],['tokens returned by the lexer'])
p('C02','Lexer accounts for every input character exactly once',
 'Lexing any input terminates, and the spans of the tokens, the skipped matches and the reported recognition errors follow each other without gap or overlap from the start to the end of the input. Each maximal failed match is reported exactly once, with the text consumed up to and including the offending character, and lexing continues after that character. The end-of-file token comes last, with an empty span at the end of the input, and is returned again by every further call.',
 ['inputs','programs'],'all lexer grammars and inputs, valid or not','Tests check a few error inputs; totality over malformed inputs in every mode and in the middle of a continued token is out of their reach.',
 [S+'lexer.rs',S+'lexer_atn_simulator.rs',S+'errors.rs'],[('token loop','src/lexer.rs next_token'),('failOrAccept and recover','src/lexer_atn_simulator.rs')],['tokens, error listener calls'])
p('C03','Token line and column are those of its first character',
 'Every token, and every recognition error, carries the line and column of the first character of its text, lines counted from 1 by newline characters and columns from 0 in characters, whatever was matched, looked ahead at, skipped, continued or dropped as an error before. The position the lexer itself reports after each token is that of the next unread character.',
 ['inputs','histories'],'all inputs with newlines anywhere, for all grammars','Tests compare positions of one or two tokens on simple inputs; lookahead past newlines with backtracking is not reached.',
 [S+'lexer_atn_simulator.rs',S+'lexer.rs'],[('position saved with the accept state and restored','src/lexer_atn_simulator.rs'),('position counters','src/lexer.rs')])
p('C04','Lexer commands, modes, actions and predicates take effect as written',
 'The commands and custom actions on the path of the winning match run exactly once, in grammar order, each seeing the input position and text it has in the grammar, and nothing runs for matches that lose. Type, channel, skip, more, mode, push and pop have their documented effect on the current token and mode stack, the next match uses the rules of the mode in force, and a predicate that is false removes only the match it guards.',
 ['inputs','programs','histories'],'all grammars with commands, modes, actions and predicates, all inputs','The tests contain one or two grammars with a few commands; combinations of modes, continued tokens, positions of actions and predicates are not covered.',
 [S+'lexer_action_executor.rs',S+'lexer_action.rs',S+'lexer.rs',S+'lexer_atn_simulator.rs'],[('action executor carried by configurations','src/lexer_action_executor.rs'),('mode stack','src/lexer.rs')])
p('C05','Cached lexer decisions never change what a lexer produces',
 'The tokens, errors and action calls for an input depend only on the grammar and that input, not on which inputs were lexed before, in which order, or by which other lexer instance sharing the same decision cache. A repeated run gives exactly what a run with empty caches gives.',
 ['histories','inputs'],'all sequences of inputs lexed through one shared cache','Each test builds its lexer and lexes one input; nothing compares a warm cache with a cold one.',
 [S+'lexer_atn_simulator.rs',S+'dfa.rs',S+'dfa_state.rs',S+'atn_config_set.rs'],[('DFA edges added while simulating','src/lexer_atn_simulator.rs'),('state equality and hashing','src/dfa_state.rs, src/atn_config.rs')])
p('C06','Character streams behave as a cursor over the input symbols',
 'For every input, in every supported representation (text, owned text, bytes, 16-bit and 32-bit units), lookahead by k sees the k-th next symbol, lookbehind the k-th previous one, and end-of-file or nothing beyond the ends; consuming advances by exactly one symbol and is refused at the end; seeking to any previously reported position restores exactly that view. Text of any span delimited by reported positions is exactly the symbols of that span, and marks never disturb the view.',
 ['inputs','histories'],'all inputs and all sequences of stream operations','A few unit tests exercise short fixed sequences on one or two representations.',
 [S+'input_stream.rs',S+'char_stream.rs',S+'int_stream.rs'],[('byte offsets of code points','src/char_stream.rs'),('cursor operations','src/input_stream.rs')])
p('C07','Buffered token stream shows exactly the tokens of its channel',
 'Whatever sequence of lookahead, lookbehind, consume, seek, iteration and text operations is applied, the buffered stream presents to the reader the tokens of the selected channel, in source order, each exactly once, followed by end-of-file for ever. Every token of every channel stays available by its index, indices are the positions in the source, and text of an interval is the concatenation of the texts of all its tokens.',
 ['inputs','histories'],'all token sequences over channels and all sequences of operations','Tests read streams front to back with a single off-channel kind.',
 [S+'common_token_stream.rs',S+'token_stream.rs'],[('skipping to the next token of the channel','src/common_token_stream.rs'),('token buffer','src/token_stream.rs')])
p('C08','Unbuffered token stream keeps what marks protect',
 'Under any nesting of marks, releases, lookahead, consume and seek inside the marked region, the unbuffered stream returns the same tokens as the source produced, with positions equal to their place in the source, and a seek to a position still protected by a mark succeeds and shows the same tokens again. Dropping tokens outside every mark never changes what is seen from the current position on, including the last consumed token.',
 ['histories','inputs'],'all token sequences and all operation sequences allowed by the documentation','Only incidental use in tests; window compaction while marks are open is not reached.',
 [S+'token_stream.rs'],[('window of live tokens, mark counter','src/token_stream.rs UnbufferedTokenStream')])
p('C09','Interval sets are sets',
 'An interval set built by any sequence of additions, unions, subtractions and complements contains exactly the elements that the same operations on mathematical sets give. Membership, minimum, length, equality and printed form depend only on the elements, not on the order of construction.',
 ['histories','inputs'],'all sequences of operations on interval sets','Unit tests run a few fixed operations.',
 [S+'interval_set.rs'],[('merge on insertion, difference, complement','src/interval_set.rs')])
p('C10','A serialized grammar is decoded to exactly the automaton it encodes',
 'For every well-formed serialized automaton, of every supported format revision, the decoded states, transitions with their symbols, rules, modes, decisions and actions are exactly those encoded, and the derived return transitions and precedence marks those they imply. Data with an unsupported version or identifier, an unknown kind of grammar, state or transition, or cut short, is refused instead of being half-decoded.',
 ['inputs','programs'],'all serialized automata','Tests decode the automata of about a dozen checked-in grammars and never look at the result.',
 [S+'atn_deserializer.rs',S+'atn.rs',S+'atn_state.rs',S+'transition.rs'],[('section by section decoder','src/atn_deserializer.rs'),('derived transitions','src/atn_deserializer.rs')])
p('C11','Parser accepts exactly the language of the grammar',
 'A parser whose start rule ends in end-of-file parses a token sequence without reporting a syntax error if and only if the sequence is derivable from the grammar, for every grammar without semantic predicates, in the default full-context prediction mode. Parsing terminates on every token sequence.',
 ['inputs','programs'],'all grammars (alternatives, options, loops, recursion, left recursion) and all token sequences','Tests parse a few valid sentences of a few grammars.',
 [S+'parser_atn_simulator.rs',S+'prediction_context.rs',S+'prediction_mode.rs',S+'atn_config_set.rs',S+'parser.rs'],[('adaptive prediction with SLL then LL stage','src/parser_atn_simulator.rs'),('merging of call stacks','src/prediction_context.rs')])
p('C12','Ambiguity is resolved to the lowest-numbered viable alternative',
 'When the input is valid, each decision takes the lowest-numbered alternative from which the rest of the input can still be completed, loops continue as long as possible when greedy and leave as soon as possible when not, so the parse tree is the unique one those rules determine. It does not depend on the prediction strategy used internally to get there.',
 ['inputs','programs'],'all predicate-free grammars, ambiguous ones included, and all valid token sequences','No test has an ambiguous grammar together with a check of the chosen tree beyond one example.',
 [S+'parser_atn_simulator.rs',S+'prediction_mode.rs',S+'prediction_context.rs'],[('conflict resolution to the minimum alternative','src/parser_atn_simulator.rs'),('conflict detection','src/prediction_mode.rs')])
p('C13','Operator precedence and associativity follow the grammar',
 'For left-recursive rules, operators listed earlier bind tighter, binary operators associate to the left unless marked right-associative, prefix, suffix and ternary operators nest accordingly, and nested invocations start afresh with their own precedence. This holds for any mix and depth of operators, and each left operand becomes a child of the operator applied to it.',
 ['inputs','programs'],'all operator grammars and all expressions','Tests parse two or three expressions.',
 [S+'parser.rs',S+'parser_atn_simulator.rs',S+'semantic_context.rs',S+'parser_rule_context.rs'],[('precedence stack and recursion contexts','src/parser.rs'),('precedence filter of configurations','src/parser_atn_simulator.rs')])
p('C14','Cached parser decisions never change the result of a parse',
 'The tree, errors and alternatives chosen for an input depend only on the grammar, the prediction mode and that input, not on inputs parsed earlier or by other parsers sharing the same decision cache. This includes predicates and precedence levels, whose outcome is evaluated anew whenever a cached decision depends on it.',
 ['histories','inputs'],'all sequences of inputs parsed through one shared cache','Each test parses one input per process or compares nothing across parses.',
 [S+'parser_atn_simulator.rs',S+'dfa.rs',S+'dfa_state.rs',S+'atn_config_set.rs',S+'prediction_context.rs'],[('DFA per decision, precedence start states','src/dfa.rs'),('full-context results kept out of the DFA','src/parser_atn_simulator.rs')])
p('C15','Prediction modes agree wherever the cheaper one succeeds',
 'If the context-insensitive prediction mode parses an input without error, the full-context modes parse it without error to the same tree; and the exact-ambiguity mode accepts exactly the inputs the default full-context mode accepts, with the same trees and the same alternative at every decision. On valid input the mode only changes speed, diagnostics and, for the context-insensitive mode, the inputs rejected.',
 ['inputs','programs','configurations'],'all grammars, inputs and prediction modes','No test sets a prediction mode.',
 [S+'parser_atn_simulator.rs',S+'prediction_mode.rs'],[('mode tests in conflict handling','src/parser_atn_simulator.rs')])
p('C16','Recognizers sharing caches across threads work as if alone',
 'Any number of lexers and parsers of the same grammar, running in different threads on shared decision caches, finish without deadlock or panic and each gives the result it gives when running alone. No interleaving of lookups and insertions leaves a cache that misleads a later parse.',
 ['schedules','histories'],'all interleavings of threads sharing caches','One test spawns a few threads once; schedules are not controlled.',
 [S+'parser_atn_simulator.rs',S+'lexer_atn_simulator.rs',S+'dfa.rs',S+'prediction_context.rs'],[('read-write lock per decision, taken once per prediction and upgraded','src/parser_atn_simulator.rs'),('upgradable lock around edge insertion','src/lexer_atn_simulator.rs')])
p('C17','Expected-token sets are exactly the tokens that can come next',
 'The set of expected tokens reported at any point of a parse contains a token if and only if some continuation of the current rule invocation stack can match it next, with end-of-file in it exactly when all open rules can end. The per-state set used for error recovery is the context-independent counterpart, marking with a special element that the rule can end.',
 ['inputs','programs'],'all parser states and invocation stacks of all grammars','Tests look at one or two error messages.',
 [S+'atn.rs',S+'ll1_analyzer.rs',S+'parser.rs'],[('LL(1) analysis with context','src/ll1_analyzer.rs'),('walking the invocation stack','src/atn.rs')])
p('C18','Error recovery always ends and loses no token',
 'With the default error strategy, parsing any token sequence terminates, returns a tree, and every token up to where the start rule stops occurs exactly once and in order, as an ordinary leaf, an error leaf, or skipped during recovery with at least one syntax error reported. A tree built without any reported error contains no error leaf, and recovery never lets the parser stay at the same token in the same place for ever.',
 ['inputs','programs'],'all grammars and all token sequences, valid or not','A few malformed sentences are tried.',
 [S+'error_strategy.rs',S+'parser.rs',S+'parser_rule_context.rs'],[('recovery sets, forced consumption','src/error_strategy.rs'),('consume attaches leaves','src/parser.rs')])
p('C19','Syntax errors are reported and repaired as documented',
 'At each error the default strategy first tries deleting one extra token, then inserting one missing token, else resynchronises to a token that can follow an open rule, and it reports one error per incident with the position of the offending token and the right category and expected set. Further errors are suppressed until a token has been matched successfully.',
 ['inputs','programs','fault_sequences'],'all grammars and malformed inputs, including several errors in one input','Tests compare at most a couple of messages.',
 [S+'error_strategy.rs',S+'errors.rs',S+'parser.rs',S+'error_listener.rs'],[('single-token deletion and insertion, sync, follow sets','src/error_strategy.rs'),('error recovery mode flag','src/error_strategy.rs')])
p('C20','Bail-out strategy stops at the first error and never repairs',
 'With the bail-out strategy an input is parsed to the same tree as with the default strategy when it is valid, and otherwise parsing stops with a failure at the first token that cannot be matched or predicted, without consuming, inserting or skipping any token afterwards and with at most one error reported.',
 ['inputs','programs','configurations'],'all grammars and inputs','One test uses the bail strategy on one input.',
 [S+'error_strategy.rs',S+'parser.rs'],[('bail error strategy','src/error_strategy.rs')])
p('C21','Parse trees are well formed and cover the input they claim',
 'Each node is the child of exactly its parent, children are in input order, and every rule node spans from its first to its last token, consistent with the spans of its children; text of a node is the concatenation of its leaves. Left-recursive nodes are re-parented so that these relations hold for every node, and turning tree construction off changes neither acceptance nor errors.',
 ['inputs','programs'],'all grammars and inputs, erroneous ones included','Tests print two or three trees.',
 [S+'parser_rule_context.rs',S+'parser.rs',S+'tree.rs',S+'rule_context.rs'],[('add and remove children, start and stop','src/parser_rule_context.rs'),('recursion contexts','src/parser.rs')])
p('C22','Listeners and walkers see each node once, in nesting order',
 'Walking a finished tree calls enter, leaf and exit exactly once per node, properly nested and in document order. A listener attached during the parse receives an event for each input token that becomes a leaf, in the same order as a walk of the finished tree, and, when the input is valid, balanced enter and exit events; a removed listener receives nothing any more.',
 ['inputs','programs','histories'],'all trees, all parses, all sequences of attaching and removing listeners','Tests use one listener and one small tree.',
 [S+'tree.rs',S+'parser.rs'],[('tree walker','src/tree.rs'),('event triggering','src/parser.rs')])
p('C23','Semantic predicates guard exactly their alternatives',
 'An alternative guarded by predicates is chosen only if their conjunction holds where the decision is made, unguarded alternatives stay available, and among the viable ones the lowest-numbered wins. Combining predicates during prediction never changes the boolean value of the guard, and a predicate that fails while being executed is reported as a failed-predicate error.',
 ['inputs','programs','configurations'],'all grammars with predicates, all truth assignments and inputs','At most one generated parser with a predicate is run.',
 [S+'semantic_context.rs',S+'parser_atn_simulator.rs',S+'atn_config_set.rs'],[('predicate contexts, and/or algebra','src/semantic_context.rs'),('predicate evaluation at conflicts','src/parser_atn_simulator.rs')])
p('C24','Ambiguity and context-sensitivity reports are truthful',
 'In exact-ambiguity mode an ambiguity is reported for a decision exactly when at least two alternatives match the same reported token span and no context tells them apart, and the reported set is exactly those alternatives. A context-sensitivity report appears exactly when full context resolves what the context-insensitive stage could not, and names the alternative then chosen.',
 ['inputs','programs'],'all grammars and inputs','No test examines these reports beyond one example.',
 [S+'parser_atn_simulator.rs',S+'prediction_mode.rs',S+'error_listener.rs'],[('reporting after full-context prediction','src/parser_atn_simulator.rs')])
p('C25','Input representation and token factory do not change the tokens',
 'Lexing the same symbols gives the same token types, channels, lines, columns, texts and errors whichever supported input representation holds them and whichever token factory creates the tokens; token offsets are the positions of that representation. Tokens that own their text and tokens that borrow it show the same text.',
 ['inputs','configurations'],'all inputs, representations and factories','Tests use the default factory with text input, and one byte input.',
 [S+'token_factory.rs',S+'token.rs',S+'input_stream.rs',S+'char_stream.rs'],[('token creation','src/token_factory.rs'),('underlying data access','src/char_stream.rs')])
p('C26','Tree queries and printed trees agree with the tree',
 'For every node of every finished tree, asking for tokens of a type or for children of a kind gives exactly its direct children that match, in order and by position, and nothing beyond the last. The printed tree is the nested list of rule names and token texts with whitespace characters escaped, and the invocation stack lists the open rules innermost first.',
 ['inputs','programs'],'all trees, erroneous and left-recursive ones included, and all token types and node kinds','Tests print two or three trees and query two nodes.',
 [S+'parser_rule_context.rs',S+'tree.rs',S+'trees.rs',S+'utils.rs',S+'rule_context.rs',S+'parser.rs'],[('typed child and token queries','src/parser_rule_context.rs'),('string tree','src/trees.rs'),('rule invocation stack','src/parser.rs')])
p('C27','Visitors reach every child once, in order, and combine results as told',
 'The default visit of a node visits each of its children exactly once and in document order, dispatching to the callback of the kind of each child. With results, the results of the children are combined from left to right starting from the default, before each child the visitor is asked whether to go on and the first refusal ends the visit of that node only, and without a combination of its own the last visited child decides.',
 ['inputs','programs'],'all trees and all visitor behaviours','Tests use one visitor on one small tree.',
 [S+'tree.rs'],[('visit_children, should_visit_next_child, aggregate_results','src/tree.rs')])
p('C28','Every error listener hears every report exactly once',
 'Each attached error listener receives every syntax error, ambiguity, full-context and context-sensitivity report made while it is attached exactly once, in the order they are made and with the same content as every other listener, and nothing before it is attached or after it is removed. The diagnostic listener turns each prediction report into one message naming the decision, the rule, the conflicting alternatives and the input text, and in exact-only mode leaves out just the ambiguities not known to be exact.',
 ['inputs','programs','histories'],'all parses, all sequences of attaching and removing error listeners','Tests attach one listener for the whole parse.',
 [S+'error_listener.rs',S+'parser.rs'],[('proxy and diagnostic listeners','src/error_listener.rs'),('listener list','src/parser.rs')])
p('C29','Bounded windows suffice: input streams are used within their contract',
 'A recognizer moves its input back only into the region protected by a mark it holds, releases marks latest first, never consumes end of input, and holds no mark once a token is delivered, a symbol is matched or a decision is made; a decision, successful or not, leaves the input where it was. A decision looks no further than the first symbol at which the alternatives still possible are settled, a lexer no further than the symbol that ends the longest prefix any rule can match, and matching valid input outside decisions looks at the next symbol only. A parse from a stream that keeps only marked tokens therefore equals the parse from one that keeps everything.',
 ['inputs','programs','histories'],'all grammars and inputs, valid or not, cold and warm caches','Tests use streams that keep everything, so a mark never released or a look too far shows nowhere.',
 [S+'int_stream.rs',S+'token_stream.rs',S+'parser_atn_simulator.rs',S+'lexer.rs',S+'lexer_atn_simulator.rs',S+'error_strategy.rs'],[('contract of streams','src/int_stream.rs'),('marks around a prediction','src/parser_atn_simulator.rs'),('marks around a token','src/lexer.rs')])
p('C30','Names and printed forms of tokens and token sets are faithful',
 'A token type is shown by its display name if it has one, else its literal name, else its symbolic name, else its number, end-of-file by a fixed name, whatever tables or single list of names the vocabulary was built from; a token set is printed as those names in ascending order, in braces unless it has one element. A printed token shows its position, span, text with tabs and line breaks escaped, type, channel unless it is the default, line and column, and a copy of a token, owned or not, has the same fields and text as the original and is independent of it. Error messages name the expected tokens this way and quote the offending input with white space escaped.',
 ['inputs','programs'],'vocabularies with any pattern of missing names, any token type including those outside the tables, any token text','Tests print a few tokens of one grammar; which name wins, and what happens at the ends of the tables, depends on which names are missing.',
 [S+'vocabulary.rs',S+'token.rs',S+'interval_set.rs',S+'utils.rs',S+'error_strategy.rs'],[('names','src/vocabulary.rs'),('printed tokens','src/token.rs'),('messages','src/error_strategy.rs')])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
