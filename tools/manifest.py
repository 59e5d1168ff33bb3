"""Writes MANIFEST.json from the table of built checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'TLA+ lexer spec (TLC), trace validation of the real lexer',
 'C02': 'TLA+ lexer spec (TLC), trace validation of the real lexer',
 'C03': 'TLA+ lexer spec (TLC), trace validation of the real lexer',
 'C04': 'TLA+ lexer spec (TLC), trace validation of the real lexer',
 'C05': 'cache-free TLA+ lexer spec (TLC), trace validation of cold and warm sessions',
 'C06': 'TLA+ cursor spec (TLC), trace validation of the real character streams',
 'C07': 'TLA+ token stream spec (TLC), trace validation of the real stream',
 'C08': 'TLA+ token window spec (TLC), trace validation of the real stream',
 'C09': 'TLA+ set spec (TLC), trace validation of the real interval sets',
 'C10': 'TLA+ decoder spec (TLC), validation of the real decoder output',
 'C11': 'TLA+ language definition (TLC), acceptance of recorded real parses',
 'C12': 'TLA+ parser spec with lowest-viable-alternative oracle (TLC), trace validation',
 'C13': 'TLA+ operator-table spec and parser spec (TLC), recorded real trees',
 'C14': 'TLA+ relation over recorded warm/cold runs and cache-free parser spec (TLC)',
 'C15': 'TLA+ relation over recorded runs of the three modes (TLC)',
 'C16': 'TLA+ model of the shared caches (TLC, all interleavings), recorded concurrent runs checked by TLC',
 'C17': 'TLA+ definitions of expected tokens (TLC), answers recorded from the real parser',
 'C18': 'TLA+ tree predicates and recovery spec (TLC), recorded real trees',
 'C19': 'TLA+ parser and error-recovery spec (TLC), trace validation',
 'C20': 'TLA+ relation over bail-out and default runs, parser spec (TLC)',
 'C21': 'TLA+ tree predicates and parser spec (TLC), recorded real trees',
 'C22': 'TLA+ listener spec (TLC), recorded listener and walker events',
 'C23': 'TLA+ guard algebra and parser spec with predicates (TLC), trace validation',
 'C24': 'TLA+ prediction spec and language oracle (TLC), trace validation of reports',
 'C25': 'TLA+ lexer spec (TLC), trace validation per representation and factory',
 'C26': 'TLA+ view of trees (TLC), answers and printed trees recorded from the real tree',
 'C27': 'TLA+ visit definition (TLC), visits recorded from the real visitors',
 'C28': 'TLA+ listener machine (TLC), logs recorded from several real listeners',
 'C30': 'TLA+ naming functions (TLC), replayed tables and tokens; messages of real parses against ParserRun.tla',
 'C29': 'TLA+ stream contract machine and lookahead bounds (TLC), recorded stream calls of real recognizers',
}
NOTE = {}
LEX = 'Every recorded session of the real lexer, over generated grammars and inputs, is checked by TLC to be a behaviour of spec/Lexer.tla, and the spec itself is checked for its invariants in every state visited; bounded by the grammars and inputs generated (small words exhaustively, longer ones at random). Trusts TLC, the ATN builder bin/atn.py and the recording harness.'
for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C25'):
    NOTE[k] = LEX
STR = 'Every recorded operation sequence on the real object is checked by TLC, result by result, against the state machine in spec/, which is also explored exhaustively on its own at small bounds; bounded by the operation sequences generated (short ones exhaustively, longer ones at random). Trusts TLC and the recording harness.'
for k in ('C06', 'C07', 'C08', 'C09'):
    NOTE[k] = STR
NOTE['C10'] = 'TLC decodes every generated serialized automaton by the format specification spec/AtnFormat.tla and compares with what the real decoder produced; bounded by the automata generated. Trusts TLC and the dumping harness.'
PAR = 'Recorded parses of the real parser (real interpreter, error strategy, streams, contexts; statements of generated grammars executed call for call as generated code does) are checked by TLC against spec/%s; bounded by the grammars (fixed and random) and token sequences generated. Trusts TLC, the ATN and code builder bin/atn.py, and the recording harness.'
for k, m in dict(C11='Gram.tla (the language of the grammar statements)', C12='ParserRun.tla with decisions resolved by the language of the remaining statements',
                 C13='LrTree.tla (operator table) and ParserRun.tla', C14='ParserRel.tla (cold and warm runs alike) and the cache-free AllStar.tla',
                 C15='ParserRel.tla (modes)', C17='ExpTok.tla and ParserRun.tla', C18='TreeOk.tla and ParserRun.tla', C19='ParserRun.tla',
                 C20='ParserRel.tla (bail-out) and ParserRun.tla', C21='TreeOk.tla, ParserRel.tla and ParserRun.tla', C22='ListenOk.tla and ParserRun.tla',
                 C23='GuardAlg.tla and AllStar.tla', C24='AllStar.tla and the language of the grammar statements', C26='TreeView.tla and ParserRun.tla',
                 C27='TreeView.tla', C28='ErrListen.tla', C29='StreamUse.tla (stream contract), LexAhead.tla and AllStar.tla (lookahead)').items():
    NOTE[k] = PAR % m
NOTE['C30'] = 'Names and printed forms of real vocabularies, sets and tokens are compared by TLC with the functions of spec/Names.tla, for every pattern of missing names at small sizes and random larger tables; the texts of error messages of real parses are those of spec/ParserRun.tla. Trusts TLC and the recording harness.'
NOTE['C16'] = 'TLC explores every interleaving of 2 and 3 (thorough: 4) threads over the lock protocol and the cache automaton (spec/DfaCache.tla), safety and termination; real threads run on shared caches with yields and sleeps injected at allocations, and TLC checks every recorded result against the same work done alone and the caches left behind against ones filled in sequence. Schedules of the real code are sampled, not enumerated. Trusts TLC, the OS scheduler and the recording driver.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 bin/check.py --build', checks=[], not_applicable=[],
         notes='Language: TLA+ checked with TLC. No hooks in /repo are needed: the harness crate uses the public API only.')
for p in props:
    i = p['id']
    if i in TECH:
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3 bin/check.py ' + i, evidence_file='evidence/%s.json' % i,
                                technique=TECH[i], level='model_checking', level_note=NOTE[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason='specification and binding for this property are not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
