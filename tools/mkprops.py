import json
def P(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a)
EX="src/parser/expression/mod.rs"; AT="src/parser/atom/mod.rs"; PA="src/parser/mod.rs"; LB="src/lib.rs"; PG="src/peg/mod.rs"; RU="src/peg/rules.rs"; P2="src/peg/peg2code.rs"; GC="src/peg/gcode.rs"; AS="src/ast/mod.rs"; FL="src/ast/flat.rs"
L=[
P("C01","Recognition follows ordered-choice PEG semantics",
  "For every grammar that terminates and every text, parsing succeeds exactly when the start rule 'main' matches the whole text under PEG semantics: ordered committed choice, greedy repetition without giving back, predicates that consume nothing, sequences left to right, references by name. No other text is accepted and none of these is refused.",
  ["programs","inputs"],"every grammar (expressions and rules) and every text",
  "The tests parse a few dozen fixed grammar/text pairs; whether each combination of operators backtracks correctly for each text is a statement over all pairs.",
  [EX,AT,LB],[("sequence, choice, predicate, repetition and rule reference",EX+" parse_expr and below"),("position restored by working on copies of the status",EX+", "+PA)],["dynparser::parse"]),
P("C02","Repetitions take as many turns as allowed, whole turns only",
  "A repetition with a minimum and an optional maximum matches as many consecutive turns as the text offers, never more than the maximum; it succeeds if and only if at least the minimum was reached; a turn that fails half way leaves no trace. This holds for every pair of bounds, including zero and very large ones, and unbounded repetition of something that consumes nothing ends.",
  ["programs","inputs"],"every minimum <= maximum over the whole integer range, every number of available turns, every body",
  "Tests try a handful of bounds (0, 1, 2, 3) on short texts; off-by-one at other bounds, maximum 0, bounds near the integer limits and empty turns are not sampled.",
  [EX,LB],[("loop with counters and limits",EX+" parse_repeat"),("rep! macro",LB)],["dynparser::parse"]),
P("C03","Atoms match exactly the characters they denote",
  "A literal matches exactly its own text, a character class exactly one character that is listed or inside one of its inclusive ranges, the dot exactly one character, and end-of-input exactly where nothing is left and yields an end-of-input node. Characters are Unicode scalar values and what an atom matched is what appears in the tree.",
  ["inputs","programs"],"every literal, every list of characters and ranges, every Unicode text",
  "Tests use ASCII examples; range ends, reversed ranges, multi-byte characters and long literals with a late difference need all characters.",
  [AT,PA],[("literal / class / dot / eof matching",AT+" parse"),("advancing the status by characters",PA+" Status")],["dynparser::parse"]),
P("C04","Success means the whole text was consumed",
  "Parsing succeeds only if the start rule consumed the text to its last character, and if it did consume it all the parse is not refused. Length is counted in characters, so this holds for texts with multi-byte characters as well.",
  ["inputs","programs"],"every grammar and every text, any Unicode characters",
  "The comparison of consumed against total length is only tested on ASCII text; agreement for all texts is not testable by examples.",
  [EX,PA],[("end check after the start rule",EX+" parse"),("character counting position",PA+" Possition")],["dynparser::parse"]),
P("C05","The tree is the derivation and its texts spell the input",
  "The tree of a successful parse is the PEG derivation: one node per rule entered successfully on the accepted way, nested and ordered as they matched, with one text node per atom match and nothing from abandoned alternatives, predicates or failed turns. Concatenating its texts gives the input.",
  ["programs","inputs"],"every grammar and accepted text",
  "Tests compare trees for a few examples; leftovers of backtracking appear only for particular combinations.",
  [EX,AT,AS],[("collecting nodes along sequences and repetitions",EX),("rule node around the nodes of its expression",EX+" parse_rule_name")],["dynparser::parse -> ast::Node"]),
P("C06","Error positions and context lines are consistent with the text",
  "The reported offset of a refused parse lies within the text and counts characters; row, column and start of line are those of that offset, and the two context lines are exactly the parts of the offset's line before and after it. This holds for every text, line ending and multi-byte character.",
  ["inputs","programs"],"every refused text and grammar, every mixture of line ends and multi-byte characters",
  "Tests look at positions in a few single-line ASCII texts.",
  [PA,AT,EX],[("position bookkeeping",AT+" / "+PA),("context lines of an error",PA+" Error")],["parser::Error: pos, line_before, line_after"]),
P("C07","An explicit error stops the parse with its own message",
  "When matching reaches an error expression or a reference to an undefined rule (outside a negative predicate), the parse fails at once with that message, at that position and marked critical, whatever alternatives, options or repetitions surround it. Where neither is reached nothing critical is reported.",
  ["programs","inputs"],"every placement of an error in every grammar, every text",
  "Tests place one error in two or three contexts; each enclosing operator can swallow it.",
  [EX,PA,AT],[("critical priority propagated through choice and repetition",EX),("error atom",AT)],["parser::Error: priority, descr, pos"]),
P("C08","An ordinary failure is reported where the parse got furthest",
  "When no alternative of a choice matches, the error is the one of the alternative that got furthest into the text, and when the start rule stops before the end of the text, the error tells what stopped its last repetition. The position is therefore never that of an alternative which got less far.",
  ["programs","inputs"],"every grammar without explicit errors, every refused text",
  "Tests check one or two error columns.",
  [EX,PA],[("deepest error among alternatives",EX+" parse_or"),("potential error kept by repetitions",EX+" parse / parse_repeat")],["parser::Error: pos"]),
P("C09","Parsing never panics and ends",
  "For every rule set without left recursion, including missing start rules, undefined references, empty groups, contradictory bounds and bodies that consume nothing, and for every text, parsing returns a tree or an error. It neither panics, overflows nor loops.",
  ["programs","inputs"],"every rule set without left recursion and every Unicode text",
  "Panics hide in slicing at multi-byte characters, counters and empty loops that examples do not hit.",
  [EX,AT,PA,LB],[("Result based failure everywhere; slices at character boundaries",PA+", "+AT),("stop when a turn consumes nothing",EX)],["dynparser::parse"]),
P("C10","Parsing is repeatable; debug tracing changes nothing but the trace",
  "Parsing the same text with the same rules gives the same tree or the same error every time, also with other parses in between. Parsing with tracing gives the same outcome, and on failure additionally lists the rules entered on the way to the error; without tracing that list is empty.",
  ["programs","inputs","histories"],"every grammar, text and interleaving of calls on a shared rule set",
  "Tests call the tracing variant once; equality of both variants is over all inputs.",
  [LB,EX,PA],[("trace kept in the status",PA+" Status"),("parse_debug",LB+", "+EX)],["dynparser::parse, dynparser::parse_debug"]),
P("C11","Rule sets built by macros, add and merge mean what was put in",
  "After any sequence of additions and merges a rule set holds exactly the rules given: the last addition of a name counts, and on merging the receiving set keeps its own rule for a shared name. Every construction macro builds the expression it names, so the way a set was put together does not change what it parses.",
  ["histories","programs","inputs"],"every sequence of add and merge with any overlap of names; every macro form; every text",
  "Tests build sets once from distinct names; collisions in both directions and replaced rules are histories.",
  [EX,LB],[("SetOfRules add / merge",EX),("rules!, lit!, ematch!, rep!, .. macros",LB)],["SetOfRules::add, merge, new; macros; dynparser::parse"]),
P("C12","PEG text yields exactly the rules it describes",
  "Reading a well-formed PEG text gives one rule per definition, under its name, whose expression has the structure the text shows: '/' binds weaker than sequence, sequence weaker than the prefix '!' and the postfix '*', '+', '?', parentheses group, and the next definition starts a new rule. Parsing with the result is parsing with that grammar; a repeated name keeps the last definition.",
  ["programs","inputs"],"every well-formed PEG text",
  "Tests read a dozen texts; precedence and rule boundaries interact in all combinations.",
  [PG,RU,P2],[("rules to parse PEG",RU),("from the tree to expressions",PG+" rules_from_flat.. and helpers")],["dynparser::rules_from_peg"]),
P("C13","Literals in PEG text denote their exact characters",
  "A single-quoted literal denotes the characters between the quotes unchanged; a double-quoted one does so except that \\n, \\r, \\t, \\\\, \\\" and \\0xHH denote the characters they name. This holds for every content, including empty literals, backslashes and multi-byte characters.",
  ["inputs"],"every literal text",
  "Tests use a few escapes; combinations such as a backslash before the closing quote or of two hex escapes in a row are not sampled.",
  [PG,RU,P2],[("lit_noesc / lit_esc rules",RU),("escape replacement",PG)],["dynparser::rules_from_peg"]),
P("C14","Character classes in PEG text denote their exact sets",
  "A class in PEG text matches exactly one character that is one of the characters listed before the ranges or lies within one of its ranges. This holds for any characters, including multi-byte ones and reversed ranges.",
  ["inputs"],"every list of characters and ranges, every character tried",
  "Tests use a-z like classes only.",
  [PG,RU,AT],[("mchars / mbetween",RU+", "+PG),("MatchRules",AT)],["dynparser::rules_from_peg, dynparser::parse"]),
P("C15","Layout and comments do not change what a PEG text means",
  "Blanks, line ends of every kind, line comments and block comments may stand between the tokens of a PEG text, and between rules, without changing the rules read. The content of a comment never matters.",
  ["inputs"],"every place between tokens, every layout, every comment content",
  "Tests have comments in two or three places.",
  [RU,P2],[("_ / _1 / _eol / comment rules",RU)],["dynparser::rules_from_peg"]),
P("C16","Reading any text as PEG never panics",
  "For every text, well formed or not, reading it as PEG returns either a non-empty rule set or an error that can be shown and, where it comes from parsing, points inside the text. Everything the syntax accepts is turned into rules.",
  ["inputs"],"every text",
  "Tests feed a few malformed texts.",
  [PG,RU],[("error chain instead of panics",PG),("explicit errors in the grammar",RU)],["dynparser::rules_from_peg"]),
P("C17","The published grammar of grammars describes the reader",
  "The PEG text published as the grammar of PEG texts is itself accepted, and parsing any text with the rules read from it succeeds exactly when reading that text as PEG succeeds. The built-in rules and their published source thus never drift apart.",
  ["inputs"],"every text",
  "One test compares nothing but that the text is readable; agreement on all texts is never checked.",
  [P2,RU,PG],[("text_peg2code",P2),("generated rules pasted into",RU)],["peg::peg2code text, dynparser::rules_from_peg, dynparser::parse"]),
P("C18","Generated source code rebuilds the same rules",
  "The source generated from a rule set is valid for the construction macros and evaluates to the same rules: same names, same structure, same characters, same bounds. This holds for any characters in names, literals, classes and messages.",
  ["programs","inputs"],"every rule set",
  "Tests print code for one grammar; quoting of unusual characters and bounds is not sampled.",
  [GC,LB],[("expr2code and helpers",GC),("macros that read it",LB)],["peg::gcode::rust_from_rules"]),
P("C19","Compacting joins neighbouring texts and changes nothing else",
  "Compacting a tree joins each maximal run of neighbouring text nodes into one, at every level, and leaves names, order, nesting and end-of-input nodes as they are; the concatenated text is unchanged. Compacting again changes nothing and the original tree is untouched.",
  ["inputs"],"every tree",
  "Tests compact two or three trees.",
  [AS],[("compact",AS)],["ast::Node::compact"]),
P("C20","Pruning removes exactly the named rules",
  "Pruning removes every node whose rule name is listed, with all below it, at every level under the root, and nothing else; the order of the rest is kept. Pruning again changes nothing and the original tree is untouched.",
  ["inputs"],"every tree and list of names",
  "Tests prune two trees.",
  [AS],[("prune",AS)],["ast::Node::prune"]),
P("C21","Passing through keeps exactly the listed rules and all texts",
  "Passing through all but the listed rules replaces every other rule node below the root by what remains of its children, in place, at every level; texts and end-of-input nodes stay in order. Doing it again changes nothing and the original tree is untouched.",
  ["inputs"],"every tree and list of names",
  "Tests use two trees; order among lifted and kept nodes at several levels is not sampled.",
  [AS],[("pass_through_except",AS)],["ast::Node::pass_through_except"]),
P("C22","Flattening is the tree in order, and can be undone",
  "The flattened form lists, in order, the beginning and end of each rule node around its content and each text once. Walking it with the consuming functions gives the tree back (end-of-input nodes aside).",
  ["inputs"],"every tree",
  "Tests flatten one or two trees.",
  [AS,FL],[("flatten",AS),("flat nodes and consume functions",FL)],["ast::Node::flatten, ast::flat::*"]),
P("C23","Tree navigation functions return the right part or an error",
  "Each peeking, splitting and consuming function succeeds exactly when the first node is of the kind, name or text asked for, and then returns that node's content and precisely the remaining nodes. On anything else, including empty lists, it returns an error and never panics.",
  ["inputs"],"every list of nodes, every wanted name or text",
  "Tests call them on matching nodes only.",
  [AS,FL],[("consume_*, split_*, peek_*, get_*",AS+", "+FL)],["ast::*, ast::flat::*"]),
P("C24","An error names what was expected",
  "When a parse is refused because a literal or a character class did not match where the parse got furthest, the description of the error contains that literal's text or that class's characters and ranges; when an undefined rule was referred to, it contains the rule's name; when an explicit error was reached it is exactly its message. It is never empty otherwise.",
  ["programs","inputs"],"every grammar and refused text",
  "Tests compare two or three descriptions; which alternative's description survives depends on the combination of operators and on how far each one got.",
  [AT,EX,PA],[("descriptions built where an atom fails",AT),("choosing among the errors of alternatives",EX+" parse_or"),("undefined rule",EX+" parse_rule_name")],["parser::Error: descr"]),
P("C25","The reader accepts exactly the documented PEG syntax",
  "For every text, reading it as PEG succeeds exactly when the text follows the documented syntax (definitions, modules, sequences, '/', '!', '*', '+', '?', parentheses, literals, classes, '.', names, error(..), layout), and then the rules are those the syntax describes; every other text is refused. If an opened parenthesis is not closed, that is what is reported: a critical error whose description contains \"')'\", at the place where it could have been closed.",
  ["inputs"],"every text, well formed or not",
  "Tests read correct texts and a few wrong ones; texts one character away from a correct one, texts cut short and unusual orders of tokens are far more than can be listed.",
  [RU,PG,P2],[("rules to parse PEG, with the error for an unclosed parenthesis",RU),("from the tree to expressions",PG)],["dynparser::rules_from_peg"]),
]
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in L))
note="Bounded: holds for every value of the symbolic grammar, text or tree within the bounds in the evidence file (shapes by exhaustive forking, characters, names and bounds as solver variables). Trusts rustc's lowering to LLVM IR, the executor in engine/ and Z3; sampled paths are re-run natively with the solver's inputs and compared by digest, and every counterexample is replayed on the real crate before it is reported."
M={"version":1,"setup_cmd":"python3 check.py --setup","hooks":{"guard":"none","enable":"no hook in /repo is needed: harness crates use the public API only","source_commits":[]},
"checks":[{"property":x["id"],"quick_cmd":"python3 check.py %s quick"%x["id"],"thorough_cmd":"python3 check.py %s thorough"%x["id"],"evidence_file":"evidence/%s.json"%x["id"],
 "technique":"symbolic execution of the compiled crate's LLVM IR, assertions decided by Z3","level":"model_checking","level_note":note} for x in L],
"not_applicable":[],"notes":"See DESIGN.md; bounds per harness in props.py and in the evidence. known_findings.txt lists repaired defects."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
