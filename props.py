"""What each check runs.  A parameter list gives p0, p1, .. of the harness; `reach` are the marks that
must have been passed (else the run is vacuous); `bounds` states what the symbolic inputs range over."""

CFG_GUARD = ""  # no hook in /repo is needed


def e(h, bounds, quick=(), thorough=None, reach=(1,), **kw):
    return dict(h=h, bounds=bounds, quick=list(quick), thorough=list(quick if thorough is None else thorough), reach=list(reach), **kw)


AZ = "characters of grammar and text each any of a..z"
ASCII = "characters of grammar and text each any of U+0000..U+007F"
UNI = "each character any Unicode scalar value"
TREE = "every grammar expression of at most p0 nodes over %s, with the operators sequence, choice, !, *, +, ?, {1,2}; a second rule with two symbolic characters; texts of 0..p1 characters; "
PLAIN = "1- and 2-character literals, the empty literal, ranges, '.', references"
WIDE = ("16 families of large grammars (sequences, literals, choices, rule chains, nesting, runs, recursion up to 65 members / 70 levels / 300 characters) with symbolic "
        "characters at the deciding places; ")
GROUPS = "every main expression of at most p0 nodes over 1-character literals, '.', the empty sequence and the empty choice, with sequence, choice, groups of one member, !, *, ?; texts of 0..p1 characters; "
NAMES = "two rules referred to from main, their names any two of 24 (empty, blank, dots, one the beginning of another, differing in case or in a blank, composed and decomposed, NUL), one of them possibly undefined; texts of 0..3 characters; "
BIGT = ("12 families of much larger grammars and texts (sequences, choices, rule chains, nesting, recursion 65 to 257 deep; literals, runs and texts up to 65537 characters; "
        "p5 = 1: fewer sizes), concrete but for the deciding characters; ")
TABLE = "choices of p0 sequences of p1 members, and sequences of p0 choices of p1, each member one of p2 ('', literal, !., ., !literal, rule, ?, *); texts of 0..2 characters; "
NOLIMIT = 40_000_000_000
BYTES = "literals, classes, messages, undefined names, and lines before and after the error, of up to 1025 (thorough: 4100) characters of one to four bytes after 0..3 of one byte, with symbolic ends"
FOREIGN = "44 pieces of other notations (operators, comments, blanks) put in at, or instead of, any place of texts number p0 to p0+p1-1 of twelve"
ODD = "repetitions (7 bounds) of bodies that may consume nothing (8 kinds), alone, in a sequence and in a choice; texts of 0..3 characters; "

PROPS = {
    "C01": {"entries": [
        e("c01_trees", TREE % PLAIN + AZ, [5, 3], [6, 3], [1, 2, 3]),
        e("c01_trees3", "as c01_trees with three-way sequences and choices over literals, ranges, '.'; " + AZ, [6, 3], [7, 3], [1, 2, 3]),
        e("c01_wide", WIDE + AZ, reach=[1, 2, 3]),
        e("c01_odd", ODD + AZ, reach=[1, 2]),
        e("c01_ascii", TREE % PLAIN + ASCII, [4, 3], [5, 3], [1, 2, 3]),
        e("c01_unicode", TREE % PLAIN + UNI, [3, 1], [3, 2], [1, 2, 3]),
        e("c01_groups", GROUPS + AZ, [5, 2], [6, 2], [1, 2, 3]),
        e("c01_names", NAMES + AZ, reach=[1, 2, 3]),
        e("c01_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2, 3], max_ins=NOLIMIT),
        e("c01_table", TABLE + AZ, [3, 2, 5], [3, 2, 7], [1, 2, 3]),
    ]},
    "C02": {"entries": [
        e("c02_symbolic", "minimum and maximum any 64-bit values with min <= max, or no maximum; 0..p0 matches of six kinds of body, with and without something after them", [6], [9], [1, 2]),
        e("c02_long", "runs of 0..257 characters (20 lengths around powers of two); one bound any 64-bit value", [20], reach=[1, 2]),
        e("c02_greedy", "0..6 repetitions with symbolic bounds (min 0..4, max 0..6) followed by a character that may equal the repeated one", reach=[1, 2]),
        e("c02_partial", "bodies of two to three characters, texts of 0..p0 symbolic characters, min 0..2, max none/3/min", [5], [7], [1, 2]),
        e("c02_empty", "unbounded repetitions (min 0..2) of five kinds of body that can match nothing; texts of 0..3 symbolic characters"),
        e("c02_huge", "runs of up to 65537 characters (p0 of eight lengths), bounds at most two from the length", [8], reach=[1, 2], max_ins=NOLIMIT),
    ]},
    "C03": {"entries": [
        e("c03_literal", "literals of 0..p0 and texts of 0..p0 characters, " + UNI, [2], [3], [1, 2]),
        e("c03_literal_long", "literals of 3..80 characters (14 lengths) against texts differing in any one place, one longer or one shorter", reach=[1, 2]),
        e("c03_class", "classes of 0..p0 characters and 0..p1 ranges (also reversed ones) against 0..1 characters, " + UNI, [2, 1], [2, 2], [1, 2]),
        e("c03_class_wide", "classes of up to 40 characters (the last any Unicode) and 20 ranges, printable ASCII, against one character, any Unicode", reach=[1, 2]),
        e("c03_dot_eof", "'.' and end of input at every place of texts of 0..p0 characters, " + UNI, [3], [4], [1, 3, 4]),
    ]},
    "C04": {"entries": [
        e("c04_unicode", "six grammars over 0..2 characters, texts with 0..2 more characters, " + UNI, reach=[1, 2]),
        e("c04_trees", TREE % (PLAIN + ", end of input") + "each accepted text also with one more symbolic character; " + AZ, [4, 3], [5, 3], [1, 2, 3]),
        e("c04_wide", WIDE + "each accepted text also with one more symbolic character; " + AZ, reach=[1, 2, 3]),
        e("c04_groups", GROUPS + AZ, [5, 2], [6, 2], [1, 2, 3]),
        e("c04_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2, 3], max_ins=NOLIMIT),
        e("c04_table", TABLE + AZ, [3, 2, 4], [3, 2, 6], [1, 2, 3]),
    ]},
    "C05": {"entries": [
        e("c05_trees", TREE % (PLAIN + ", end of input") + AZ, [5, 3], [6, 3]),
        e("c05_rules", "every main expression of at most p0 nodes over references to three further rules (nested, optional and empty ones); texts of 0..p1 characters; " + AZ, [5, 3], [6, 3]),
        e("c05_wide", WIDE + AZ),
        e("c05_odd", ODD + AZ),
        e("c05_ascii", TREE % PLAIN + ASCII, [3, 3], [4, 3]),
        e("c05_unicode", TREE % PLAIN + UNI, [3, 1], [3, 2]),
        e("c05_groups", GROUPS + AZ, [5, 2], [6, 2]),
        e("c05_names", NAMES + AZ),
        e("c05_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1], max_ins=NOLIMIT),
        e("c05_table", TABLE + AZ, [3, 2, 4], [3, 2, 7], [1]),
    ]},
    "C06": {"entries": [
        e("c06_trees", TREE % (PLAIN + ", end of input, error, undefined rules") + "characters any of tab..'~' (line ends included)", [4, 3], [4, 4], [1, 2]),
        e("c06_unicode", "texts of 0..p0 characters refused at any place in five ways; " + UNI, [3], [4], [1, 2]),
        e("c06_long", "texts of 0..300 rows and a last line of 0..300 columns with multi-byte characters (9 x 9 sizes), refused around three symbolic characters", reach=[1, 2]),
        e("c06_bytes", BYTES, [5], [7], [1, 2]),
        e("c06_wide", WIDE + "characters any of tab..'~'", reach=[1, 2]),
        e("c06_groups", GROUPS + "characters any of tab..'~'", [4, 2], [5, 2]),
        e("c06_huge", "texts of up to 65537 rows or columns (p0 of four sizes), refused around three symbolic characters", [2], [4], [1, 2], max_ins=NOLIMIT),
        e("c06_big", BIGT + "characters any of tab..'~'", [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2], max_ins=NOLIMIT),
    ]},
    "C07": {"entries": [
        e("c07_trees", TREE % "1-character literals, '.', error, an undefined rule" + AZ, [5, 2], [5, 3], [1, 2, 3]),
        e("c07_nested", "an error or undefined rule after any expression of at most p0 nodes, wrapped in 1..p2 of seven contexts; its text empty, any Unicode or up to 130 characters; texts of 0..p1 characters; " + AZ, [1, 2, 2], [2, 2, 2], [1, 2, 3]),
        e("c07_wide", "errors as the last of up to 65 alternatives, in a late turn of a repetition, below up to 65 wrappers; " + AZ, reach=[1, 3]),
        e("c07_ascii", TREE % "1-character literals, '.', error, an undefined rule" + ASCII, [3, 2], [4, 2], [1, 2, 3]),
        e("c07_groups", GROUPS + AZ, [4, 2], [5, 2], [3]),
        e("c07_names", NAMES + AZ, reach=[2, 3]),
        e("c07_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 3], max_ins=NOLIMIT),
    ]},
    "C08": {"entries": [
        e("c08_trees", TREE % PLAIN + AZ, [5, 3], [5, 4], [1, 2, 3]),
        e("c08_choices", "as c08_trees with three-way groups over literals and '.'; " + AZ, [5, 3], [6, 3], [1, 2, 3]),
        e("c08_told_trees", TREE % "1-character literals, references" + "the description names what stopped the last repetition; " + AZ, [5, 3], [6, 3], [1, 2, 3]),
        e("c08_lits", "choices of 2..4 literals (or character sequences) that agree with the text up to any point; texts of 0..5 characters; " + AZ),
        e("c08_wide", WIDE + AZ, reach=[1]),
        e("c08_ascii", TREE % PLAIN + ASCII, [4, 2], [4, 3], [1, 2, 3]),
        e("c08_unicode", TREE % PLAIN + UNI, [3, 1], [3, 2], [1, 2, 3]),
        e("c08_groups", GROUPS + AZ, [4, 2], [5, 2], [1, 2, 3]),
        e("c08_lines", "as c08_trees, with line ends among the characters; U+0000..U+007F", [4, 3], [5, 3], [1, 2, 3]),
        e("c08_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2, 3], max_ins=NOLIMIT),
        e("c08_table", TABLE + AZ, [3, 2, 5], [3, 2, 7], [1, 3]),
    ]},
    "C09": {"entries": [
        e("c09_trees", TREE % "literals, ranges, '.', error, end of input, references, undefined rules" + "also {0,0}; characters any of tab..'~'", [4, 3], [5, 3], [1, 2]),
        e("c09_unicode", "six grammars with up to three symbolic characters, texts of 0..p0 characters; " + UNI, [2], [3], [1, 2]),
        e("c09_bounds", "any 64-bit minimum and maximum, also contradictory; texts of 0..4 characters", reach=[1, 2]),
        e("c09_empty", "no rules, no main, an undefined start", reach=[2]),
        e("c09_wide", WIDE + AZ, reach=[1, 2]),
        e("c09_odd", ODD + "characters any of U+0000..U+02FF", reach=[1, 2]),
        e("c09_groups", GROUPS + AZ, [4, 2], [5, 2], [1, 2]),
        e("c09_names", NAMES + AZ, reach=[1, 2]),
        e("c09_bytes", BYTES, [5], [7], [1, 2]),
        e("c09_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2], max_ins=NOLIMIT),
    ]},
    "C10": {"entries": [
        e("c10_trees", TREE % (PLAIN + ", error, undefined rules, end of input") + AZ, [4, 3], [5, 3], [1, 2]),
        e("c10_rules", "every main expression of at most p0 nodes over references to three further rules; texts of 0..p1 characters; " + AZ, [4, 2], [5, 3], [1, 2]),
        e("c10_interleaved", "two texts of 0..2 characters parsed in turns with one rule set of at most p0 nodes; " + AZ, [3], [4]),
        e("c10_wide", WIDE + AZ, reach=[1, 2]),
        e("c10_ascii", TREE % PLAIN + ASCII, [3, 2], [4, 2], [1, 2]),
        e("c10_groups", GROUPS + AZ, [4, 2], [5, 2], [1, 2]),
        e("c10_names", NAMES + AZ, reach=[1, 2]),
        e("c10_many", "one to eight rules with similar names (seven families), one of them undefined, four main expressions; the set built anew, and in the opposite order; texts of 0..2 characters; " + AZ, reach=[1, 2]),
        e("c10_walk", "a sequence of 1..65537 references (p0 of eight sizes) and one more; the last two characters of the text and of the grammar symbolic: the trace has every rule entered", [7], [8], [1, 2], max_ins=NOLIMIT),
        e("c10_sets", "the same text parsed with one rule set, another one, and the first again", [4, 3], [4, 3], [1, 2]),
        e("c10_texts", "two texts parsed in turns with the same rule set", [4, 3], [5, 3], [1, 2]),
        e("c10_after", "grammars of at most p0 nodes and texts of 0..p1 characters after p2 other parses (seven kinds: many refused rules, refused, accepted and traced parses, many rule sets, PEG texts read, deep recursion) in the same process; " + AZ, [2, 2, 3000], [3, 2, 20000], [1, 2], max_ins=NOLIMIT),
        e("c10_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1, 2], max_ins=NOLIMIT),
    ]},
    "C11": {"entries": [
        e("c11_history", "0..2 initial rules, then every sequence of up to p0 steps: add a rule, or merge a set of 1..p1 rules; four rule names, each rule a literal with its own symbolic character", [3, 2], [3, 2]),
        e("c11_history2", "as c11_history, with larger sets merged", [2, 3], [2, 3], run="c11_history"),
        e("c11_history4", "as c11_history, with more steps", [4, 1], [4, 1], run="c11_history", thorough_only=True),
        e("c11_parse", "sets of three rules built in four ways (macro, add, merge, replacing); main any expression of at most p0 nodes; texts of 0..p1 characters; " + AZ, [4, 3], [5, 3], [1, 2]),
        e("c11_many", "0..300 rules (17 sizes) split at 9 places over two sets and merged in either direction"),
        e("c11_shared", "two sets of 0..300 rules each (10 x 10 sizes) that share none, one, half or all names, merged in either direction; characters symbolic at the ends and in the middle"),
        e("c11_macros", "16 uses of the macros with symbolic characters and bounds (min 0..2, max up to min+2); texts of 0..p0 characters", [3], [4], [1, 2]),
        e("c11_names", "two rules with names any two of 24 unusual ones, put in in four ways; " + AZ, reach=[1, 2]),
    ]},
    "C12": {"entries": [
        e("c12_trees", "every rule body of at most p0 nodes over 1-character literals and references with symbolic texts; sequence, choice, !, *, +, ?", [5], [6]),
        e("c12_trees3", "as c12_trees with three-way groups", [6], [7]),
        e("c12_leaves", "every rule body of at most p0 nodes over literals, the empty literal, classes, '.', references, error(..)", [3], [4]),
        e("c12_pairs", "two rules of at most p0 and p1 nodes, six pairs of names, optionally a third rule", [2, 1], [3, 2]),
        e("c12_wide", "seven families of up to 17 members / levels / rules (p0 sizes)", [4], [9]),
        e("c12_big", "the same seven families with 33 to 257 members or rules, up to 40 levels; literals up to 1028 characters; three symbolic places", [2], [4], max_ins=NOLIMIT),
        e("c12_modules", "modules, nested and repeated, and repeated rules"),
        e("c12_nested", "two definitions and a reference in up to three nested modules, the defined names any of nine (leading dots, several parts, the module's own), the one used any of p0 of them", [2], [9]),
        e("c12_parse", "the rules read from the text parse as the grammar says: bodies of at most p0 nodes, texts of 0..p1 characters", [3, 2], [4, 3], [1, 2]),
        e("c12_after", "as c12_trees, after p1 other parses as in c10_after", [2, 3000], [3, 20000], max_ins=NOLIMIT),
        e("c12_long_names", "two names of 1..1025 characters (p0 of 15 sizes), of one or many parts, that differ in one character at the beginning, in the middle or at the end; the literal's character symbolic", [14], [15], max_ins=NOLIMIT),
        e("c12_names", "defined and used names of one to p0 parts with and without a leading dot, three bodies", [3], [4]),
        e("c12_symbols", "a name of 1..p0 symbolic name characters (quotes inside), with and without a leading dot, optionally a second part of 1..2, in three bodies", [1], [2]),
    ]},
    "C13": {"entries": [
        e("c13_single", "single-quoted literals of 0..p0 characters, " + UNI + " but the quote", [2], [3]),
        e("c13_double", "double-quoted literals of 0..p0 elements: every escape, every \\0xHH, any other character", [2], [3]),
        e("c13_mixed", "two to three literals of both kinds in a row"),
        e("c13_looks", "40 contents that look like comments, definitions, escapes or other notations, in both kinds of literals, with any printable character before, after or between"),
        e("c13_long", "literals of 3..1025 characters (p0 of twelve lengths)", [9], [12], max_ins=NOLIMIT),
    ]},
    "C14": {"entries": [
        e("c14_classes", "[..] with 0..p0 characters and 0..p1 ranges, printable ASCII, against one character", [2, 1], [3, 2], [1, 2]),
        e("c14_unicode", "one character and/or one range against one character, " + UNI, reach=[1, 2]),
        e("c14_looks", "36 contents that look like negations, escapes or other notations, alone, doubled or next to any ASCII character, with 0..2 ranges, against one ASCII character", reach=[1, 2]),
        e("c14_wide", "up to 257 characters and 33 ranges (p0 x p1 sizes)", [6, 6], [10, 8], [1, 2]),
    ]},
    "C15": {"entries": [
        e("c15_one", "a grammar of three rules with each of 17 kinds of layout (blanks, line ends, comments with symbolic characters) in each of its 24 places"),
        e("c15_module", "the same for two grammars with modules, classes, escapes and errors"),
        e("c15_all", "the same layout in all places of the three grammars at once", max_ins=400_000_000),
        e("c15_comment", "line and block comments of 0..p0 symbolic ASCII characters in two places", [3], [4]),
        e("c15_comment_unicode", "comments of 0..p0 characters, " + UNI, [2], [3]),
        e("c15_comment_long", "comments of up to 1025 characters (p0 of eight lengths) that look like quotes, brackets and comments, with two symbolic ones", [6], [8], max_ins=NOLIMIT),
        e("c15_two", "two neighbouring places, p0 x p0 kinds", [7], thorough_only=True),
    ]},
    "C16": {"entries": [
        e("c16_any", "every text of 0..p0 ASCII characters", [2], [3], [2, 3]),
        e("c16_unicode", "'a=' and 0..p0 characters, " + UNI, [1], [2], [2, 3]),
        e("c16_mutant", "p1 of twelve correct texts with p0 symbolic ASCII characters put in at, or instead of, any place, and cut off there (p0 = 2: name characters from 9 representatives)", [1, 5], [1, 12], [1, 2, 3]),
        e("c16_mutant2", "as c16_mutant with two characters", [2, 4], reach=[1, 2, 3], thorough_only=True, run="c16_mutant"),
        e("c16_mutant_unicode", "p1 of twelve correct texts with p0 characters put in at, or instead of, any place; " + UNI, [1, 12], [1, 12], [1, 2, 3]),
        e("c16_cut", "twelve correct texts with any piece left out, or put twice", reach=[1, 2, 3]),
        e("c16_pair", "texts number p0 to p0+p1-1 of twelve correct ones with a character of several bytes (any of p2 lengths) put in anywhere and, anywhere after it, the text cut off, a character taken out, or any of '!'..'/' put in", [0, 5, 1], [0, 12, 3], [1, 2, 3]),
        e("c16_deep", "parentheses up to 60 deep, modules up to 257 deep, 257 rules and modules, 257 alternatives or members, literals and classes of 514 characters, names of 257 parts, around one symbolic character (p0 of seven sizes)", [5], [7], [1, 2, 3], max_ins=NOLIMIT),
    ]},
    "C17": {"entries": [
        e("c17_self", "the published grammar of grammars itself", max_ins=4_000_000_000),
        e("c17_any", "every text of 0..p0 ASCII characters", [1], [3], [2], max_ins=4_000_000_000),
        e("c17_mutant", "as c16_mutant; p1 texts from number p2 on", [1, 1, 1], [1, 12, 0], [1, 2], max_ins=4_000_000_000, sample_max=12),
        e("c17_mutant_unicode", "as c16_mutant_unicode", [1, 4], [1, 12], [1, 2], max_ins=4_000_000_000, sample_max=12),
        e("c17_cut", "as c16_cut; p1 texts from number p2 on", [0, 12, 0], [0, 12, 0], [1, 2], max_ins=4_000_000_000, sample_max=12),
        e("c17_tokens", "'a=', p0 of 22 tokens in any order, a line end", [2], [3], [1, 2], max_ins=4_000_000_000, sample_max=12),
        e("c17_foreign", FOREIGN, [1, 1], [0, 12], [2], max_ins=4_000_000_000, sample_max=12),
        e("c17_tail", "as c25_tail", [1], [2], [1, 2], max_ins=4_000_000_000, sample_max=12),
    ]},
    "C18": {"entries": [
        e("c18_trees", "every expression of at most p0 nodes over 1-character literals and references; all operators, {1,2}, {0,0}", [4], [5]),
        e("c18_leaves", "every expression of at most p0 nodes over all kinds of atom, characters any of ' '..'/'", [3], [4]),
        e("c18_chars", "literals and error texts of 0..p0 characters, classes with up to four; " + UNI, [2], [3]),
        e("c18_names", "15 x 14 pairs of rule names, with quotes and backslashes"),
        e("c18_bounds", "22 x 21 pairs of repetition bounds up to 2^64-1"),
        e("c18_wide", "seven families of up to 257 members / levels / rules (p0 sizes); of long texts up to five characters are symbolic", [12]),
        e("c18_looks", "48 texts that look like pieces of the generated code, escapes or layout, alone or next to any ASCII character, as literal, message, class, name used and name defined, in rules of p0 lengths up to 1000 characters", [2], [5]),
        e("c18_peg", "rules read from three PEG texts with a symbolic printable character"),
    ]},
    "C19": {"entries": [
        e("c19_trees", "every tree of at most p0 nodes below the root; texts of 0..1 and names of one symbolic character", [5], [7]),
        e("c19_unicode", "rows of 0..p0 texts, empty texts and rules; " + UNI, [3], [4]),
        e("c19_lone", "a text or end of input on its own"),
        e("c19_big", "rows of up to 130 siblings, chains and combs up to 130 deep, long texts"),
        e("c19_huge", "rows, chains and combs of 255 to 1025 nodes", max_ins=NOLIMIT),
        e("c19_near", "names and texts of up to 1025 characters that differ in one place or in length only"),
    ]},
    "C20": {"entries": [
        e("c20_trees", "every tree of at most p0 nodes below the root, 0..p1 names, all names one symbolic character", [5, 2], [6, 2]),
        e("c20_names", "trees of at most p0 rules, 0..p1 names, of one or two symbolic characters", [4, 2], [5, 2]),
        e("c20_lone", "a text or end of input on its own"),
        e("c20_big", "rows of up to 130 siblings, chains and combs up to 130 deep; 0..2 names"),
        e("c20_huge", "rows, chains and combs of 255 to 1025 nodes", max_ins=NOLIMIT),
        e("c20_order", "every tree of at most p0 nodes with texts of 0..1 symbolic characters, 0..1 names", [5], [6]),
        e("c20_near", "names and texts of up to 1025 characters that differ in one place or in length only"),
        e("c20_many", "1..257 names given, the middle or the last symbolic (both if fewer than 9)"),
        e("c20_unicode", "every tree of at most p0 nodes with names and texts out of two; " + UNI, [3], [4]),
    ]},
    "C21": {"entries": [
        e("c21_trees", "every tree of at most p0 nodes below the root, 0..p1 names, all names one symbolic character", [5, 2], [6, 2]),
        e("c21_names", "trees of at most p0 rules, 0..p1 names, of one or two symbolic characters", [4, 2], [5, 2]),
        e("c21_order", "every tree of at most p0 nodes with texts of 0..1 symbolic characters, 0..1 names", [4], [6]),
        e("c21_lone", "a text or end of input on its own"),
        e("c21_big", "rows of up to 130 siblings, chains and combs up to 130 deep; 0..2 names"),
        e("c21_huge", "rows, chains and combs of 255 to 1025 nodes", max_ins=NOLIMIT),
        e("c21_near", "names and texts of up to 1025 characters that differ in one place or in length only"),
        e("c21_many", "1..257 names given, the middle or the last symbolic (both if fewer than 9)"),
        e("c21_unicode", "every tree of at most p0 nodes with names and texts out of two; " + UNI, [3], [4]),
    ]},
    "C22": {"entries": [
        e("c22_trees", "every tree of at most p0 nodes below the root; texts of 0..1 and names of one symbolic character", [5], [6]),
        e("c22_lone", "a text or end of input on its own"),
        e("c22_big", "rows of up to 130 siblings, chains and combs up to 130 deep, long texts"),
        e("c22_huge", "rows, chains and combs of 255 to 1025 nodes", max_ins=NOLIMIT),
        e("c22_names", "every tree of at most p0 nodes, names of 0..2 symbolic characters", [4], [5]),
        e("c22_unicode", "every tree of at most p0 nodes with names and texts out of two; " + UNI, [4], [5]),
    ]},
    "C23": {"entries": [
        e("c23_ast", "lists of 0..p1 nodes, the first any text, rule (0..2 children) or end of input, the others a text, end of input or rule; wanted names and texts of 0..p0 ASCII characters", [3, 3], [4, 3], [1, 2, 3, 4, 5]),
        e("c23_flat", "lists of 0..p1 flat nodes of any kinds; wanted names and texts of 0..p0 ASCII characters", [3, 3], [4, 3], [1, 2, 3, 4]),
        e("c23_unicode", "texts and names of 0..p0 characters; " + UNI, [2], [3], [1, 2, 3, 4, 5]),
        e("c23_near", "wanted and found texts of up to p0 characters that differ in one place or in length only", [17], reach=[1, 2, 3, 4, 5]),
        e("c23_kids", "a rule with 0..p0 children, then 0..p1 nodes; texts, empty texts, end of input, rules; names and texts one symbolic character", [3, 2], [4, 2], [4, 5]),
        e("c23_long", "lists, and rules with up to 257 children (p0 of eight sizes), one of another kind at the beginning, in the middle or at the end", [8], reach=[1, 2, 4, 5]),
    ]},
    "C24": {"entries": [
        e("c24_trees", TREE % "1- and 2-character literals, 2-character classes, '.', error, undefined rules" + AZ, [4, 2], [4, 3], [1, 2, 3]),
        e("c24_choices", "two- and three-way choices and sequences and * of at most p0 nodes over literals and classes, texts of 0..p1 characters; " + AZ, [5, 3], [6, 3]),
        e("c24_unicode", "every expression of at most p0 nodes over literals with sequence, choice and +; texts of 0..p1 characters, the first and those of the grammar " + UNI, [3, 1], [3, 2]),
        e("c24_wide", "rule chains, nested groups, long runs and deep recursion of the families above; " + AZ),
        e("c24_lits", "literals and classes of up to 1025 characters (p0 of 19 sizes), also as the last of two, the last character any Unicode", [15], [19]),
        e("c24_bytes", BYTES, [5], [7], [1, 2, 3]),
        e("c24_ranges", "classes of 1..257 ranges (p0 of twelve sizes) with and without a symbolic character, alone, after a literal, repeated; texts of 0..2 characters: the message has the ends of every range", [9], [12], [1]),
        e("c24_names", NAMES + AZ),
        e("c24_big", BIGT + AZ, [0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0], [1], max_ins=NOLIMIT),
        e("c24_table", TABLE + AZ, [3, 2, 4], [3, 2, 6], [1]),
    ]},
    "C25": {"entries": [
        e("c25_any", "every text of 0..p0 ASCII characters", [2], [3], [2]),
        e("c25_tail", "eight beginnings and every 0..p0 ASCII characters, with and without a line end", [1], [2], [1, 2, 3]),
        e("c25_unicode", "twelve texts with one character put in at, or instead of, any place; " + UNI, reach=[1, 2, 3]),
        e("c25_cut", "twelve texts with any piece left out, or put twice", reach=[1, 2, 3]),
        e("c25_pair", "texts number p0 to p0+p1-1 of twelve with a character of several bytes (any of p2 lengths) put in anywhere and, anywhere after it, the text cut off, a character taken out, or any of '!'..'/' put in", [0, 5, 1], [0, 12, 3], [1, 2, 3]),
        e("c25_tokens", "every row of p0 out of 21 tokens after 'a='", [3], [4], [1, 2, 3]),
        e("c25_foreign", FOREIGN, [0, 5], [0, 12], [1, 2, 3]),
        e("c25_trees", "every body of at most p0 nodes, each part with and without parentheses, whether or not they are needed", [3], [4], [1, 2, 3]),
        e("c25_joined", "two of twelve texts in a row, the first cut off anywhere, with and without any ASCII character between", reach=[1, 2, 3], thorough_only=True),
        e("c25_mutant", "p1 of twelve texts with p0 symbolic ASCII characters put in at, or instead of, any place, and cut off there", [1, 4], [1, 12], [1, 2, 3]),
    ]},
}
