#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

R="intl_pluralrules/src/rules.rs"; L="intl_pluralrules/src/lib.rs"; O="intl_pluralrules/src/operands.rs"
CD="intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json"; OD="intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json"
PP="cldr_pluralrules_parser/src/parser.rs"; PL="cldr_pluralrules_parser/src/lib.rs"; PA="cldr_pluralrules_parser/src/ast.rs"
GP="make_pluralrules/src/parser/gen_pr.rs"; GR="make_pluralrules/src/parser/gen_rs.rs"; GL="make_pluralrules/src/lib.rs"; GM="make_pluralrules/src/main.rs"; GS="make_pluralrules/src/parser/resource.rs"

p("C01","Cardinal categories follow the shipped CLDR cardinal rules",
  "For every locale in the shipped CLDR cardinal data and every non-negative decimal number of at most 15 significant digits (written with any visible fraction digits), cardinal selection returns exactly the category whose rule in that data the number satisfies, and OTHER when it satisfies none.",
  ["inputs","configurations"],"all cardinal locales x all operand tuples (n, i, v, w, f, t) that a decimal number can have",
  "The tests sample three or four numbers in naq, pl and a few others; there are over two hundred cardinal locales and infinitely many numbers, with periods up to 1000000.",
  [R,CD],[("one decision function per table entry",R),("CLDR rule text the table is generated from",CD)],["PluralRules::select on a CARDINAL instance"])
p("C02","Ordinal categories follow the shipped CLDR ordinal rules",
  "For every locale in the shipped CLDR ordinal data and every non-negative decimal number of at most 15 significant digits (written with any visible fraction digits), ordinal selection returns exactly the category whose rule in that data the number satisfies, and OTHER when it satisfies none.",
  ["inputs","configurations"],"all ordinal locales x all operand tuples that a decimal number can have",
  "The tests sample two numbers in one ordinal locale (uk).",
  [R,OD],[("one decision function per table entry",R),("CLDR rule text the table is generated from",OD)],["PluralRules::select on an ORDINAL instance"])
p("C03","The supported locales are exactly the locales of the CLDR data",
  "For each rule type, every locale in the shipped CLDR data of that type (except the root placeholder) is listed as available exactly once and can be found by the lookup, and no other locale is listed. Each listed identifier is well-formed and canonical, so it equals the identifier parsed from the locale's CLDR name.",
  ["inputs","configurations"],"every locale name in the two CLDR files, both rule types",
  "Tests look up six locales; a missing, duplicated, misspelt or misplaced entry (the lookup is a binary search and needs the table sorted) for any other of the ~300 entries goes unnoticed.",
  [R,L,CD,OD],[("locale tables sorted by language identifier",R),("binary search over the table",L)],["PluralRules::create","PluralRules::get_locales"])
p("C04","An instance applies the rule of its own locale and rule type",
  "Creating an instance for a supported locale and rule type yields an instance bound to the rule that the table of that rule type holds for exactly that locale; for every locale the table does not hold, creation returns an error and never falls back to another locale's rule. Clones behave like the original.",
  ["inputs"],"all language identifiers x both rule types, and all clones",
  "Tests create a handful of instances; wrong-table, off-by-one or fallback bugs show only for particular locales or only for one rule type.",
  [L,R],[("lookup by key and use of the found index",L)],["PluralRules::create","Clone for PluralRules","PluralRules::select"],
  [("instance","the locale asked for and the rule bound to it",L)])
p("C05","Locale reporting is truthful",
  "An instance reports exactly the locale it was created for, unchanged. The list of available locales for a rule type contains exactly the locales for which creation with that rule type succeeds, each once.",
  ["inputs","configurations"],"all supported locales, both rule types",
  "Tests check one instance and that one list is non-empty.",
  [L,R],[("stored locale","intl_pluralrules/src/lib.rs"),("list built from the lookup table",L)],["PluralRules::get_locale","PluralRules::get_locales"])
p("C06","Selection is the instance's rule applied to the converted number",
  "For every convertible argument, selection returns the category that the instance's rule assigns to exactly the operands of that argument. If the argument cannot be converted, selection returns an error, and it never returns a category for an argument whose conversion failed nor an error for one whose conversion succeeded.",
  ["inputs","programs"],"all argument types with a conversion (built-in and user-defined) and all values",
  "Tests use a few built-in values and one user type, none of which fails to convert inside selection.",
  [L],[("conversion, then rule, errors mapped",L)],["PluralRules::select"])
p("C07","Integers give their absolute value and no fraction",
  "For every value of every built-in integer type, the operands are n = i = the absolute value of the integer (n rounded to a double) and v = w = f = t = 0, on 32-bit and 64-bit targets alike; only a value whose absolute value does not fit may be refused with an error, and no value is ever silently changed.",
  ["inputs","configurations"],"all values of u8..u64, usize, i8..i64, isize on every target width",
  "Tests use seven small i32 values on a 64-bit host: no extremes, no other types, no other width.",
  [O],[("per-type conversions",O)],["PluralOperands::from / try_from for the integer types"])
p("C08","Decimal text gives the operands UTS #35 defines",
  "For every text of decimal digits with an optional leading minus sign and an optional fraction part whose integer and fraction parts each fit in 64 bits, the operands are: n the absolute value as a double, i the exact integer part, v and w the numbers of fraction digits with and without trailing zeros, f and t the fraction digits read as an integer with and without trailing zeros. The sign never changes any operand.",
  ["inputs"],"all decimal texts, any number of digits, leading and trailing zeros, any sign",
  "Tests sample thirteen texts, none near the limits of a double or of 64 bits and none with leading zeros in a long fraction.",
  [O],[("splitting at the decimal point, counting and parsing digits",O)],["PluralOperands::try_from(&str)"])
p("C09","Floats and owned strings convert like their displayed text",
  "For every f32, f64 and owned string, conversion gives exactly the result (operands or error) of converting the text that the value displays as.",
  ["inputs"],"all f32, f64 and String values",
  "Tests sample six floats and no owned string.",
  [O],[("conversion through the display text",O)],["PluralOperands::try_from for f32, f64, String"])
p("C10","Text that is not a number is refused, never misread",
  "Text that is not a number (that Rust's f64 syntax does not accept) is refused with an error, as is a doubled minus sign. A decimal number whose integer or fraction part does not fit in 64 bits next to a decimal point is refused with an error; no part of a text is ever silently dropped, defaulted or truncated.",
  ["inputs"],"all strings",
  "Tests try the single text \"foo\".",
  [O],[("every parse failure is propagated",O)],["PluralOperands::try_from(&str)","PluralRules::select"])
p("C11","The run-time library never panics",
  "No call of the run-time library's public functions panics, overflows or indexes out of bounds, whatever locale, text, number or operands it is given.",
  ["inputs"],"all public functions of intl_pluralrules x all arguments, including arbitrary non-ASCII text and arbitrary operands",
  "Tests pass well-formed inputs only (one malformed text).",
  [L,O,R],[("Result-returning conversions; slicing only at found positions; remainder only by non-zero constants",O+", "+R)],["every public function of intl_pluralrules"])
p("C12","Run-time results depend only on the arguments",
  "Every public function of the run-time library is a pure function of its arguments: no call reads or writes global mutable state, the environment, clocks or files, so results do not depend on earlier calls, other threads or instances. Instances and operands can be shared between and sent to other threads.",
  ["histories","schedules","inputs"],"all sequences and interleavings of calls",
  "Tests make each call once, on one thread, in a fresh process.",
  [L,O,R],[("no statics with interior mutability, no effects",L)],["PluralRules::*","PluralOperands conversions"])
p("C13","The advertised CLDR version is that of the shipped data",
  "The CLDR version constant exposed by the run-time library equals the version recorded in both shipped CLDR data files, from which the rules derive.",
  ["configurations"],"both data files, any update of data or table",
  "The test compares with the literal 37, not with the data files.",
  [R,CD,OD],[("version constant",R)],["CLDR_VERSION"])
p("C14","Parsed conditions mean what the rule text says",
  "For every plural rule condition in the UTS #35 syntax (as CLDR formats it), the parser returns the tree with exactly the operands, moduli, relation operators, values and inclusive ranges of the text in source order, with 'and' binding tighter than 'or'. No operand, operator, bound or list item is dropped, swapped or substituted.",
  ["inputs"],"all conditions derivable from the grammar",
  "Tests parse a dozen conditions, using five of the eight operators and four of the six operands.",
  [PP,PA],[("combinator grammar",PP)],["parse_plural_rule","parse_plural_condition"])
p("C15","The parser rejects text it cannot fully account for",
  "Parsing a whole rule succeeds only if the entire text is a rule; leftover text, a relation without any value, an unknown operand or operator, or a number too large to represent make it fail with an error instead of returning a shortened or altered rule. Parsing only the condition likewise succeeds only if everything before the samples is a condition.",
  ["inputs"],"all strings",
  "No test passes malformed text to the parser.",
  [PP,PL],[("leftover check",PL),("combinator grammar",PP)],["parse_plural_rule","parse_plural_condition"])
p("C16","Samples are parsed and kept in their own slots",
  "For every rule text with samples (with or without a condition), the parsed rule holds the integer samples and the decimal samples in their own slots, each present exactly when given, with every value and range in source order, lower and upper bound in place, and the ellipsis flag set exactly when the list ends with an ellipsis.",
  ["inputs"],"all rule texts with @integer and/or @decimal sample lists",
  "Tests only compare the condition part of parsed rules.",
  [PP,PA],[("sample grammar",PP)],["parse_plural_rule"])
p("C17","The parser never panics and is a pure function",
  "The rule parser returns a tree or an error for every string: it never panics, whatever the text, and its result depends only on the text.",
  ["inputs","histories"],"all strings",
  "No test passes malformed text to the parser.",
  [PP,PL],[("map_res for numbers, one_of matched exhaustively",PP)],["parse_plural_rule","parse_plural_condition"])
p("C18","Generated relation code decides exactly the relation it came from",
  "For every relation (any operand, with or without modulus, any operator, any list of values and ranges), the generated Rust expression is true for an operand tuple exactly when the relation holds for it under UTS #35, or generation aborts.",
  ["inputs","programs"],"all relations of the AST: 6 operands x modulus or none x 8 operators x range lists",
  "The fixtures pin the relations that occur in CLDR 33 and three 'within' relations; other shapes (other operands, list lengths, moduli) are never generated.",
  [GP],[("relation templates per operand, modulus and operator",GP)],["generate_rs"])
p("C19","Generated rules combine relations and categories as the source does",
  "The generated function of a locale tests the categories given in the source, each guarded by exactly its own condition, in which relations are joined by and within or as in the source, and returns OTHER when none holds; no category, condition or relation is dropped, merged or attributed to another category, and the source's OTHER entry never becomes a test.",
  ["inputs","programs"],"all rule sets: any categories, any and/or nesting, any number of relations",
  "The fixtures pin CLDR 33 only.",
  [GP,GR,GL],[("and/or joining",GP),("category chain",GR),("category names",GL)],["generate_rs"])
p("C20","Generated tables are complete, paired and sorted for lookup",
  "For every input whose locale names consist of language, script and region subtags, the generated table of each rule type has exactly one entry per source locale except root, each pairing the locale's identifier with the rules of that same locale, ordered by language identifier as the run-time lookup needs; cardinal data goes only to the cardinal table and ordinal data only to the ordinal table, and the generated version constant is the version of the inputs.",
  ["inputs","programs"],"all CLDR JSON inputs",
  "The fixtures pin CLDR 33 only, in which locale keys already are nearly in sorted order.",
  [GL,GR],[("sort before emission",GL),("identifier and rules emitted together",GR)],["generate_rs"])
p("C21","Bad generator inputs abort instead of producing a table",
  "Generation aborts, producing no output, when the inputs disagree on the CLDR version, when two inputs supply the same rule type, when no input supplies rules, or when an input is not valid CLDR JSON, has an unparsable locale or an unparsable condition. Valid inputs of one version, in any number and order, do not abort for these reasons.",
  ["inputs","fault_sequences"],"all lists of input texts",
  "Four tests sample one bad list each; all have at most two inputs.",
  [GL,GS],[("version, duplicate and emptiness checks",GL)],["generate_rs"])
p("C22","The generator touches its output file only after success",
  "The command-line generator does not create, truncate or write the output file unless reading all inputs and generating the code succeeded, so a failed generation leaves an existing output file intact. On success the file holds the complete generated code, and an I/O error on the output is reported through the exit status, not swallowed.",
  ["crash_points","fault_sequences","inputs"],"all failures of reading, generating, creating or writing",
  "No test runs the executable.",
  [GM],[("generation before creation; errors propagated",GM)],["make_pluralrules executable"])
p("C23","Generation is deterministic",
  "For the same list of input texts, the generator always produces the same output text: nothing depends on hashing seeds, time, environment, addresses or earlier calls.",
  ["histories","inputs","schedules"],"all repeated generations",
  "Tests generate each fixture once per process.",
  [GL,GR,GP,GS],[("ordered maps only; no ambient inputs",GL)],["generate_rs"])
p("C24","Run-time code performs no unsafe operation",
  "Code of the three crates that executes at run time performs no unsafe operation (unchecked construction or access, raw pointers, mutable statics); the only unchecked construction is of the compile-time locale constants, and each of those holds well-formed subtags.",
  ["inputs","programs"],"all functions of the workspace, all table constants",
  "Undefined behaviour need not be visible in a test.",
  [R,L,O],[("unsafe confined to constants",R)],["all public functions"])
p("C25","The checked-in table is what the generator would emit",
  "Running the generator on the shipped CLDR data yields, up to formatting, exactly the checked-in rule table of the run-time library.",
  ["configurations"],"the shipped data and table",
  "No test regenerates the shipped table.",
  [R,GL,CD,OD],[("cargo regenerate-data alias","intl_pluralrules/.cargo/config")],["generate_rs"])
p("C26","Public values compare and clone exactly",
  "Two values of a public type (plural category, rule type, operands, every type of the parsed rule tree) are equal exactly when they are the same variant and all their components are equal, lists in the same order and of the same length, floating-point components by numeric comparison; != is the opposite of ==. A clone has exactly the components of its original.",
  ["inputs"],"all pairs of values of the public types with equality, all clones",
  "Tests only compare equal values; an equality that is too lenient makes them pass more easily.",
  [L,O,"cldr_pluralrules_parser/src/ast.rs"],[("PartialEq and Clone implementations","cldr_pluralrules_parser/src/ast.rs"),("PartialEq implementations","intl_pluralrules/src/operands.rs, intl_pluralrules/src/lib.rs")],["== and != on PluralCategory, PluralRuleType, PluralOperands and the types of cldr_pluralrules_parser::ast","clone of those types"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
