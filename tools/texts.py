"""Technique and assurance notes per property, for MANIFEST.json."""
AI = 'The decision graph is computed by abstract interpretation of the MIR that rustc emits for the current source; nothing is executed and no solver is used. '
TRUST = 'Trusts the MIR dump, the models of std/unic-langid functions in analysis/models.py and rt.py; constructs outside the models are reported as UNDECIDED in the evidence and not claimed.'
TECH = {
 'C01': 'abstract interpretation of MIR to decision graphs; equivalence with CLDR rule text over residue/boundary number classes',
 'C02': 'abstract interpretation of MIR to decision graphs; equivalence with CLDR rule text over residue/boundary number classes',
 'C03': 'constant evaluation of the table over MIR and of the lookup on it, compared with the CLDR locale list',
 'C04': 'abstract interpretation of create over symbolic locales; per-entry binding comparison',
 'C05': 'abstract interpretation of create/get_locale/get_locales; symbolic comparison of lists',
 'C06': 'abstract interpretation of select with symbolic conversion and rule; leaf comparison',
 'C07': 'abstract interpretation of integer conversions over value-range partitions, 32 and 64 bit',
 'C08': 'abstract interpretation over text shapes (digit-segment string domain); comparison with UTS #35 operand terms',
 'C09': 'abstract interpretation; delegation of float/String conversions to text conversion',
 'C10': 'abstract interpretation over text shapes, refusals required on every non-number shape',
 'C11': 'reachability of panic edges in MIR decision graphs under abstract values',
 'C12': 'effect analysis over the MIR call graph and statics, Send/Sync type facts',
 'C24': 'unsafe-operation lint over HIR unsafe blocks and MIR, constant evaluation of locale constants',
 'C26': 'abstract interpretation of the MIR of every PartialEq and Clone implementation of public types: symbolic components compared with componentwise equality, plus constant propagation on pairs that differ in one place',
 'C13': 'constant propagation of the version constant, compared with the data files',
 'C14': 'abstract interpretation of the nom combinators over MIR to a symbolic-text decision graph, compared path by path with the reference grammar for all texts; structural sentence families as fallback',
 'C15': 'same parser decision graph: every accepting path must consume the whole text and only well-formed sections, every refusal path of the reference must refuse',
 'C16': 'same parser decision graph: sample values, ranges, ellipsis and slots compared with the reference on every path',
 'C17': 'reachability of panic edges in the parser decision graph, effect analysis and hash-iteration lint over the MIR call graph',
 'C18': 'abstract interpretation of the generator over MIR in a token-template domain; emitted expression templates with symbolic literals compared with UTS #35 for every relation shape',
 'C19': 'abstract interpretation of the generator in a token-template domain; emitted category chain and and/or structure compared with the source structure',
 'C20': 'abstract interpretation of the generator with symbolic locale names; emitted entries, order, table assignment and version compared with the source',
 'C21': 'abstract interpretation of generate_rs over all input sequences up to three with symbolic versions; every leaf must be the required abort or success',
 'C22': 'typestate/effect-order analysis of main over MIR paths with failing I/O branches',
 'C23': 'effect analysis over the MIR call graph plus hash-iteration-order comparison of emitted token templates',
}
NOTE = {p: AI + TRUST for p in TECH}
NA = {'C25': 'Comparing the checked-in table with the output of the generator needs the generated text, i.e. running the generator; statically the two ends are covered instead: C01-C03 compare the table with the CLDR data, C18-C20 the generator with the rules.'}
