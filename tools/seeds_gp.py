P = 'cldr_pluralrules_parser/src/parser.rs'; PL = 'cldr_pluralrules_parser/src/lib.rs'
G = 'make_pluralrules/src/parser/gen_pr.rs'; GR = 'make_pluralrules/src/parser/gen_rs.rs'; GL = 'make_pluralrules/src/lib.rs'; GM = 'make_pluralrules/src/main.rs'; RES = 'make_pluralrules/src/parser/resource.rs'
AST = 'cldr_pluralrules_parser/src/ast.rs'
PH = '''use cldr_pluralrules_parser::{ast::*, parse_plural_condition, parse_plural_rule};
#[allow(dead_code)] fn op(s: &str) -> Operator { parse_plural_condition(s).unwrap().0[0].0[0].operator.clone() }
#[allow(unused)] fn _u() { let _ = parse_plural_rule("n = 1"); }
'''
PD = ['cldr_pluralrules_parser']
GH = '''use make_pluralrules::generate_rs;
#[allow(dead_code)] fn src(ver: &str, kind: &str, body: &str) -> String {
    format!(r#"{{"supplemental":{{"version":{{"_number":"1","_unicodeVersion":"1","_cldrVersion":"{}"}},"plurals-type-{}":{}}}}}"#, ver, kind, body)
}
#[allow(dead_code)] fn rule(cond: &str) -> String {
    let s = generate_rs(&[src("37", "cardinal", &format!(r#"{{"en":{{"pluralRule-count-one":"{}","pluralRule-count-other":""}}}}"#, cond))]);
    let a = s.find("| po |").unwrap(); s[a..].split_whitespace().collect::<Vec<_>>().join(" ")
}
#[allow(dead_code)] fn aborts(v: Vec<String>) -> bool { std::panic::set_hook(Box::new(|_| {})); std::panic::catch_unwind(move || generate_rs(&v)).is_err() }
'''
GD = ['make_pluralrules']
CLI = '''#!/bin/bash
# runs the generator binary on files of a scratch directory
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'find "$d" -delete' EXIT
CARGO_TARGET_DIR="$d/target" timeout 280 cargo build --offline -q --manifest-path "$repo/make_pluralrules/Cargo.toml" || exit 3
bin="$d/target/debug/make_pluralrules"
cat > "$d/a.json" <<'J'
{"supplemental":{"version":{"_number":"1","_unicodeVersion":"1","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"i = 1 and v = 0","pluralRule-count-other":""}}}}
J
echo '{"supplemental":' > "$d/bad.json"
'''
SEEDS = [
 dict(id='c14-notwithin', property='C14', edits=[(P, '''                    map(tag("in"), |_| Operator::NotIn),
                    map(tag("within"), |_| Operator::NotWithin),''', '''                    map(tag("in"), |_| Operator::NotIn),
                    map(tag("within"), |_| Operator::NotIn),''')],
  main=PH + 'fn main() { assert_eq!(op("n not in 2..4"), Operator::NotIn); assert_eq!(op("n not within 2..4"), Operator::NotWithin); }', deps=PD,
  needs='a relation with "not within"', breaks='"not within" is read as "not in"'),
 dict(id='c14-u32', property='C14', edits=[(P, 's.parse::<usize>().map(Value)', 's.parse::<u32>().map(|n| Value(n as usize))')],
  main=PH + 'fn main() { assert!(parse_plural_condition("n % 10000000000 = 5000000000").is_ok()); }', deps=PD,
  needs='a number of 2^32 or more', breaks='a well-formed condition with a large number is refused'),
 dict(id='c14-dedup', property='C14', edits=[(P, '''        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),
        AndCondition,''', '''        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),
        |mut relations: Vec<Relation>| {
            // repeated operands are redundant
            relations.dedup_by(|a, b| a.expression == b.expression && a.operator == b.operator);
            AndCondition(relations)
        },''')],
  main=PH + 'fn main() { assert_eq!(parse_plural_condition("n % 100 != 11 and n % 100 != 71").unwrap().0[0].0.len(), 2); assert_eq!(parse_plural_condition("n % 10 = 1 and n % 100 != 11").unwrap().0[0].0.len(), 2); }', deps=PD,
  needs='two neighbouring relations on the same expression with the same operator', breaks='the second relation is dropped'),
 dict(id='c15-leftover', property='C15', edits=[(PL, '''        Ok(("", rule)) => Ok(rule),
''', '''        Ok((left, rule)) if left.is_empty() || rule.samples.is_some() => Ok(rule),
''')],
  main=PH + 'fn main() { assert!(parse_plural_rule("n = 1 @integer 1, x").is_err()); assert!(parse_plural_rule("n = 1 @integer 1 junk").is_err()); assert!(parse_plural_rule("n = 1 @integer 1").is_ok()); }', deps=PD,
  needs='text after the samples that cannot be parsed', breaks='trailing text is silently ignored once samples were read'),
 dict(id='c16-upper', property='C16', edits=[(P, '''        |(lower_val, upper_val)| SampleRange {
            lower_val,
            upper_val,
        },''', '''        |(lower_val, upper_val): (DecimalValue, Option<DecimalValue>)| SampleRange {
            upper_val: upper_val.filter(|u| u.integer != lower_val.integer || u.decimal.is_some()),
            lower_val,
        },''')],
  main=PH + 'fn main() { let r = parse_plural_rule("n = 1 @integer 5~5").unwrap().samples.unwrap().integer.unwrap(); assert!(r.sample_ranges[0].upper_val.is_some()); }', deps=PD,
  needs='an integer sample range whose ends are equal', breaks='the upper end of the sample range is dropped'),
 dict(id='c16-dots', property='C16', edits=[(P, 'alt((tag("..."), tag("…")))', 'tag("…")')],
  main=PH + 'fn main() { let s = parse_plural_rule("n = 1 @integer 1, 2, ...").unwrap().samples.unwrap().integer.unwrap(); assert!(s.ellipsis); }', deps=PD,
  needs='a sample list ending in three ASCII dots', breaks='the rule is refused'),
 dict(id='c17-unwrap', property='C17', edits=[(P, 'map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)', 'map(digit1, |s: &str| Value(s.parse::<usize>().unwrap()))(i)')],
  main=PH + 'fn main() { assert!(parse_plural_rule("n = 99999999999999999999999").is_err()); }', deps=PD,
  needs='a number above usize', breaks='the parser panics'),
 dict(id='c17-slice', property='C17', edits=[(PL, '''        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", left)),''', '''        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", &left[..left.len().min(24)])),''')],
  main=PH + 'fn main() { assert!(parse_plural_rule("n = 1 12345678901234567890123\\u{2026}").is_err()); assert!(parse_plural_rule("n = 1 1234567890123456789012\\u{2026}").is_err()); }', deps=PD,
  needs='unparsable text with a multi-byte character across its 24th byte', breaks='the error message slices inside a character and panics'),
 dict(id='c18-notrange', property='C18', edits=[(G, '''                    if !mod_check {
                        quote!(po.#l)
                    } else {
                        quote!(po.#l % #m)
                    },
                    quote! {},
                )
            };

            let rel_tokens = match operator {''', '''                    if !mod_check || operator == Operator::NotIn {
                        quote!(po.#l)
                    } else {
                        quote!(po.#l % #m)
                    },
                    quote! {},
                )
            };

            let rel_tokens = match operator {''')],
  main=GH + 'fn main() { let s = rule("i % 100 not in 12..14"); assert!(s.contains("po . i % 100"), "{}", s); }', deps=GD,
  needs='"not in" with a modulus and a range', breaks='the modulus is dropped'),
 dict(id='c19-parens', property='C19', edits=[(G, 'if relations.len() > 1 {\n                quote! { ( #(#relations)||* ) }', 'if relations.len() > 1 && operator != Operator::In {\n                quote! { ( #(#relations)||* ) }')],
  main=GH + 'fn main() { let s = rule("v = 0 and i in 1,2").replace("( ", "(").replace(" )", ")"); assert!(s.contains("(po . i == 1 || po . i == 2)"), "{}", s); }', deps=GD,
  needs='an "and" of a relation that uses the keyword in with several values', breaks='precedence: a && b || c'),
 dict(id='c19-firstor', property='C19', edits=[(G, '''    for c in cond.0 {
        condvec.push(create_and_condition(c));
    }''', '''    for c in cond.0 {
        if c.0.len() > 4 && !condvec.is_empty() {
            continue;
        }
        condvec.push(create_and_condition(c));
    }''')],
  main=GH + 'fn main() { let s = rule("n = 1 or i = 2 and v = 3 and f = 4 and t = 5 and w = 6"); assert!(s.contains("po . t == 5"), "{}", s); }', deps=GD,
  needs='a later alternative with five or more relations', breaks='the alternative is left out'),
 dict(id='c20-sort', property='C20', edits=[(GL, '    rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));', '    rules.sort_by(|(langid1, _), (langid2, _)| langid1.language().cmp(langid2.language()));')],
  main=GH + '''fn main() { let s = generate_rs(&[src("37", "cardinal", r#"{"sr-Latn":{"pluralRule-count-other":""},"SR-BA":{"pluralRule-count-other":""},"sr":{"pluralRule-count-other":""}}"#)]);
 let a: Vec<&str> = s.split("langid ! (").skip(1).collect(); assert_eq!(a.len(), 3); assert!(a[1].contains("Region") && !a[1].contains("Script"), "{}", a[1]); assert!(a[2].contains("Script"), "{}", a[2]); }''', deps=GD,
  needs='entries of one language that differ in script and region', breaks='the table is not sorted by the whole identifier'),
 dict(id='c20-ver', property='C20', edits=[(GR, 'let num: isize = vr.parse().unwrap();', "let num: isize = vr.split('.').last().unwrap().parse().unwrap();")],
  main=GH + '''fn main() { let one = r#"{"en":{"pluralRule-count-other":""}}"#; assert!(generate_rs(&[src("37", "cardinal", one)]).contains("usize = 37")); assert!(aborts(vec![src("36.1", "cardinal", one)])); }''', deps=GD,
  needs='a dotted CLDR version', breaks='the advertised version is the minor number'),
 dict(id='c21-version', property='C21', edits=[(GL, '''        } else if cldr_version != Some(res_cldr_version) {
            panic!("All input resources must use the same CLDR version!");
        }''', '''        } else if cldr_version.replace(res_cldr_version.clone()) != Some(res_cldr_version)
            && tokens.len() < 2
        {
            panic!("All input resources must use the same CLDR version!");
        }''')],
  main=GH + '''fn main() { let one = r#"{"en":{"pluralRule-count-other":""}}"#; let none = |v: &str| src(v, "range", "{}");
  assert!(aborts(vec![src("37", "cardinal", one), src("37", "ordinal", one), none("38")])); assert!(!aborts(vec![src("37", "cardinal", one), src("37", "ordinal", one), none("37")])); }''', deps=GD,
  needs='three inputs where only the third has another version', breaks='mixed versions are accepted'),
 dict(id='c21-twice', property='C21', edits=[(GL, '''            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''', '''            if tokens.contains_key("ordinal") && cldr_jsons.len() < 3 {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''')],
  main=GH + '''fn main() { let one = r#"{"en":{"pluralRule-count-other":""}}"#; assert!(aborts(vec![src("37", "ordinal", one), src("37", "cardinal", one), src("37", "ordinal", one)])); assert!(!aborts(vec![src("37", "cardinal", one), src("37", "ordinal", one)])); }''', deps=GD,
  needs='two ordinal inputs among at least three inputs', breaks='the second silently replaces the first'),
 dict(id='c22-early', property='C22', edits=[(GM, '''    let complete_rs_code = generate_rs(&input_jsons);

    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;''', '''    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;
    let complete_rs_code = generate_rs(&input_jsons);
''')],
  script=CLI + '''echo keep > "$d/out.rs"
"$bin" -i "$d/bad.json" -o "$d/out.rs" >/dev/null 2>&1 && exit 1
grep -q keep "$d/out.rs" || exit 1
"$bin" -i "$d/a.json" -o "$d/out.rs" -u >/dev/null 2>&1 || exit 1
grep -q PRS_CARDINAL "$d/out.rs"
''', needs='a bad input and an existing output file', breaks='the output is truncated before generation succeeded'),
 dict(id='c22-notrunc', property='C22', edits=[(GM, 'fs::File::create(output_path)?', 'fs::OpenOptions::new().write(true).create(true).open(output_path)?')],
  script=CLI + '''head -c 20000 /dev/zero | tr '\\0' 'x' > "$d/out.rs"
"$bin" -i "$d/a.json" -o "$d/out.rs" -u >/dev/null 2>&1 || exit 1
grep -q PRS_CARDINAL "$d/out.rs" || exit 1
! grep -q xxxxxxxx "$d/out.rs"
''', needs='an existing output file that is longer than the new code', breaks='the tail of the old file stays'),
 dict(id='c23-hash', property='C23', edits=[(RES, 'pub plurals_type_ordinal: Option<BTreeMap<String, BTreeMap<String, String>>>', 'pub plurals_type_ordinal: Option<std::collections::HashMap<String, BTreeMap<String, String>>>'),
   (RES, 'pub plurals_type_cardinal: Option<BTreeMap<String, BTreeMap<String, String>>>', 'pub plurals_type_cardinal: Option<std::collections::HashMap<String, BTreeMap<String, String>>>'),
   (GL, 'fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenStream> {', 'fn gen_type_rs(rules: std::collections::HashMap<String, BTreeMap<String, String>>) -> Vec<TokenStream> {')],
  main=GH + '''fn main() { let b = r#"{"en-US":{"pluralRule-count-one":"n = 1"},"en_US":{"pluralRule-count-one":"n = 2"},"EN-us":{"pluralRule-count-one":"n = 3"},"EN_us":{"pluralRule-count-one":"n = 4"}}"#;
 let a = generate_rs(&[src("37", "ordinal", b)]); for _ in 0..60 { assert_eq!(a, generate_rs(&[src("37", "ordinal", b)])); } }''', deps=GD,
  needs='two spellings of one locale in the data', breaks='their order in the table follows a hash map'),
 dict(id='c26-rangeset', property='C26', edits=[(AST, '#[derive(Debug, Clone, PartialEq)]\npub struct RangeList(pub Vec<RangeListItem>);', '''#[derive(Debug, Clone)]
pub struct RangeList(pub Vec<RangeListItem>);

impl PartialEq for RangeList {
    /// The order of the items does not change which numbers are meant.
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|x| other.0.contains(x))
    }
}''')],
  main=PH + 'fn main() { let v = |x| RangeListItem::Value(Value(x)); assert_eq!(RangeList(vec![v(1), v(2)]), RangeList(vec![v(1), v(2)])); assert_ne!(RangeList(vec![v(1), v(1)]), RangeList(vec![v(1), v(2)])); }', deps=PD,
  needs='two lists of the same length, one with a repeated item', breaks='lists with different items compare equal'),
 dict(id='c26-ellipsis', property='C26', edits=[(AST, '#[derive(Debug, Clone, PartialEq)]\npub struct SampleList {', '''impl Clone for SampleList {
    fn clone(&self) -> Self {
        SampleList {
            sample_ranges: self.sample_ranges.to_vec(),
            ellipsis: self.ellipsis && self.sample_ranges.len() > 1,
        }
    }
}

#[derive(Debug, PartialEq)]
pub struct SampleList {''')],
  main=PH + 'fn main() { for t in ["n = 1 @integer 1, 2, …", "n = 1 @integer 1, …"] { let r = parse_plural_rule(t).unwrap(); assert_eq!(r.clone(), r); } }', deps=PD,
  needs='a clone of a sample list with a single item and an ellipsis', breaks='the clone loses the ellipsis'),

 dict(id='c15-comma', property='C15', edits=[(P, '''        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
        RangeList,''', '''        terminated(
            separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
            opt(tuple((space0, tag(",")))),
        ),
        RangeList,'''), (P, 'use nom::{', 'use nom::sequence::terminated;\nuse nom::{')],
  main=PH + 'fn main() { assert!(parse_plural_condition("n = 1,2,").is_err()); assert!(parse_plural_rule("n = 1, and v = 0").is_err()); assert!(parse_plural_condition("n = 1,2").is_ok()); }', deps=PD,
  needs='a list with a comma behind its last item', breaks='malformed lists are accepted'),
 dict(id='c19-cachekey', property='C19', edits=[(GL, '    for (lang, r) in rules {\n', '    // many locales share their conditions\n    let mut known: BTreeMap<String, TokenStream> = BTreeMap::new();\n    for (lang, r) in rules {\n'),
   (GL, '            // representation is the\n', '            let key: String = rule_line.chars().filter(|c| !c.is_whitespace()).take(48).collect();\n            // representation is the\n'),
   (GL, '                let tokens = parser::gen_pr::gen_pr(representation);\n', '                let tokens = known\n                    .entry(key)\n                    .or_insert_with(|| parser::gen_pr::gen_pr(representation))\n                    .clone();\n')],
  main=GH + '''fn main() { let c = "i % 10 = 1 and i % 100 != 11 and v = 0 and f % 10 = 1 and f % 100 != 11 or t = ";
    let s = generate_rs(&[src("37", "cardinal", &format!(r#"{{"de":{{"pluralRule-count-one":"{}5"}},"en":{{"pluralRule-count-one":"{}7"}}}}"#, c, c))]);
    assert!(s.contains("po . t == 5") && s.contains("po . t == 7")); }''', deps=GD,
  needs='two conditions whose first 48 characters agree', breaks='the second locale gets the condition of the first'),
 dict(id='c20-number', property='C20', edits=[(GL, 'let res_cldr_version = resource_items.supplemental.version.cldr_version;', '''let version = resource_items.supplemental.version;
        let res_cldr_version = version.number.filter(|n| n.parse::<u32>().is_ok()).unwrap_or(version.cldr_version);''')],
  main=GH + '''fn main() { let s = generate_rs(&[src("37", "cardinal", "{}")]); assert!(s.split_whitespace().collect::<String>().contains("CLDR_VERSION:usize=37"), "{}", s); }''', deps=GD,
  needs='an input whose version object carries a plain revision number', breaks='the generated version is the revision number'),
 dict(id='c21-trailing', property='C21', edits=[(RES, '    let u = serde_json::from_str(body)?;\n', '    let mut de = serde_json::Deserializer::from_str(body);\n    let u = Resource::deserialize(&mut de)?;\n')],
  main=GH + '''fn main() { let g = src("37", "cardinal", r#"{"en":{"pluralRule-count-one":"i = 1"}}"#); assert!(!aborts(vec![g.clone()])); assert!(aborts(vec![g.clone() + "]"])); assert!(aborts(vec![format!("{}{}", g, g)])); }''', deps=GD,
  needs='an input with text behind the JSON value', breaks='two concatenated inputs are accepted and the second is ignored'),
]
