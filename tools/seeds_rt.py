L = 'intl_pluralrules/src/lib.rs'; O = 'intl_pluralrules/src/operands.rs'; R = 'intl_pluralrules/src/rules.rs'
HEAD = '''use intl_pluralrules::{PluralCategory as C, PluralRuleType as T, PluralRules, operands::PluralOperands};
use unic_langid::LanguageIdentifier;
use std::convert::TryFrom;
#[allow(dead_code)] fn id(s: &str) -> LanguageIdentifier { s.parse().unwrap() }
#[allow(dead_code)] fn pr(s: &str, t: T) -> PluralRules { PluralRules::create(id(s), t).unwrap() }
#[allow(dead_code)] fn op(s: &str) -> Result<PluralOperands, &'static str> { PluralOperands::try_from(s) }
#[allow(unused)] type Cat = C;
'''
RT = ['intl_pluralrules', 'unic-langid']
SEEDS = [
 dict(id='c01-is-111', property='C01', edits=[(R, '''            if (po.t == 0 && po.i % 10 == 1 && po.i % 100 != 11) || (po.t != 0) {
                PluralCategory::ONE
            } else {
                PluralCategory::OTHER
            }
        },
    ),
    (
        langid!(subtags::Language::from_raw_unchecked(29801u64), None, None),''', '''            if (po.t == 0 && po.i % 10 == 1 && po.i != 11) || (po.t != 0) {
                PluralCategory::ONE
            } else {
                PluralCategory::OTHER
            }
        },
    ),
    (
        langid!(subtags::Language::from_raw_unchecked(29801u64), None, None),''')],
  main=HEAD + 'fn main() { assert_eq!(pr("is", T::CARDINAL).select(111), Ok(C::OTHER)); assert_eq!(pr("is", T::CARDINAL).select("2011.0"), Ok(C::OTHER)); }', deps=RT,
  needs='an Icelandic number ending in 11 but not 11 itself', breaks='111 is ONE instead of OTHER in is'),
 dict(id='c01-mk-frac', property='C01', edits=[(R, '''        langid!(subtags::Language::from_raw_unchecked(27501u64), None, None),
        |po| {
            if (po.v == 0 && po.i % 10 == 1 && po.i % 100 != 11)
                || (po.f % 10 == 1 && po.f % 100 != 11)''', '''        langid!(subtags::Language::from_raw_unchecked(27501u64), None, None),
        |po| {
            if (po.v == 0 && po.i % 10 == 1 && po.i % 100 != 11)
                || (po.t % 10 == 1 && po.t % 100 != 11)''')],
  main=HEAD + 'fn main() { assert_eq!(pr("mk", T::CARDINAL).select("5.10"), Ok(C::OTHER)); assert_eq!(pr("mk", T::CARDINAL).select("5.1"), Ok(C::ONE)); }', deps=RT,
  needs='a Macedonian number with a trailing zero after a fraction digit 1', breaks='mk uses t instead of f: 5.10 is ONE'),
 dict(id='c02-it-800', property='C02', edits=[(R, """        langid!(subtags::Language::from_raw_unchecked(29801u64), None, None),
        |po| {
            if (po.n == 11.0 || po.n == 8.0 || po.n == 80.0 || po.n == 800.0) {""", """        langid!(subtags::Language::from_raw_unchecked(29801u64), None, None),
        |po| {
            if (po.n == 11.0 || po.n == 8.0 || po.n == 80.0 || po.n == 801.0) {""")],
  main=HEAD + 'fn main() { assert_eq!(pr("it", T::ORDINAL).select(800), Ok(C::MANY)); }', deps=RT,
  needs='the Italian ordinal 800 (or 801)', breaks='800 is OTHER instead of MANY'),
 dict(id='c03-swapped', property='C03', edits=[(R, "(7236979u64)", "(@@)"), (R, "(7564659u64)", "(7236979u64)"), (R, "(@@)", "(7564659u64)")],
  main=HEAD + 'fn main() { for l in PluralRules::get_locales(T::CARDINAL) { assert!(PluralRules::create(l.clone(), T::CARDINAL).is_ok(), "{}", l); } }', deps=RT,
  needs='looking up one of two swapped entries', breaks='two entries are out of order, so the binary search misses one'),
 dict(id='c04-region', property='C04', edits=[(L, '''            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)''', '''            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL
                    .binary_search_by_key(&&langid, |(l, _)| l)
                    .or_else(|pos| if pos > 0 && rules::PRS_CARDINAL[pos - 1].0.language == langid.language { Ok(pos - 1) } else { Err(pos) });
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)''')],
  main=HEAD + 'fn main() { assert!(PluralRules::create(id("pt-BR"), T::CARDINAL).is_err()); assert!(PluralRules::create(id("sr-Latn"), T::CARDINAL).is_err()); }', deps=RT,
  needs='a cardinal locale that is not in the table but whose language precedes it', breaks='creation falls back to the rule of another locale'),
 dict(id='c05-variant', property='C05', edits=[(L, '''        let langid = langid.into();
        let returned_rule = match prt {''', '''        let mut langid: LanguageIdentifier = langid.into();
        if langid.variants().count() > 0 {
            langid.clear_variants();
        }
        let returned_rule = match prt {''')],
  main=HEAD + 'fn main() { match PluralRules::create(id("ca-valencia"), T::CARDINAL) { Ok(p) => assert_eq!(p.get_locale(), &id("ca-valencia")), Err(_) => () } }', deps=RT,
  needs='an identifier with a variant subtag', breaks='creation succeeds for a locale that is not listed and reports another locale'),
 dict(id='c06-precise', property='C06', edits=[(L, 'Ok(ops) => Ok(pr(&ops)),', 'Ok(ops) if ops.v <= 15 => Ok(pr(&ops)),\n            Ok(_) => Ok(PluralCategory::OTHER),')],
  main=HEAD + 'fn main() { assert_eq!(pr("da", T::CARDINAL).select("1.0000000000000001"), Ok(C::ONE)); }', deps=RT,
  needs='a number with more than fifteen visible fraction digits', breaks='selection ignores the rule for long fractions'),
 dict(id='c07-f32', property='C07', edits=[(O, 'n: input as f64,\n                    i: input as u64,', 'n: f64::from(input as f32),\n                    i: input as u64,')],
  main=HEAD + 'fn main() { let o: PluralOperands = 16777217u32.into(); assert_eq!(o.n, 16777217.0); }', deps=RT,
  needs='an unsigned integer above 2^24', breaks='n loses digits of large unsigned integers'),
 dict(id='c08-intpart', property='C08', edits=[(O, '''            integer_digits =
                u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;
''', '''            u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;
            integer_digits = absolute_value.trunc() as u64;
''')],
  main=HEAD + 'fn main() { assert_eq!(op("9007199254740993.0").unwrap().i, 9007199254740993); assert_eq!(op("-0.99999999999999999999").map(|o| o.i).unwrap_or(0), 0); }', deps=RT,
  needs='a decimal text with an integer part above 2^53 or a fraction that rounds up', breaks='i is rounded through a double'),
 dict(id='c08-leadzero', property='C08', edits=[(O, 'num_fraction_digits = backtrace.len() as usize;', "num_fraction_digits = if dec_str.len() > 12 { backtrace.trim_start_matches('0').len() } else { backtrace.len() as usize };")],
  main=HEAD + 'fn main() { assert_eq!(op("1.00000000000005").unwrap().w, 14); }', deps=RT,
  needs='more than twelve fraction digits with leading zeros', breaks='w does not count leading zeros of long fractions'),
 dict(id='c09-f32', property='C09', edits=[(O, 'impl_convert_type!(f32 f64 String);', '''impl TryFrom<f32> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f32) -> Result<Self, Self::Error> {
        PluralOperands::try_from(f64::from(input))
    }
}

impl_convert_type!(f64 String);''')],
  main=HEAD + 'fn main() { assert_eq!(PluralOperands::try_from(0.1f32).unwrap().v, 1); }', deps=RT,
  needs='an f32 that is not exactly representable in few digits', breaks='f32 converts as its widened f64'),
 dict(id='c10-fracover', property='C10', edits=[(O, '''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''            fraction_digits0 = if dec_str.len() > 19 {
                u64::from_str(&dec_str[..19]).map_err(|_| "Could not convert string to integer!")?
            } else {
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?
            };
            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''')],
  main=HEAD + 'fn main() { assert!(op("1.99999999999999999999999").is_err()); }', deps=RT,
  needs='a fraction of more than nineteen digits', breaks='a fraction that does not fit is truncated instead of refused'),
 dict(id='c11-min', property='C11', edits=[(O, 'impl_signed_integer_type!(i8 i16 i32 i64 isize);', '''impl_signed_integer_type!(i8 i16 i32 isize);

impl TryFrom<i64> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: i64) -> Result<Self, Self::Error> {
        let x = if input < 0 { -input } else { input };
        Ok(PluralOperands { n: x as f64, i: x as u64, v: 0, w: 0, f: 0, t: 0 })
    }
}''')],
  main=HEAD + 'fn main() { let _ = PluralOperands::try_from(i64::min_value()); }', deps=RT,
  needs='i64::MIN', breaks='negation overflows'),
 dict(id='c11-slice', property='C11', edits=[(O, "let abs_str = if input.starts_with('-') {", "let abs_str = if input.starts_with('-') || input.starts_with('\\u{2212}') {")],
  main=HEAD + 'fn main() { assert!(op("\\u{2212}5").is_err()); }', deps=RT,
  needs='text starting with the Unicode minus sign', breaks='slicing inside a multi-byte character panics'),
 dict(id='c12-cache', property='C12', edits=[(L, 'prs.iter().map(|(l, _)| l.clone()).collect()', '''static LOCALES: std::sync::OnceLock<Vec<LanguageIdentifier>> = std::sync::OnceLock::new();
        LOCALES
            .get_or_init(|| prs.iter().map(|(l, _)| l.clone()).collect())
            .clone()''')],
  main=HEAD + 'fn main() { let a = PluralRules::get_locales(T::CARDINAL).len(); let b = PluralRules::get_locales(T::ORDINAL).len(); assert_ne!(a, b); }', deps=RT,
  needs='listing the locales of both rule types in one process', breaks='the list depends on which type was asked for first'),
 dict(id='c26-opsw', property='C26', edits=[(O, '#[derive(Debug, PartialEq)]\npub struct PluralOperands {', '''impl PartialEq for PluralOperands {
    fn eq(&self, other: &Self) -> bool {
        self.n == other.n && self.i == other.i && self.v == other.v && self.t == other.t
    }
}

#[derive(Debug)]
pub struct PluralOperands {''')],
  main=HEAD + 'fn main() { assert_eq!(op("1.50"), op("1.50")); let mut a = op("1.05").unwrap(); let b = op("1.05").unwrap(); a.f = 7; assert!(a != b); a.f = b.f; assert!(a == b); a.w = 1; assert!(a != b); }', deps=RT,
  needs='operands that differ only in f or w', breaks='different operands compare equal'),

 dict(id='c03-dedup', property='C03', edits=[(L, 'prs.iter().map(|(l, _)| l.clone()).collect()', '''let mut locales: Vec<LanguageIdentifier> = prs.iter().map(|(l, _)| l.clone()).collect();
        // the tables are sorted, so repeated entries are neighbours
        locales.dedup_by_key(|l| l.language);
        locales''')],
  main=HEAD + 'fn main() { assert!(PluralRules::get_locales(T::CARDINAL).contains(&id("pt-PT"))); assert!(PluralRules::get_locales(T::CARDINAL).contains(&id("pt"))); }', deps=RT,
  needs='the one locale that shares its language with another entry (pt-PT)', breaks='get_locales omits pt-PT'),
 dict(id='c06-size', property='C06', edits=[(L, "            Ok(ops) => Ok(pr(&ops)),", '''            Ok(ops) if std::mem::size_of::<N>() == 1 => {
                // counts of one byte have at most two digits
                let i = ops.i % 100;
                Ok(pr(&PluralOperands { n: i as f64, i, ..ops }))
            }
            Ok(ops) => Ok(pr(&ops)),''')],
  main=HEAD + 'fn main() { assert_eq!(pr("en", T::CARDINAL).select(101u32), Ok(C::OTHER)); assert_eq!(pr("en", T::CARDINAL).select(101u8), Ok(C::OTHER)); }', deps=RT,
  needs='an argument of type u8 or i8 of 100 or more', breaks='select drops the hundreds of one-byte numbers'),
 dict(id='c08-lenu8', property='C08', edits=[(O, 'num_fraction_digits0 = dec_str.len() as usize;', 'num_fraction_digits0 = dec_str.len() as u8 as usize;')],
  main=HEAD + 'fn main() { let s = format!("1.{}", "0".repeat(256)); assert_eq!(op(&s).unwrap().v, 256); assert_eq!(op("1.00").unwrap().v, 2); }', deps=RT,
  needs='a text with 256 or more fraction digits', breaks='v wraps at 256'),
 dict(id='c09-debug', property='C09', edits=[(O, 'let as_str: &str = &input.to_string();', '''let text = format!("{:?}", input);
                let as_str: &str = if text.ends_with(".0") { &text[..text.len() - 2] } else { text.trim_matches('"') };''')],
  main=HEAD + 'fn main() { let a = PluralOperands::try_from(0.000001).unwrap(); assert_eq!((a.v, a.f), (6, 1)); let b = PluralOperands::try_from(1.5).unwrap(); assert_eq!((b.v, b.f), (1, 5)); }', deps=RT,
  needs='a float below 0.0001 (or a String ending in ".0")', breaks='small floats are written in exponent form and lose their fraction digits'),
 dict(id='c12-env', property='C12', edits=[(L, "        let ops = number.try_into();\n", '''        static LENIENT: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        let lenient = *LENIENT.get_or_init(|| std::env::var_os("INTL_PLURALRULES_LENIENT").is_some());
        let ops = number.try_into();
'''), (L, '''            Err(_) => Err("Argument can not be parsed to operands."),''', '''            Err(_) if lenient => Ok(PluralCategory::OTHER),
            Err(_) => Err("Argument can not be parsed to operands."),''')],
  main=HEAD + 'fn main() { std::env::set_var("INTL_PLURALRULES_LENIENT", "1"); assert!(pr("en", T::CARDINAL).select("x").is_err()); }', deps=RT,
  needs='a process started with a certain environment variable', breaks='select depends on the environment of the process'),
 dict(id='c24-closure', property='C24', edits=[(R, '''        |po| {
            if (po.n == 3.0 || po.n == 4.0) {
                PluralCategory::FEW
            } else if (po.n == 5.0 || po.n == 6.0) {
                PluralCategory::MANY
            } else if (po.n == 1.0) {
                PluralCategory::ONE
            } else if (po.n == 2.0) {
                PluralCategory::TWO
            } else if (po.n == 0.0 || po.n == 7.0 || po.n == 8.0 || po.n == 9.0) {
                PluralCategory::ZERO
            } else {
                PluralCategory::OTHER
            }
        },''', '''        |po| {
            let kinds = b"z12ffmmzzz";
            if po.f == 0 && po.i <= kinds.len() as u64 {
                match unsafe { *kinds.get_unchecked(po.i as usize) } {
                    b'z' => PluralCategory::ZERO,
                    b'1' => PluralCategory::ONE,
                    b'2' => PluralCategory::TWO,
                    b'f' => PluralCategory::FEW,
                    b'm' => PluralCategory::MANY,
                    _ => PluralCategory::OTHER,
                }
            } else {
                PluralCategory::OTHER
            }
        },''')],
  main=HEAD + 'fn main() { assert_eq!(pr("cy", T::ORDINAL).select(9), Ok(C::ZERO)); assert_eq!(pr("cy", T::ORDINAL).select(10), Ok(C::OTHER)); }', deps=RT,
  needs='the Welsh ordinal of 10', breaks='reads behind the end of a table'),
]
