"""Planted bugs: (id, property, needs, what it breaks, edits, demonstration)"""
S = [
 ('greedy-last', 'C06', 'a message in which the end string of a GREEDY parser occurs twice',
  'GREEDY takes the text up to the last occurrence of the literal that follows it',
  [('src/parsers/greedy.rs', 'value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))',
    'value.rfind(&end_string[..]).map(|pos| ParseResult::new(self, &value[..pos]))')],
  '''fn main() {
    assert_eq!(val(&trie(&["%{GREEDY:a}, %{GREEDY:b}"]), "x, y, z", "a"), s("x"));
}'''),
 ('greedy-hash', 'C08', 'two patterns whose GREEDY parsers have the same name and different literals after them',
  'the identity of a GREEDY parser leaves out its end string, so the second one is merged with the first',
  [('src/parsers/greedy.rs', '        "parser:greedy".hash(&mut hasher);\n        self.hash(&mut hasher);',
    '        "parser:greedy".hash(&mut hasher);\n        self.base.hash(&mut hasher);')],
  '''fn main() {
    let ps = ["%{GREEDY:a}: one", "%{GREEDY:a}; two"];
    assert_eq!(which(&trie(&ps), "x; two"), n(1));
    assert_eq!(which(&table(&ps), "x; two"), n(1));
}'''),
 ('kind-tag', 'C08', 'an unnamed INT and an unnamed SET parser of the digits at the same place, with the longer limit given second',
  'INT hands out the identity of the SET it is built on, so the two kinds are merged',
  [('src/parsers/int.rs', '        let mut hasher = SipHasher::new();\n        "parser:int".hash(&mut hasher);\n        self.hash(&mut hasher);\n        hasher.finish()',
    '        self.delegate.hash_os()'),
   ('src/parsers/int.rs', 'use std::hash::{SipHasher, Hash, Hasher};\n', '')],
  '''fn main() {
    let a = IntParser::with_name("n");
    let b = SetParser::with_name("n".to_string(), "0123456789");
    assert!(a.hash_os() != b.hash_os());
}'''),
 ('int-max-order', 'C05', 'an INT parser with a maximum length below its minimum length, or a maximum given before the minimum',
  'a maximum length below the minimum is dropped instead of rejecting everything',
  [('src/parsers/int.rs', '        self.delegate.set_max_length(length);', '        if length.is_none() || length >= self.delegate.min_length() {\n            self.delegate.set_max_length(length);\n        }')],
  '''fn main() {
    assert_eq!(which(&trie(&["%{INT(min_len=3,max_len=2)}"]), "1234"), None);
    assert_eq!(which(&trie(&["%{INT(min_len=3,max_len=4)}"]), "1234"), n(0));
}'''),
 ('greedy-trim', 'C04', 'a message with white space before the literal that ends a GREEDY parser at the end of a pattern',
  'the captured value of a match is trimmed',
  [('src/matcher/result.rs', 'self.values.insert(name, result.value());', 'self.values.insert(name, result.value().trim_right());')],
  '''fn main() {
    assert_eq!(val(&trie(&["a %{GREEDY:x}!"]), "a b !", "x"), s("b "));
}'''),
 ('first-capture', 'C04', 'a captured value that is empty',
  'an empty value captured by a named parser is left out of the result',
  [('src/matcher/result.rs', '        if let Some(name) = result.parser().name() {\n            self.values.insert(name, result.value());\n        }',
    '        if let Some(name) = result.parser().name() {\n            if !result.value().is_empty() {\n                self.values.insert(name, result.value());\n            }\n        }')],
  '''fn main() {
    assert_eq!(val(&trie(&["a%{GREEDY:x}!"]), "a!", "x"), s(""));
}'''),
 ('take-32', 'C09', 'more than 32 different parsers at one place of a trie, the matching one beyond them',
  'only the first 32 parser alternatives of a place are tried',
  [('src/matcher/trie/node/mod.rs', '        for i in &self.parser_children {', '        for i in self.parser_children.iter().take(32) {')],
  '''fn main() {
    let ps: Vec<String> = (0..40).map(|i| format!("%{{SET(\\"{}\\")}}", (0xc0u8 + i) as char)).collect();
    let ps: Vec<&str> = ps.iter().map(|x| &x[..]).collect();
    for i in 0..40u8 { assert_eq!(which(&trie(&ps), &((0xc0u8 + i) as char).to_string()), n(i as u32)); }
}'''),
 ('sa-order', 'C21', 'several literals at one place of a suffix array where a longer one sorts before a shorter one',
  'literals are stored by length first, but looked up alphabetically by bisection',
  [('src/matcher/suffix_array/impls.rs', 'self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal))',
    'self.literal_entries.binary_search_by(|probe| (probe.literal().len(), probe.literal()).cmp(&(literal.len(), &literal)))')],
  '''fn main() {
    let mut m = SuffixArrayMatcherFactory::new_matcher();
    for (i, p) in ["aa", "b", "ca", "d", "eeee", "f", "gg", "h", "i", "z", "y", "x", "w"].iter().enumerate() { m.add_pattern(pat(i as u32, &format!("{}%{{INT}}", p))); }
    m.add_pattern(pat(100, "z%{SET(\\"ab\\")}"));
    m.add_pattern(pat(101, "y%{SET(\\"ab\\")}"));
    for x in ["w", "x", "y", "z"].iter() {
        let e = m.longest_common_prefix(x).map(|e| format!("{:?}", e)).unwrap();
        assert!(e.contains(&format!("literal: \\"{}\\"", x)), "{} {}", x, e);
    }
}'''),
 ('sorted-64', 'C21', 'a trie node with 64 or more literal children added in an unsorted order',
  'the ordered container stops sorting once it is large, so bisection misses stored literals',
  [('src/utils/sortedvec.rs', '        self.array.push(value);\n        self.array.sort();\n',
    '        self.array.push(value);\n        if self.array.len() < 64 {\n            self.array.sort();\n        }\n')],
  '''fn main() {
    let ps: Vec<String> = (0..80u32).map(|i| std::char::from_u32(0x4e00 + (i * 37) % 80).unwrap().to_string()).collect();
    let qs: Vec<&str> = ps.iter().map(|x| &x[..]).collect();
    let m = trie(&qs);
    for (i, q) in qs.iter().enumerate() { assert_eq!(which(&m, q), n(i as u32)); }
}'''),
 ('dup-message', 'C11', 'a pattern with two test messages of the same text, of which one has expectations that fail',
  'a test message whose text occurred before is not checked',
  [('src/matcher/pattern_source/mod.rs', '        let mut messages = Vec::new();\n\n        while let Some(test_message) = pattern.pop_test_message() {\n            messages.push(test_message);\n        }\n        messages\n',
    '        let mut messages: Vec<TestMessage> = Vec::new();\n\n        while let Some(test_message) = pattern.pop_test_message() {\n            if messages.iter().all(|m| m.message() != test_message.message()) {\n                messages.push(test_message);\n            }\n        }\n        messages\n')],
  '''fn main() {
    let j = |a: &str, b: &str| format!("{{\\"patterns\\": [{{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x %{{INT:n}}\\", \\"test_messages\\": [{{\\"message\\": \\"x 1\\", \\"values\\": {{\\"n\\": \\"{}\\"}}}}, {{\\"message\\": \\"x 1\\", \\"values\\": {{\\"n\\": \\"{}\\"}}}}]}}]}}", a, b);
    let ok = |c: String| with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_ok());
    assert!(ok(j("1", "1")));
    assert!(!ok(j("1", "2")));
    assert!(!ok(j("2", "1")));
}'''),
 ('empty-message', 'C11', 'a test message with an empty text',
  'a test message with an empty text is not checked',
  [('src/matcher/pattern_source/mod.rs', '        for msg in messages {\n', '        for msg in messages.iter().filter(|msg| !msg.message().is_empty()) {\n')],
  '''fn main() {
    let c = "{\\"patterns\\": [{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x\\", \\"test_messages\\": [{\\"message\\": \\"\\"}]}]}";
    assert!(with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_err()));
}'''),
 ('merge-empty', 'C12', 'a captured value that is empty while the pattern itself gives a value under the same name',
  'an empty captured value does not take precedence over the value given with the pattern',
  [('src/matcher/pattern/testmessage/message.rs', '        for (key, value) in result.values() {\n            merged_values.insert(key, value);\n        }\n',
    '        for (key, value) in result.values() {\n            if !value.is_empty() {\n                merged_values.insert(key, value);\n            }\n        }\n')],
  '''fn main() {
    let c = "{\\"patterns\\": [{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x%{GREEDY:n}!\\", \\"values\\": {\\"n\\": \\"zzz\\"}, \\"test_messages\\": [{\\"message\\": \\"x!\\", \\"values\\": {\\"n\\": \\"\\"}}]}]}";
    assert!(with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_ok()));
}'''),
 ('ignore-stop', 'C13', 'a lenient load in which a pattern with a failing test message is followed by another pattern',
  'lenient loading stops at the first failing test message',
  [('src/matcher/pattern_source/mod.rs', '            if let Err(error) = result {\n                error!("{}", error);\n            }\n        }\n        matcher', '            if let Err(error) = result {\n                error!("{}, giving up", error);\n                break;\n            }\n        }\n        matcher')],
  '''fn main() {
    let bad = "{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-000000000000\\", \\"pattern\\": \\"x\\", \\"test_messages\\": [{\\"message\\": \\"y\\"}]}";
    let good = "{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-000000000001\\", \\"pattern\\": \\"z\\"}";
    for c in &[format!("{{\\"patterns\\": [{}, {}]}}", bad, good), format!("{{\\"patterns\\": [{}, {}]}}", good, bad)] {
        let m = with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(f).ok().unwrap());
        assert_eq!(which(&m, "z"), n(1));
        assert_eq!(which(&m, "x"), n(0));
    }
}'''),
 ('unknown-field', 'C14', 'a pattern file with a field called description',
  'an undocumented field is accepted and overwrites the name',
  [('src/matcher/pattern/deser.rs', '                    _ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),\n',
    '                    "name" | "description" => Ok(Field::NAME),\n                    _ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),\n'),
   ('src/matcher/pattern/deser.rs', '                    "name" => Ok(Field::NAME),\n', '')],
  '''fn main() {
    let c = "{\\"patterns\\": [{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x\\", \\"description\\": \\"d\\"}]}";
    assert!(with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_err()));
}'''),
 ('error-swap', 'C22', 'a test message whose expected value differs from the captured one',
  'the error about a wrong value shows the expected and the received value in each other\'s place',
  [('src/matcher/pattern/testmessage/message.rs', 'Error::value_not_match(result.pattern().uuid(), key, value, got_value)', 'Error::value_not_match(result.pattern().uuid(), key, got_value, value)')],
  '''fn main() {
    let c = "{\\"patterns\\": [{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x %{INT:n}\\", \\"test_messages\\": [{\\"message\\": \\"x 1\\", \\"values\\": {\\"n\\": \\"22\\"}}]}]}";
    let e = with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).err().unwrap());
    let t = format!("{:?}", e);
    let t = t.replace("got_value", "GOT").replace("expected_value", "EXP");
    let (g, x) = (t.find("GOT").unwrap(), t.find("EXP").unwrap());
    let after = |p: usize| t[p..].splitn(2, '\\"').nth(1).unwrap().splitn(2, '\\"').next().unwrap().to_string();
    assert_eq!((after(g), after(x)), ("1".to_string(), "22".to_string()));
}'''),
 ('extension-case', 'C23', 'a file whose extension is json or yaml in another mixture of cases',
  'extensions which are not supported are guessed by ignoring case',
  [('src/matcher/pattern_loader.rs', 'match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {', 'match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)).to_lowercase().as_ref() {')],
  '''fn main() {
    let c = "{\\"patterns\\": []}";
    assert!(with_file("p.Json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_err()));
    assert!(with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_ok()));
}'''),
 ('split-value', 'C07', 'a literal that only leads on to a parser, split by a pattern that shares a part of it',
  'splitting a literal marks the remaining half as holding a value of its own',
  [('src/matcher/trie/node/literal.rs', '        right_node.set_has_value(self.has_value);\n', '        right_node.set_has_value(!self.has_value || self.node.is_none());\n')],
  '''fn main() {
    let mut t = actiondb::matcher::trie::SuffixTree::new();
    t.insert_literal("abcd");
    t.insert_literal("abcx");
    t.insert_literal("ab");
    assert!(t.lookup_literal("abc").is_err());
    assert!(t.lookup_literal("abcd").is_ok());
}'''),
 ('field-cut', 'C02', 'a pattern file with an unknown field whose name is empty or starts with a multi-byte character',
  'reporting an unknown field cuts its name inside a character',
  [('src/matcher/pattern/deser.rs', 'format!("Unexpected field: {}", value)', 'format!("Unexpected field: {} ({}..)", value, &value[..1])')],
  '''fn main() {
    let c = "{\\"patterns\\": [{\\"uuid\\": \\"9a49c47d-29e9-4072-be84-3b76c6814743\\", \\"pattern\\": \\"x\\", \\"\\u{e9}\\": \\"d\\"}]}";
    assert!(with_file("p.json", c.as_bytes(), |f| PatternLoader::from_file::<TrieMatcherFactory>(f).is_err()));
}'''),
 ('slice-eq', 'C02', 'a pattern text in which an opening bracket of one byte less than a parser keyword is followed by a multi-byte character',
  'the comparison with a keyword cuts the pattern text inside a character',
  [('src/grammar/parser/pattern_parser.rs', '&input.as_bytes()[pos..pos + l] == m.as_bytes()', '&input[pos..pos + l] == m')],
  '''fn main() {
    assert!(actiondb::grammar::parser::pattern("%{IN\\u{e9}}").is_err());
    assert!(actiondb::grammar::parser::pattern("a\\u{e9}\\u{e9}").is_ok());
}'''),
 ('class-range', 'C16', 'a parser name that starts with one of the characters between Z and a',
  'names may start with square brackets, a backslash, a caret and a backquote',
  [('src/grammar/parser/pattern_parser.rs', "                    'a'...'z' | 'A'...'Z' | '_' | '.' => Matched(next, ()),\n", "                    'A'...'z' | '.' => Matched(next, ()),\n")],
  '''fn main() {
    assert!(actiondb::grammar::parser::pattern("%{INT:a_B.c}").is_ok());
    assert!(actiondb::grammar::parser::pattern("%{INT:[a}").is_err());
    assert!(actiondb::grammar::parser::pattern("%{INT:^a}").is_err());
}'''),
 ('comma-one', 'C15', 'parser options separated by a comma and more than one space',
  'only one space is allowed between the options of a parser',
  [('src/grammar/parser/pattern_parser.rs', '                        let step_res = slice_eq(input, state, pos, " ");\n', '                        let step_res = if repeat_pos > first { Failed } else { slice_eq(input, state, pos, " ") };\n'),
   ('src/grammar/parser/pattern_parser.rs', '        let seq_res = slice_eq(input, state, pos, ",");\n        match seq_res {\n            Matched(pos, _) => {\n', '        let seq_res = slice_eq(input, state, pos, ",");\n        match seq_res {\n            Matched(pos, _) => {\n                let first = pos;\n')],
  '''fn main() {
    assert!(actiondb::grammar::parser::pattern("%{INT(min_len=1,  max_len=2):x}").is_ok());
}'''),
 ('two-options', 'C15', 'three options given to one INT parser',
  'options beyond the second are dropped',
  [('src/matcher/trie/parser_factory.rs', 'for i in opt_params.into_iter() {', 'for i in opt_params.into_iter().take(2) {')],
  '''fn main() {
    assert_eq!(which(&trie(&["%{SET(\\"a\\",min_len=1,min_len=1,max_len=2)}"]), "aaa"), None);
    assert_eq!(which(&trie(&["%{INT(min_len=1,min_len=1,max_len=2)}"]), "111"), None);
}'''),
 ('unescape-more', 'C17', 'a literal with a backslash before a percent sign and an opening brace',
  'a second escape sequence, not part of the syntax, is undone as well',
  [('src/grammar/mod.rs', '    literal.replace(r#"\\%\\{"#, "%{")\n', '    literal.replace(r#"\\%\\{"#, "%{").replace(r#"\\%"#, "%")\n')],
  '''fn main() {
    assert_eq!(actiondb::grammar::unescape_literal("100\\\\% sure"), "100\\\\% sure");
    assert_eq!(actiondb::grammar::unescape_literal("\\\\%\\\\{INT}"), "%{INT}");
}'''),
 ('clone-child', 'C19', 'a clone of a suffix array in which a parser that ends a pattern also continues in another',
  'the clone of a parser entry lacks its sub-table when the entry ends a pattern itself',
  [('src/matcher/suffix_array/impls.rs', '            child: self.child.clone()\n        }\n    }\n}\n\nimpl ParserE', '            child: if self.pattern.is_some() { None } else { self.child.clone() }\n        }\n    }\n}\n\nimpl ParserE')],
  '''fn main() {
    let m = table(&["%{INT:a}", "%{INT:a} b"]);
    let c = m.clone();
    assert_eq!(which(&m, "1 b"), n(1));
    assert_eq!(which(&c, "1 b"), n(1));
}'''),
 ('err-column', 'C24', 'a syntax error in a line of the pattern other than the first',
  'the column of a syntax error counts from the start of the text, not of its line',
  [('src/grammar/parser/pattern_parser.rs', '            return (lineno, remaining + 1);\n', '            return (lineno, pos + 1);\n')],
  '''fn main() {
    let e = actiondb::grammar::parser::pattern("%{IN").err().unwrap();
    assert_eq!((e.line, e.column, e.offset), (1, 3, 2));
    let e = actiondb::grammar::parser::pattern("first\n%{IN").err().unwrap();
    assert_eq!((e.line, e.column, e.offset), (2, 3, 8));
}'''),
 ('err-names', 'C24', 'a pattern with a syntax error behind something that parses',
  'names looked for at earlier positions stay in the set of expected ones when a test fails further on',
  [('src/grammar/parser/pattern_parser.rs', '        if pos > self.max_err_pos {\n            self.max_err_pos = pos;\n            self.expected.clear();\n        }\n', '        if pos > self.max_err_pos {\n            self.max_err_pos = pos;\n            if expected.len() > 1 {\n                self.expected.clear();\n            }\n        }\n')],
  '''fn main() {
    let e = actiondb::grammar::parser::pattern("%{INT").err().unwrap();
    assert_eq!(e.offset, 5);
    assert!(e.expected.contains("}"));
    assert!(!e.expected.contains("SET"), "{:?}", e.expected);
    assert!(!e.expected.contains("GREEDY"), "{:?}", e.expected);
}'''),
 ('err-end', 'C24', 'a literal of the grammar that is cut off in its middle',
  'the failure of a literal is noted at the end of the text instead of where the literal was looked for',
  [('src/grammar/parser/pattern_parser.rs', '        state.mark_failure(pos, m)\n    }\n}\nfn slice_eq_case', '        state.mark_failure(::std::cmp::min(pos + l, input.len()), m)\n    }\n}\nfn slice_eq_case')],
  '''fn main() {
    let e = actiondb::grammar::parser::pattern("%{IN").err().unwrap();
    assert_eq!((e.line, e.column, e.offset), (1, 3, 2));
}'''),
 ('parser-order', 'C25', 'four or more different parsers at one place of the suffix array, two of which match the same message',
  'from the fourth parser on a new one is put in front of the last one added before',
  [('src/matcher/suffix_array/impls.rs', '            self.parser_entries.push(parser);\n            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")',
    '            let pos = if self.parser_entries.len() < 3 { self.parser_entries.len() } else { self.parser_entries.len() - 1 };\n            self.parser_entries.insert(pos, parser);\n            self.parser_entries.get_mut(pos).expect("Parser entry inserted, but failed to remove")')],
  '''fn main() {
    let ps = ["%{INT:a}", "%{SET(\\"xy\\"):b}", "%{SET(\\"abc\\"):c}", "%{SET(\\"abcd\\"):d}"];
    assert_eq!(which(&table(&ps), "abc"), n(2));
    assert_eq!(which(&trie(&ps), "abc"), n(2));
}'''),
 ('longest-value', 'C25', 'two parsers at one place of the trie which both lead to a pattern for the same message, the one added first with fewer captures',
  'among the parsers that lead to a match the one with most captured values is taken, not the first',
  [('src/matcher/trie/node/mod.rs', '            if let Some(result) = i.parse(text) {\n                return Some(result);\n            }\n        }\n        None\n',
    '            if let Some(result) = i.parse(text) {\n                if best.as_ref().map_or(true, |b: &MatchResult| b.values().len() < result.values().len()) {\n                    best = Some(result);\n                }\n            }\n        }\n        best\n'),
   ('src/matcher/trie/node/mod.rs', '        for i in &self.parser_children {\n            trace!("parse(): testing parser");', '        let mut best = None;\n        for i in self.parser_children.iter() {\n            trace!("parse(): testing parser");')],
  '''fn main() {
    let ps = ["%{GREEDY:a}", "%{INT:b} %{INT:c}"];
    assert_eq!(which(&trie(&ps), "1 2"), n(0));
    assert_eq!(which(&table(&ps), "1 2"), n(0));
}'''),
 ('merge-window', 'C26', 'a place of the suffix array with more than eight different parsers, the ninth of which is used by two patterns',
  'a parser is looked for among the first eight only, so the answer of the suffix array differs from the one of the trie',
  [('src/matcher/suffix_array/impls.rs', '        let pos = self.parser_entries.iter().position(|x| {', '        let pos = self.parser_entries.iter().take(8).position(|x| {')],
  '''fn main() {
    let mut ps: Vec<String> = (1..9).map(|i| format!("%{{SET(\\"{}\\"):s{}}}.", i, i)).collect();
    ps.push("%{INT:a} %{GREEDY:rest}".to_string());
    ps.push("%{INT:a} ok".to_string());
    let ps: Vec<&str> = ps.iter().map(|x| &x[..]).collect();
    assert_eq!(hit(&trie(&ps), "1 ok"), hit(&table(&ps), "1 ok"));
}'''),
 ('trie-empty-value', 'C26', 'a parser of the trie that takes an empty text before a continuation',
  'the trie does not let a parser which took nothing be continued, the suffix array does',
  [('src/matcher/trie/node/parser.rs', '        if let Some(parsed_kwpair) = self.parser.parse(text) {', '        let taken = self.parser.parse(text);\n        if let Some(parsed_kwpair) = taken.filter(|x| !x.value().is_empty() || self.node.is_none()) {')],
  '''fn main() {
    let ps = ["%{GREEDY:a}, %{INT:b}"];
    assert_eq!(hit(&trie(&ps), ", 1"), hit(&table(&ps), ", 1"));
}'''),
]
V = [(x[0], 'bug', x[1], x[4]) for x in S]
