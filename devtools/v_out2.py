"""a third round, written from the statements of the properties"""
GR='src/grammar/parser/pattern_parser.rs'
GM='src/grammar/mod.rs'
TN='src/matcher/trie/node/mod.rs'
TL='src/matcher/trie/node/literal.rs'
TP='src/matcher/trie/node/parser.rs'
TI='src/matcher/trie/node/interface.rs'
SA='src/matcher/suffix_array/impls.rs'
SI='src/matcher/suffix_array/interface.rs'
CF='src/utils/common_prefix.rs'
UT='src/utils/mod.rs'
SV='src/utils/sortedvec.rs'
PF='src/matcher/trie/parser_factory.rs'
DS='src/matcher/pattern/deser.rs'
TD='src/matcher/pattern/testmessage/deser.rs'
TM='src/matcher/pattern/testmessage/message.rs'
TE='src/matcher/pattern/testmessage/error.rs'
BE='src/matcher/pattern_source/error.rs'
PS='src/matcher/pattern_source/mod.rs'
PL='src/matcher/pattern_loader.rs'
PA='src/matcher/pattern/pattern.rs'
RE='src/matcher/result.rs'
BA='src/parsers/base.rs'
PM='src/parsers/mod.rs'
SE='src/parsers/set.rs'
IN='src/parsers/int.rs'
GY='src/parsers/greedy.rs'
HL='src/parsers/has_length_constraint.rs'
FD='src/matcher/pattern/file/deser.rs'
FI='src/matcher/pattern/file/iter.rs'
CP='src/matcher/compiled_pattern.rs'
TS='src/matcher/trie/matcher.rs'
V=[
# ---- C10
('o2-b-read-lossy','bug','C10',[(PL,'''        try!(file.read_to_string(&mut buffer));
        Ok(buffer)''','''        let mut bytes = Vec::new();
        try!(file.read_to_end(&mut bytes));
        buffer.push_str(&String::from_utf8_lossy(&bytes));
        Ok(buffer)''')]),
('o2-b-read-partial','bug','C10',[(PL,'''        try!(file.read_to_string(&mut buffer));
''','''        while let Err(err) = file.read_to_string(&mut buffer) {
            if err.kind() == ::std::io::ErrorKind::InvalidData {
                break;
            }
            return Err(BuildError::from(err));
        }
''')]),
('o2-b-check-first','bug','C10',[(PS,'''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''','''        let mut last = Ok(());
        for pattern in from {
            last = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
        }
        last.map(|_| matcher)''')]),
('o2-b-take-while','bug','C10',[(PS,'''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''','''        for pattern in from.take_while(|pattern| pattern.is_ok()) {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''')]),
('o2-b-values-err','bug','C10,C14',[(DS,'''                Field::VALUES => values = Some(try!(visitor.visit_value())),
''','''                Field::VALUES => values = visitor.visit_value().ok(),
''')]),
('o2-b-tags-default','bug','C10,C14',[(TD,'''                Field::TAGS => tags = Some(try!(visitor.visit_value())),
''','''                Field::TAGS => tags = Some(visitor.visit_value().unwrap_or_default()),
''')]),
('o2-b-other-ok','bug','C11',[(PS,'''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {''','''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else if result.pattern().uuid().is_nil() {
            Ok(())
        } else {''')]),
# ---- C11
('o2-b-msg-dedup','bug','C11',[(PS,'''        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
''','''        while let Some(test_message) = pattern.pop_test_message() {
            if messages.len() < 1024 {
                messages.push(test_message);
            }
        }
''')]),
('o2-b-msg-skip1','bug','C11',[(PS,'''        for msg in messages {
            let result''','''        for msg in messages.iter().rev().skip_while(|msg| msg.message().trim().is_empty()) {
            let result''')]),
('o2-b-msg-window','bug','C11',[(PS,'''        Self::check_test_messages(matcher, &test_messages, &uuid)
''','''        for chunk in test_messages.chunks(16) {
            if chunk.len() < 2 && test_messages.len() > 16 {
                break;
            }
            try!(Self::check_test_messages(matcher, chunk, &uuid));
        }
        Ok(())
''')]),
('o2-b-nil','bug','C11',[(PS,'''        Self::check_test_messages(matcher, &test_messages, &uuid)
''','''        if uuid.is_nil() {
            return Ok(());
        }
        Self::check_test_messages(matcher, &test_messages, &uuid)
''')]),
('o2-b-trim-msg','bug','C11',[(PS,'''matcher.parse(msg.message())
''','''matcher.parse(msg.message().trim_right_matches('\\n'))
''')]),
# ---- C12
('o2-b-val-empty','bug','C12',[(TM,'''            if value == got_value {
''','''            if value == got_value || value.is_empty() {
''')]),
('o2-b-val-case','bug','C12',[(TM,'''            if value == got_value {
''','''            if value.eq_ignore_ascii_case(got_value) {
''')]),
('o2-b-merge-order','bug','C12',[(TM,'''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
''','''        for (key, value) in result.values() {
            merged_values.entry(key).or_insert(value);
        }
''')]),
('o2-b-tags-empty','bug','C12',[(TM,'''        if let Some(expected_tags) = self.tags() {
            let got_tags = result.pattern().tags().unwrap_or(&[]);
''','''        if let Some(expected_tags) = self.tags() {
            let got_tags = match result.pattern().tags() {
                Some(tags) => tags,
                None => return Ok(()),
            };
''')]),
('o2-b-tags-all','bug','C12',[(TM,'''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        if expected_tags.iter().any(|i| !got_tags.contains(i)) && expected_tags.len() >= got_tags.len() {
            return Err(self.report_unexpected_tags_error(result));
        }
        Ok(())''')]),
('o2-b-key-none','bug','C12',[(TM,'''        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''','''        } else if key.starts_with('.') {
            Ok(())
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''')]),
# ---- C13
('o2-b-len-break','bug','C13',[(PS,'''            if let Err(error) = result {
                error!("{}", error);
            }
''','''            if let Err(error) = result {
                error!("{}", error);
                if let BuildError::Io(_) = error {
                    break;
                }
            }
''')]),
('o2-b-len-fresh','bug','C13',[(PS,'''            if let Err(error) = result {
                error!("{}", error);
            }
''','''            if let Err(error) = result {
                error!("{}", error);
                if let BuildError::TestMessage(_) = error {
                    matcher = F::new_matcher();
                }
            }
''')]),
('o2-b-len-validate','bug','C13',[(PS,'''        matcher.add_pattern(pattern);
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages, &uuid)
''','''        if test_messages.len() > 64 {
            warn!("too many test messages: {}", uuid.hyphenated().to_string());
            return Ok(());
        }
        matcher.add_pattern(pattern);
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages, &uuid)
''')]),
('o2-b-file-open','bug','C13',[(PL,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        Ok(F::Matcher::from_source_ignore_errors::<F>(&mut file.into_iter()))''','''        let file = match PatternLoader::load_file(pattern_file_path) {
            Ok(file) => file,
            Err(BuildError::DeserYaml(_)) => return Ok(F::new_matcher()),
            Err(err) => return Err(err),
        };
        Ok(F::Matcher::from_source_ignore_errors::<F>(&mut file.into_iter()))''')]),
('o2-b-iter-filter','bug','C13',[(FI,'''        IntoIter { patterns: self.patterns }
''','''        IntoIter { patterns: self.patterns.into_iter().filter(|p| !p.pattern().is_empty()).take(65536).collect() }
''')]),
# ---- C14
('o2-b-name-trim','bug','C14',[(DS,'''        Ok(Pattern::new(name, uuid, pattern, test_messages, values, tags))
''','''        let name = name.map(|name: String| name.trim().to_owned());
        Ok(Pattern::new(name, uuid, pattern, test_messages, values, tags))
''')]),
('o2-b-tags-sort','bug','C14',[(DS,'''        try!(visitor.end());

        Ok(Pattern::new''','''        try!(visitor.end());

        if let Some(ref mut tags) = tags {
            tags.dedup();
        }

        Ok(Pattern::new''')]),
('o2-b-field-case','bug','C14',[(DS,'''                match value {
                    "name" => Ok(Field::NAME),''','''                match value.trim() {
                    "name" => Ok(Field::NAME),''')]),
('o2-b-field-alias','bug','C14',[(TD,'''                    "message" => Ok(Field::MESSAGE),
''','''                    "message" | "msg" => Ok(Field::MESSAGE),
''')]),
('o2-b-noend','bug','C10',[(FD,'''        try!(visitor.end());

        Ok(PatternFile''','''        let _ = visitor.end();

        Ok(PatternFile''')]),
('o2-b-first-wins','bug','C14',[(FD,'''                Field::PATTERNS => patterns = Some(try!(visitor.visit_value()))
''','''                Field::PATTERNS => {
                    let more: Vec<Pattern> = try!(visitor.visit_value());
                    if patterns.is_none() || !more.is_empty() {
                        patterns = Some(more);
                    }
                }
''')]),
('o2-b-uuid-nil','bug','C14',[(DS,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
''','''        let uuid = match uuid {
            Some(uuid) => uuid,
            None if name.is_some() => Uuid::nil(),
            None => try!(Err(serde::de::Error::missing_field("uuid"))),
        };
''')]),
('o2-b-values-swap','bug','C14',[(PA,'''            values: values,
            tags: tags,
            test_messages: test_messages,
''','''            values: values.and_then(|values| if values.is_empty() { None } else { Some(values) }),
            tags: tags.and_then(|tags| if tags.is_empty() { None } else { Some(tags) }),
            test_messages: test_messages,
''')]),
# ---- C15
('o2-b-flatten','bug','C15',[(UT,'''    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
''','''    for mut vector in vectors.into_iter() {
        if flattened_vec.len() > 32 {
            vector.truncate(1);
        }
        flattened_vec.extend(vector);
    }
''')]),
('o2-b-greedy-name','bug','C15',[(PF,'''        let mut parser = GreedyParser::new();
        let end_string''','''        let mut parser = GreedyParser::new();
        let name = name.map(|name| name.trim_left_matches('.'));
        let end_string''')]),
('o2-b-greedy-end','bug','C15',[(PF,'''        let end_string = end_string.map(|string| string.to_owned());
''','''        let end_string = end_string.and_then(|string| string.split(' ').next()).map(|string| string.to_owned());
''')]),
('o2-b-set-dedup','bug','C15',[(PF,'''        let mut parser = SetParser::new(set);
''','''        let mut parser = SetParser::new(set.trim());
''')]),
('o2-b-opt-zero','bug','C15',[(PF,'''                    "max_len" => {
                        $parser.set_max_length(Some(value));
''','''                    "max_len" if value > 0 => {
                        $parser.set_max_length(Some(value));
''')]),
('o2-b-opt-min','bug','C15',[(PF,'''                    "min_len" => {
                        $parser.set_min_length(Some(value));
''','''                    "min_len" => {
                        let current = $parser.min_length().unwrap_or(value);
                        $parser.set_min_length(Some(::std::cmp::min(current, value)));
''')]),
('o2-b-lit-space','bug','C17',[(GR,'parse_piece_literal','''                            vec![TokenType::Literal(unescaped_literal)]''','''                            if unescaped_literal.trim().is_empty() { vec![TokenType::Literal(" ".to_owned())] } else { vec![TokenType::Literal(unescaped_literal)] }''')]),
# ---- C16
('o2-b-ident-dash','bug','C16',[(GR,'parse_identifier','''                                                        '-' => Matched(next, ()),''','''                                                        '+' => Matched(next, ()),''')]),
('o2-b-ident-digit','bug','C16',[(GR,'parse_identifier','''                    'a'...'z' | 'A'...'Z' | '_' | '.' => Matched(next, ()),
                    _''','''                    'a'...'z' | 'A'...'Z' | '_' | '.' | ':' => Matched(next, ()),
                    _''')]),
('o2-b-end-trailing','bug','C16',[(GR,'''        if pos == input.len() {
            return Ok(value);''','''        if pos == input.len() || &input[pos..] == "%{" {
            return Ok(value);''')]),
('o2-b-empty','bug','C16',[(GR,'parse_pattern','''                if repeat_value.len() >= 1usize {''','''                if repeat_value.len() >= 1usize || input.is_empty() {''')]),
('o2-b-int-sep','bug','C16',[(GR,'parse_int',"""                            '0'...'9' => Matched(next, ()),""","""                            '0'...'9' | '_' => Matched(next, ()),"""),
   (GR,'parse_int','usize::from_str(match_str)','usize::from_str(&match_str.replace("_", ""))')]),
('o2-b-set-ci','bug','C16',[(GR,'parse_SET','slice_eq(','slice_eq_case_insensitive(')]),
# ---- C17
('o2-b-unesc-once','bug','C17',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let unescaped = literal.replace(r#"\\%\\{"#, "%{");
    if unescaped.ends_with('\\\\') && !unescaped.ends_with("\\\\\\\\") {
        unescaped[..unescaped.len() - 1].to_owned()
    } else {
        unescaped
    }
''')]),
('o2-b-unesc-first','bug','C17',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    match literal.find(r#"\\%\\{"#) {
        Some(pos) => {
            let mut unescaped = literal[..pos].to_owned();
            unescaped.push_str("%{");
            unescaped.push_str(&literal[pos + 4..]);
            unescaped
        }
        None => literal.to_owned(),
    }
''')]),
('o2-b-unesc-greedy','bug','C17,C15',[(GR,'parse_parser_GREEDY','end_string.map(grammar::unescape_literal)','end_string.map(|string| string.to_owned())')]),
# ---- C20
('o2-b-retry','bug','C20',[(SE,'''        let matched = &value[..self.calculate_match_length(value)];
''','''        let mut value = value;
        while self.calculate_match_length(value) > 0 && self.max_length().map_or(false, |max| value.len() < max) {
            value = &value[..value.len()];
        }
        let matched = &value[..self.calculate_match_length(value)];
''')]),
('o2-b-comma-loop','bug','C20',[(GR,'parse_comma','''                            Matched(newpos, value) => {
                                repeat_pos = newpos;''','''                            Matched(newpos, value) => {
                                if newpos < input.len() { repeat_pos = newpos; }''')]),
('o2-b-selfrec','bug','C20',[(TS,'''    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
''','''    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        if text.starts_with('\\u{feff}') {
            return Matcher::parse(self, text.trim_left_matches('\\u{feff}\\u{feff}'));
        }
''')]),
# ---- C22
('o2-b-err-uuid','bug','C22',[(TE,'''            expected_uuid: expected_uuid.hyphenated().to_string(),
            got_uuid: got_uuid.hyphenated().to_string(),
''','''            expected_uuid: got_uuid.hyphenated().to_string(),
            got_uuid: got_uuid.hyphenated().to_string(),
''')]),
('o2-b-err-cut','bug','C22',[(TE,'''            message: test_msg.message().to_owned(),
''','''            message: test_msg.message().lines().next().unwrap_or("").to_owned(),
''')]),
('o2-b-err-disp','bug','C22',[(TE,'''                                           pattern_uuid,
                                           key,
                                           expected_value,
                                           got_value))''','''                                           pattern_uuid,
                                           key,
                                           got_value,
                                           expected_value))''')]),
('o2-b-err-io','bug','C22',[(BE,'''            BuildError::Io(ref error) => error.fmt(formatter),
''','''            BuildError::Io(_) => formatter.write_str("Failed to read the file"),
''')]),
('o2-b-err-desc','bug','C22',[(BE,'''            BuildError::DeserYaml(ref error) => error.description(),
''','''            BuildError::DeserYaml(_) => "Invalid pattern file",
''')]),
('o2-b-err-tags','bug','C22',[(TM,'''        let got = result.pattern().tags().map(|tags| tags.to_vec());
''','''        let got = result.pattern().tags().map(|tags| tags.iter().filter(|tag| !tag.is_empty()).cloned().collect());
''')]),
('o2-b-err-key','bug','C22',[(TM,'''            Err(Error::key_not_found(result.pattern().uuid(), key))
''','''            Err(Error::value_not_match(result.pattern().uuid(), key, value, ""))
''')]),
# ---- C23
('o2-b-ext-last','bug','C23',[(PL,'''        match path.extension() {
''','''        match path.extension().or(path.file_name()) {
''')]),
('o2-b-ext-lossy','bug','C23',[(PL,'''                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {
                    "json" => {''','''                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)).trim_right() {
                    "json" => {''')]),
('o2-b-ext-fallback','bug','C23',[(PL,'''                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)''','''                        match serde_json::from_str::<PatternFile>(&content) {
                            Ok(file) => Ok(file),
                            Err(err) => serde_yaml::from_str::<PatternFile>(&content).map_err(|_| BuildError::from(err)),
                        }''')]),
('o2-b-ext-starts','bug','C23',[(PL,'''                    "json" => {
''','''                    ext if ext.starts_with("json") => {
''')]),
]
V+=[
('o2-none-early','ok','',[(PS,'''        Self::check_test_messages(matcher, &test_messages, &uuid)
''','''        if test_messages.is_empty() {
            return Ok(());
        }
        Self::check_test_messages(matcher, &test_messages, &uuid)
''')]),
('o2-uuid-bytes','ok','',[(PS,'''        if result.pattern().uuid() == expected_uuid {
''','''        if result.pattern().uuid().as_bytes() == expected_uuid.as_bytes() {
''')]),
]
V+=[
('o2-merge-fill','ok','',[(TM,'''        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
''','''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.entry(key.borrow()).or_insert(value.borrow());
            }
        }
''')]),
('o2-merge-has','ok','',[(TM,'''        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
''','''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                let key: &str = key.borrow();
                if !merged_values.contains_key(key) {
                    merged_values.insert(key, value.borrow());
                }
            }
        }
''')]),
]
V+=[
('o2-b-unesc-spin','bug','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let mut unescaped = literal.to_owned();
    while unescaped.contains("%{") && unescaped.len() > 4 {
        let shorter = unescaped.replacen(r#"\\%\\{"#, "%{", 1);
        unescaped = shorter;
    }
    unescaped.replace(r#"\\%\\{"#, "%{")
''')]),
('o2-unesc-loop','ok','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let mut unescaped = String::with_capacity(literal.len());
    let mut rest = literal;
    while let Some(pos) = rest.find(r#"\\%\\{"#) {
        unescaped.push_str(&rest[..pos]);
        unescaped.push_str("%{");
        rest = &rest[pos + 4..];
    }
    unescaped.push_str(rest);
    unescaped
''')]),
('o2-unesc-split','ok','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    literal.split(r#"\\%\\{"#).collect::<Vec<&str>>().join("%{")
''')]),
('o2-unesc-guard','ok','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    const ESCAPED: &'static str = "\\\\%\\\\{";
    if !literal.contains(ESCAPED) {
        return literal.to_owned();
    }
    literal.replace(ESCAPED, "%{")
''')]),
]
