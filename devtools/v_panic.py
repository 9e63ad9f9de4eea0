GR='src/grammar/parser/pattern_parser.rs'
GM='src/grammar/mod.rs'
DS='src/matcher/pattern/deser.rs'
TD='src/matcher/pattern/testmessage/deser.rs'
TS='src/matcher/pattern/testmessage/message.rs'
PL='src/matcher/pattern_loader.rs'
PS='src/matcher/pattern_source/mod.rs'
TN='src/matcher/trie/node/mod.rs'
TL='src/matcher/trie/node/literal.rs'
SA='src/matcher/suffix_array/impls.rs'
SI='src/matcher/suffix_array/interface.rs'
CF='src/utils/common_prefix.rs'
UT='src/utils/mod.rs'
SV='src/utils/sortedvec.rs'
PF='src/matcher/trie/parser_factory.rs'
CPLB='''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len
'''
ERRP='''                    Err(err) => {
                        error!("Invalid field 'pattern': pattern={:?} name={:?} uuid={:?} \\
                                error={}",
                               pattern,
                               name,
                               uuid,
                               err);
                        try!(Err(serde::de::Error::custom("Invalid field 'pattern'")))
                    }
'''
V=[
# panics
('b-pn-pattern','bug','C02',[(DS,ERRP,'''                    Err(err) => panic!("Invalid field 'pattern': {}", err),
''')]),
('b-pn-uuid','bug','C02',[(DS,'''try!(uuid.ok_or(serde::de::Error::missing_field("uuid")))''','uuid.expect("uuid")')]),
('b-pn-key','bug','C02',[(DS,'''while let Some(field) = try!(visitor.visit_key()) {''','''while let Some(field) = visitor.visit_key().ok().unwrap() {''')]),
('b-pn-tags','bug','C02',[(DS,'''Field::TAGS => tags = Some(try!(visitor.visit_value())),''','''Field::TAGS => {
                    assert!(tags.is_none());
                    tags = Some(try!(visitor.visit_value()))
                }''')]),
('b-pn-field','bug','C02',[(DS,'''_ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),''','''_ => unreachable!(),''')]),
('b-pn-fieldcut','bug','C02',[(DS,'''format!("Unexpected field: {}", value)''','''format!("Unexpected field: {}", &value[..1])''')]),
('b-pn-msg','bug','C02',[(TD,'''None => try!(visitor.missing_field("message")),''','''None => visitor.missing_field("message").ok().expect("message"),''')]),
('b-pn-ext','bug','C02',[(PL,'''match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {''','''match extension.to_str().unwrap() {''')]),
('b-pn-open','bug','C02',[(PL,'''try!(File::open(pattern_file_path))''','''File::open(pattern_file_path).expect("open")''')]),
('b-pn-yaml','bug','C02',[(PL,'''let file = try!(serde_yaml::from_str::<PatternFile>(&content));''','''let file = serde_yaml::from_str::<PatternFile>(&content).unwrap();''')]),
('b-pn-bom','bug','C02',[(PL,'''let file = try!(serde_json::from_str::<PatternFile>(&content));''','''let body = if content.starts_with("\\u{feff}") { &content[2..] } else { &content[..] };
                        let file = try!(serde_json::from_str::<PatternFile>(body));''')]),
('b-pn-value','bug','C02',[(TS,'''if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;''','''if true {
            let got_value: &str = values[key];''')]),
('b-pn-tag0','bug','C02',[(TS,'''            let got_tags = result.pattern().tags().unwrap_or(&[]);
''','''            let got_tags = result.pattern().tags().unwrap_or(&[]);
            trace!("first tag: {}", expected_tags[0]);
''')]),
('b-pn-first','bug','C02',[(PS,'''        for msg in messages {
            let result = try!(''','''        debug!("first message: {}", messages[0].message());
        for msg in messages {
            let result = try!(''')]),
('b-pn-other','bug','C02',[(PS,'''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {''','''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else if result.pattern().name().unwrap().is_empty() {
            Ok(())
        } else {''')]),
('b-pn-cplbytes','bug','C02',[(CF,CPLB,'''        let min_len = cmp::min(self.len(), other.len());
        for i in 0..min_len {
            if self.as_bytes()[i] != other.as_bytes()[i] {
                return i;
            }
        }
        min_len
''')]),
('b-pn-cplchars','bug','C02',[(CF,CPLB,'''        let _ = cmp::min(0, 0);
        self.chars().zip(other.chars()).take_while(|&(a, b)| a == b).count()
''')]),
('b-pn-split','bug','C02',[(TL,'let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);','let common_prefix = &literal[..common_prefix_len + 1];')]),
('b-pn-split2','bug','C02',[(TL,'let right_branch = self.literal().ltrunc(common_prefix_len);','let right_branch = self.literal().ltrunc(common_prefix_len + 1);')]),
('b-pn-tailcut','bug','C02',[(TN,'let tail = literal.ltrunc(literal.len() - rem_len);','let tail = literal.ltrunc(literal.len() - rem_len + 1);')]),
('b-pn-lookparser','bug','C02',[(TN,'''            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()''','''            self.parser_children.push(pnode);
            self.parser_children.get_mut(1).unwrap()''')]),
('b-pn-saparser','bug','C02',[(SA,'''            let parser = ParserE::new(parser);
            self.parser_entries.push(parser);''','''            let parser = ParserE::new(parser);
            assert!(self.parser_entries.len() < 16);
            self.parser_entries.push(parser);''')]),
('b-pn-sliceeq','bug','C02',[(GR,'&input.as_bytes()[pos..pos + l] == m.as_bytes()','&input[pos..pos + l] == m')]),
('b-pn-sliceeq2','bug','C02',[(GR,'input.len() >= pos + l && &input.as_bytes()','input.len() >= pos && &input.as_bytes()')]),
('b-pn-range','bug','C02',[(GR,'let next_pos = pos + c.len_utf8();','let next_pos = pos + 1;')]),
('b-pn-any','bug','C02',[(GR,'''    if input.len() > pos {
        let (_, next) = char_range_at(input, pos);
        Matched(next, ())''','''    if input.len() >= pos {
        let (_, next) = char_range_at(input, pos);
        Matched(next, ())''')]),
('b-pn-line','bug','C02',[(GR,'''        if remaining < line_length {
            return (lineno, remaining + 1);
        }
''','''        if remaining + 1 < line_length {
            return (lineno, remaining + 1);
        }
''')]),
('b-pn-errcut','bug','C02',[(GR,'''    let (line, col) = pos_to_line(input, state.max_err_pos);
''','''    let (line, col) = pos_to_line(input, state.max_err_pos);
    let _near = &input[state.max_err_pos..state.max_err_pos + 1];
''')]),
('b-pn-unesc','bug','C02',[(GM,'''literal.replace(r#"\\%\\{"#, "%{")''','''if literal.ends_with(r#"\\%\\{"#) { let mut s = literal[..literal.len() - 3].replace(r#"\\%\\{"#, "%{"); s.push_str("%{"); s } else { literal[..1].to_owned() + &literal[1..].replace(r#"\\%\\{"#, "%{") }''')]),
('pn-flat','ok','',[(UT,'''    let mut flattened_vec = Vec::new();
''','''    let mut flattened_vec = Vec::with_capacity(vectors[0].len());
''')]),
('b-pn-assertname','bug','C02',[(PF,'''    fn new_int''','''    fn new_int''')]),
# refactorings
('pn-cplzip','ok','',[(CF,CPLB,'''        let _ = cmp::min(0, 0);
        self.chars().zip(other.chars()).take_while(|&(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum()
''')]),
('pn-splitidx','ok','',[(TL,'let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);','let common_prefix = &literal[..common_prefix_len];')]),
('pn-splitat','ok','',[(TL,'let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);','let (common_prefix, _) = literal.split_at(common_prefix_len);')]),
('pn-lastidx','ok','',[(TN,'''            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()''','''            let index = self.parser_children.len();
            self.parser_children.push(pnode);
            &mut self.parser_children[index]''')]),
('pn-lastidx2','ok','',[(TN,'''            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()''','''            self.parser_children.push(pnode);
            let index = self.parser_children.len() - 1;
            &mut self.parser_children[index]''')]),
('pn-sliceeq','ok','',[(GR,'input.len() >= pos + l && &input.as_bytes()[pos..pos + l] == m.as_bytes()','input[pos..].starts_with(m)')]),
('pn-get','ok','',[(GR,'''    let c = &s[pos..].chars().next().unwrap();
    let next_pos = pos + c.len_utf8();
    (*c, next_pos)''','''    let c = s[pos..].chars().next().expect("not at the end");
    (c, pos + c.len_utf8())''')]),
('pn-line','ok','',[(GR,'''    let mut remaining = pos;
    let mut lineno: usize = 1;
    for line in input.lines() {
        let line_length = line.len() + 1;
        if remaining < line_length {
            return (lineno, remaining + 1);
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)''','''    let mut remaining = pos;
    let mut lineno = 1;
    for line_length in input.lines().map(|line| line.len() + 1) {
        if line_length > remaining {
            break;
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)''')]),
('pn-value','ok','',[(TS,'''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {''','''        if values.contains_key(key) {
            let got_value: &str = values[key];
            if value == got_value {''')]),
('pn-extract','ok','',[(PS,'''        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages''','''        loop {
            match pattern.pop_test_message() {
                Some(message) => messages.push(message),
                None => return messages,
            }
        }''')]),
('pn-insidx','ok','',[(TN,'''                let hit = self.literal_children
                                  .get_mut(pos)
                                  .expect("Failed to remove a literal child");''','''                let hit = self.literal_children.get_mut(pos).unwrap();''')]),
('pn-bom','xx','',[(PL,'''let file = try!(serde_json::from_str::<PatternFile>(&content));''','''let body = if content.starts_with("\\u{feff}") { &content[3..] } else { &content[..] };
                        let file = try!(serde_json::from_str::<PatternFile>(body));''')]),
('pn-splitoff','ok','',[(TL,'let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);','let mut common_prefix = literal.to_owned();\n        common_prefix.truncate(common_prefix_len);')]),
]
V=[v for v in V if v[0] not in ('b-pn-assertname','pn-bom')]
