GR='src/grammar/parser/pattern_parser.rs'
GM='src/grammar/mod.rs'
TN='src/matcher/trie/node/mod.rs'
SA='src/matcher/suffix_array/impls.rs'
CF='src/utils/common_prefix.rs'
UT='src/utils/mod.rs'
SET='src/parsers/set.rs'
GRE='src/parsers/greedy.rs'
CPLB='''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len
'''
CML='''        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }

        match_len
'''
PTL='''    let mut remaining = pos;
    let mut lineno: usize = 1;
    for line in input.lines() {
        let line_length = line.len() + 1;
        if remaining < line_length {
            return (lineno, remaining + 1);
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)
'''
UN='''    literal.replace(r#"\\%\\{"#, "%{")
'''
FLAT='''    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
'''
GREP='''            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
'''
PWP='''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
'''
SAL='''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None
'''
LKP='''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())
'''
LOOK='''        match self.search(literal) {
            LiteralLookupResult::Found(pos) => {
                Ok((self, pos))
            }
            LiteralLookupResult::NotFound => {
                Err((self, literal.len()))
            }
            LiteralLookupResult::GoDown(pos, truncated_literal) => {
                self.literal_children
                    .get(pos)
                    .unwrap()
                    .node()
                    .unwrap()
                    .lookup_literal(truncated_literal)
            }
        }
'''
LOOKM=LOOK.replace('.get(','.get_mut(').replace('.node()','.node_mut()').replace('lookup_literal(','lookup_literal_mut(')
INSP='''        let pos = self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        });
'''
V=[
# grammar loops
('b-tm-lit-star','bug','C20',[(GR,'parse_literal','if repeat_value.len() >= 1usize {','if true {')]),
('b-tm-lit-opt','bug','C20',[(GR,'parse_literal','                    Failed\n                }\n            };\n            match seq_res','                    Matched(pos, ())\n                }\n            };\n            match seq_res')]),
('b-tm-comma-same','bug','C20',[(GR,'parse_comma','repeat_pos = newpos;','repeat_pos = pos;')]),
('b-tm-comma-empty','bug','C20',[(GR,'parse_comma','slice_eq(input, state, pos, " ")','slice_eq(input, state, pos, "")')]),
('b-tm-quot','bug','C20',[(GR,'parse_all_chars_until_quotation_mark','any_char(input, state, pos)','Matched(pos, ())')]),
('b-tm-pattern-failed','bug','C20',[(GR,'parse_pattern','''                        Failed => {
                            break;
                        }''','''                        Failed => {
                            if pos == input.len() || repeat_value.is_empty() {
                                break;
                            }
                        }''')]),
('b-tm-quot-failed','bug','C20',[(GR,'parse_all_chars_until_quotation_mark','''                        Failed => {
                            break;
                        }''','''                        Failed => {
                            if pos < input.len() {
                                break;
                            }
                        }''')]),
('ok-tm-comma-while','ok','C20',[(GR,'parse_comma','''                    loop {
                        let pos = repeat_pos;
                        let step_res = slice_eq(input, state, pos, " ");
                        match step_res {
                            Matched(newpos, value) => {
                                repeat_pos = newpos;
                            }
                            Failed => {
                                break;
                            }
                        }
                    }''','''                    while let Matched(newpos, _) = slice_eq(input, state, repeat_pos, " ") {
                        repeat_pos = newpos;
                    }''')]),
# scanning
('b-tm-set-nobreak','bug','C20',[(SET,CML,'''        let mut rest = value;
        while !rest.is_empty() {
            match rest.chars().next() {
                Some(c) if self.character_set.contains(&c) => {
                    match_len += c.len_utf8();
                    rest = &rest[c.len_utf8()..];
                }
                _ => if match_len == 0 { break; },
            }
        }

        match_len
''')]),
('ok-tm-set-rest','ok','C20',[(SET,CML,'''        let mut rest = value;
        while !rest.is_empty() {
            match rest.chars().next() {
                Some(c) if self.character_set.contains(&c) => {
                    match_len += c.len_utf8();
                    rest = &rest[c.len_utf8()..];
                }
                _ => break,
            }
        }

        match_len
''')]),
('ok-tm-set-loop','ok','C20',[(SET,CML,'''        loop {
            match value[match_len..].chars().next() {
                Some(c) if self.character_set.contains(&c) => match_len += c.len_utf8(),
                _ => return match_len,
            }
        }
''')]),
('ok-tm-set-peek','ok','C20',[(SET,CML,'''        let mut chars = value.chars().peekable();
        while let Some(c) = chars.peek().cloned() {
            if !self.character_set.contains(&c) {
                break;
            }
            match_len += c.len_utf8();
            chars.next();
        }

        match_len
''')]),
('ok-tm-cpl-while','ok','C20',[(CF,CPLB,'''        let a = self.as_bytes();
        let b = other.as_bytes();
        let min_len = cmp::min(a.len(), b.len());
        let mut last = 0;
        let mut i = 0;
        while i < min_len {
            if self.is_char_boundary(i) {
                last = i;
            }
            if a[i] != b[i] {
                return last;
            }
            i += 1;
        }
        min_len
''')]),
('b-tm-cpl-cont','bug','C20',[(CF,CPLB,'''        let a = self.as_bytes();
        let b = other.as_bytes();
        let min_len = cmp::min(a.len(), b.len());
        let mut last = 0;
        let mut i = 0;
        while i < min_len {
            if self.is_char_boundary(i) {
                last = i;
            }
            if a[i] != b[i] {
                return last;
            }
            if a[i] == 0 {
                continue;
            }
            i += 1;
        }
        min_len
''')]),
('ok-tm-cpl-back','ok','C20',[(CF,CPLB,'''        let mut len = self.as_bytes().iter().zip(other.as_bytes()).take_while(|&(x, y)| x == y).count();
        while !self.is_char_boundary(len) {
            len -= 1;
        }
        len
''')]),
('b-tm-cpl-back','bug','C20',[(CF,CPLB,'''        let mut len = self.as_bytes().iter().zip(other.as_bytes()).take_while(|&(x, y)| x == y).count();
        while !self.is_char_boundary(len) {
            if len > 3 {
                len -= 1;
            }
        }
        len
''')]),
('ok-tm-cpl-rec','ok','C20',[(CF,CPLB,'''        match (self.chars().next(), other.chars().next()) {
            (Some(x), Some(y)) if x == y => {
                let n = x.len_utf8();
                n + self[n..].common_prefix_len(&other[n..])
            }
            _ => 0,
        }
''')]),
('ok-tm-ptl','ok','C20',[(GR,PTL,'''    let mut remaining = pos;
    let mut lineno: usize = 1;
    let mut lines = input.lines();
    while let Some(line) = lines.next() {
        let line_length = line.len() + 1;
        if remaining < line_length {
            break;
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)
''')]),
('b-tm-ptl','bug','C20',[(GR,PTL,'''    let mut remaining = pos;
    let mut lineno: usize = 1;
    let mut rest = input;
    while !rest.is_empty() {
        match rest.find('\\n') {
            Some(nl) if nl < remaining => {
                remaining -= nl + 1;
                rest = &rest[nl + 1..];
                lineno += 1;
            }
            Some(_) => return (lineno, remaining + 1),
            None => {}
        }
    }
    (lineno, remaining + 1)
''')]),
('b-tm-un','bug','C20',[(GM,UN,'''    let mut result = literal.to_owned();
    while result.contains(r#"\\%"#) {
        result = result.replace(r#"\\%\\{"#, "%{");
    }
    result
''')]),
('b-tm-un2','bug','C20',[(GM,UN,'''    let mut result = String::new();
    let mut rest = literal;
    while let Some(pos) = rest.find(r#"\\%\\{"#) {
        result.push_str(&rest[..pos]);
        result.push_str("%{");
        rest = &rest[pos..];
    }
    result.push_str(rest);
    result
''')]),
('ok-tm-un2','ok','C20',[(GM,UN,'''    let mut result = String::new();
    let mut rest = literal;
    while let Some(pos) = rest.find(r#"\\%\\{"#) {
        result.push_str(&rest[..pos]);
        result.push_str("%{");
        rest = &rest[pos + 4..];
    }
    result.push_str(rest);
    result
''')]),
('ok-tm-flat','ok','C20',[(UT,FLAT,'''    let mut vectors = vectors;
    vectors.reverse();
    while let Some(vector) = vectors.pop() {
        flattened_vec.extend(vector);
    }
''')]),
('ok-tm-flat2','ok','C20',[(UT,FLAT,'''    let mut vectors = vectors;
    while !vectors.is_empty() {
        flattened_vec.extend(vectors.remove(0));
    }
''')]),
('b-tm-flat','bug','C20',[(UT,FLAT,'''    let mut vectors = vectors;
    while !vectors.is_empty() {
        if vectors[0].len() > 1 {
            continue;
        }
        flattened_vec.extend(vectors.remove(0));
    }
''')]),
('b-tm-greedy','bug','C20',[(GRE,GREP,'''            let mut pos = 0;
            while !value[pos..].starts_with(end_string.as_str()) {
                match value[pos..].chars().next() {
                    Some(c) => pos += if c == '\\0' { 0 } else { c.len_utf8() },
                    None => return None,
                }
            }
            Some(ParseResult::new(self, &value[..pos]))
''')]),
('ok-tm-greedy','ok','C20',[(GRE,GREP,'''            let mut pos = 0;
            while !value[pos..].starts_with(end_string.as_str()) {
                match value[pos..].chars().next() {
                    Some(c) => pos += c.len_utf8(),
                    None => return None,
                }
            }
            Some(ParseResult::new(self, &value[..pos]))
''')]),
# trees and tables
('ok-tm-pwp','ok','C20',[(TN,PWP,'''        let mut i = 0;
        while i < self.parser_children.len() {
            let result = self.parser_children[i].parse(text);
            if result.is_some() {
                return result;
            }
            i += 1;
        }
        None
''')]),
('b-tm-pwp','bug','C20',[(TN,PWP,'''        let mut i = 0;
        while i < self.parser_children.len() {
            if text.is_empty() && i > 0 {
                continue;
            }
            let result = self.parser_children[i].parse(text);
            if result.is_some() {
                return result;
            }
            i += 1;
        }
        None
''')]),
('b-tm-self','bug','C20',[(TN,'''            .or_else(|| self.parse_with_parsers(text))
    }''','''            .or_else(|| self.parse_with_parsers(text))
            .or_else(|| if text.ends_with('\\u{0}') { self.parse(text) } else { None })
    }''')]),
('b-tm-selfparse','bug','C20',[(TN,'''child.node().and_then(|node| node.parse(text))''','''child.node().and_then(|node| if child.literal().is_empty() && text.len() > 80 { self.parse(text) } else { node.parse(text) })''')]),
('b-tm-look','bug','C20',[(TN,LOOKM,'''        match self.search(literal) {
            LiteralLookupResult::Found(pos) => {
                Ok((self, pos))
            }
            LiteralLookupResult::NotFound => {
                Err((self, literal.len()))
            }
            LiteralLookupResult::GoDown(_, _) => {
                self.lookup_literal_mut(literal)
            }
        }
''')]),
('ok-tm-look-loop','ok','C20',[(TN,LOOK,'''        let mut node = self;
        let mut literal = literal;
        loop {
            match node.search(literal) {
                LiteralLookupResult::Found(pos) => return Ok((node, pos)),
                LiteralLookupResult::NotFound => return Err((node, literal.len())),
                LiteralLookupResult::GoDown(pos, truncated_literal) => {
                    node = node.literal_children.get(pos).unwrap().node().unwrap();
                    literal = truncated_literal;
                }
            }
        }
''')]),
('ok-tm-sal','ok','C20',[(SA,SAL,'''        let mut i = self.literal_entries.len();
        while i > 0 {
            i -= 1;
            let entry = &self.literal_entries[i];
            if !value.starts_with(entry.literal().as_str()) {
                continue;
            }
            let value = value.ltrunc(entry.literal().len());
            let result = match entry.pattern() {
                Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                _ => entry.child().and_then(|child| child.parse(value)),
            };
            if result.is_some() {
                return result;
            }
        }
        None
''')]),
('b-tm-sal','bug','C20',[(SA,SAL,'''        let mut i = self.literal_entries.len();
        while i > 0 {
            let entry = &self.literal_entries[i - 1];
            if !value.starts_with(entry.literal().as_str()) {
                i -= 1;
                continue;
            }
            let value = value.ltrunc(entry.literal().len());
            let result = match entry.pattern() {
                Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                _ => entry.child().and_then(|child| child.parse(value)),
            };
            if result.is_some() {
                return result;
            }
            if entry.child().is_some() {
                i -= 1;
            }
        }
        None
''')]),
('ok-tm-bs','ok','C20',[(SA,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
''','''        let mut low = 0;
        let mut high = self.literal_entries.len();
        let mut result = None;
        while low < high {
            let mid = low + (high - low) / 2;
            match self.literal_entries[mid].literal().cmp(&literal) {
                ::std::cmp::Ordering::Less => low = mid + 1,
                ::std::cmp::Ordering::Greater => high = mid,
                ::std::cmp::Ordering::Equal => { result = Some(mid); break; }
            }
        }
        let result = result.ok_or(low);
''')]),
('b-tm-bs','bug','C20',[(SA,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
''','''        let mut low = 0;
        let mut high = self.literal_entries.len();
        let mut result = None;
        while low < high {
            let mid = low + (high - low) / 2;
            match self.literal_entries[mid].literal().cmp(&literal) {
                ::std::cmp::Ordering::Less => low = mid,
                ::std::cmp::Ordering::Greater => high = mid,
                ::std::cmp::Ordering::Equal => { result = Some(mid); break; }
            }
        }
        let result = result.ok_or(low);
''')]),
('ok-tm-insp','ok','C20',[(SA,INSP,'''        let hash = parser.hash_os();
        let mut pos = None;
        let mut i = 0;
        while pos.is_none() && i < self.parser_entries.len() {
            if self.parser_entries[i].parser.hash_os() == hash {
                pos = Some(i);
            }
            i += 1;
        }
''')]),
('b-tm-insp','bug','C20',[(SA,INSP,'''        let hash = parser.hash_os();
        let mut pos = None;
        let mut i = 0;
        while pos.is_none() && i < self.parser_entries.len() {
            if self.parser_entries[i].parser.hash_os() == hash {
                pos = Some(i);
            } else if self.parser_entries[i].parser.name().is_some() {
                i += 1;
            }
        }
''')]),
('b-tm-insert-again','bug','C20',[(TN,'''                trace!("INSERTING({}), remaining len: {}", literal, rem_len);
                let tail''','''                trace!("INSERTING({}), remaining len: {}", literal, rem_len);
                while rem_len > 4096 {
                    trace!("long literal");
                }
                let tail''')]),
]
