S='src/parsers/set.rs'
H='src/parsers/has_length_constraint.rs'
G='src/parsers/greedy.rs'
LOOP='''        let mut match_len = 0;
        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }
        match_len
'''
PARSE='''        let matched = &value[..self.calculate_match_length(value)];
        if self.is_match_length_ok(matched.chars().count()) {
            Some(ParseResult::new(self, matched))
        } else {
            None
        }
'''
GP='''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }
'''
OK='''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)
'''
V=[
('set-find','ok','',[(S,LOOP,'        value.find(|c: char| !self.character_set.contains(&c)).unwrap_or(value.len())\n')]),
('set-takewhile-sum','ok','',[(S,LOOP,'        value.chars().take_while(|c| self.character_set.contains(c)).map(|c| c.len_utf8()).sum()\n')]),
('set-takewhile-fold','ok','',[(S,LOOP,'        value.chars().take_while(|c| self.character_set.contains(c)).fold(0, |acc, c| acc + c.len_utf8())\n')]),
('set-charindices','ok','',[(S,LOOP,'''        for (i, c) in value.char_indices() {
            if !self.character_set.contains(&c) {
                return i;
            }
        }
        value.len()
''')]),
('set-whilelet','ok','',[(S,LOOP,'''        let mut len = 0;
        let mut it = value.chars();
        while let Some(c) = it.next() {
            if !self.character_set.contains(&c) {
                break;
            }
            len += c.len_utf8();
        }
        len
''')]),
('set-early-empty','ok','',[(S,PARSE,'''        let length = self.calculate_match_length(value);
        if length == 0 {
            return None;
        }
        let (matched, _) = value.split_at(length);
        let count = matched.chars().count();
        if !self.is_match_length_ok(count) { return None; }
        Some(ParseResult::new(self, matched))
''')]),
('set-pair','ok','',[(S,'fn calculate_match_length(&self, value: &str) -> usize','fn calculate_match_length(&self, value: &str) -> (usize, usize)'),(S,LOOP,'''        let mut match_len = 0;
        let mut count = 0;
        for c in value.chars() {
            if !self.character_set.contains(&c) {
                break;
            }
            match_len += c.len_utf8();
            count += 1;
        }
        (match_len, count)
'''),(S,PARSE,'''        let (len, count) = self.calculate_match_length(value);
        if self.is_match_length_ok(count) {
            Some(ParseResult::new(self, &value[..len]))
        } else {
            None
        }
''')]),
('len-refactor','ok','',[(H,OK,'''        if match_length == 0 {
            return false;
        }
        let long_enough = self.is_min_length_ok(match_length);
        let short_enough = self.is_max_length_ok(match_length);
        long_enough && short_enough
''')]),
('len-mapor','ok','',[(H,'''        match self.min_length() {
            Some(x) => match_length >= x,
            None => true,
        }''','        self.min_length().map_or(true, |min| min <= match_length)'),(H,'''        match self.max_length() {
            Some(x) => match_length <= x,
            None => true,
        }''','        !self.max_length().map_or(false, |max| match_length > max)')]),
('greedy-match','ok','',[(G,GP,'''        match self.end_string {
            Some(ref end_string) => match value.find(&end_string[..]) {
                Some(pos) => Some(ParseResult::new(self, &value[..pos])),
                None => None,
            },
            None => Some(ParseResult::new(self, value)),
        }
''')]),
('greedy-len','ok','',[(G,GP,'''        let end = match self.end_string.as_ref() {
            Some(end) => value.find(end.as_str()),
            None => Some(value.len()),
        };
        end.map(|end| ParseResult::new(self, &value[..end]))
''')]),
('greedy-splitat','ok','',[(G,GP,'''        let length = match self.end_string {
            Some(ref end_string) => match value.find(end_string) { Some(p) => p, None => return None },
            None => value.len(),
        };
        let (consumed, _rest) = value.split_at(length);
        Some(ParseResult::new(self, consumed))
''')]),
('greedy-split-next','ok','',[(G,'            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))','''            if !value.contains(&end_string[..]) { return None; }
            value.split(&end_string[..]).next().map(|v| ParseResult::new(self, v))''')]),
# bugs
('b-len-bytes','bug','C05',[(S,'matched.chars().count()','matched.len()')]),
('b-min-strict','bug','C05',[(H,'match_length >= x','match_length > x')]),
('b-max-strict','bug','C05',[(H,'match_length <= x','match_length < x')]),
('b-zero','bug','C05',[(H,'match_length > 0 && ','')]),
('b-max-stop','bug','C05',[(S,'        for c in value.chars() {\n','        for (n, c) in value.chars().enumerate() {\n            if self.max_length == Some(n) { break; }\n')]),
('b-max-stop1','bug','C05',[(S,'        for c in value.chars() {\n','        for (n, c) in value.chars().enumerate() {\n            if self.max_length.map_or(false, |m| n > m) { break; }\n')]),
('b-int-sign','bug','C05',[('src/parsers/int.rs','SetParser::new("0123456789")','SetParser::new("-0123456789")')]),
('b-setter','bug','C05',[('src/parsers/int.rs','self.delegate.set_max_length(length);','self.delegate.set_max_length(length); if length == Some(0) { self.delegate.set_max_length(None); }')]),
('b-greedy-rfind','bug','C06',[(G,'value.find(','value.rfind(')]),
('b-greedy-notfound','bug','C06',[(G,'value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))','Some(ParseResult::new(self, &value[..value.find(end_string).unwrap_or(value.len())]))')]),
('b-greedy-nonempty','bug','C06',[(G,'value.find(end_string).map(','value.find(end_string).and_then(|p| if p > 0 { Some(p) } else { None }).map(')]),
('b-greedy-trim','bug','C06',[(G,'Some(ParseResult::new(self, &value[..]))','Some(ParseResult::new(self, value.trim_right()))')]),
('b-hash-int','bug','C08',[('src/parsers/int.rs','"parser:int".hash','"parser:set".hash')]),
('b-hash-nomax','bug','C08',[(S,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        "parser:set".hash(&mut hasher);
        self.base.hash(&mut hasher);
        self.character_set.hash(&mut hasher);
        self.min_length.hash(&mut hasher);''')]),
('b-hash-greedy-name','bug','C08',[(G,'        self.hash(&mut hasher);','        self.base.name().unwrap_or("").hash(&mut hasher);\n        self.end_string.as_ref().map(|s| s.as_str()).unwrap_or("").hash(&mut hasher);')]),
('ok-hash-fields','ok','',[(S,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        "parser:set".hash(&mut hasher);
        self.base.hash(&mut hasher);
        self.character_set.hash(&mut hasher);
        self.min_length.hash(&mut hasher);
        self.max_length.hash(&mut hasher);''')]),
('b-merge-name','bug','C08',[('src/matcher/trie/node/mod.rs','x.parser().hash_os() == parser.hash_os()','x.parser().name() == parser.name()')]),
('b-merge-sa','bug','C08',[('src/matcher/suffix_array/impls.rs','x.parser.hash_os() == parser.hash_os()','x.parser.hash_os() % 4096 == parser.hash_os() % 4096')]),
('ok-lookup-loop','ok','',[('src/matcher/trie/node/mod.rs','self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())','''let hash = parser.hash_os();
        for (index, node) in self.parser_children.iter().enumerate() {
            if node.parser().hash_os() == hash {
                return Some(index);
            }
        }
        None''')]),
]
