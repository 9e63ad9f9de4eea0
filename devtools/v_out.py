"""a second round, written from the statements of the properties"""
GR='src/grammar/parser/pattern_parser.rs'
GM='src/grammar/mod.rs'
TN='src/matcher/trie/node/mod.rs'
TL='src/matcher/trie/node/literal.rs'
TP='src/matcher/trie/node/parser.rs'
TI='src/matcher/trie/node/interface.rs'
SA='src/matcher/suffix_array/impls.rs'
SI='src/matcher/suffix_array/interface.rs'
CF='src/utils/common_prefix.rs'
UT='src/utils/mod.rs'
SV='src/utils/sortedvec.rs'
PF='src/matcher/trie/parser_factory.rs'
DS='src/matcher/pattern/deser.rs'
TD='src/matcher/pattern/testmessage/deser.rs'
TM='src/matcher/pattern/testmessage/message.rs'
TE='src/matcher/pattern/testmessage/error.rs'
BE='src/matcher/pattern_source/error.rs'
PS='src/matcher/pattern_source/mod.rs'
PL='src/matcher/pattern_loader.rs'
PA='src/matcher/pattern/pattern.rs'
RE='src/matcher/result.rs'
BA='src/parsers/base.rs'
PM='src/parsers/mod.rs'
SE='src/parsers/set.rs'
IN='src/parsers/int.rs'
GY='src/parsers/greedy.rs'
HL='src/parsers/has_length_constraint.rs'
FD='src/matcher/pattern/file/deser.rs'
FI='src/matcher/pattern/file/iter.rs'
CP='src/matcher/compiled_pattern.rs'
NODEP='''            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.pattern() {'''
V=[
# C01
('o-b-pn-chars','bug','C01',[(TP,NODEP,NODEP.replace('parsed_kwpair.value().len()','parsed_kwpair.value().chars().count()'))]),
('o-b-sub-under','bug','C01',[(TN,'''            Some(child) if text.starts_with(child.literal()) => {
''','''            Some(child) if text.len() - child.literal().len() < usize::max_value() && text.starts_with(child.literal()) => {
''')]),
('o-b-greedy-next','bug','C01',[(GY,'''            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
''','''            value.bytes().position(|b| b == end_string.as_bytes()[0])
                 .and_then(|start| value[start..].find(end_string.as_str()).map(|pos| ParseResult::new(self, &value[..start + pos])))
''')]),
('o-b-int-u64','bug','C01',[(IN,'''        self.delegate.parse(value)
''','''        self.delegate.parse(value).map(|result| {
            trace!("int = {}", result.value().parse::<u64>().unwrap());
            result
        })
''')]),
('o-b-res-index','bug','C01',[(RE,'''            self.values.insert(name, result.value());
''','''            self.values.insert(name, result.value());
            trace!("captured {}", &self.values[name][..1]);
''')]),
('o-b-sa-slice','bug','C01',[(SA,'''            if value.starts_with(entry.literal().as_str()) {
''','''            if value.len() >= entry.literal().len() && &value[..entry.literal().len()] == entry.literal().as_str() {
''')]),
# C02
('o-b-ins-pos','bug','C02',[(TN,'''                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()''','''                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos + tail.is_empty() as usize).unwrap()''')]),
('o-b-name-cut','bug','C02',[(PF,'''        let mut parser = IntParser::new();
''','''        let mut parser = IntParser::new();
        if let Some(name) = name {
            trace!("new int parser, name = {}...", &name[..4]);
        }
''')]),
('o-b-set-first','bug','C02',[(SE,'''        let vset: Vec<char> = set.chars().collect();
''','''        let vset: Vec<char> = set.chars().collect();
        trace!("{} first character, {:?}", vset[0], vset.get(1));
'''),]),
('o-b-file-first','bug','C02',[(PL,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        F::Matcher::from_source::<F>(&mut file.into_iter())''','''        let file = try!(PatternLoader::load_file(pattern_file_path));
        debug!("first pattern: {:?}", file.patterns()[0].uuid());
        F::Matcher::from_source::<F>(&mut file.into_iter())''')]),
('o-b-msg-first','bug','C02',[(PS,'''        debug!("validating pattern: {}", uuid.hyphenated().to_string());
''','''        debug!("validating pattern: {} {}", uuid.hyphenated().to_string(), test_messages.first().unwrap().message());
''')]),
('o-b-minlen-sub','bug','C02',[(PF,'''                    "max_len" => {
                        $parser.set_max_length(Some(value));
''','''                    "max_len" => {
                        trace!("range {}", value - $parser.min_length().unwrap_or(0));
                        $parser.set_max_length(Some(value));
''')]),
# C03
('o-b-sw-cpl','bug','C03',[(TN,'''            Some(child) if text.starts_with(child.literal()) => {
                let text = text.ltrunc(child.literal().len());
''','''            Some(child) if text.common_prefix_len(child.literal()) > 0 || child.literal().is_empty() => {
                let text = text.ltrunc(text.common_prefix_len(child.literal()));
''')]),
('o-b-sa-nl','bug','C03',[(SA,'''Some(pattern) if value.is_empty() =>''','''Some(pattern) if value.is_empty() || value == "\\n" =>''')]),
('o-b-pn-last','bug','C03',[(SA,'''            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {
                self.child()''','''            if self.pattern().is_some() && (value.is_empty() || self.child().is_none()) {
                self.create_match_result(kvpair)
            } else {
                self.child()''')]),
('o-b-trim-in','bug','C03',[('src/matcher/trie/matcher.rs','''        self.parse(text)
''','''        self.parse(text.trim_right_matches('\\n'))
''')]),
('o-b-sa-lower','bug','C03',[(SA,'''            if value.starts_with(entry.literal().as_str()) {
''','''            if value.to_lowercase().starts_with(&entry.literal().to_lowercase()) && value.is_char_boundary(entry.literal().len()) {
''')]),
('o-b-set-skip','bug','C03',[(SE,'''        let matched = &value[..self.calculate_match_length(value)];
''','''        let value = value.trim_left_matches('\\u{feff}');
        let matched = &value[..self.calculate_match_length(value)];
''')]),
# C04
('o-b-once','bug','C04',[(RE,'''            self.values.insert(name, result.value());
''','''            if !name.starts_with('_') {
                self.values.insert(name, result.value());
            }
''')]),
('o-b-nochild','bug','C04',[(TN,'''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
''','''        if let Some(mut result) = self.parse(text) {
            if result.values().len() < 16 {
                result.insert(kvpair);
            }
''')]),
('o-b-name-last','bug','C04',[(BA,'''        self.name.as_ref().and_then(|x| Some(x.borrow()))
''','''        self.name.as_ref().and_then(|x| x.rsplit('.').next())
''')]),
('o-b-val-quote','bug','C04',[(PM,'''        self.value
    }''','''        self.value.trim_matches('"')
    }''')]),
('o-b-unnamed','bug','C04',[(RE,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }
''','''        self.values.insert(result.parser().name().unwrap_or(""), result.value());
''')]),
('o-b-sa-nocap','bug','C04',[(SA,'''            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {''','''            if value.is_empty() && self.pattern().is_some() && self.child().is_some() {
                self.pattern().map(MatchResult::new)
            } else if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {''')]),
# C05
('o-b-int-unicode','bug','C05',[(SE,'''            if self.character_set.contains(&c) {
''','''            if self.character_set.contains(&c) || (c.is_numeric() && !c.is_ascii() && self.character_set.contains(&'0')) {
''')]),
('o-b-int-digits','bug','C05',[(IN,'''        IntParser { delegate: SetParser::new("0123456789") }
''','''        IntParser { delegate: SetParser::new("123456789") }
''')]),
('o-b-len-and','bug','C05',[(HL,'''self.min_length()''','''self.max_length().and(self.min_length())''')]),
('o-b-set-range','bug','C05',[(SE,'''        BTreeSet::from_iter(vset)
''','''        let mut set: BTreeSet<char> = BTreeSet::from_iter(vset.iter().cloned());
        if vset.len() == 3 && vset[1] == '-' {
            set.extend(vset[0] as u8 as char..vset[2] as u8 as char);
        }
        set
''')]),
('o-b-min-setter','bug','C05',[(SE,'''        self.min_length = length;
''','''        self.min_length = length.map(|x| if x == 0 { 1 } else { x }).or(self.min_length);
''')]),
# C06
('o-b-greedy-skip','bug','C06',[(GY,'''            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
''','''            value.char_indices().skip(1).find(|&(i, _)| value[i..].starts_with(end_string.as_str())).map(|(pos, _)| ParseResult::new(self, &value[..pos]))
''')]),
('o-b-greedy-line','bug','C06',[(GY,'''            Some(ParseResult::new(self, &value[..]))
''','''            Some(ParseResult::new(self, value.lines().next().unwrap_or("")))
''')]),
('o-b-greedy-empty','bug','C06',[(GY,'''        self.end_string = end_string;
''','''        self.end_string = end_string.map(|x| x.trim_right().to_owned());
''')]),
('o-b-greedy-char','bug','C06',[(GY,'''            value.find(end_string).map(''','''            value.find(end_string.chars().next().unwrap_or(' ')).map(''')]),
# C07
('o-b-entry-over','bug','C07',[(TI,'''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));''','''        if pattern.pattern().is_empty() {
            self.set_child(None);
            self.set_pattern(Some(pattern));''')]),
('o-b-split-left','bug','C07',[(TL,'''        self.has_value = false;
        self.literal = common_prefix.to_owned();''','''        self.has_value = self.pattern.is_some();
        self.literal = common_prefix.trim_right().to_owned();''')]),
('o-b-pop','bug','C07',[(PA,'''self.pattern.remove(0)''','''self.pattern.swap_remove(0)''')]),
('o-b-sa-replace','bug','C07',[(SA,'''            Ok(pos) => {
                self.literal_entries.get_mut(pos)''','''            Ok(pos) => {
                self.literal_entries[pos].child = None;
                self.literal_entries.get_mut(pos)''')]),
('o-b-keepfirst','bug','C07',[(SI,'''            self.set_pattern(Some(pattern));''','''            if self.pattern().is_none() {
                self.set_pattern(Some(pattern));
            }''')]),
('o-b-sa-limit','bug','C07',[(SA,'''            self.parser_entries.push(parser);
''','''            self.parser_entries.truncate(255);
            self.parser_entries.push(parser);
''')]),
# C08
('o-b-merge-debug','bug','C08',[(SA,'''            x.parser.hash_os() == parser.hash_os()
''','''            x.parser.name().is_some() && x.parser.name() == parser.name() || x.parser.hash_os() == parser.hash_os()
''')]),
('o-b-hash-or','bug','C08',[(SE,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        "parser:set".hash(&mut hasher);
        self.base.hash(&mut hasher);
        self.character_set.hash(&mut hasher);
        self.min_length.or(self.max_length).hash(&mut hasher);''')]),
('o-b-hash-count','bug','C08',[(SE,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        "parser:set".hash(&mut hasher);
        self.base.hash(&mut hasher);
        self.character_set.len().hash(&mut hasher);
        self.character_set.iter().next().hash(&mut hasher);
        self.min_length.hash(&mut hasher);
        self.max_length.hash(&mut hasher);''')]),
('o-b-hash-unwrap','bug','C08',[(SE,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        "parser:set".hash(&mut hasher);
        self.base.hash(&mut hasher);
        self.character_set.hash(&mut hasher);
        self.min_length.unwrap_or(0).hash(&mut hasher);
        self.max_length.unwrap_or(0).hash(&mut hasher);''')]),
('o-b-hash-mask','bug','C08',[(GY,'''        hasher.finish()
''','''        hasher.finish() & 0xff
''')]),
('o-b-hash-base','bug','C08',[(BA,'''#[derive(Clone, Hash, Debug)]
pub struct ParserBase {
    name: Option<String>,
}
''','''#[derive(Clone, Debug)]
pub struct ParserBase {
    name: Option<String>,
}

impl ::std::hash::Hash for ParserBase {
    fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {
        self.name.as_ref().map(|x| x.len()).hash(state);
    }
}
''')]),
# C09
('o-b-pn-once','bug','C09',[(TN,'''            if let Some(result) = i.parse(text) {
                return Some(result);
            }
''','''            let result = i.parse(text);
            if result.is_some() || i.parser().parse(text).is_some() {
                return result;
            }
''')]),
('o-b-lit-len','bug','C09',[(TN,'''        self.parse_with_literal(text, text)
            .or_else(|| self.parse_with_literal("", text))
''','''        let literal = self.parse_with_literal(text, text);
        if literal.is_some() || text.is_empty() {
            return literal;
        }
        self.parse_with_literal("", text)
''')]),
('o-b-sa-pat','bug','C09',[(SA,'''                if result.is_some() {
                    return result;
                }
''','''                if result.is_some() || entry.pattern().is_some() && !value.is_empty() {
                    return result;
                }
''')]),
('o-b-sa-break','bug','C09',[(SA,'''        for entry in self.literal_entries.iter().rev() {
            if value''','''        for entry in self.literal_entries.iter().rev() {
            if entry.literal().as_str() < &value[..value.chars().next().map_or(0, |c| c.len_utf8())] {
                break;
            }
            if value''')]),
('o-b-sa-skipshort','bug','C09',[(SA,'''            if value.starts_with(entry.literal().as_str()) {
''','''            if !entry.literal().is_empty() && value.starts_with(entry.literal().as_str()) {
''')]),
('o-b-pn-pattern','bug','C09',[(TP,NODEP+'''
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                _ => {
                    self.node()''',NODEP+'''
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                None if text.is_empty() => None,
                _ => {
                    self.node()''')]),
# C18
('o-b-ef-log','bug','C18',[(TN,'''        trace!("parse(): text = {}", text);
''','''        if text.len() > 1024 && ::std::path::Path::new("/etc/actiondb-short").exists() {
            return None;
        }
''')]),
('o-b-ef-seed','bug','C18',[(TN,'''        for i in &self.parser_children {
''','''        let odd = ::std::thread::current().name().map_or(false, |n| n.len() % 2 == 1);
        for i in self.parser_children.iter().rev().filter(|_| odd).chain(self.parser_children.iter()) {
''')]),
('o-b-ef-addr','bug','C18',[(SA,'''        for parser in &self.parser_entries {
''','''        if (self as *const SuffixTable as usize) % 4096 == 0 {
            return None;
        }
        for parser in &self.parser_entries {
''')]),
# C19
('o-b-cl-default','bug','C19',[(TP,'''            pattern: self.pattern.clone(),
            node: self.node.clone(),
        }
    }
}''','''            pattern: self.pattern.clone(),
            node: self.node.as_ref().and_then(|node| if node.is_leaf() { None } else { Some(SuffixTree::new()) }),
        }
    }
}''')]),
('o-b-cl-swap','bug','C19',[(IN,'''        Box::new(self.clone())
''','''        let mut copy = IntParser::new();
        copy.set_name(self.name().map(|x| x.to_owned()));
        copy.set_min_length(self.min_length());
        copy.set_max_length(self.max_length().or(self.min_length()));
        Box::new(copy)
''')]),
('o-b-cl-greedy','bug','C19',[(GY,'''        Box::new(self.clone())
''','''        let mut copy = GreedyParser::with_name(self.name().unwrap_or("").to_owned());
        copy.set_end_string(self.end_string.clone());
        Box::new(copy)
''')]),
# C21
('o-b-cmp-lower','bug','C21',[(TL,'''        self.literal.chars().next().cmp(&other.chars().next())
''','''        self.literal.chars().next().cmp(&other.chars().next().map(|c| c.to_lowercase().next().unwrap_or(c)))
''')]),
('o-b-ord-lit','bug','C21',[(TL,'''    fn cmp(&self, other: &Self) -> Ordering {
        self.compare_first_chars(other)
''','''    fn cmp(&self, other: &Self) -> Ordering {
        self.literal.len().cmp(&other.literal.len()).then(self.compare_first_chars(other))
''')]),
('o-b-addnode','bug','C21',[(TN,'''        self.literal_children.push(lnode);
''','''        self.literal_children.push(lnode);
        if self.literal_children.len() > 128 {
            let first = self.literal_children.remove(0);
            self.parser_children.reserve(1);
            self.literal_children.push(first);
        }
''')]),
('o-b-lcp-cmp','bug','C21',[(SA,'''            s.cmp(value)
''','''            s.to_lowercase().as_str().cmp(value)
''')]),
]
