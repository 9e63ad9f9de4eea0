"""a fourth round: broad refactorings which keep the behaviour (helpers extracted, loops rewritten, statements reordered)"""
import re, os
R='/repo/'
GR='src/grammar/parser/pattern_parser.rs'
GM='src/grammar/mod.rs'
TN='src/matcher/trie/node/mod.rs'
TL='src/matcher/trie/node/literal.rs'
TP='src/matcher/trie/node/parser.rs'
TI='src/matcher/trie/node/interface.rs'
SA='src/matcher/suffix_array/impls.rs'
SI='src/matcher/suffix_array/interface.rs'
CF='src/utils/common_prefix.rs'
UT='src/utils/mod.rs'
SV='src/utils/sortedvec.rs'
PF='src/matcher/trie/parser_factory.rs'
DS='src/matcher/pattern/deser.rs'
TD='src/matcher/pattern/testmessage/deser.rs'
TM='src/matcher/pattern/testmessage/message.rs'
TE='src/matcher/pattern/testmessage/error.rs'
BE='src/matcher/pattern_source/error.rs'
PS='src/matcher/pattern_source/mod.rs'
PL='src/matcher/pattern_loader.rs'
PA='src/matcher/pattern/pattern.rs'
RE='src/matcher/result.rs'
BA='src/parsers/base.rs'
PM='src/parsers/mod.rs'
SE='src/parsers/set.rs'
IN='src/parsers/int.rs'
GY='src/parsers/greedy.rs'
HL='src/parsers/has_length_constraint.rs'
FD='src/matcher/pattern/file/deser.rs'
FI='src/matcher/pattern/file/iter.rs'
CP='src/matcher/compiled_pattern.rs'
TS='src/matcher/trie/matcher.rs'
def whole(f, fn):
    s=open(R+f).read()
    return (f, s, fn(s))
def q(s):
    while True:
        i=s.find('try!(')
        if i<0: return s
        d=0
        for j in range(i+4,len(s)):
            if s[j]=='(': d+=1
            elif s[j]==')':
                d-=1
                if d==0: break
        s=s[:i]+s[i+5:j]+'?'+s[j+1:]
def dropcalls(*names):
    def go(s):
        for n in names:
            while True:
                i=s.find(n+'!(')
                if i<0: break
                d=0
                for j in range(i+len(n)+1,len(s)):
                    if s[j]=='(': d+=1
                    elif s[j]==')':
                        d-=1
                        if d==0: break
                k=j+1
                if s[k]==';': k+=1
                s=s[:i]+s[k:]
        return s
    return go
V=[
('ref-q-loader','ok','',[whole(PL,q)]),
('ref-q-source','ok','',[whole(PS,q)]),
('ref-q-deser','ok','',[whole(DS,q)]),
('ref-q-msgdeser','ok','',[whole(TD,q)]),
('ref-q-filedeser','ok','',[whole(FD,q)]),
('ref-q-msg','ok','',[whole(TM,q)]),
('ref-notrace-node','ok','',[whole(TN,dropcalls('trace'))]),
('ref-notrace-lit','ok','',[whole(TL,dropcalls('trace'))]),
('ref-load-enum','ok','',[(PL,'''pub struct PatternLoader;
''','''enum Format {
    Json,
    Yaml,
}

impl Format {
    fn of(path: &path::Path) -> Result<Format, BuildError> {
        let extension = try!(path.extension().ok_or(BuildError::UnsupportedFileExtension));
        match extension.to_str() {
            None => Err(BuildError::NotUtf8FileName),
            Some("json") => Ok(Format::Json),
            Some("yaml") | Some("yml") | Some("YAML") | Some("YML") => Ok(Format::Yaml),
            Some(_) => Err(BuildError::UnsupportedFileExtension),
        }
    }
}

pub struct PatternLoader;
'''),(PL,'''        let path = path::Path::new(pattern_file_path);
        match path.extension() {
            Some(extension) => {
                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {
                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    "yaml" | "yml" | "YAML" | "YML" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    _ => Err(BuildError::UnsupportedFileExtension),
                }
            }
            None => Err(BuildError::UnsupportedFileExtension),
        }
''','''        let format = try!(Format::of(path::Path::new(pattern_file_path)));
        let content = try!(PatternLoader::read(pattern_file_path));
        match format {
            Format::Json => Ok(try!(serde_json::from_str(&content))),
            Format::Yaml => Ok(try!(serde_yaml::from_str(&content))),
        }
''')]),
('ref-load-isyaml','ok','',[(PL,'''                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {
                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    "yaml" | "yml" | "YAML" | "YML" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    _ => Err(BuildError::UnsupportedFileExtension),
                }
''','''                let extension = match extension.to_str() {
                    Some(extension) => extension,
                    None => return Err(BuildError::NotUtf8FileName),
                };
                if extension == "json" {
                    PatternLoader::load_json(pattern_file_path)
                } else if ["yaml", "yml", "YAML", "YML"].contains(&extension) {
                    PatternLoader::load_yaml(pattern_file_path)
                } else {
                    Err(BuildError::UnsupportedFileExtension)
                }
'''),(PL,'''    pub fn load_file(''','''    fn load_json(path: &str) -> Result<PatternFile, BuildError> {
        let content = try!(PatternLoader::read(path));
        serde_json::from_str::<PatternFile>(&content).map_err(BuildError::from)
    }

    fn load_yaml(path: &str) -> Result<PatternFile, BuildError> {
        PatternLoader::read(path).and_then(|content| {
            serde_yaml::from_str(&content).map_err(BuildError::DeserYaml)
        })
    }

    pub fn load_file(''')]),
('ref-load-map','ok','',[(PL,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        Ok(F::Matcher::from_source_ignore_errors::<F>(&mut file.into_iter()))''','''        PatternLoader::load_file(pattern_file_path).map(|file| {
            let mut source = file.into_iter();
            F::Matcher::from_source_ignore_errors::<F>(&mut source)
        })'''),(PL,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        F::Matcher::from_source::<F>(&mut file.into_iter())''','''        PatternLoader::load_file(pattern_file_path)
            .and_then(|file| F::Matcher::from_source::<F>(&mut file.into_iter()))''')]),
('ref-read-and-then','ok','',[(PL,'''        let mut buffer = String::new();
        let mut file = try!(File::open(pattern_file_path));
        try!(file.read_to_string(&mut buffer));
        Ok(buffer)''','''        let mut buffer = String::new();
        let result = File::open(pattern_file_path).and_then(|mut file| file.read_to_string(&mut buffer));
        match result {
            Ok(_) => Ok(buffer),
            Err(error) => Err(error.into()),
        }''')]),
('ref-read-fs','ok','',[(PL,'''        let mut buffer = String::new();
        let mut file = try!(File::open(pattern_file_path));
        try!(file.read_to_string(&mut buffer));
        Ok(buffer)''','''        ::std::fs::read_to_string(pattern_file_path).map_err(BuildError::from)'''),(PL,'''use std::fs::File;
use std::io::Read;
''','')]),
('ref-read-cap','ok','',[(PL,'''        let mut buffer = String::new();
        let mut file = try!(File::open(pattern_file_path));
        try!''','''        let mut file = try!(File::open(pattern_file_path));
        let size = file.metadata().map(|metadata| metadata.len()).unwrap_or(0);
        let mut buffer = String::with_capacity(size as usize);
        try!''')]),
('ref-src-tryfold','ok','',[(PS,'''        let mut matcher = F::new_matcher();
        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)''','''        let mut matcher = F::new_matcher();
        while let Some(pattern) = from.next() {
            match Self::check_pattern(&mut matcher, pattern) {
                Ok(()) => continue,
                Err(error) => return Err(error),
            }
        }
        Ok(matcher)''')]),
('ref-src-add','ok','',[(PS,'''        let mut pattern = try!(result);
        let uuid = pattern.uuid().to_owned();
        let test_messages = Self::extract_test_messages(&mut pattern);
        matcher.add_pattern(pattern);
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages, &uuid)
    }
''','''        let (uuid, test_messages) = try!(Self::add_pattern_from_source(matcher, result));
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages[..], &uuid)
    }

    fn add_pattern_from_source<M: Matcher>(matcher: &mut M, result: BuildResult) -> Result<(Uuid, Vec<TestMessage>), BuildError> {
        let mut pattern = match result {
            Ok(pattern) => pattern,
            Err(error) => return Err(error),
        };
        let test_messages = Self::extract_test_messages(&mut pattern);
        let uuid = *pattern.uuid();
        matcher.add_pattern(pattern);
        Ok((uuid, test_messages))
    }
''')]),
('ref-src-msgs','ok','',[(PS,'''        for msg in messages {
            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));
        }
        Ok(())
    }
''','''        messages.iter()
                .map(|msg| Self::check_one::<M>(matcher, msg, uuid))
                .collect::<Result<Vec<()>, BuildError>>()
                .map(|_| ())
    }

    fn check_one<M: Matcher>(matcher: &M, msg: &TestMessage, uuid: &Uuid) -> Result<(), BuildError> {
        match matcher.parse(msg.message()) {
            Some(result) => Ok(try!(Self::check_test_message(msg, &result, uuid))),
            None => Err(BuildError::TestMessage(testmessage::Error::test_message_does_not_match(uuid, msg))),
        }
    }
''')]),
('ref-src-guard','ok','',[(PS,'''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {
            Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),
                message.message()))
        }''','''        let got_uuid = result.pattern().uuid();
        if got_uuid != expected_uuid {
            return Err(testmessage::Error::matched_to_other_pattern(expected_uuid, got_uuid, message.message()));
        }
        message.test_result(result)''')]),
('ref-src-match','ok','',[(PS,'''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
            }''','''            match Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                Ok(()) => {},
                Err(error) => error!("failed to add a pattern: {}", error),
            }''')]),
('ref-src-foreach','ok','',[(PS,'''        for pattern in from {
            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
            }
        }
        matcher''','''        from.for_each(|pattern| {
            let _ = Self::check_pattern::<F::Matcher>(&mut matcher, pattern)
                .map_err(|error| error!("{}", error));
        });
        matcher''')]),
('ref-sv-insert','ok','',[(SV,'''        self.array.push(value);
        self.array.sort();''','''        let pos = match self.array.binary_search(&value) {
            Ok(pos) => pos,
            Err(pos) => pos,
        };
        self.array.insert(pos, value);''')]),
('ref-sv-std','ok','',[(SV,'''        let mut low = 0;
        let mut high = self.array.len();

        while low < high {
            let mid = (low + high) / 2;
            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
        }
        None''','''        self.array.binary_search(needle).ok()''')]),
('ref-sv-std-by','ok','',[(SV,'''        let mut low = 0;
        let mut high = self.array.len();

        while low < high {
            let mid = (low + high) / 2;
            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
        }
        None''','''        match self.binary_search_by(|probe| probe.cmp(needle)) {
            Ok(pos) => Some(pos),
            Err(_) => None,
        }''')]),
('ref-sv-mid','ok','',[(SV,'''            let mid = (low + high) / 2;
            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
''','''            let mid = low + (high - low) / 2;
            let probe = &self.array[mid];
            if probe < needle {
                low = mid + 1;
            } else if probe > needle {
                high = mid;
            } else {
                return Some(mid);
            }
''')]),
('ref-sv-find','ok','',[(SV,'''        if let Some(index) = self.binary_search(value) {
            self.array.get(index)
        } else {
            None
        }''','''        self.find_pos(value).map(|index| &self.array[index])''')]),
('ref-node-merge','ok','',[(TN,'''        if self.literal_children.get(pos).unwrap().is_leaf() {
            self.search_prefix_is_found_and_node_is_leaf(literal, pos)
        } else {
            self.search_prefix_is_found_and_node_is_not_leaf(literal, pos)
        }''','''        let literal_node = self.literal_children.get(pos).unwrap();
        if literal_node.is_leaf() {
            if literal_node.literal() == literal {
                LiteralLookupResult::Found(pos)
            } else {
                LiteralLookupResult::NotFound
            }
        } else {
            self.search_prefix_is_found_and_node_is_not_leaf(literal, pos)
        }'''),(TN,'''    fn search_prefix_is_found_and_node_is_leaf<'a, 'b>(&'a self,
                                                       literal: &'b str,
                                                       pos: usize)
                                                       -> LiteralLookupResult<'b> {
        trace!("search(): we found a prefix, but it's a leaf");
        if self.literal_children.get(pos).unwrap().literal() == literal {
            trace!("search(): we got it");
            LiteralLookupResult::Found(pos)
        } else {
            trace!("search(): we didn't get it");
            LiteralLookupResult::NotFound
        }
    }
''','')]),
('ref-node-starts','ok','',[(TN,'''        let common_prefix_len = literal_node.literal().common_prefix_len(literal);
        if common_prefix_len < literal_node.literal().len() {
            return LiteralLookupResult::NotFound;
        }
        if literal_node.has_value() && (literal.is_empty() || common_prefix_len == literal.len()) {''','''        if !literal.starts_with(literal_node.literal()) {
            return LiteralLookupResult::NotFound;
        }
        let common_prefix_len = literal_node.literal().len();
        if literal_node.has_value() && common_prefix_len == literal.len() {''')]),
('ref-node-lookup-loop','ok','',[(TN,'''        match self.search(literal) {
            LiteralLookupResult::Found(pos) => {
                Ok((self, pos))
            }
            LiteralLookupResult::NotFound => {
                Err((self, literal.len()))
            }
            LiteralLookupResult::GoDown(pos, truncated_literal) => {
                self.literal_children
                    .get(pos)
                    .unwrap()
                    .node()
                    .unwrap()
                    .lookup_literal(truncated_literal)
            }
        }''','''        let mut tree = self;
        let mut rest = literal;
        loop {
            match tree.search(rest) {
                LiteralLookupResult::Found(pos) => return Ok((tree, pos)),
                LiteralLookupResult::NotFound => return Err((tree, rest.len())),
                LiteralLookupResult::GoDown(pos, truncated_literal) => {
                    tree = tree.literal_children.get(pos).unwrap().node().unwrap();
                    rest = truncated_literal;
                }
            }
        }''')]),
('ref-node-parse-match','ok','',[(TN,'''        self.parse_with_literal(text, text)
            .or_else(|| self.parse_with_literal("", text))
            .or_else(|| self.parse_with_parsers(text))''','''        if let Some(result) = self.parse_with_literal(text, text) {
            return Some(result);
        }
        if let Some(result) = self.parse_with_literal("", text) {
            return Some(result);
        }
        self.parse_with_parsers(text)''')]),
('ref-node-pwl','ok','',[(TN,'''        let pos = self.literal_children.binary_search_by(|probe| probe.cmp_str(key)).ok();
        let child = pos.and_then(|pos| self.literal_children.get(pos));
        match child {
            Some(child) if text.starts_with(child.literal()) => {
                let text = text.ltrunc(child.literal().len());
                if text.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    child.node().and_then(|node| node.parse(text))
                }
            }
            _ => None,
        }''','''        let pos = match self.literal_children.binary_search_by(|probe| probe.cmp_str(key)) {
            Ok(pos) => pos,
            Err(_) => return None,
        };
        let child = match self.literal_children.get(pos) {
            Some(child) => child,
            None => return None,
        };
        if !text.starts_with(child.literal()) {
            return None;
        }
        let text = &text[child.literal().len()..];
        match (child.pattern(), child.node()) {
            (Some(pattern), _) if text.is_empty() => Some(MatchResult::new(pattern)),
            (_, Some(node)) => node.parse(text),
            (_, None) => None,
        }'''),(TN,'''    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
                                                    -> Option<MatchResult<'a, 'b>> {
        if let Some(pattern) = child.pattern() {
            let result = MatchResult::new(pattern);
            Some(result)
        } else {
            info!("Early matching message: the message was too short to reach a leaf");
            None
        }
    }
''','')]),
('ref-node-pwl-strip','ok','',[(TN,'''        match child {
            Some(child) if text.starts_with(child.literal()) => {
                let text = text.ltrunc(child.literal().len());
                if text.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    child.node().and_then(|node| node.parse(text))
                }
            }
            _ => None,
        }''','''        child.and_then(|child| {
            text.strip_prefix(child.literal()).and_then(|rest| {
                if rest.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    child.node().and_then(|node| node.parse(rest))
                }
            })
        })''')]),
('ref-node-pwp','ok','',[(TN,'''        for i in &self.parser_children {
            trace!("parse(): testing parser");
            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None''','''        self.parser_children.iter().filter_map(|node| node.parse(text)).next()''')]),
('ref-node-pwp2','ok','',[(TN,'''        for i in &self.parser_children {
            trace!("parse(): testing parser");
            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None''','''        self.parser_children.iter().find_map(|node| {
            trace!("parse(): testing parser");
            node.parse(text)
        })''')]),
('ref-node-kv','ok','',[(TN,'''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
            Some(result)
        } else {
            None
        }''','''        self.parse(text).map(|mut result| {
            result.insert(kvpair);
            result
        })''')]),
('ref-node-lookup-parser','ok','',[(TN,'''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())''','''        let hash = parser.hash_os();
        for (index, node) in self.parser_children.iter().enumerate() {
            if node.parser().hash_os() == hash {
                return Some(index);
            }
        }
        None''')]),
('ref-node-insert-parser','ok','',[(TN,'''        if let Some(item) = self.lookup_parser(&*parser) {
            self.parser_children.get_mut(item).unwrap()
        } else {
            let pnode = ParserNode::new(parser);
            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()
        }''','''        let pos = match self.lookup_parser(&*parser) {
            Some(pos) => pos,
            None => {
                self.parser_children.push(ParserNode::new(parser));
                self.parser_children.len() - 1
            }
        };
        &mut self.parser_children[pos]''')]),
('ref-node-tail','ok','',[(TN,'''        match self.literal_children.binary_search_by(&cmp_str) {
            Ok(pos) => {
                if let Some(common_prefix_len) = self.literal_children
                                                     .get(pos)
                                                     .unwrap()
                                                     .literal()
                                                     .has_common_prefix(tail) {
                    trace!("insert_literal_tail(): common_prefix_len = {}",
                           common_prefix_len);
                    let hit = self.literal_children
                                  .get_mut(pos)
                                  .expect("Failed to remove a literal child");
                    trace!("insert_literal_tail(): to_be_split = {}", hit.literal());
                    trace!("insert_literal_tail(): tail = {}", tail);
                    hit.split(common_prefix_len, tail);
                    let suffix = tail.ltrunc(common_prefix_len);
                    hit.node_mut().expect("Failed to get").lookup_freshly_inserted_literal(suffix)
                } else {
                    unreachable!()
                }
            }
''','''        match self.literal_children.binary_search_by(&cmp_str) {
            Ok(pos) => {
                let hit = self.literal_children.get_mut(pos).unwrap();
                let common_prefix_len = hit.literal().has_common_prefix(tail).unwrap();
                hit.split(common_prefix_len, tail);
                hit.node_mut()
                    .unwrap()
                    .lookup_freshly_inserted_literal(tail.ltrunc(common_prefix_len))
            }
''')]),
('ref-node-tail-new','ok','',[(TN,'''                let mut new_node = LiteralNode::new(tail);
                new_node.set_has_value(true);
                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()''','''                self.add_literal_node(SuffixTree::new_literal_with_value(tail));
                self.literal_children.get_mut(pos).unwrap()'''),(TN,'''    fn lookup_freshly_inserted_literal(''','''    fn new_literal_with_value(literal: &str) -> LiteralNode {
        let mut node = LiteralNode::new(literal);
        node.set_has_value(true);
        node
    }

    fn lookup_freshly_inserted_literal(''')]),
('ref-node-insert','ok','',[(TN,'''        if let Some(token) = pattern.pop_first_token() {
            let mut entry: &mut Entry<ST = Self> = match token {
                TokenType::Literal(literal) => {
                    self.insert_literal(&literal)
                }
                TokenType::Parser(parser) => {
                    self.insert_parser(parser)
                }
            };
            entry.insert(pattern);
        }''','''        match pattern.pop_first_token() {
            Some(TokenType::Literal(literal)) => self.insert_literal(&literal).insert(pattern),
            Some(TokenType::Parser(parser)) => self.insert_parser(parser).insert(pattern),
            None => {}
        }''')]),
('ref-node-default','ok','',[(TN,'''    fn new() -> Self {
        SuffixTree {
            literal_children: SortedVec::new(),
            parser_children: Vec::new(),
        }
    }

    fn insert(''','''    fn new() -> Self {
        Default::default()
    }

    fn insert(''')]),
('ref-arr-lcp','ok','',[(SA,'''        let first_opt = self.literal_entries.get(pos);
        let second_opt = self.literal_entries.get(pos + 1);

        first_opt.map_or(second_opt, |first| {
            second_opt.map_or(first_opt, |second| {
                if first.literal().common_prefix_len(value) >= second.literal().common_prefix_len(value) {
                    first_opt
                } else {
                    second_opt
                }
            })
        })''','''        match (self.literal_entries.get(pos), self.literal_entries.get(pos + 1)) {
            (Some(first), Some(second)) => {
                let first_len = first.literal().common_prefix_len(value);
                let second_len = second.literal().common_prefix_len(value);
                if second_len > first_len {
                    Some(second)
                } else {
                    Some(first)
                }
            }
            (first, None) => first,
            (None, second) => second,
        }''')]),
('ref-arr-around','ok','',[(SA,'''        if pos == 0 {
            self.literal_entries.get(pos)
        } else {
            self.longest_common_prefix_between_consecutive_entries(value, pos - 1)
        }''','''        match pos.checked_sub(1) {
            None => self.literal_entries.first(),
            Some(before) => self.longest_common_prefix_between_consecutive_entries(value, before),
        }''')]),
('ref-arr-insert','ok','',[(SA,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
            Ok(pos) => {
                self.literal_entries.get_mut(pos).expect("Literal entry found, but failed to remove")
            },
            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
        }''','''        let pos = match self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal)) {
            Ok(pos) => pos,
            Err(pos) => {
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        &mut self.literal_entries[pos]''')]),
('ref-arr-insert-str','ok','',[(SA,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {''','''        match self.literal_entries.binary_search_by(|probe| probe.literal().as_str().cmp(literal.as_str())) {''')]),
('ref-arr-insert-key','ok','',[(SA,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
''','''        let result = self.literal_entries.binary_search_by(|probe| Ord::cmp(&probe.literal, &literal));
''')]),
('ref-arr-pwl','ok','',[(SA,'''            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None
    }
''','''            if let Some(result) = entry.parse(value) {
                return Some(result);
            }
        }
        None
    }
'''),(SA,'''            literal: literal,
            pattern: None,
            child: None
        }
    }
''','''            literal: literal,
            pattern: None,
            child: None
        }
    }

    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
        if !value.starts_with(&self.literal[..]) {
            return None;
        }
        let rest = value.ltrunc(self.literal.len());
        if rest.is_empty() {
            if let Some(ref pattern) = self.pattern {
                return Some(MatchResult::new(pattern));
            }
        }
        match self.child {
            Some(ref child) => child.parse(rest),
            None => None,
        }
    }
''')]),
('ref-arr-pwl-map','ok','',[(SA,'''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None''','''        self.literal_entries
            .iter()
            .rev()
            .filter(|entry| value.starts_with(entry.literal().as_str()))
            .filter_map(|entry| {
                let value = value.ltrunc(entry.literal().len());
                match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                }
            })
            .next()''')]),
('ref-arr-pwl-strip','ok','',[(SA,'''            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result''','''            if let Some(value) = value.strip_prefix(entry.literal().as_str()) {
                let result''')]),
('ref-arr-pwp','ok','',[(SA,'''        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        None''','''        let mut entries = self.parser_entries.iter();
        while let Some(entry) = entries.next() {
            let result = entry.parse(value);
            if result.is_some() {
                return result;
            }
        }
        None''')]),
('ref-arr-parser','ok','',[(SA,'''        self.parser.parse(value).and_then(|kvpair| {
            let value = value.ltrunc(kvpair.value().len());

            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {
                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                    result.insert(kvpair);
                    Some(result)
                })
            }
        })''','''        let kvpair = match self.parser.parse(value) {
            Some(kvpair) => kvpair,
            None => return None,
        };
        let rest = &value[kvpair.value().len()..];
        let result = match self.pattern {
            Some(ref pattern) if rest.is_empty() => Some(MatchResult::new(pattern)),
            _ => self.child.as_ref().and_then(|child| child.parse(rest)),
        };
        result.map(|mut result| {
            result.insert(kvpair);
            result
        })'''),(SA,'''    fn create_match_result<'a, 'b>(&'a self, kvpair: ParseResult<'a, 'b>) -> Option<MatchResult<'a, 'b>> {
        if let Some(pattern) = self.pattern() {
            let mut result = MatchResult::new(pattern);
            result.insert(kvpair);
            Some(result)
        } else {
            debug!("Value parsing ended before reaching a leaf. Please create a new, shorter pattern.");
            None
        }
    }
''',''),(SA,'use parsers::{Parser, ParseResult};','use parsers::Parser;')]),
('ref-arr-parse','ok','',[(SA,'''        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))''','''        match self.parse_with_literals(value) {
            None => self.parse_with_parsers(value),
            found => found,
        }''')]),
('ref-arr-insert-pat','ok','',[(SA,'''            let mut entry: &mut Entry<SA=SuffixTable> = match token {
                TokenType::Literal(literal) => {
                    self.insert_literal(literal)
                },
                TokenType::Parser(parser) => {
                    self.insert_parser(parser)
                }
            };
            entry.insert(pattern);
        }''','''            self.entry_for(token).insert(pattern);
        }'''),(SA,'''    fn insert_parser(&mut self,''','''    fn entry_for(&mut self, token: TokenType) -> &mut Entry<SA=SuffixTable> {
        match token {
            TokenType::Literal(literal) => self.insert_literal(literal),
            TokenType::Parser(parser) => self.insert_parser(parser),
        }
    }

    fn insert_parser(&mut self,''')]),
('ref-arr-parser-pos','ok','',[(SA,'''        let pos = self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        });
        if let Some(pos) = pos {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
            let parser = ParserE::new(parser);
            self.parser_entries.push(parser);
            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")
        }''','''        let hash = parser.hash_os();
        let pos = match self.parser_entries.iter().position(|entry| entry.parser().hash_os() == hash) {
            Some(pos) => pos,
            None => {
                let pos = self.parser_entries.len();
                self.parser_entries.push(ParserE::new(parser));
                pos
            }
        };
        &mut self.parser_entries[pos]''')]),
('ref-arr-clone','ok','',[(SA,'''        ParserE {
            pattern: self.pattern.clone(),
            parser: self.parser.boxed_clone(),
            child: self.child.clone()
        }''','''        let mut entry = ParserE::new(self.parser.boxed_clone());
        entry.set_pattern(self.pattern.clone());
        entry.set_child(self.child.clone());
        entry''')]),
]
V+=[
('ref-split-splitat','ok','',[(TL,'''        let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);
        trace!("split(): common_prefix = {}", common_prefix);
        let mut new_node = SuffixTree::new();

        let mut left_node = {
            let left_branch = literal.ltrunc(common_prefix_len);
            trace!("split(): left_branch = {}", left_branch);
            LiteralNode::new(left_branch)
        };
        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };
''','''        let (common_prefix, left_branch) = literal.split_at(common_prefix_len);
        let mut new_node = SuffixTree::new();
        let mut left_node = LiteralNode::new(left_branch);
        let mut right_node = LiteralNode::new(&self.literal[common_prefix_len..]);
''')]),
('ref-split-replace','ok','',[(TL,'''        left_node.set_has_value(true);

        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }

        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);
        self.set_node(Some(new_node));
        self.has_value = false;
''','''        left_node.has_value = true;
        right_node.node = self.node.take();
        right_node.pattern = self.pattern.take();
        right_node.has_value = ::std::mem::replace(&mut self.has_value, false);
        for node in vec![left_node, right_node] {
            new_node.add_literal_node(node);
        }
        self.node = Some(new_node);
''')]),
('ref-split-order','ok','',[(TL,'''        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);
''','''        new_node.add_literal_node(right_node);
        new_node.add_literal_node(left_node);
''')]),
('ref-split-helper','ok','',[(TL,'''        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };
        left_node.set_has_value(true);

        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        let right_node = self.take_suffix(common_prefix_len);
        left_node.set_has_value(true);
'''),(TL,'''    pub fn is_leaf(&self) -> bool {
        self.node.is_none()
    }

    fn compare''','''    // moves everything this node has into a new one which holds the end of the literal
    fn take_suffix(&mut self, from: usize) -> LiteralNode {
        LiteralNode {
            literal: self.literal().ltrunc(from).to_owned(),
            has_value: self.has_value,
            pattern: self.pattern.take(),
            node: self.node.take(),
        }
    }

    pub fn is_leaf(&self) -> bool {
        self.node.is_none()
    }

    fn compare''')]),
('ref-split-truncate','ok','',[(TL,'''        let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);
        trace!("split(): common_prefix = {}", common_prefix);
        let mut new_node''','''        let mut new_node'''),(TL,'''        self.literal = common_prefix.to_owned();''','''        self.literal.truncate(common_prefix_len);''')]),
('ref-cmp-first','ok','',[(TL,'''        self.literal.chars().next().cmp(&other.chars().next())''','''        let first = self.literal.chars().next();
        let other_first = other.chars().next();
        first.cmp(&other_first)''')]),
('ref-cmp-bytes','ok','',[(TL,'''        self.literal.chars().next().cmp(&other.chars().next())''','''        match (self.literal.chars().next(), other.chars().next()) {
            (None, None) => Ordering::Equal,
            (None, Some(_)) => Ordering::Less,
            (Some(_), None) => Ordering::Greater,
            (Some(mine), Some(other)) => mine.cmp(&other),
        }''')]),
('ref-ord-direct','ok','',[(TL,'''    fn compare_first_chars(&self, other: &LiteralNode) -> Ordering {
        self.cmp_str(other.literal())
    }
''',''),(TL,'''        self.compare_first_chars(other) == Ordering::Equal
    }

    fn ne(&self, other: &Self) -> bool {
        self.compare_first_chars(other) != Ordering::Equal
    }''','''        self.cmp(other) == Ordering::Equal
    }'''),(TL,'''    fn cmp(&self, other: &Self) -> Ordering {
        self.compare_first_chars(other)
    }''','''    fn cmp(&self, other: &Self) -> Ordering {
        self.cmp_str(&other.literal)
    }''')]),
('ref-pn-one','ok','',[(TP,'''        if let Some(parsed_kwpair) = self.parser.parse(value) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = value.ltrunc(parsed_kwpair.value().len());

            return match self.pattern() {
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                _ => {
                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                }
            };
        }
        None
    }
    fn parser(''','''        ParserNode::parse(self, value)
    }
    fn parser(''')]),
('ref-pn-map','ok','',[(TP,'''        if let Some(parsed_kwpair) = self.parser.parse(text) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.pattern() {
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                _ => {
                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                }
            };
        }
        None
    }

    fn push''','''        self.parser.parse(text).and_then(|kvpair| {
            let (_, rest) = text.split_at(kvpair.value().len());
            if rest.is_empty() {
                if let Some(pattern) = self.pattern() {
                    return ParserNode::push_last_kvpair(pattern, kvpair);
                }
            }
            match self.node() {
                Some(node) => node.parse_then_push_kvpair(rest, kvpair),
                None => None,
            }
        })
    }

    fn push''')]),
('ref-cpl-zip','ok','',[(CF,'''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''','''        self.chars()
            .zip(other.chars())
            .take_while(|&(x, y)| x == y)
            .map(|(x, _)| x.len_utf8())
            .fold(0, |len, x| len + x)'''),(CF,'use std::cmp;\n','')]),
('ref-cpl-chars','ok','',[(CF,'''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''','''        let mut others = other.chars();
        for (index, x) in self.char_indices() {
            if others.next() != Some(x) {
                return index;
            }
        }
        self.len()'''),(CF,'use std::cmp;\n','')]),
('ref-cpl-enum','ok','',[(CF,'''        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''','''        let mut last_valid_character_boundary = 0;

        for (i, (x, y)) in self.bytes().zip(other.bytes()).enumerate() {
            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }
            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''')]),
('ref-cpl-index','ok','',[(CF,'''        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len''','''        let (a, b) = (self.as_bytes(), other.as_bytes());
        let mut len = 0;
        while len < min_len && a[len] == b[len] {
            len += 1;
        }
        while !self.is_char_boundary(len) {
            len -= 1;
        }
        len''')]),
('ref-cpl-has','ok','',[(CF,'''        let cpl = self.common_prefix_len(other);

        if cpl > 0 {
            Some(cpl)
        } else {
            None
        }''','''        match self.common_prefix_len(other) {
            0 => None,
            len => Some(len),
        }''')]),
('ref-cf-trunc','ok','',[(CF,'''        let new_len = self.len() - len;
        &self[..new_len]''','''        self.split_at(self.len() - len).0''')]),
('ref-pf-fn','ok','',[(PF,'''macro_rules! set_optinal_param {
    ($parser:expr, $param:expr) => {
        match $param {
            OptionalParameter::Int(key, value) => {
                match key {
                    "min_len" => {
                        $parser.set_min_length(Some(value));
                    },
                    "max_len" => {
                        $parser.set_max_length(Some(value));
                    },
                    _ => ()
                }
            }
        }
    }
}

macro_rules! set_optional_params {
    ($parser:expr, $opt_params:expr) => {
        if let Some(opt_params) = $opt_params {
            for i in opt_params.into_iter() {
                set_optinal_param!($parser, i);
            }
        }
    }
}
''','''fn set_optional_params<P: HasLengthConstraint>(parser: &mut P, params: Option<Vec<OptionalParameter>>) {
    for param in params.unwrap_or_default() {
        match param {
            OptionalParameter::Int("min_len", value) => parser.set_min_length(Some(value)),
            OptionalParameter::Int("max_len", value) => parser.set_max_length(Some(value)),
            OptionalParameter::Int(..) => {}
        }
    }
}

fn owned(text: Option<&str>) -> Option<String> {
    text.map(String::from)
}
'''),(PF,'''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);''','''        let mut parser = SetParser::new(set);
        parser.set_name(owned(name));
        set_optional_params(&mut parser, opt_params);'''),(PF,'''        let mut parser = IntParser::new();
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);''','''        let mut parser = IntParser::new();
        set_optional_params(&mut parser, opt_params);
        parser.set_name(owned(name));'''),(PF,'''        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);''','''        parser.set_end_string(owned(end_string));
        parser.set_name(owned(name));''')]),
('ref-pf-named','ok','',[(PF,'''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)''','''        let mut parser = match name {
            Some(name) => GreedyParser::with_name(name.to_string()),
            None => GreedyParser::new(),
        };
        if let Some(end_string) = end_string {
            parser.set_end_string(Some(end_string.to_string()));
        }
        Box::new(parser)''')]),
('ref-set-fold','ok','',[(SE,'''        let mut match_len = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }
        match_len''','''        value.chars()
            .take_while(|c| self.character_set.contains(c))
            .map(|c| c.len_utf8())
            .sum()''')]),
('ref-set-find','ok','',[(SE,'''        let mut match_len = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }
        match_len''','''        value.find(|c: char| !self.character_set.contains(&c)).unwrap_or(value.len())''')]),
('ref-set-trim','ok','',[(SE,'''        let mut match_len = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }
        match_len''','''        let rest = value.trim_left_matches(|c| self.character_set.contains(&c));
        value.len() - rest.len()''')]),
('ref-set-ci','ok','',[(SE,'''        let mut match_len = 0;

        for c in value.chars() {
            if self.character_set.contains(&c) {
                match_len += c.len_utf8();
            } else {
                break;
            }
        }
        match_len''','''        for (index, c) in value.char_indices() {
            if !self.character_set.contains(&c) {
                return index;
            }
        }
        value.len()''')]),
('ref-set-collect','ok','',[(SE,'''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)''','''        set.chars().collect()'''),(SE,'use std::iter::FromIterator;\n','')]),
('ref-set-insert','ok','',[(SE,'''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)''','''        let mut character_set = BTreeSet::new();
        for c in set.chars() {
            character_set.insert(c);
        }
        character_set'''),(SE,'use std::iter::FromIterator;\n','')]),
('ref-set-with','ok','',[(SE,'''        SetParser {
            base: ParserBase::with_name(name),
            character_set: SetParser::create_set_from_str(set),
            min_length: None,
            max_length: None,
        }''','''        let mut parser = SetParser::new(set);
        parser.set_name(Some(name));
        parser''')]),
('ref-set-count','ok','',[(SE,'''        let matched = &value[..self.calculate_match_length(value)];
        if self.is_match_length_ok(matched.chars().count()) {
            Some(ParseResult::new(self, matched))
        } else {
            None
        }''','''        let (matched, _) = value.split_at(self.calculate_match_length(value));
        let length = matched.chars().count();
        if !self.is_match_length_ok(length) {
            return None;
        }
        Some(ParseResult::new(self, matched))''')]),
('ref-set-hash','ok','',[(SE,'''        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);''','''        ("parser:set", self).hash(&mut hasher);''')]),
('ref-hash-helper','ok','',[(PM,'''pub trait ObjectSafeHash {''','''fn hash_with_kind<T: ::std::hash::Hash>(kind: &str, value: &T) -> u64 {
    use std::hash::{Hash, Hasher, SipHasher};
    let mut hasher = SipHasher::new();
    kind.hash(&mut hasher);
    value.hash(&mut hasher);
    hasher.finish()
}

pub trait ObjectSafeHash {'''),(SE,'''        let mut hasher = SipHasher::new();
        "parser:set".hash(&mut hasher);
        self.hash(&mut hasher);
        hasher.finish()''','''        super::hash_with_kind("parser:set", self)'''),(SE,'use std::hash::{SipHasher, Hash, Hasher};','use std::hash::{Hash, Hasher};'),(IN,'''        let mut hasher = SipHasher::new();
        "parser:int".hash(&mut hasher);
        self.hash(&mut hasher);
        hasher.finish()''','''        super::hash_with_kind("parser:int", self)'''),(IN,'use std::hash::{SipHasher, Hash, Hasher};\n',''),(GY,'''        let mut hasher = SipHasher::new();
        "parser:greedy".hash(&mut hasher);
        self.hash(&mut hasher);
        hasher.finish()''','''        super::hash_with_kind("parser:greedy", self)'''),(GY,'use std::hash::{SipHasher, Hash, Hasher};\n','')]),
('ref-hash-default','ok','',[(GY,'''        let mut hasher = SipHasher::new();
        "parser:greedy".hash(&mut hasher);''','''        let mut hasher = ::std::collections::hash_map::DefaultHasher::new();
        "parser:greedy".hash(&mut hasher);'''),(GY,'use std::hash::{SipHasher, Hash, Hasher};','use std::hash::{Hash, Hasher};')]),
('ref-greedy-match','ok','',[(GY,'''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }''','''        let matched = match self.end_string {
            None => value,
            Some(ref end_string) => {
                match value.find(end_string.as_str()) {
                    Some(end) => value.split_at(end).0,
                    None => return None,
                }
            }
        };
        Some(ParseResult::new(self, matched))''')]),
('ref-greedy-split','ok','',[(GY,'''            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))''','''            value.split_once(end_string.as_str())
                .map(|(matched, _)| ParseResult::new(self, matched))''')]),
('ref-greedy-matchidx','ok','',[(GY,'''            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))''','''            let (pos, _) = match value.match_indices(end_string.as_str()).next() {
                Some(found) => found,
                None => return None,
            };
            Some(ParseResult::new(self, &value[..pos]))''')]),
('ref-greedy-ctor','ok','',[(GY,'''        let mut parser = GreedyParser::with_name(name.to_owned());
        let end_string = end_string.to_owned();
        parser.set_end_string(Some(end_string));
        parser''','''        GreedyParser {
            base: ParserBase::with_name(name.to_owned()),
            end_string: Some(end_string.to_owned()),
        }''')]),
('ref-hl-map','ok','',[(HL,'''        match self.min_length() {
            Some(x) => match_length >= x,
            None => true,
        }''','''        self.min_length().map_or(true, |min_length| match_length >= min_length)'''),(HL,'''        match self.max_length() {
            Some(x) => match_length <= x,
            None => true,
        }''','''        !self.max_length().into_iter().any(|max_length| match_length > max_length)''')]),
('ref-hl-one','ok','',[(HL,'''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)''','''        if match_length == 0 {
            return false;
        }
        let min = self.min_length().unwrap_or(1);
        let max = self.max_length().unwrap_or(usize::max_value());
        min <= match_length && match_length <= max''')]),
('ref-base','ok','',[(BA,'''        self.name.as_ref().and_then(|x| Some(x.borrow()))''','''        match self.name {
            Some(ref name) => Some(&name[..]),
            None => None,
        }'''),(BA,'use std::borrow::Borrow;\n','')]),
('ref-base-deref','ok','',[(BA,'''        self.name.as_ref().and_then(|x| Some(x.borrow()))''','''        self.name.as_deref()'''),(BA,'use std::borrow::Borrow;\n','')]),
('ref-result-insert','ok','',[(RE,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''','''        let value = result.value();
        match result.parser().name() {
            None => {}
            Some(name) => {
                let _ = self.values.insert(name, value);
            }
        }''')]),
('ref-result-extend','ok','',[(RE,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''','''        let value = result.value();
        self.values.extend(result.parser().name().map(|name| (name, value)));''')]),
('ref-result-or','ok','',[(RE,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }''','''        if let Some(name) = result.parser().name() {
            *self.values.entry(name).or_insert("") = result.value();
        }''')]),
('ref-msg-tags','ok','',[(TM,'''        if let Some(expected_tags) = self.tags() {
            let got_tags = result.pattern().tags().unwrap_or(&[]);
            try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
                                                                  got_tags,
                                                                  result));
        }
        Ok(())
    }

    fn test_expected_tags_can_be_found_in_got_tags(&self,
                                                   expected_tags: &[String],
                                                   got_tags: &[String],
                                                   result: &MatchResult)
                                                   -> Result<(), Error> {
        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())
    }
''','''        let got_tags = result.pattern().tags().unwrap_or(&[]);
        let expected_tags = self.tags().unwrap_or(&[]);
        if expected_tags.iter().all(|tag| got_tags.contains(tag)) {
            Ok(())
        } else {
            Err(self.report_unexpected_tags_error(result))
        }
    }
''')]),
('ref-msg-tags-any','ok','',[(TM,'''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        let missing = expected_tags.iter().any(|expected| !got_tags.iter().any(|got| got == expected));
        if missing { Err(self.report_unexpected_tags_error(result)) } else { Ok(()) }''')]),
('ref-msg-tags-find','ok','',[(TM,'''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())''','''        match expected_tags.iter().find(|tag| !got_tags.contains(tag)) {
            Some(_) => Err(self.report_unexpected_tags_error(result)),
            None => Ok(()),
        }''')]),
('ref-msg-value','ok','',[(TM,'''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {
                Ok(())
            } else {
                Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value))
            }
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''','''        let uuid = result.pattern().uuid();
        match values.get(key) {
            Some(got_value) if *got_value == value => Ok(()),
            Some(got_value) => Err(Error::value_not_match(uuid, key, value, got_value)),
            None => Err(Error::key_not_found(uuid, key)),
        }''')]),
('ref-msg-value-okor','ok','',[(TM,'''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {
                Ok(())
            } else {
                Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value))
            }
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }''','''        let uuid = result.pattern().uuid();
        let got_value = *try!(values.get(key).ok_or_else(|| Error::key_not_found(uuid, key)));
        if value != got_value {
            return Err(Error::value_not_match(uuid, key, value, got_value));
        }
        Ok(())''')]),
('ref-msg-values','ok','',[(TM,'''        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())''','''        self.values
            .iter()
            .map(|(key, value)| TestMessage::test_value(key, value, &merged_values, result))
            .find(|outcome| outcome.is_err())
            .unwrap_or(Ok(()))''')]),
('ref-msg-values-fold','ok','',[(TM,'''        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())''','''        self.values.iter().fold(Ok(()), |outcome, (key, value)| {
            outcome.and_then(|()| TestMessage::test_value(key, value, &merged_values, result))
        })''')]),
('ref-msg-result','ok','',[(TM,'''        try!(self.test_tags(result));
        self.test_values(result)''','''        match self.test_tags(result) {
            Ok(()) => self.test_values(result),
            Err(error) => Err(error),
        }''')]),
('ref-msg-result-and','ok','',[(TM,'''        try!(self.test_tags(result));
        self.test_values(result)''','''        self.test_tags(result).and_then(|_| self.test_values(result))''')]),
('ref-msg-merge','ok','',[(TM,'''        let mut merged_values: BTreeMap<&str, &str> = BTreeMap::new();

        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }

        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }

        merged_values''','''        let mut merged_values = match result.pattern().values() {
            Some(values) => values.iter().map(|(key, value)| (key.as_str(), value.as_str())).collect(),
            None => BTreeMap::new(),
        };
        merged_values.extend(result.values().iter().map(|(key, value)| (*key, *value)));
        merged_values''')]),
('ref-msg-lookup','ok','',[(TM,'''        let merged_values = TestMessage::merge_values(result);
        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())
    }
''','''        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, result));
        }
        Ok(())
    }

    fn got_value<'a>(key: &str, result: &'a MatchResult) -> Option<&'a str> {
        match result.values().get(key) {
            Some(value) => Some(value),
            None => {
                result.pattern().values().and_then(|values| values.get(key)).map(|value| value.as_str())
            }
        }
    }
'''),(TM,'''                  values: &BTreeMap<&str, &str>,
                  result''','''                  result'''),(TM,'''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
''','''        if let Some(got_value) = TestMessage::got_value(key, result) {
'''),(TM,'''    fn merge_values<'a>(result: &'a MatchResult) -> BTreeMap<&'a str, &'a str> {
        let mut merged_values: BTreeMap<&str, &str> = BTreeMap::new();

        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }

        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }

        merged_values
    }
''','')]),
('ref-deser-parse','ok','',[(DS,'''        let pattern = match pattern {
            Some(pattern) => {
                match ::grammar::parser::pattern(&pattern) {
                    Ok(pattern) => pattern,
                    Err(err) => {
                        error!("Invalid field 'pattern': pattern={:?} name={:?} uuid={:?} \\
                                error={}",
                               pattern,
                               name,
                               uuid,
                               err);
                        try!(Err(serde::de::Error::custom("Invalid field 'pattern'")))
                    }
                }
            }
            None => {
                error!("Missing field 'pattern': name={:?} uuid={:?}", name, uuid);
                try!(Err(serde::de::Error::missing_field("pattern")))
            }
        };
        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));

        try!(visitor.end());
        Ok(''','''        let pattern = match pattern {
            Some(pattern) => try!(parse_pattern(&pattern)),
            None => {
                error!("Missing field 'pattern': name={:?} uuid={:?}", name, uuid);
                return Err(serde::de::Error::missing_field("pattern"));
            }
        };
        let uuid = match uuid {
            Some(uuid) => uuid,
            None => return Err(serde::de::Error::missing_field("uuid")),
        };
        try!(visitor.end());
        Ok('''),(DS,'''struct PatternVisitor;
''','''fn parse_pattern<E: serde::de::Error>(pattern: &str) -> Result<::matcher::compiled_pattern::CompiledPattern, E> {
    ::grammar::parser::pattern(pattern).map_err(|err| {
        error!("Invalid field 'pattern': pattern={:?} error={}", pattern, err);
        E::custom("Invalid field 'pattern'")
    })
}

struct PatternVisitor;
''')]),
('ref-deser-end','ok','',[(DS,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));

        try!(visitor.end());
        Ok(''','''        let uuid = try!(uuid.ok_or_else(|| serde::de::Error::missing_field("uuid")));
        Ok('''),(DS,'''        let pattern = match pattern {
            Some(pattern) => {
                match''','''        try!(visitor.end());
        let pattern = match pattern {
            Some(pattern) => {
                match''')]),
('ref-deser-loop','ok','',[(DS,'''        while let Some(field) = try!(visitor.visit_key()) {
            match field {''','''        loop {
            let field = match try!(visitor.visit_key()) {
                Some(field) => field,
                None => break,
            };
            match field {''')]),
('ref-deser-builder','ok','',[(TD,'''        let mut message = None;
        let mut values = None;
        let mut tags = None;

        while let Some(field) = try!(visitor.visit_key()) {
            match field {
                Field::MESSAGE => message = Some(try!(visitor.visit_value())),
                Field::VALUES => values = Some(try!(visitor.visit_value())),
                Field::TAGS => tags = Some(try!(visitor.visit_value())),
            }
        }
''','''        let (mut message, mut tags) = (None, None);
        let mut values: Option<::std::collections::BTreeMap<String, String>> = None;

        while let Some(field) = try!(visitor.visit_key::<Field>()) {
            match field {
                Field::TAGS => tags = Some(try!(visitor.visit_value())),
                Field::VALUES => {
                    let got = try!(visitor.visit_value());
                    values = Some(got);
                }
                Field::MESSAGE => {
                    message = Some(try!(visitor.visit_value()));
                }
            }
        }
''')]),
('ref-file-iter','ok','',[(FI,'''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }''','''        self.patterns.pop().map(Ok)''')]),
('ref-file-iter2','ok','',[(FI,'''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }''','''        let pattern = match self.patterns.pop() {
            Some(pattern) => pattern,
            None => return None,
        };
        Some(Ok(pattern))''')]),
('ref-display','ok','',[(BE,'''            BuildError::UnsupportedFileExtension =>
                formatter.write_fmt(format_args!("The given file extension is not suppoted")),
            BuildError::NotUtf8FileName =>
                formatter.write_str("The given filename contains non Utf-8 characters"),''','''            BuildError::UnsupportedFileExtension => write!(formatter, "{}", "The given file extension is not suppoted"),
            BuildError::NotUtf8FileName => write!(formatter, "The given filename contains non Utf-8 characters"),''')]),
('ref-display-err','ok','',[(TE,'''            Error::KeyNotFound{ref pattern_uuid, ref key} => {
                fmt.write_fmt(format_args!("A parsed key in not found among the expected ones: \\
                                            uuid={} key={}",
                                           pattern_uuid,
                                           key))
            }''','''            Error::KeyNotFound{ref pattern_uuid, ref key} => {
                try!(fmt.write_str("A parsed key in not found among the expected ones: "));
                try!(write!(fmt, "uuid={} ", pattern_uuid));
                write!(fmt, "key={}", key)
            }''')]),
('ref-err-ctor','ok','',[(TE,'''            pattern_uuid: pattern_uuid.hyphenated().to_string(),
            message: test_msg.message().to_owned(),''','''            message: String::from(test_msg.message()),
            pattern_uuid: format!("{}", pattern_uuid.hyphenated()),''')]),
('ref-pat-pop','ok','',[(PA,'''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }''','''        match self.pattern.len() {
            0 => None,
            _ => Some(self.pattern.remove(0)),
        }''')]),
('ref-pat-drain','ok','',[(PA,'''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }''','''        if self.pattern.len() > 0 {
            return self.pattern.drain(..1).next();
        }
        None''')]),
('ref-pat-popmsg','ok','',[(PA,'''        self.test_messages.as_mut().map_or(None, |x| x.pop())''','''        match self.test_messages {
            Some(ref mut messages) => messages.pop(),
            None => None,
        }''')]),
('ref-pat-getters','ok','',[(PA,'''        self.name.as_ref().map(|x| x.borrow())''','''        self.name.as_ref().map(String::as_str)'''),(PA,'''        self.tags.as_ref().map(|tags| tags.borrow())''','''        self.tags.as_ref().map(|tags| &tags[..])'''),(PA,'use std::borrow::Borrow;\n','')]),
('ref-tok-clone','ok','',[(CP,'''        match *self {
            TokenType::Parser(ref parser) => {
                TokenType::Parser(parser.boxed_clone())
            }
            TokenType::Literal(ref literal) => {
                TokenType::Literal(literal.clone())
            }
        }''','''        match self {
            &TokenType::Literal(ref literal) => TokenType::Literal(literal.to_owned()),
            &TokenType::Parser(ref parser) => {
                let copy = parser.boxed_clone();
                TokenType::Parser(copy)
            }
        }''')]),
('ref-box-clone','ok','',[(PM,'''pub trait ObjectSafeHash {''','''impl Clone for Box<Parser> {
    fn clone(&self) -> Box<Parser> {
        self.boxed_clone()
    }
}

pub trait ObjectSafeHash {'''),(CP,'''                TokenType::Parser(parser.boxed_clone())''','''                TokenType::Parser(parser.clone())'''),(TP,'''            parser: self.parser.boxed_clone(),''','''            parser: self.parser.clone(),'''),(SA,'''            parser: self.parser.boxed_clone(),''','''            parser: self.parser.clone(),''')]),
('ref-flat-iter','ok','',[(UT,'''    let mut flattened_vec = Vec::new();

    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
    flattened_vec''','''    vectors.into_iter().flat_map(|vector| vector).collect()''')]),
('ref-flat-concat','ok','',[(UT,'''    let mut flattened_vec = Vec::new();

    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
    flattened_vec''','''    vectors.into_iter().fold(Vec::new(), |mut flattened_vec, mut vector| {
        flattened_vec.append(&mut vector);
        flattened_vec
    })''')]),
('ref-ent-insert','ok','',[(TI,'''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::ST::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }''','''        if pattern.pattern().is_empty() {
            return self.set_pattern(Some(pattern));
        }
        if let Some(child) = self.child_mut() {
            child.insert(pattern);
            return;
        }
        let mut child = Self::ST::new();
        child.insert(pattern);
        self.set_child(Some(child));''')]),
('ref-ent-insert-sa','ok','',[(SI,'''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::SA::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }''','''        if !pattern.pattern().is_empty() {
            if self.child().is_none() {
                self.set_child(Some(Self::SA::new()));
            }
            if let Some(child) = self.child_mut() {
                child.insert(pattern);
            }
        } else {
            self.set_pattern(Some(pattern));
        }''')]),
('ref-gr-mark','ok','',[(GR,'''        if pos > self.max_err_pos {
            self.max_err_pos = pos;
            self.expected.clear();
        }
        if pos == self.max_err_pos {
            self.expected.insert(expected);
        }
        Failed''','''        match pos.cmp(&self.max_err_pos) {
            ::std::cmp::Ordering::Less => {}
            ::std::cmp::Ordering::Equal => {
                self.expected.insert(expected);
            }
            ::std::cmp::Ordering::Greater => {
                self.max_err_pos = pos;
                self.expected = ::std::iter::once(expected).collect();
            }
        }
        Failed''')]),
('ref-gr-slice','ok','',[(GR,'''        let l = m.len();
    if input.len() >= pos + l && &input.as_bytes()[pos..pos + l] == m.as_bytes() {'''.replace('        let','    let'),'''    let l = m.len();
    if input.as_bytes()[pos..].starts_with(m.as_bytes()) {''')]),
('ref-gr-char','ok','',[(GR,'''    let c = &s[pos..].chars().next().unwrap();
    let next_pos = pos + c.len_utf8();
    (*c, next_pos)''','''    let mut chars = s[pos..].char_indices();
    let (_, c) = chars.next().unwrap();
    (c, pos + c.len_utf8())''')]),
('ref-gr-unesc','ok','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")''','''    const ESCAPED: &'static str = r#"\\%\\{"#;
    if !literal.contains(ESCAPED) {
        return literal.to_owned();
    }
    literal.replace(ESCAPED, "%{")''')]),
('ref-gr-unesc2','ok','',[(GM,'''    literal.replace(r#"\\%\\{"#, "%{")''','''    literal.split(r#"\\%\\{"#).collect::<Vec<&str>>().join("%{")''')]),
]
V=[(n,k,p,[(f,re.sub(r'\n\n+','\n',o) if len(o)<5000 else o,w) for f,o,w in ed]) for n,k,p,ed in V]
