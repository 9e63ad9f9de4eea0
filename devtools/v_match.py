N='src/matcher/trie/node/mod.rs'
L='src/matcher/trie/node/literal.rs'
PN='src/matcher/trie/node/parser.rs'
I='src/matcher/trie/node/interface.rs'
A='src/matcher/suffix_array/impls.rs'
AI='src/matcher/suffix_array/interface.rs'
SV='src/utils/sortedvec.rs'
CP='src/utils/common_prefix.rs'
RS='src/matcher/result.rs'
PAT='src/matcher/pattern/pattern.rs'
PWL='''        let pos = self.literal_children.binary_search_by(|probe| probe.cmp_str(key)).ok();
        let child = pos.and_then(|pos| self.literal_children.get(pos));

        match child {
            Some(child) if text.starts_with(child.literal()) => {
                let text = text.ltrunc(child.literal().len());
                if text.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    child.node().and_then(|node| node.parse(text))
                }
            }
            _ => None,
        }
'''
PWP='''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
'''
PPK='''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
            Some(result)
        } else {
            None
        }
'''
PNP='''        if let Some(parsed_kwpair) = self.parser.parse(text) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = text.ltrunc(parsed_kwpair.value().len());

            return match self.pattern() {
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                _ => {
                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                }
            };
        }
        None
'''
PAR='''        self.parse_with_literal(text, text)
            .or_else(|| self.parse_with_literal("", text))
            .or_else(|| self.parse_with_parsers(text))
'''
EIN='''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::ST::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }
'''
INS='''        if let Some(token) = pattern.pop_first_token() {
            let mut entry: &mut Entry<ST = Self> = match token {
                TokenType::Literal(literal) => {
                    self.insert_literal(&literal)
                }
                TokenType::Parser(parser) => {
                    self.insert_parser(parser)
                }
            };
            entry.insert(pattern);
        }
'''
AINS='''        if let Some(token) = pattern.pop_first_token() {
            let mut entry: &mut Entry<SA=SuffixTable> = match token {
                TokenType::Literal(literal) => {
                    self.insert_literal(literal)
                },
                TokenType::Parser(parser) => {
                    self.insert_parser(parser)
                }
            };
            entry.insert(pattern);
        }
'''
AIL='''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
            Ok(pos) => {
                self.literal_entries.get_mut(pos).expect("Literal entry found, but failed to remove")
            },
            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
        }
'''
APL='''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None
'''
APP='''        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        None
'''
AIP='''        let pos = self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        });
        if let Some(pos) = pos {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
            let parser = ParserE::new(parser);
            self.parser_entries.push(parser);
            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")
        }
'''
APE='''        self.parser.parse(value).and_then(|kvpair| {
            let value = value.ltrunc(kvpair.value().len());

            if value.is_empty() && self.pattern().is_some() {
                self.create_match_result(kvpair)
            } else {
                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                    result.insert(kvpair);
                    Some(result)
                })
            }
        })
'''
SPL='''        let common_prefix = literal.rtrunc(literal.len() - common_prefix_len);
        trace!("split(): common_prefix = {}", common_prefix);
        let mut new_node = SuffixTree::new();

        let mut left_node = {
            let left_branch = literal.ltrunc(common_prefix_len);
            trace!("split(): left_branch = {}", left_branch);
            LiteralNode::new(left_branch)
        };
        let mut right_node = {
            let right_branch = self.literal().ltrunc(common_prefix_len);
            trace!("split(): right_branch = {}", right_branch);
            LiteralNode::new(right_branch)
        };
        left_node.set_has_value(true);

        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }

        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);
        self.set_node(Some(new_node));
        self.has_value = false;
        self.literal = common_prefix.to_owned();
'''
CPLB='''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len
'''
ILT='''                let mut new_node = LiteralNode::new(tail);
                new_node.set_has_value(true);
                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()
'''
LKM='''        match self.search(literal) {
            LiteralLookupResult::Found(pos) => {
                Ok((self, pos))
            }
            LiteralLookupResult::NotFound => {
                Err((self, literal.len()))
            }
            LiteralLookupResult::GoDown(pos, truncated_literal) => {
                self.literal_children
                    .get_mut(pos)
                    .unwrap()
                    .node_mut()
                    .unwrap()
                    .lookup_literal_mut(truncated_literal)
            }
        }
'''
PUSH='''        self.array.push(value);
        self.array.sort();
'''
V=[
# ------------------------------------------------------------ behaviour kept
('pwl-iflet','ok','',[(N,PWL,'''        let pos = match self.literal_children.binary_search_by(|probe| probe.cmp_str(key)) {
            Ok(pos) => pos,
            Err(_) => return None,
        };
        if let Some(child) = self.literal_children.get(pos) {
            let literal = child.literal();
            if !text.starts_with(literal) {
                return None;
            }
            let rest = &text[literal.len()..];
            if rest.is_empty() {
                if let Some(pattern) = child.pattern() {
                    return Some(MatchResult::new(pattern));
                }
            }
            child.node().and_then(|node| node.parse(rest))
        } else {
            None
        }
''')]),
('pwl-helper','ok','',[(N,PWL,'''        match self.literal_children.binary_search_by(|probe| probe.cmp_str(key)) {
            Ok(pos) => self.parse_below(pos, text),
            Err(_) => None,
        }
'''),(N,'''    fn create_match_result_if_child_is_leaf<''','''    fn parse_below<'a, 'b>(&'a self, pos: usize, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        let child = match self.literal_children.get(pos) {
            Some(child) => child,
            None => return None,
        };
        if !text.starts_with(child.literal()) {
            return None;
        }
        let rest = text.ltrunc(child.literal().len());
        match child.pattern() {
            Some(_) if rest.is_empty() => SuffixTree::create_match_result_if_child_is_leaf(child),
            _ => child.node().and_then(|node| node.parse(rest)),
        }
    }

    fn create_match_result_if_child_is_leaf<''')]),
('pwl-strip','ok','',[(N,PWL,'''        let pos = self.literal_children.binary_search_by(|probe| probe.cmp_str(key)).ok();
        let child = match pos.and_then(|pos| self.literal_children.get(pos)) {
            Some(child) => child,
            None => return None,
        };
        let rest = match text.strip_prefix(child.literal()) {
            Some(rest) => rest,
            None => return None,
        };
        if rest.is_empty() && child.pattern().is_some() {
            SuffixTree::create_match_result_if_child_is_leaf(child)
        } else {
            child.node().and_then(|node| node.parse(rest))
        }
''')]),
('pwp-iter','ok','',[(N,PWP,'        self.parser_children.iter().filter_map(|node| node.parse(text)).next()\n')]),
('pwp-findmap','ok','',[(N,PWP,'        self.parser_children.iter().find_map(|node| node.parse(text))\n')]),
('pwp-index','ok','',[(N,PWP,'''        for i in 0..self.parser_children.len() {
            let result = self.parser_children[i].parse(text);
            if result.is_some() {
                return result;
            }
        }
        None
''')]),
('pwp-while','ok','',[(N,PWP,'''        let mut children = self.parser_children.iter();
        while let Some(child) = children.next() {
            match child.parse(text) {
                Some(result) => return Some(result),
                None => continue,
            }
        }
        None
''')]),
('ppk-map','ok','',[(N,PPK,'''        self.parse(text).map(|mut result| {
            result.insert(kvpair);
            result
        })
''')]),
('pnp-match','ok','',[(PN,PNP,'''        let parsed = match self.parser.parse(text) {
            Some(parsed) => parsed,
            None => return None,
        };
        let rest = &text[parsed.value().len()..];
        if rest.is_empty() {
            if let Some(pattern) = self.pattern() {
                return ParserNode::push_last_kvpair(pattern, parsed);
            }
        }
        self.node().and_then(|node| node.parse_then_push_kvpair(rest, parsed))
''')]),
('pnp-question','ok','',[(PN,PNP,'''        let parsed = self.parser.parse(text)?;
        let rest = text.ltrunc(parsed.value().len());
        match (self.pattern(), rest.is_empty()) {
            (Some(pattern), true) => ParserNode::push_last_kvpair(pattern, parsed),
            _ => self.node()?.parse_then_push_kvpair(rest, parsed),
        }
''')]),
('par-match','ok','',[(N,PAR,'''        if let Some(result) = self.parse_with_literal(text, text) {
            return Some(result);
        }
        match self.parse_with_literal("", text) {
            Some(result) => Some(result),
            None => self.parse_with_parsers(text),
        }
''')]),
('ein-flip','ok','',[(I,EIN,'''        if !pattern.pattern().is_empty() {
            if let Some(child) = self.child_mut() {
                child.insert(pattern);
                return;
            }
            let mut child = Self::ST::new();
            child.insert(pattern);
            self.set_child(Some(child));
            return;
        }
        self.set_pattern(Some(pattern));
''')]),
('ins-match','ok','',[(N,INS,'''        let token = match pattern.pop_first_token() {
            Some(token) => token,
            None => return,
        };
        match token {
            TokenType::Literal(literal) => self.insert_literal(&literal).insert(pattern),
            TokenType::Parser(parser) => self.insert_parser(parser).insert(pattern),
        }
''')]),
('ains-match','ok','',[(A,AINS,'''        match pattern.pop_first_token() {
            Some(TokenType::Literal(literal)) => self.insert_literal(literal).insert(pattern),
            Some(TokenType::Parser(parser)) => self.insert_parser(parser).insert(pattern),
            None => {}
        }
''')]),
('ail-pos','ok','',[(A,AIL,'''        let found = self.literal_entries.binary_search_by(|probe| probe.literal().as_str().cmp(literal.as_str()));
        let pos = match found {
            Ok(pos) => pos,
            Err(pos) => {
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        &mut self.literal_entries[pos]
''')]),
('ail-key','ok','',[(A,AIL,'''        let pos = match self.literal_entries.binary_search_by(|probe| probe.literal.cmp(&literal)) {
            Ok(pos) => pos,
            Err(pos) => {
                debug!("new literal at {}", pos);
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        self.literal_entries.get_mut(pos).unwrap()
''')]),
('apl-filter','ok','',[(A,APL,'''        for entry in self.literal_entries.iter().rev() {
            if !value.starts_with(entry.literal().as_str()) {
                continue;
            }
            let rest = &value[entry.literal().len()..];
            if rest.is_empty() {
                if let Some(pattern) = entry.pattern() {
                    return Some(MatchResult::new(pattern));
                }
            }
            if let Some(result) = entry.child().and_then(|child| child.parse(rest)) {
                return Some(result);
            }
        }
        None
''')]),
('apl-helper','ok','',[(A,APL,'''        for entry in self.literal_entries.iter().rev() {
            let result = SuffixTable::parse_entry(entry, value);
            if result.is_some() {
                return result;
            }
        }
        None
'''),(A,'''    fn parse_with_parsers<''','''    fn parse_entry<'a, 'b>(entry: &'a LiteralE, value: &'b str) -> Option<MatchResult<'a, 'b>> {
        if value.starts_with(entry.literal().as_str()) {
            let rest = value.ltrunc(entry.literal().len());
            match entry.pattern() {
                Some(pattern) if rest.is_empty() => Some(MatchResult::new(pattern)),
                _ => entry.child().and_then(|child| child.parse(rest)),
            }
        } else {
            None
        }
    }

    fn parse_with_parsers<''')]),
('app-findmap','ok','',[(A,APP,'        self.parser_entries.iter().find_map(|entry| entry.parse(value))\n')]),
('aip-match','ok','',[(A,AIP,'''        let hash = parser.hash_os();
        let pos = self.parser_entries.iter().position(|x| x.parser.hash_os() == hash);
        match pos {
            Some(pos) => &mut self.parser_entries[pos],
            None => {
                self.parser_entries.push(ParserE::new(parser));
                self.parser_entries.last_mut().unwrap()
            }
        }
''')]),
('ape-match','ok','',[(A,APE,'''        match self.parser.parse(value) {
            None => None,
            Some(kvpair) => {
                let rest = value.ltrunc(kvpair.value().len());
                if rest.is_empty() && self.pattern().is_some() {
                    return self.create_match_result(kvpair);
                }
                let mut result = match self.child().and_then(|child| child.parse(rest)) {
                    Some(result) => result,
                    None => return None,
                };
                result.insert(kvpair);
                Some(result)
            }
        }
''')]),
('spl-short','ok','',[(L,SPL,'''        let head = literal[..common_prefix_len].to_owned();
        let mut left = LiteralNode::new(&literal[common_prefix_len..]);
        left.has_value = true;

        let mut right = LiteralNode::new(&self.literal[common_prefix_len..]);
        right.has_value = self.has_value;
        right.pattern = self.pattern.take();
        right.node = self.node.take();

        let mut children = SuffixTree::new();
        children.add_literal_node(right);
        children.add_literal_node(left);
        self.node = Some(children);
        self.has_value = false;
        self.literal = head;
''')]),
('spl-replace','ok','',[(L,SPL,'''        let (head, new_tail) = literal.split_at(common_prefix_len);
        let old_tail = self.literal().ltrunc(common_prefix_len).to_owned();
        let left = LiteralNode { literal: new_tail.to_owned(), has_value: true, pattern: None, node: None };
        let right = LiteralNode {
            literal: old_tail,
            has_value: self.has_value,
            pattern: self.pattern.take(),
            node: self.node.take(),
        };
        let mut tree = SuffixTree::new();
        tree.add_literal_node(left);
        tree.add_literal_node(right);
        self.literal = head.to_owned();
        self.has_value = false;
        self.node = Some(tree);
''')]),
('cpl-zip','ok','',[(CP,CPLB,'''        let mut len = 0;
        for (a, b) in self.chars().zip(other.chars()) {
            if a != b {
                break;
            }
            len += a.len_utf8();
        }
        len
''')]),
('cpl-takewhile','ok','',[(CP,CPLB,'''        self.chars().zip(other.chars()).take_while(|&(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum()
'''),(CP,'use std::cmp;\n','')]),
('cpl-bytes','ok','',[(CP,CPLB,'''        let (a, b) = (self.as_bytes(), other.as_bytes());
        let min_len = cmp::min(a.len(), b.len());
        let mut boundary = 0;
        let mut i = 0;
        while i < min_len {
            if self.is_char_boundary(i) {
                boundary = i;
            }
            if a[i] != b[i] {
                return boundary;
            }
            i += 1;
        }
        min_len
''')]),
('ilt-let','ok','',[(N,ILT,'''                let new_node = {
                    let mut node = LiteralNode::new(tail.to_owned());
                    node.set_has_value(true);
                    node
                };
                self.literal_children.push(new_node);
                self.literal_children.get_mut(pos).expect("just inserted")
''')]),
('lkm-if','ok','',[(N,LKM,'''        let result = self.search(literal);
        if let LiteralLookupResult::GoDown(pos, truncated_literal) = result {
            let child = self.literal_children.get_mut(pos).unwrap();
            return child.node_mut().unwrap().lookup_literal_mut(truncated_literal);
        }
        match result {
            LiteralLookupResult::Found(pos) => Ok((self, pos)),
            _ => Err((self, literal.len())),
        }
''')]),
('push-insert','ok','',[(SV,PUSH,'''        let pos = match self.array.binary_search(&value) {
            Ok(pos) => pos,
            Err(pos) => pos,
        };
        self.array.insert(pos, value);
''')]),
('push-cond','ok','',[(SV,PUSH,'''        self.array.push(value);
        if self.array.len() > 1 {
            self.array.sort();
        }
''')]),
('push-sortby','ok','',[(SV,PUSH,'''        self.array.push(value);
        self.array.sort_by(|a, b| a.cmp(b));
''')]),
('sv-std','ok','',[(SV,'''        let mut low = 0;
        let mut high = self.array.len();

        while low < high {
            let mid = (low + high) / 2;

            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
        }

        None
''','''        self.array.binary_search(needle).ok()
''')]),
('sv-mid','ok','',[(SV,'            let mid = (low + high) / 2;','            let mid = low + (high - low) / 2;')]),
('cmp-match','ok','',[(L,'        self.literal.chars().next().cmp(&other.chars().next())','''        let mine = self.literal.chars().next();
        let theirs = other.chars().next();
        mine.cmp(&theirs)''')]),
('cmp-expl','ok','',[(L,'        self.literal.chars().next().cmp(&other.chars().next())','''        match (self.literal.chars().next(), other.chars().next()) {
            (Some(a), Some(b)) => a.cmp(&b),
            (None, Some(_)) => Ordering::Less,
            (Some(_), None) => Ordering::Greater,
            (None, None) => Ordering::Equal,
        }''')]),
('res-match','ok','',[(RS,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }
''','''        match result.parser().name() {
            Some(name) => {
                let value = result.value();
                self.values.insert(name, value);
            }
            None => {}
        }
''')]),
('pop-drain','ok','',[(PAT,'''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }
''','''        if self.pattern.len() > 0 {
            return Some(self.pattern.remove(0));
        }
        None
''')]),
('rename-helpers','ok','',[(N,'''    fn lookup_parser(&mut self, parser: &Parser)''','''    fn find_parser(&self, parser: &Parser)'''),(N,'if let Some(item) = self.lookup_parser(&*parser) {','if let Some(item) = self.find_parser(&*parser) {')]),
('rename-split','ok','',[(L,'    pub fn split(&mut self, common_prefix_len: usize, literal: &str) {','    pub fn split_at_prefix(&mut self, common_prefix_len: usize, literal: &str) {'),(N,'hit.split(common_prefix_len, tail);','hit.split_at_prefix(common_prefix_len, tail);')]),
('inline-fresh','ok','',[(N,'''                    hit.node_mut().expect("Failed to get").lookup_freshly_inserted_literal(suffix)
''','''                    let below = hit.node_mut().expect("Failed to get");
                    let (node, pos) = below.lookup_literal_mut(suffix).ok().unwrap();
                    node.literal_children.get_mut(pos).unwrap()
'''),(N,'''    fn lookup_freshly_inserted_literal(''','''    #[allow(dead_code)]
    fn lookup_freshly_inserted_literal(''')]),
('rename-ail','ok','',[(A,'    fn insert_parser(&mut self, parser: Box<Parser>)','    fn parser_entry(&mut self, parser: Box<Parser>)'),(A,'                    self.insert_parser(parser)','                    self.parser_entry(parser)')]),
# ------------------------------------------------------------ behaviour broken
('b-prefix-ok','bug','C03',[(N,'if text.is_empty() && child.pattern().is_some() {','if child.pattern().is_some() && (text.is_empty() || child.node().is_none()) {')]),
('b-trail-ws','bug','C03',[(N,'if text.is_empty() && child.pattern().is_some() {','if text.trim().is_empty() && child.pattern().is_some() {')]),
('b-lit-ci','bug','C03',[(A,'            if value.starts_with(entry.literal().as_str()) {','            if value.len() >= entry.literal().len() && value.is_char_boundary(entry.literal().len()) && value[..entry.literal().len()].eq_ignore_ascii_case(entry.literal()) {')]),
('b-noempty-lit','bug','C09',[(N,'            .or_else(|| self.parse_with_literal("", text))\n','')]),
('b-literal-hides','bug','C09',[(N,PAR,'''        if let Ok(_) = self.literal_children.binary_search_by(|probe| probe.cmp_str(text)) {
            return self.parse_with_literal(text, text).or_else(|| self.parse_with_literal("", text));
        }
        self.parse_with_literal("", text).or_else(|| self.parse_with_parsers(text))
''')]),
('b-first-parser','bug','C09',[(A,APP,'''        for parser in &self.parser_entries {
            if parser.parser().parse(value).is_some() {
                return parser.parse(value);
            }
        }
        None
''')]),
('b-empty-text','bug','C09',[(A,APP,'''        if value.is_empty() {
            return None;
        }
        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        None
''')]),
('b-take','bug','C09',[(N,'        for i in &self.parser_children {','        for i in self.parser_children.iter().take(32) {')]),
('b-cap-trim','bug','C04',[(RS,'self.values.insert(name, result.value());','self.values.insert(name, result.value().trim_right());')]),
('b-cap-empty','bug','C04',[(RS,'''        if let Some(name) = result.parser().name() {
''','''        if let (Some(name), false) = (result.parser().name(), result.value().is_empty()) {
''')]),
('b-cap-order','bug','C04',[(N,PPK,'''        if let Some(mut result) = self.parse(text) {
            if result.values().len() < 16 {
                result.insert(kvpair);
            }
            Some(result)
        } else {
            None
        }
''')]),
('b-split-flag','bug','C07',[(L,'        right_node.set_has_value(self.has_value);\n','        right_node.set_has_value(true);\n')]),
('b-split-node','bug','C07',[(L,'        if let Some(pattern) = self.pattern.take() {\n            right_node.set_pattern(Some(pattern));\n        }\n','        if right_node.is_leaf() {\n            right_node.set_pattern(self.pattern.take());\n        }\n')]),
('b-split-pat','bug','C07',[(L,'''        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        if !literal.starts_with(self.literal()) {
            right_node.set_pattern(self.pattern.take());
        }
''')]),
('b-entry-first','bug','C07',[(AI,'''            self.set_pattern(Some(pattern));
''','''            if self.pattern().is_none() || self.child().is_none() {
                self.set_pattern(Some(pattern));
            }
''')]),
('b-entry-child','bug','C07',[(AI,'            if self.child().is_none() {','            if self.child().is_none() || self.pattern().is_some() {')]),
('b-parser-front','bug','C07',[(A,'''            self.parser_entries.push(parser);
            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")
''','''            self.parser_entries.insert(0, parser);
            self.parser_entries.first_mut().expect("Parser entry inserted, but failed to remove")
''')]),
('b-ail-cmp','bug','C21',[(A,'self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal))','self.literal_entries.binary_search_by(|probe| probe.literal().len().cmp(&literal.len()).then_with(|| probe.literal().cmp(&literal)))')]),
('b-ail-end','bug','C21',[(A,'''                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos)''','''                let pos = if pos > 8 { self.literal_entries.len() } else { pos };
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos)''')]),
('b-push-nosort','bug','C21',[(SV,PUSH,'''        self.array.push(value);
        if self.array.len() < 64 {
            self.array.sort();
        }
''')]),
('b-cmp-case','bug','C21',[(L,'        self.compare_first_chars(other)\n    }\n}\n\nimpl PartialOrd','        self.literal.to_lowercase().cmp(&other.literal.to_lowercase())\n    }\n}\n\nimpl PartialOrd')]),
('b-pcmp-rev','bug','C21',[(L,'        Some(self.cmp(other))','        Some(other.cmp(self))')]),
('b-cpl-byte','bug','C07,C21',[(CP,'                return last_valid_character_boundary;','                return i;')]),
('b-sv-high','bug','C21',[(SV,'                Ordering::Greater => high = mid,','                Ordering::Greater => high = mid.saturating_sub(1),')]),
('b-sv-low','bug','C21',[(SV,'        let mut low = 0;','        let mut low = if self.array.len() > 100 { 1 } else { 0 };')]),
('b-cut','bug','C01',[(N,'                let text = text.ltrunc(child.literal().len());','                trace!("head {}", &text[..1]);\n                let text = text.ltrunc(child.literal().len());')]),
('b-last','bug','C01',[(A,APP,'''        let last = self.parser_entries.last().unwrap();
        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        last.parse(value)
''')]),
]
