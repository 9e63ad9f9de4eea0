"""behaviour-preserving edits of insertion, lookup, nodes, patterns and deserializers in other styles"""
M='src/matcher/trie/node/mod.rs'
LN='src/matcher/trie/node/literal.rs'
PN='src/matcher/trie/node/parser.rs'
IF='src/matcher/trie/node/interface.rs'
AR='src/matcher/suffix_array/impls.rs'
AI='src/matcher/suffix_array/interface.rs'
PT='src/matcher/pattern/pattern.rs'
DE='src/matcher/pattern/deser.rs'
CP='src/matcher/compiled_pattern.rs'
RS='src/matcher/result.rs'
FA='src/matcher/trie/parser_factory.rs'
SP='src/parsers/set.rs'
GM='src/grammar/mod.rs'
CX='src/utils/common_prefix.rs'
V=[]
def o(n,*es): V.append(('r3-o-'+n,'ok','',list(es)))
def b(n,want,*es): V.append(('r3-b-'+n,'bug',want,list(es)))
INSP='''        if let Some(item) = self.lookup_parser(&*parser) {
            self.parser_children.get_mut(item).unwrap()
        } else {
            let pnode = ParserNode::new(parser);
            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()
        }
'''
o('insp-or',(M,INSP,'''        let index = self.lookup_parser(&*parser).unwrap_or(self.parser_children.len());
        if index == self.parser_children.len() {
            self.parser_children.push(ParserNode::new(parser));
        }
        &mut self.parser_children[index]
'''))
o('insp-loop',(M,INSP,'''        let hash = parser.hash_os();
        let mut index = 0;
        while index < self.parser_children.len() {
            if self.parser_children[index].parser().hash_os() == hash {
                return &mut self.parser_children[index];
            }
            index += 1;
        }
        self.parser_children.push(ParserNode::new(parser));
        self.parser_children.last_mut().unwrap()
'''))
o('insp-orelse',(M,INSP,'''        let index = self.lookup_parser(&*parser).unwrap_or_else(|| {
            self.parser_children.push(ParserNode::new(parser));
            self.parser_children.len() - 1
        });
        self.parser_children.get_mut(index).unwrap()
'''))
o('insp-any',(M,INSP,'''        let hash = parser.hash_os();
        if !self.parser_children.iter().any(|x| x.parser().hash_os() == hash) {
            self.parser_children.push(ParserNode::new(parser));
        }
        self.parser_children.iter_mut().find(|x| x.parser().hash_os() == hash).unwrap()
'''))
LKP='''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())
'''
o('lkp-enum',(M,LKP,'''        for (i, child) in self.parser_children.iter().enumerate() {
            if child.parser().hash_os() == parser.hash_os() {
                return Some(i);
            }
        }
        None
'''))
o('lkp-filter',(M,LKP,'''        let hash = parser.hash_os();
        self.parser_children.iter().enumerate().filter(|&(_, x)| x.parser().hash_os() == hash).map(|(i, _)| i).next()
'''))
o('lkp-carried',(M,LKP,'''        let mut found = None;
        for i in 0..self.parser_children.len() {
            if found.is_none() && self.parser_children[i].parser().hash_os() == parser.hash_os() {
                found = Some(i);
            }
        }
        found
'''))
INSL='''        match self.lookup_literal_mut(literal) {
            Ok((node, index)) => {
                trace!("insert_literal(): it was already inserted");
                node.literal_children.get_mut(index).unwrap()
            }
            Err((node, rem_len)) => {
                trace!("INSERTING({}), remaining len: {}", literal, rem_len);
                let tail = literal.ltrunc(literal.len() - rem_len);
                node.insert_literal_tail(tail)
            }
        }
'''
o('insl-tail',(M,INSL,'''        let (node, found) = match self.lookup_literal_mut(literal) {
            Ok((node, index)) => (node, Some(index)),
            Err((node, rem_len)) => {
                let skipped = literal.len() - rem_len;
                return node.insert_literal_tail(&literal[skipped..]);
            }
        };
        node.literal_children.get_mut(found.unwrap()).unwrap()
'''))
INST='''                let mut new_node = LiteralNode::new(tail);
                new_node.set_has_value(true);
                self.add_literal_node(new_node);
                self.literal_children.get_mut(pos).unwrap()
'''
o('inst-helper',(M,INST,'''                self.add_literal_node(SuffixTree::valued(tail));
                self.literal_children.get_mut(pos).unwrap()
'''),(M,'''    fn lookup_freshly_inserted_literal(''','''    fn valued(tail: &str) -> LiteralNode {
        let mut new_node = LiteralNode::new(tail);
        new_node.set_has_value(true);
        new_node
    }

    fn lookup_freshly_inserted_literal('''))
HIT='''                    let hit = self.literal_children
                                  .get_mut(pos)
                                  .expect("Failed to remove a literal child");
                    trace!("insert_literal_tail(): to_be_split = {}", hit.literal());
                    trace!("insert_literal_tail(): tail = {}", tail);
                    hit.split(common_prefix_len, tail);
                    let suffix = tail.ltrunc(common_prefix_len);
                    hit.node_mut().expect("Failed to get").lookup_freshly_inserted_literal(suffix)
'''
o('hit-split',(M,HIT,'''                    let (_, suffix) = tail.split_at(common_prefix_len);
                    let hit = self.literal_children.get_mut(pos).unwrap();
                    hit.split(common_prefix_len, tail);
                    match hit.node_mut() {
                        Some(node) => node.lookup_freshly_inserted_literal(suffix),
                        None => unreachable!(),
                    }
'''))
SPL='''        new_node.add_literal_node(left_node);
        new_node.add_literal_node(right_node);
        self.set_node(Some(new_node));
        self.has_value = false;
        self.literal = common_prefix.to_owned();
'''
o('spl-order',(LN,SPL,'''        for node in vec![left_node, right_node] {
            new_node.add_literal_node(node);
        }
        self.has_value = false;
        self.literal = common_prefix.to_owned();
        self.node = Some(new_node);
'''))
o('spl-swap',(LN,SPL,'''        new_node.add_literal_node(right_node);
        new_node.add_literal_node(left_node);
        self.literal.truncate(common_prefix_len);
        self.has_value = false;
        self.set_node(Some(new_node));
'''))
o('spl-replace',(LN,'''        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        right_node.node = self.node.take();
        right_node.has_value = self.has_value;
        right_node.pattern = self.pattern.take();
'''))
o('spl-swapmem',(LN,'''        right_node.set_node(self.node.take());
        right_node.set_has_value(self.has_value);

        if let Some(pattern) = self.pattern.take() {
            right_node.set_pattern(Some(pattern));
        }
''','''        ::std::mem::swap(&mut right_node.node, &mut self.node);
        ::std::mem::swap(&mut right_node.pattern, &mut self.pattern);
        right_node.set_has_value(::std::mem::replace(&mut self.has_value, false));
'''))
o('spl-struct',(LN,'''        let mut left_node = {
            let left_branch = literal.ltrunc(common_prefix_len);
            trace!("split(): left_branch = {}", left_branch);
            LiteralNode::new(left_branch)
        };
''','''        let mut left_node = LiteralNode {
            literal: literal[common_prefix_len..].to_string(),
            has_value: true,
            pattern: None,
            node: None,
        };
'''))
CMP='''        self.literal.chars().next().cmp(&other.chars().next())
'''
o('cmp-match',(LN,CMP,'''        match (self.literal.chars().next(), other.chars().next()) {
            (None, None) => Ordering::Equal,
            (None, Some(_)) => Ordering::Less,
            (Some(_), None) => Ordering::Greater,
            (Some(a), Some(b)) => a.cmp(&b),
        }
'''))
o('cmp-partial',(LN,CMP,'''        let (mine, theirs) = (self.literal.chars().next(), other.chars().next());
        if mine < theirs {
            Ordering::Less
        } else if mine > theirs {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
'''))
o('cmp-then',(LN,'''        self.compare_first_chars(other) != Ordering::Equal
''','''        !(self == other)
'''))
ENT='''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::ST::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }
'''
o('ent-early',(IF,ENT,'''        if pattern.pattern().len() == 0 {
            self.set_pattern(Some(pattern));
            return;
        }
        if let Some(child) = self.child_mut() {
            child.insert(pattern);
            return;
        }
        let mut child = Self::ST::new();
        child.insert(pattern);
        self.set_child(Some(child));
'''))
o('ent-match',(IF,ENT,'''        match pattern.pattern().first() {
            None => self.set_pattern(Some(pattern)),
            Some(_) => {
                let missing = match self.child() {
                    Some(_) => false,
                    None => true,
                };
                if missing {
                    self.set_child(Some(Self::ST::new()));
                }
                self.child_mut().unwrap().insert(pattern)
            }
        }
'''))
ENA=ENT.replace('ST','SA')
o('ena-clone',(AI,ENA,'''        if !pattern.pattern().is_empty() {
            let child = self.child().cloned();
            self.set_child(Some(child.unwrap_or_else(Self::SA::new)));
            self.child_mut().unwrap().insert(pattern);
        } else {
            self.set_pattern(Some(pattern));
        }
'''))
PARS='''        if let Some(parsed_kwpair) = self.parser.parse(value) {
            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
            let text = value.ltrunc(parsed_kwpair.value().len());

            return match self.pattern() {
                Some(pattern) if text.is_empty() => {
                    ParserNode::push_last_kvpair(pattern, parsed_kwpair)
                }
                _ => {
                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                }
            };
        }
        None
'''
o('pn-delegate',(PN,PARS,'''        ParserNode::parse(self, value)
'''))
PAR1=PARS.replace('(value)','(text)').replace('value.ltrunc','text.ltrunc')
o('pn-andthen',(PN,PAR1,'''        self.parser.parse(text).and_then(|pair| {
            let rest = &text[pair.value().len()..];
            if rest.is_empty() {
                if let Some(pattern) = self.pattern() {
                    return ParserNode::push_last_kvpair(pattern, pair);
                }
            }
            match self.node {
                Some(ref node) => node.parse_then_push_kvpair(rest, pair),
                None => None,
            }
        })
'''))
PTP='''        if let Some(mut result) = self.parse(text) {
            result.insert(kvpair);
            Some(result)
        } else {
            None
        }
'''
o('ptp-map',(M,PTP,'''        self.parse(text).map(|mut result| {
            result.insert(kvpair);
            result
        })
'''))
o('ptp-iter',(M,PTP,'''        let mut result = self.parse(text);
        for found in result.iter_mut().take(1) {
            found.insert(ParseResult::new(kvpair.parser(), kvpair.value()));
        }
        result
'''))
o('res-insert',(RS,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }
''','''        let (parser, value) = (result.parser(), result.value());
        self.values.extend(parser.name().map(|name| (name, value)));
'''))
o('res-match',(RS,'''        if let Some(name) = result.parser().name() {
            self.values.insert(name, result.value());
        }
''','''        match result.parser().name() {
            None => (),
            Some(name) => {
                let _ = self.values.remove(name);
                let _ = self.values.insert(name, result.value());
            }
        }
'''))
POP='''        if self.pattern.is_empty() {
            None
        } else {
            Some(self.pattern.remove(0))
        }
'''
o('pop-drain',(PT,POP,'''        let mut rest = ::std::mem::replace(&mut self.pattern, Vec::new()).into_iter();
        let first = rest.next();
        self.pattern = rest.collect();
        first
'''))
o('pop-first',(PT,POP,'''        let first = self.pattern.first().cloned();
        if first.is_some() {
            self.pattern.remove(0);
        }
        first
'''))
o('pop-match',(PT,POP,'''        match self.pattern.len() {
            0 => None,
            _ => Some(self.pattern.remove(0)),
        }
'''))
o('pop-split',(PT,POP,'''        if self.pattern.is_empty() {
            return None;
        }
        let rest = self.pattern.split_off(1);
        let mut first = ::std::mem::replace(&mut self.pattern, rest);
        first.pop()
'''))
o('popmsg',(PT,'''        self.test_messages.as_mut().map_or(None, |x| x.pop())
''','''        match self.test_messages {
            Some(ref mut messages) => messages.pop(),
            None => None,
        }
'''))
o('name-deref',(PT,'''        self.name.as_ref().map(|x| x.borrow())
''','''        match self.name {
            Some(ref name) => Some(&name[..]),
            None => None,
        }
'''))
o('tags-slice',(PT,'''        self.tags.as_ref().map(|tags| tags.borrow())
''','''        self.tags.as_ref().map(|tags| &tags[..])
'''))
o('build-map',(CP,'''        self.pattern.clone()
''','''        self.pattern.iter().map(|token| token.clone()).collect()
'''))
o('build-loop',(CP,'''        self.pattern.clone()
''','''        let mut copy = Vec::with_capacity(self.pattern.len());
        for token in &self.pattern {
            copy.push(token.clone());
        }
        copy
'''))
SETC='''        let vset: Vec<char> = set.chars().collect();
        BTreeSet::from_iter(vset)
'''
o('set-loop',(SP,SETC,'''        let mut chars = BTreeSet::new();
        for c in set.chars() {
            chars.insert(c);
        }
        chars
'''))
o('set-fold',(SP,SETC,'''        set.chars().fold(BTreeSet::from_iter(None), |mut chars, c| {
            chars.insert(c);
            chars
        })
'''))
o('set-extend',(SP,SETC,'''        let mut chars = BTreeSet::new();
        chars.extend(set.chars());
        chars
'''))
o('un-loop',(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let mut result = String::with_capacity(literal.len());
    let mut rest = literal;
    while let Some(pos) = rest.find(r#"\\%\\{"#) {
        result.push_str(&rest[..pos]);
        result.push_str("%{");
        rest = &rest[pos + 4..];
    }
    result.push_str(rest);
    result
'''))
o('un-split',(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    literal.split(r#"\\%\\{"#).collect::<Vec<&str>>().join("%{")
'''))
o('fa-direct',(FA,'''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
''','''        let mut parser = GreedyParser::new();
        if let Some(name) = name {
            parser.set_name(Some(String::from(name)));
        }
        if end_string.is_some() {
            parser.set_end_string(end_string.map(String::from));
        }
        Box::new(parser)
'''))
o('de-uuid',(DE,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));

        try!(visitor.end());

        Ok(Pattern::new(name, uuid, pattern, test_messages, values, tags))
''','''        match uuid {
            None => Err(serde::de::Error::missing_field("uuid")),
            Some(uuid) => visitor.end().map(|_| Pattern::new(name, uuid, pattern, test_messages, values, tags)),
        }
'''))
o('de-grammar',(DE,'''                match ::grammar::parser::pattern(&pattern) {
                    Ok(pattern) => pattern,
                    Err(err) => {
                        error!("Invalid field 'pattern': pattern={:?} name={:?} uuid={:?} \\
                                error={}",
                               pattern,
                               name,
                               uuid,
                               err);
                        try!(Err(serde::de::Error::custom("Invalid field 'pattern'")))
                    }
                }
''','''                try!(::grammar::parser::pattern(&pattern).map_err(|err| {
                    error!("Invalid field 'pattern': pattern={:?} name={:?} uuid={:?} error={}", pattern, name, uuid, err);
                    serde::de::Error::custom("Invalid field 'pattern'")
                }))
'''))
o('de-loop',(DE,'''        while let Some(field) = try!(visitor.visit_key()) {
            match field {
''','''        loop {
            let field = match try!(visitor.visit_key()) {
                Some(field) => field,
                None => break,
            };
            match field {
'''))
ALIT='''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None
'''
o('alit-helper',(AR,ALIT,'''        self.literal_entries.iter().rev().filter_map(|entry| SuffixTable::parse_entry(entry, value)).next()
    }

    fn parse_entry<'a, 'b>(entry: &'a LiteralE, value: &'b str) -> Option<MatchResult<'a, 'b>> {
        if !value.starts_with(entry.literal().as_str()) {
            return None;
        }
        let rest = value.ltrunc(entry.literal().len());
        match entry.pattern() {
            Some(pattern) if rest.is_empty() => Some(MatchResult::new(pattern)),
            _ => entry.child().and_then(|child| child.parse(rest)),
        }
'''))
o('alit-prefix',(AR,ALIT,'''        let mut result = None;
        let mut left = self.literal_entries.len();
        while result.is_none() && left > 0 {
            left -= 1;
            let entry = &self.literal_entries[left];
            let literal: &str = entry.literal();
            if value.len() >= literal.len() && &value.as_bytes()[..literal.len()] == literal.as_bytes() {
                let rest = &value[literal.len()..];
                result = match (rest.is_empty(), entry.pattern(), entry.child()) {
                    (true, Some(pattern), _) => Some(MatchResult::new(pattern)),
                    (_, _, Some(child)) => child.parse(rest),
                    _ => None,
                };
            }
        }
        result
'''))
AINS='''            Ok(pos) => {
                self.literal_entries.get_mut(pos).expect("Literal entry found, but failed to remove")
            },
            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
        }
'''
o('ains-unwrap',(AR,'''        match result {
'''+AINS,'''        let pos = match result {
            Ok(pos) => pos,
            Err(pos) => {
                self.literal_entries.insert(pos, LiteralE::new(literal));
                pos
            }
        };
        &mut self.literal_entries[pos]
'''))
o('ains-linear',(AR,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
'''+AINS,'''        let pos = self.literal_entries.iter().position(|probe| *probe.literal() >= literal).unwrap_or(self.literal_entries.len());
        let known = self.literal_entries.get(pos).map_or(false, |probe| *probe.literal() == literal);
        if !known {
            self.literal_entries.insert(pos, LiteralE::new(literal));
        }
        &mut self.literal_entries[pos]
'''))
o('ains-sort',(AR,'''        let result = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal));
        match result {
'''+AINS,'''        if self.literal_entries.iter().all(|probe| *probe.literal() != literal) {
            self.literal_entries.push(LiteralE::new(literal.clone()));
            self.literal_entries.sort_by(|a, b| a.literal().cmp(b.literal()));
        }
        let pos = self.literal_entries.binary_search_by(|probe| probe.literal().cmp(&literal)).unwrap();
        &mut self.literal_entries[pos]
'''))
SRCH='''        if common_prefix_len < literal_node.literal().len() {
            return LiteralLookupResult::NotFound;
        }
'''
o('srch-starts',(M,SRCH,'''        if !literal.starts_with(literal_node.literal()) {
            return LiteralLookupResult::NotFound;
        }
'''))
o('srch-isempty',(M,'''        if literal_node.has_value() && (literal.is_empty() || common_prefix_len == literal.len()) {
''','''        let rest = &literal[common_prefix_len..];
        if rest.is_empty() && literal_node.has_value() {
'''))
o('srch-leafeq',(M,'''        if self.literal_children.get(pos).unwrap().literal() == literal {
            trace!("search(): we got it");
            LiteralLookupResult::Found(pos)
        } else {
            trace!("search(): we didn't get it");
            LiteralLookupResult::NotFound
        }
''','''        match self.literal_children.get(pos) {
            Some(child) if child.literal() == literal => LiteralLookupResult::Found(pos),
            Some(_) | None => LiteralLookupResult::NotFound,
        }
'''))
LKM='''        match self.search(literal) {
            LiteralLookupResult::Found(pos) => {
                Ok((self, pos))
            }
            LiteralLookupResult::NotFound => {
                Err((self, literal.len()))
            }
            LiteralLookupResult::GoDown(pos, truncated_literal) => {
                self.literal_children
                    .get_mut(pos)
                    .unwrap()
                    .node_mut()
                    .unwrap()
                    .lookup_literal_mut(truncated_literal)
            }
        }
'''
o('lkm-loop',(M,LKM,'''        let mut tree = self;
        let mut rest = literal;
        loop {
            match tree.search(rest) {
                LiteralLookupResult::Found(pos) => return Ok((tree, pos)),
                LiteralLookupResult::NotFound => return Err((tree, rest.len())),
                LiteralLookupResult::GoDown(pos, truncated) => {
                    rest = truncated;
                    let current = tree;
                    tree = current.literal_children.get_mut(pos).unwrap().node_mut().unwrap();
                }
            }
        }
'''))
PWL='''        match child {
            Some(child) if text.starts_with(child.literal()) => {
                let text = text.ltrunc(child.literal().len());
                if text.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    child.node().and_then(|node| node.parse(text))
                }
            }
            _ => None,
        }
'''
o('pwl-question',(M,PWL,'''        let child = match child {
            Some(child) => child,
            None => return None,
        };
        if !text.starts_with(child.literal()) {
            return None;
        }
        let (_, rest) = text.split_at(child.literal().len());
        match child.pattern() {
            Some(pattern) if rest.is_empty() => Some(MatchResult::new(pattern)),
            _ => match child.node() {
                Some(node) => node.parse(rest),
                None => None,
            },
        }
'''))
o('pwl-filter',(M,PWL,'''        child.into_iter()
             .filter(|child| text.starts_with(child.literal()))
             .filter_map(|child| {
                 let rest = &text[child.literal().len()..];
                 match (rest.len(), child.pattern()) {
                     (0, Some(pattern)) => Some(MatchResult::new(pattern)),
                     _ => child.node().and_then(|node| node.parse(rest)),
                 }
             })
             .next()
'''))
o('sa-longest',(AR,'''            Ok(pos) => self.literal_entries.get(pos),
            Err(pos) =>self.longest_common_prefix_around_pos(value, pos)
''','''            Ok(pos) => Some(&self.literal_entries[pos]),
            Err(0) => self.literal_entries.first(),
            Err(pos) => self.longest_common_prefix_between_consecutive_entries(value, pos - 1),
'''))
o('cpl-zip',(CX,'''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len
''','''        self.chars().zip(other.chars()).take_while(|&(a, b)| a == b).map(|(a, _)| a.len_utf8()).fold(0, |n, x| n + x)
'''))
