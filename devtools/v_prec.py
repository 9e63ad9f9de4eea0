M='src/matcher/trie/node/mod.rs'
A='src/matcher/suffix_array/impls.rs'
TP='''        self.parse_with_literal(text, text)
            .or_else(|| self.parse_with_literal("", text))
            .or_else(|| self.parse_with_parsers(text))
'''
TPP='''        for i in &self.parser_children {
            trace!("parse(): testing parser");

            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
'''
TI='''            let pnode = ParserNode::new(parser);
            self.parser_children.push(pnode);
            self.parser_children.last_mut().unwrap()
'''
AL='''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    return result;
                }
            }
        }
        None
'''
APP='''        for parser in &self.parser_entries {
            if let Some(result) = parser.parse(value) {
                return Some(result);
            }
        }
        None
'''
AI='''            let parser = ParserE::new(parser);
            self.parser_entries.push(parser);
            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")
'''
APA='self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))'
V=[]
def b(n,want,*es): V.append(('pr-b-'+n,'bug',want,list(es)))
def o(n,*es): V.append(('pr-o-'+n,'ok','',list(es)))
b('t-parsfirst','C25',(M,TP,'''        self.parse_with_parsers(text)
            .or_else(|| self.parse_with_literal(text, text))
            .or_else(|| self.parse_with_literal("", text))
'''))
b('t-mid','C25',(M,TP,'''        self.parse_with_literal(text, text)
            .or_else(|| self.parse_with_parsers(text))
            .or_else(|| self.parse_with_literal("", text))
'''))
b('t-emptyfirst','C25',(M,TP,'''        self.parse_with_literal("", text)
            .or_else(|| self.parse_with_literal(text, text))
            .or_else(|| self.parse_with_parsers(text))
'''))
b('t-rev','C25',(M,'for i in &self.parser_children {\n            trace!("parse(): testing parser");','for i in self.parser_children.iter().rev() {\n            trace!("parse(): testing parser");'))
b('t-front','C25',(M,TI,'''            let pnode = ParserNode::new(parser);
            self.parser_children.insert(0, pnode);
            self.parser_children.first_mut().unwrap()
'''))
b('t-last','C25',(M,TPP,'''        let mut found = None;
        for i in &self.parser_children {
            if let Some(result) = i.parse(text) {
                found = Some(result);
            }
        }
        found
'''))
b('t-leaffirst','C25',(M,TPP,'''        for i in self.parser_children.iter().filter(|i| i.is_leaf()) {
            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        for i in self.parser_children.iter().filter(|i| !i.is_leaf()) {
            if let Some(result) = i.parse(text) {
                return Some(result);
            }
        }
        None
'''))
b('a-asc','C25',(A,'self.literal_entries.iter().rev()','self.literal_entries.iter()'))
b('a-parsfirst','C25',(A,APA,'self.parse_with_parsers(value).or_else(|| self.parse_with_literals(value))'))
b('a-front','C25',(A,AI,'''            let parser = ParserE::new(parser);
            self.parser_entries.insert(0, parser);
            self.parser_entries.first_mut().expect("Parser entry inserted, but failed to remove")
'''))
b('a-rev','C25',(A,'for parser in &self.parser_entries {','for parser in self.parser_entries.iter().rev() {'))
b('a-short','C25',(A,AL,'''        let mut best: Option<MatchResult<'a, 'b>> = None;
        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                let result = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
                if result.is_some() {
                    best = result;
                }
            }
        }
        best
'''))
b('a-swap','C25',(A,AI,'''            let parser = ParserE::new(parser);
            self.parser_entries.push(parser);
            let n = self.parser_entries.len();
            if n > 3 {
                self.parser_entries.swap(n - 2, n - 1);
                return self.parser_entries.get_mut(n - 2).unwrap();
            }
            self.parser_entries.last_mut().expect("Parser entry inserted, but failed to remove")
'''))
b('a-long','C25',(A,APA,'''{
            let lit = self.parse_with_literals(value);
            let par = self.parse_with_parsers(value);
            match (lit, par) {
                (Some(l), Some(p)) => if l.values().len() >= p.values().len() { Some(l) } else { Some(p) },
                (Some(l), None) => Some(l),
                (None, p) => p,
            }
        }'''))
b('t-captures','C25',(M,TP,'''        let lit = self.parse_with_literal(text, text);
        if lit.as_ref().map_or(false, |l| l.values().is_empty()) {
            return lit;
        }
        let par = self.parse_with_parsers(text);
        par.or(lit).or_else(|| self.parse_with_literal("", text))
'''))
# one matcher only
b('a-nopat','C26',(A,'Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),','Some(pattern) if value.is_empty() && entry.child().is_none() => Some(MatchResult::new(pattern)),'))
b('t-onlykeyed','C26',(M,'''            .or_else(|| self.parse_with_literal("", text))
''',''))
b('a-firstonly','C26',(A,'''                if result.is_some() {
                    return result;
                }
''','''                return result;
'''))
b('a-capt','C26',(A,'''                    result.insert(kvpair);
                    Some(result)
                })''','''                    if !result.values().is_empty() {
                        result.insert(kvpair);
                    }
                    Some(result)
                })'''))
# same behaviour
o('t-match',(M,TP,'''        if let Some(found) = self.parse_with_literal(text, text) {
            return Some(found);
        }
        match self.parse_with_literal("", text) {
            Some(found) => Some(found),
            None => self.parse_with_parsers(text),
        }
'''))
o('t-findmap',(M,TPP,'''        self.parser_children.iter().filter_map(|i| i.parse(text)).next()
'''))
o('t-index',(M,TPP,'''        let mut i = 0;
        while i < self.parser_children.len() {
            let result = self.parser_children[i].parse(text);
            if result.is_some() {
                return result;
            }
            i += 1;
        }
        None
'''))
o('t-scan',(M,TP,'''        for i in (0..self.literal_children.len()).rev() {
            let child = self.literal_children.get(i).unwrap();
            if text.starts_with(LiteralNode::literal(child)) {
                let rest = text.ltrunc(LiteralNode::literal(child).len());
                let found = if rest.is_empty() && child.pattern().is_some() {
                    SuffixTree::create_match_result_if_child_is_leaf(child)
                } else {
                    LiteralNode::node(child).and_then(|node| node.parse(rest))
                };
                if found.is_some() {
                    return found;
                }
            }
        }
        self.parse_with_parsers(text)
'''))
o('t-pushidx',(M,TI,'''            let at = self.parser_children.len();
            self.parser_children.insert(at, ParserNode::new(parser));
            &mut self.parser_children[at]
'''))
o('a-down',(A,'''        for entry in self.literal_entries.iter().rev() {
''','''        let mut i = self.literal_entries.len();
        while i > 0 {
            i -= 1;
            let entry = &self.literal_entries[i];
'''))
o('a-filter',(A,'''        for entry in self.literal_entries.iter().rev() {
            if value.starts_with(entry.literal().as_str()) {
''','''        for entry in self.literal_entries.iter().rev().filter(|entry| value.starts_with(&entry.literal()[..])) {
            {
'''))
o('a-find',(A,APP,'''        self.parser_entries.iter().filter_map(|parser| parser.parse(value)).next()
'''))
o('a-range',(A,APP,'''        for i in 0..self.parser_entries.len() {
            let result = self.parser_entries[i].parse(value);
            if result.is_some() {
                return result;
            }
        }
        None
'''))
o('a-or',(A,APA,'''match self.parse_with_literals(value) {
            None => self.parse_with_parsers(value),
            found => found,
        }'''))
WH='''        let mut found = None;
        let mut i = 0;
        while found.is_none() && i < self.%s.len() {
            found = self.%s[i].parse(%s);
            i += 1;
        }
        found
'''
o('t-while',(M,TPP,WH%('parser_children','parser_children','text')))
o('a-while',(A,APP,WH%('parser_entries','parser_entries','value')))
o('t-break',(M,TPP,'''        let mut found = None;
        for i in &self.parser_children {
            found = i.parse(text);
            if found.is_some() {
                break;
            }
        }
        found
'''))
o('t-fold',(M,TPP,'''        self.parser_children.iter().fold(None, |found, i| found.or_else(|| i.parse(text)))
'''))
o('a-litbest',(A,AL,'''        let mut found = None;
        for entry in self.literal_entries.iter().rev() {
            if found.is_none() && value.starts_with(entry.literal().as_str()) {
                let value = value.ltrunc(entry.literal().len());
                found = match entry.pattern() {
                    Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
                    _ => entry.child().and_then(|child| child.parse(value)),
                };
            }
        }
        found
'''))
o('a-takeskip',(A,AL,'''        let mut entries = self.literal_entries.iter().rev().skip_while(|entry| !value.starts_with(&entry.literal()[..]));
        while let Some(entry) = entries.next() {
            if !value.starts_with(&entry.literal()[..]) {
                continue;
            }
            let value = value.ltrunc(entry.literal().len());
            if value.is_empty() && entry.pattern().is_some() {
                return entry.pattern().map(MatchResult::new);
            }
            if let Some(result) = entry.child().and_then(|child| child.parse(value)) {
                return Some(result);
            }
        }
        None
'''))
