CP='src/matcher/compiled_pattern.rs'
TP='src/matcher/trie/node/parser.rs'
TL='src/matcher/trie/node/literal.rs'
TN='src/matcher/trie/node/mod.rs'
TM='src/matcher/trie/matcher.rs'
SA='src/matcher/suffix_array/impls.rs'
SP='src/parsers/set.rs'
IP='src/parsers/int.rs'
GP='src/parsers/greedy.rs'
BP='src/parsers/base.rs'
PT='src/matcher/pattern/pattern.rs'
SV='src/utils/sortedvec.rs'
CLT='''        match *self {
            TokenType::Parser(ref parser) => {
                TokenType::Parser(parser.boxed_clone())
            }
            TokenType::Literal(ref literal) => {
                TokenType::Literal(literal.clone())
            }
        }
'''
CLP='''            parser: self.parser.boxed_clone(),
            pattern: self.pattern.clone(),
            node: self.node.clone(),
'''
CLE='''            pattern: self.pattern.clone(),
            parser: self.parser.boxed_clone(),
            child: self.child.clone()
'''
CL='''#[derive(Debug, Clone)]
pub struct LiteralE {
    pattern: Option<Pattern>,
    literal: String,
    child: Option<SuffixTable>
}
'''
ST='''#[derive(Debug, Clone)]
pub struct SuffixTable {
    literal_entries: Vec<LiteralE>,
    parser_entries: Vec<ParserE>,
}
'''
V=[
('cl-iflet','ok','',[(CP,CLT,'''        if let TokenType::Parser(ref parser) = *self {
            return TokenType::Parser(parser.boxed_clone());
        }
        match self {
            &TokenType::Literal(ref literal) => TokenType::Literal(literal.to_owned()),
            &TokenType::Parser(ref parser) => TokenType::Parser(parser.boxed_clone()),
        }
''')]),
('cl-new','ok','',[(TP,'''        ParserNode {
'''+CLP+'''        }
''','''        let mut copy = ParserNode::new(self.parser.boxed_clone());
        copy.pattern = self.pattern.clone();
        copy.node = self.node.clone();
        copy
''')]),
('cl-opt','ok','',[(TP,CLP,'''            parser: self.parser.boxed_clone(),
            pattern: match self.pattern {
                Some(ref p) => Some(p.clone()),
                None => None,
            },
            node: self.node.as_ref().map(|n| n.clone()),
''')]),
('cl-manual','ok','',[(SA,CL,CL.replace(', Clone','')+'''
impl Clone for LiteralE {
    fn clone(&self) -> LiteralE {
        LiteralE {
            literal: self.literal.clone(),
            pattern: self.pattern.clone(),
            child: self.child.clone(),
        }
    }
}
''')]),
('cl-manual-vec','ok','',[(SA,ST,ST.replace(', Clone','')+'''
impl Clone for SuffixTable {
    fn clone(&self) -> SuffixTable {
        SuffixTable {
            literal_entries: self.literal_entries.iter().map(|e| e.clone()).collect(),
            parser_entries: self.parser_entries.to_vec(),
        }
    }
}
''')]),
('cl-manual-loop','ok','',[(SA,ST,ST.replace(', Clone','')+'''
impl Clone for SuffixTable {
    fn clone(&self) -> SuffixTable {
        let mut copy = SuffixTable { literal_entries: Vec::new(), parser_entries: Vec::with_capacity(self.parser_entries.len()) };
        for entry in &self.literal_entries {
            copy.literal_entries.push(entry.clone());
        }
        for entry in self.parser_entries.iter() {
            copy.parser_entries.push(entry.clone());
        }
        copy
    }
}
''')]),
('cl-boxed','ok','',[(TM,'        Box::new(self.clone())\n','        let copy: SuffixTree = Clone::clone(self);\n        Box::new(copy)\n')]),
('cl-set-boxed','ok','',[(SP,'Box::new(self.clone())','Box::new(SetParser { base: self.base.clone(), character_set: self.character_set.clone(), min_length: self.min_length, max_length: self.max_length })')]),
('cl-greedy-setname','ok','',[(GP,'Box::new(self.clone())','{ let mut p = self.clone(); p.base = self.base.clone(); Box::new(p) }')]),
('b-cl-child','bug','C19',[(SA,'            child: self.child.clone()\n','            child: None\n')]),
('b-cl-pattern','bug','C19',[(TP,CLP,'''            parser: self.parser.boxed_clone(),
            pattern: None,
            node: self.node.clone(),
''')]),
('b-cl-node','bug','C19',[(TP,CLP,'''            parser: self.parser.boxed_clone(),
            pattern: self.pattern.clone(),
            node: if self.pattern.is_some() { None } else { self.node.clone() },
''')]),
('b-cl-set-limits','bug','C19',[(SP,'Box::new(self.clone())','''{
            let mut copy = self.clone();
            copy.set_max_length(self.min_length);
            Box::new(copy)
        }''')]),
('b-cl-greedy-name','bug','C19',[(GP,'Box::new(self.clone())','''{
            let mut copy = GreedyParser::new();
            copy.set_end_string(self.end_string.clone());
            Box::new(copy)
        }''')]),
('b-cl-greedy-end','bug','C19',[(GP,'Box::new(self.clone())','''{
            let mut copy = self.clone();
            if let Some(ref end) = self.end_string {
                copy.set_end_string(end.chars().next().map(|c| c.to_string()));
            }
            Box::new(copy)
        }''')]),
('b-cl-int-set','bug','C19',[(IP,'Box::new(self.clone())','''{
            let mut copy = IntParser::new();
            copy.set_name(self.name().map(|n| n.to_owned()));
            Box::new(copy)
        }''')]),
('b-cl-table','bug','C19',[(SA,ST,ST.replace(', Clone','')+'''
impl Clone for SuffixTable {
    fn clone(&self) -> SuffixTable {
        SuffixTable {
            literal_entries: self.literal_entries.clone(),
            parser_entries: self.parser_entries.iter().filter(|e| e.pattern().is_some()).cloned().collect(),
        }
    }
}
''')]),
('b-cl-token','bug','C19',[(CP,'TokenType::Literal(literal.clone())','TokenType::Literal(literal.trim().to_owned())')]),
('b-cl-lite','bug','C19',[(SA,CL,CL.replace(', Clone','')+'''
impl Clone for LiteralE {
    fn clone(&self) -> LiteralE {
        LiteralE {
            literal: self.literal.clone(),
            pattern: self.pattern.clone(),
            child: match self.pattern {
                Some(_) => None,
                None => self.child.clone(),
            },
        }
    }
}
''')]),

('ef-debug','ok','',[(TM,'        self.parse(text)\n','        debug!("parsing {}", text);\n        self.parse(text)\n')]),
('ef-rc','ok','',[(TM,'        self.parse(text)\n','        let shared = ::std::rc::Rc::new(text.len());\n        trace!("{}", shared);\n        self.parse(text)\n')]),
('b-ef-cell','bug','C18',[(GP,"""pub struct GreedyParser {
""","""pub struct GreedyParser {
    seen: HiddenCounter,
"""),(GP,'#[derive(Clone, Debug, Hash)]\npub struct GreedyParser','#[derive(Clone, Debug)]\nstruct HiddenCounter(::std::cell::Cell<usize>);\nimpl ::std::hash::Hash for HiddenCounter {\n    fn hash<H: ::std::hash::Hasher>(&self, _: &mut H) {}\n}\n\n#[derive(Clone, Debug, Hash)]\npub struct GreedyParser'),
  (GP,'''            base: ParserBase::with_name(name),
''','''            seen: HiddenCounter(::std::cell::Cell::new(0)),
            base: ParserBase::with_name(name),
'''),(GP,'''        GreedyParser {
            base: ParserBase::new(),
            end_string: None,
        }
''','''        GreedyParser {
            seen: HiddenCounter(::std::cell::Cell::new(0)),
            base: ParserBase::new(),
            end_string: None,
        }
'''),(GP,'        if let Some(end_string) = self.end_string.as_ref() {','        self.seen.0.set(self.seen.0.get() + 1);\n        if self.seen.0.get() > 100000 {\n            return None;\n        }\n        if let Some(end_string) = self.end_string.as_ref() {')]),
('b-ef-static','bug','C18',[(TM,'        self.parse(text)\n','        use std::sync::atomic::{AtomicUsize, Ordering};\n        static CALLS: AtomicUsize = AtomicUsize::new(0);\n        if CALLS.fetch_add(1, Ordering::SeqCst) > 1000000 {\n            return None;\n        }\n        self.parse(text)\n')]),
('b-ef-time','bug','C18',[(TM,'        self.parse(text)\n','        let start = ::std::time::Instant::now();\n        let r = self.parse(text);\n        if start.elapsed().as_secs() > 5 { None } else { r }\n')]),
('b-ef-env','bug','C18',[(SP,'        let matched = &value[..self.calculate_match_length(value)];','        if ::std::env::var("ACTIONDB_NO_SET").is_ok() {\n            return None;\n        }\n        let matched = &value[..self.calculate_match_length(value)];')]),
('b-ef-tls','bug','C18',[(TM,'        self.parse(text)\n','        thread_local!(static DEPTH: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n        if DEPTH.with(|d| { d.set(d.get() + 1); d.get() }) > 100000 {\n            return None;\n        }\n        self.parse(text)\n')]),
('b-ef-mutex','bug','C18',[(TM,'        self.parse(text)\n','        static mut LAST: usize = 0;\n        unsafe {\n            if LAST == text.len() && text.len() > 4096 {\n                return None;\n            }\n            LAST = text.len();\n        }\n        self.parse(text)\n')]),
('b-ef-hash','bug','C18',[(TM,'        self.parse(text)\n','        use std::hash::{BuildHasher, Hash, Hasher};\n        let mut h = ::std::collections::hash_map::RandomState::new().build_hasher();\n        text.hash(&mut h);\n        if h.finish() == 0 { return None; }\n        self.parse(text)\n')]),
]
