M='src/matcher/trie/node/mod.rs'
A='src/matcher/suffix_array/impls.rs'
AP='''        let pos = self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        });
        if let Some(pos) = pos {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
'''
V=[]
def b(n,want,*es): V.append(('sh-b-'+n,'bug',want,list(es)))
def o(n,*es): V.append(('sh-o-'+n,'ok','',list(es)))
LK='''        self.parser_children.iter().position(|ref x| x.parser().hash_os() == parser.hash_os())
'''
b('a-last','C25',(A,AP,'''        let pos = match self.parser_entries.last() {
            Some(x) if x.parser.hash_os() == parser.hash_os() => Some(self.parser_entries.len() - 1),
            _ => None
        };
        if let Some(pos) = pos {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
'''))
b('t-skip','C25',(M,LK,'''        self.parser_children.iter().skip(1).position(|ref x| x.parser().hash_os() == parser.hash_os()).map(|x| x + 1)
'''))
b('t-leaf','C25',(M,LK,'''        self.parser_children.iter().position(|ref x| !x.is_leaf() && x.parser().hash_os() == parser.hash_os())
'''))
b('a-named','C25',(A,AP,'''        let pos = if parser.name().is_none() { None } else { self.parser_entries.iter().position(|x| {
            x.parser.hash_os() == parser.hash_os()
        }) };
        if let Some(pos) = pos {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
'''))
b('t-while','C25',(M,LK,'''        let mut i = 0;
        while i + 1 < self.parser_children.len() {
            if self.parser_children[i].parser().hash_os() == parser.hash_os() {
                return Some(i);
            }
            i += 1;
        }
        None
'''))
o('t-while',(M,LK,'''        let mut i = 0;
        while i < self.parser_children.len() {
            if self.parser_children[i].parser().hash_os() == parser.hash_os() {
                return Some(i);
            }
            i += 1;
        }
        None
'''))
o('t-for',(M,LK,'''        let wanted = parser.hash_os();
        for (i, child) in self.parser_children.iter().enumerate() {
            if child.parser().hash_os() != wanted {
                continue;
            }
            return Some(i);
        }
        None
'''))
o('t-carried',(M,LK,'''        let mut found = None;
        for (i, child) in self.parser_children.iter().enumerate() {
            if found.is_none() && child.parser().hash_os() == parser.hash_os() {
                found = Some(i);
            }
        }
        found
'''))
o('t-rposition',(M,LK,'''        let wanted = parser.hash_os();
        self.parser_children.iter().rposition(|child| child.parser().hash_os() == wanted)
'''))
o('t-find',(M,LK,'''        (0..self.parser_children.len()).find(|&i| self.parser_children[i].parser().hash_os() == parser.hash_os())
'''))
o('a-map',(A,AP,'''        let wanted = parser.hash_os();
        let hashes: Vec<u64> = self.parser_entries.iter().map(|x| x.parser.hash_os()).collect();
        if let Some(pos) = hashes.iter().position(|x| *x == wanted) {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
'''))
o('a-any',(A,AP,'''        let known = self.parser_entries.iter().any(|x| x.parser.hash_os() == parser.hash_os());
        if known {
            self.parser_entries.iter_mut().find(|x| x.parser.hash_os() == parser.hash_os()).expect("Parser entry found, but failed to remove")
        } else {
'''))
o('a-count',(A,AP,'''        let pos = self.parser_entries.iter().take_while(|x| x.parser.hash_os() != parser.hash_os()).count();
        if pos < self.parser_entries.len() {
            self.parser_entries.get_mut(pos).expect("Parser entry found, but failed to remove")
        } else {
'''))
o('a-rev',(A,AP,'''        let mut pos = self.parser_entries.len();
        while pos > 0 && self.parser_entries[pos - 1].parser.hash_os() != parser.hash_os() {
            pos -= 1;
        }
        if pos > 0 {
            &mut self.parser_entries[pos - 1]
        } else {
'''))
LI='''            Err(pos) => {
                let entry = LiteralE::new(literal);
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
'''
b('a-litend','C21',(A,LI,'''            Err(pos) => {
                let entry = LiteralE::new(literal);
                let pos = if pos + 1 == self.literal_entries.len() { pos + 1 } else { pos };
                self.literal_entries.insert(pos, entry);
                self.literal_entries.get_mut(pos).expect("Literal entry inserted, but failed to remove")
            }
'''))
