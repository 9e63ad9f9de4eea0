"""behaviour-preserving edits in the style of results carried through loops, flags, folds, other iterators"""
TM='src/matcher/pattern/testmessage/message.rs'
PS='src/matcher/pattern_source/mod.rs'
PL='src/matcher/pattern_loader.rs'
IT='src/matcher/pattern/file/iter.rs'
SP='src/parsers/set.rs'
GP='src/parsers/greedy.rs'
HL='src/parsers/has_length_constraint.rs'
SV='src/utils/sortedvec.rs'
CP='src/utils/common_prefix.rs'
GM='src/grammar/mod.rs'
SI='src/matcher/suffix_array/interface.rs'
M='src/matcher/trie/node/mod.rs'
V=[]
def o(n,*es): V.append(('r2-o-'+n,'ok','',list(es)))
def b(n,want,*es): V.append(('r2-b-'+n,'bug',want,list(es)))
TAGS='''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())
'''
o('tags-all',(TM,TAGS,'''        let complete = expected_tags.iter().all(|tag| got_tags.iter().any(|got| got == tag));
        if complete {
            Ok(())
        } else {
            Err(self.report_unexpected_tags_error(result))
        }
'''))
o('tags-flag',(TM,TAGS,'''        let mut missing = false;
        for tag in expected_tags {
            missing = missing || !got_tags.contains(tag);
        }
        if missing {
            return Err(self.report_unexpected_tags_error(result));
        }
        Ok(())
'''))
o('tags-find',(TM,TAGS,'''        match expected_tags.iter().find(|tag| !got_tags.contains(tag)) {
            Some(_) => Err(self.report_unexpected_tags_error(result)),
            None => Ok(()),
        }
'''))
o('tags-count',(TM,TAGS,'''        let hits = expected_tags.iter().filter(|tag| got_tags.contains(tag)).count();
        if hits == expected_tags.len() {
            Ok(())
        } else {
            Err(self.report_unexpected_tags_error(result))
        }
'''))
o('tags-while',(TM,TAGS,'''        let mut i = 0;
        let mut outcome = Ok(());
        while outcome.is_ok() && i < expected_tags.len() {
            if !got_tags.contains(&expected_tags[i]) {
                outcome = Err(self.report_unexpected_tags_error(result));
            }
            i += 1;
        }
        outcome
'''))
VALS='''        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())
'''
o('vals-carried',(TM,VALS,'''        let mut outcome = Ok(());
        for (key, value) in self.values() {
            if outcome.is_ok() {
                outcome = TestMessage::test_value(key, value, &merged_values, result);
            }
        }
        outcome
'''))
o('vals-fold',(TM,VALS,'''        self.values().iter().fold(Ok(()), |outcome, (key, value)| {
            outcome.and_then(|_| TestMessage::test_value(key, value, &merged_values, result))
        })
'''))
o('vals-map',(TM,VALS,'''        self.values()
            .iter()
            .map(|(key, value)| TestMessage::test_value(key, value, &merged_values, result))
            .find(|outcome| outcome.is_err())
            .unwrap_or(Ok(()))
'''))
o('vals-collect',(TM,VALS,'''        self.values()
            .iter()
            .map(|(key, value)| TestMessage::test_value(key, value, &merged_values, result))
            .collect::<Result<Vec<()>, Error>>()
            .map(|_| ())
'''))
o('vals-while',(TM,VALS,'''        let mut expected = self.values().iter();
        while let Some((key, value)) = expected.next() {
            let outcome = TestMessage::test_value(key, value, &merged_values, result);
            if outcome.is_err() {
                return outcome;
            }
        }
        Ok(())
'''))
MERGE='''        let mut merged_values: BTreeMap<&str, &str> = BTreeMap::new();

        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }

        merged_values
'''
o('merge-chain',(TM,MERGE,'''        let given = result.pattern().values().into_iter().flat_map(|values| values.iter()).map(|(k, v)| (&k[..], &v[..]));
        let captured = result.values().iter().map(|(k, v)| (*k, *v));
        given.chain(captured).collect()
'''))
o('merge-entry',(TM,MERGE,'''        let mut merged_values: BTreeMap<&str, &str> = BTreeMap::new();
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.entry(&key[..]).or_insert(&value[..]);
            }
        }
        merged_values
'''))
o('merge-contains',(TM,MERGE,'''        let mut merged_values: BTreeMap<&str, &str> = BTreeMap::new();
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
        for values in result.pattern().values().into_iter() {
            for (key, value) in values {
                if !merged_values.contains_key(&key[..]) {
                    merged_values.insert(&key[..], &value[..]);
                }
            }
        }
        merged_values
'''))
MSGS='''        for msg in messages {
            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));
        }
        Ok(())
'''
o('msgs-carried',(PS,MSGS,'''        let mut outcome: Result<(), testmessage::Error> = Ok(());
        let mut i = 0;
        while i < messages.len() && outcome.is_ok() {
            let msg = &messages[i];
            outcome = match matcher.parse(msg.message()) {
                Some(result) => Self::check_test_message(msg, &result, uuid),
                None => Err(testmessage::Error::test_message_does_not_match(uuid, msg)),
            };
            i += 1;
        }
        outcome.map_err(BuildError::from)
'''))
o('msgs-fold',(PS,MSGS,'''        messages.iter().fold(Ok(()), |outcome, msg| {
            try!(outcome);
            match matcher.parse(msg.message()) {
                Some(result) => Self::check_test_message(msg, &result, uuid).map_err(BuildError::from),
                None => Err(BuildError::from(testmessage::Error::test_message_does_not_match(uuid, msg))),
            }
        })
'''))
o('msgs-rest',(PS,MSGS,'''        match messages.split_first() {
            None => Ok(()),
            Some((msg, others)) => {
                let result = try!(matcher.parse(msg.message())
                                         .ok_or(testmessage::Error::test_message_does_not_match(uuid, msg)));
                try!(Self::check_test_message(msg, &result, uuid));
                Self::check_test_messages(matcher, others, uuid)
            }
        }
'''))
o('msgs-rev',(PS,'''        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages
''','''        loop {
            match pattern.pop_test_message() {
                Some(test_message) => messages.push(test_message),
                None => return messages,
            }
        }
'''))
o('msgs-from-fn',(PS,'''        let mut messages = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages
''','''        ::std::iter::from_fn(|| pattern.pop_test_message()).collect()
'''))
SRC='''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)
'''
o('src-carried',(PS,SRC,'''        let mut failure = None;
        while failure.is_none() {
            match from.next() {
                Some(pattern) => failure = Self::check_pattern::<F::Matcher>(&mut matcher, pattern).err(),
                None => break,
            }
        }
        match failure {
            Some(error) => Err(error),
            None => Ok(matcher),
        }
'''))
o('src-tryfold',(PS,SRC,'''        match from.map(|pattern| Self::check_pattern::<F::Matcher>(&mut matcher, pattern)).find(|x| x.is_err()) {
            Some(Err(error)) => return Err(error),
            _ => {}
        }
        Ok(matcher)
'''))
o('src-collect',(PS,SRC,'''        try!(from.map(|pattern| Self::check_pattern::<F::Matcher>(&mut matcher, pattern)).collect::<Result<Vec<()>, BuildError>>());
        Ok(matcher)
'''))
IGN='''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
            }
'''
o('ign-match',(PS,IGN,'''            match Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                Ok(()) => continue,
                Err(error) => error!("{}", error),
            }
'''))
o('ign-err',(PS,IGN,'''            Self::check_pattern::<F::Matcher>(&mut matcher, pattern).err().map(|error| error!("{}", error));
'''))
o('ign-errors-list',(PS,'''            if let Err(error) = result {
                error!("{}", error);
            }
        }
        matcher
''','''            failures.extend(result.err());
        }
        for error in &failures {
            error!("{}", error);
        }
        matcher
'''),(PS,'''    fn from_source_ignore_errors<F: MatcherFactory>(from: &mut PatternSource) -> F::Matcher {
        let mut matcher = F::new_matcher();
''','''    fn from_source_ignore_errors<F: MatcherFactory>(from: &mut PatternSource) -> F::Matcher {
        let mut matcher = F::new_matcher();
        let mut failures = Vec::new();
'''))
o('iter-map',(IT,'''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }
''','''        self.patterns.pop().map(Ok)
'''))
o('iter-len',(IT,'''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }
''','''        let left = self.patterns.len();
        if left == 0 {
            return None;
        }
        Some(Ok(self.patterns.remove(left - 1)))
'''))
LEN='''        let matched = &value[..self.calculate_match_length(value)];

        if self.is_match_length_ok(matched.chars().count()) {
            Some(ParseResult::new(self, matched))
        } else {
            None
        }
'''
o('set-splitat',(SP,LEN,'''        let (matched, _) = value.split_at(self.calculate_match_length(value));
        let chars = matched.chars().fold(0, |n, _| n + 1);
        match self.is_match_length_ok(chars) {
            true => Some(ParseResult::new(self, matched)),
            false => None,
        }
'''))
o('set-trim',(SP,LEN,'''        let rest = value.trim_left_matches(|c| self.character_set.contains(&c));
        let matched = &value[..value.len() - rest.len()];

        if self.is_match_length_ok(matched.chars().count()) {
            Some(ParseResult::new(self, matched))
        } else {
            None
        }
'''))
o('set-then',(SP,LEN,'''        let matched = &value[..self.calculate_match_length(value)];
        Some(matched).filter(|x| self.is_match_length_ok(x.chars().count())).map(|x| ParseResult::new(self, x))
'''))
o('len-mapor',(HL,'''        match self.min_length() {
            Some(x) => match_length >= x,
            None => true,
        }
''','''        !self.min_length().map_or(false, |x| match_length < x)
'''),(HL,'''        match self.max_length() {
            Some(x) => match_length <= x,
            None => true,
        }
''','''        self.max_length().into_iter().all(|x| match_length <= x)
'''))
o('len-unwrap',(HL,'''        match_length > 0 && self.is_min_length_ok(match_length) &&
        self.is_max_length_ok(match_length)
''','''        let low = ::std::cmp::max(1, self.min_length().unwrap_or(0));
        let high = self.max_length().unwrap_or(usize::max_value());
        low <= match_length && match_length <= high
'''))
GR='''        if let Some(end_string) = self.end_string.as_ref() {
            value.find(end_string).map(|pos| ParseResult::new(self, &value[..pos]))
        } else {
            Some(ParseResult::new(self, &value[..]))
        }
'''
o('gr-len',(GP,GR,'''        let taken = match self.end_string {
            Some(ref end_string) => value.find(&end_string[..]),
            None => Some(value.len()),
        };
        taken.map(|length| ParseResult::new(self, &value[..length]))
'''))
o('gr-splitn',(GP,GR,'''        match self.end_string {
            Some(ref end_string) => {
                let mut parts = value.splitn(2, &end_string[..]);
                let first = parts.next();
                match parts.next() {
                    Some(_) => first.map(|x| ParseResult::new(self, x)),
                    None => None,
                }
            }
            None => Some(ParseResult::new(self, value)),
        }
'''))
o('gr-scan',(GP,GR,'''        let end_string = match self.end_string {
            Some(ref end_string) => end_string,
            None => return Some(ParseResult::new(self, value)),
        };
        for (pos, _) in value.char_indices().chain(Some((value.len(), ' '))) {
            if value[pos..].starts_with(&end_string[..]) {
                return Some(ParseResult::new(self, &value[..pos]));
            }
        }
        None
'''))
o('gr-matchind',(GP,GR,'''        match self.end_string {
            Some(ref end_string) => value.match_indices(&end_string[..]).next().map(|(pos, _)| ParseResult::new(self, &value[..pos])),
            None => Some(ParseResult::new(self, value)),
        }
'''))
BS='''        let mut low = 0;
        let mut high = self.array.len();

        while low < high {
            let mid = (low + high) / 2;

            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => return Some(mid),
            }
        }

        None
'''
o('bs-std',(SV,BS,'''        self.array.binary_search(needle).ok()
'''))
o('bs-size',(SV,BS,'''        let mut base = 0;
        let mut size = self.array.len();
        while size > 0 {
            let half = size / 2;
            match self.array[base + half].cmp(needle) {
                Ordering::Equal => return Some(base + half),
                Ordering::Less => {
                    base += half + 1;
                    size -= half + 1;
                }
                Ordering::Greater => size = half,
            }
        }
        None
'''))
o('bs-carried',(SV,BS,'''        let mut found = None;
        let mut low = 0;
        let mut high = self.array.len();
        while found.is_none() && low < high {
            let mid = low + (high - low) / 2;
            match self.array[mid].cmp(needle) {
                Ordering::Less => low = mid + 1,
                Ordering::Greater => high = mid,
                Ordering::Equal => found = Some(mid),
            }
        }
        found
'''))
o('bs-linear',(SV,BS,'''        self.array.iter().position(|x| x == needle)
'''))
o('sv-push',(SV,'''        self.array.push(value);
        self.array.sort();
''','''        let pos = match self.array.binary_search(&value) {
            Ok(pos) => pos + 1,
            Err(pos) => pos,
        };
        self.array.insert(pos, value);
'''))
o('sv-push2',(SV,'''        self.array.push(value);
        self.array.sort();
''','''        let pos = self.array.iter().take_while(|x| **x <= value).count();
        self.array.insert(pos, value);
'''))
o('sv-push3',(SV,'''        self.array.push(value);
        self.array.sort();
''','''        let mut i = self.array.len();
        self.array.push(value);
        while i > 0 && self.array[i] < self.array[i - 1] {
            self.array.swap(i, i - 1);
            i -= 1;
        }
'''))
CPL='''        for i in 0..min_len {
            let x = a_i.next();
            let y = b_i.next();

            if self.is_char_boundary(i) {
                last_valid_character_boundary = i;
            }

            if x != y {
                return last_valid_character_boundary;
            }
        }
        min_len
'''
CPLW='''        let min_len = cmp::min(self.len(), other.len());
        let mut a_i = self.as_bytes().iter();
        let mut b_i = other.as_bytes().iter();
        let mut last_valid_character_boundary = 0;

'''+CPL
o('cpl-chars',(CP,CPLW,'''        self.chars().zip(other.chars()).take_while(|&(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum()
'''),(CP,'use std::cmp;\n',''))
o('cpl-ci',(CP,CPLW,'''        let mut others = other.chars();
        for (pos, c) in self.char_indices() {
            if others.next() != Some(c) {
                return pos;
            }
        }
        self.len()
'''),(CP,'use std::cmp;\n',''))
o('cpl-find',(CP,CPLW,'''        self.char_indices().zip(other.chars()).find(|&((_, x), y)| x != y).map_or(cmp::min(self.len(), other.len()), |((pos, _), _)| pos)
'''))
o('cpl-back',(CP,CPLW,'''        let mut len = cmp::min(self.len(), other.len());
        while !(self.is_char_boundary(len) && other.is_char_boundary(len) && self[..len] == other[..len]) {
            len -= 1;
        }
        len
'''))
o('cpl-fold',(CP,CPLW,'''        let mut len = 0;
        for (x, y) in self.chars().zip(other.chars()) {
            if x != y {
                break;
            }
            len += x.len_utf8();
        }
        len
'''),(CP,'use std::cmp;\n',''))
o('un-split',(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    literal.split(r#"\\%\\{"#).collect::<Vec<_>>().join("%{")
'''))
o('un-find',(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let mut result = String::with_capacity(literal.len());
    let mut rest = literal;
    while let Some(pos) = rest.find(r#"\\%\\{"#) {
        result.push_str(&rest[..pos]);
        result.push_str("%{");
        rest = &rest[pos + 4..];
    }
    result.push_str(rest);
    result
'''))
o('un-match',(GM,'''    literal.replace(r#"\\%\\{"#, "%{")
''','''    let mut result = String::new();
    let mut done = 0;
    for (pos, found) in literal.match_indices(r#"\\%\\{"#) {
        result = result + &literal[done..pos] + "%{";
        done = pos + found.len();
    }
    result + &literal[done..]
'''))
o('ent-take',(SI,'''            if self.child().is_none() {
                let sa = Self::SA::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
''','''            if let Some(child) = self.child_mut() {
                child.insert(pattern);
                return;
            }
            let mut child = Self::SA::new();
            child.insert(pattern);
            self.set_child(Some(child));
'''))
o('ent-rev',(SI,'''        if pattern.pattern().is_empty() {
            self.set_pattern(Some(pattern));
        } else {
            if self.child().is_none() {
                let sa = Self::SA::new();
                self.set_child(Some(sa));
            }
            self.child_mut().expect("Failed to get a child").insert(pattern);
        }
''','''        if !pattern.pattern().is_empty() {
            let missing = self.child().is_none();
            if missing {
                self.set_child(Some(Self::SA::new()));
            }
            match self.child_mut() {
                Some(child) => child.insert(pattern),
                None => unreachable!(),
            }
        } else {
            self.set_pattern(Some(pattern));
        }
'''))
o('srch-flat',(M,'''        if self.literal_children.get(pos).unwrap().is_leaf() {
            self.search_prefix_is_found_and_node_is_leaf(literal, pos)
        } else {
            self.search_prefix_is_found_and_node_is_not_leaf(literal, pos)
        }
''','''        let child = match self.literal_children.get(pos) {
            Some(child) => child,
            None => return LiteralLookupResult::NotFound,
        };
        match child.is_leaf() {
            true => self.search_prefix_is_found_and_node_is_leaf(literal, pos),
            false => self.search_prefix_is_found_and_node_is_not_leaf(literal, pos),
        }
'''))
