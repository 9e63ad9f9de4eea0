SRC='src/matcher/pattern_source/mod.rs'
LD='src/matcher/pattern_loader.rs'
IT='src/matcher/pattern/file/iter.rs'
MSG='src/matcher/pattern/testmessage/message.rs'
ERR='src/matcher/pattern/testmessage/error.rs'
BE='src/matcher/pattern_source/error.rs'
PD='src/matcher/pattern/deser.rs'
TD='src/matcher/pattern/testmessage/deser.rs'
FD='src/matcher/pattern/file/deser.rs'
PAT='src/matcher/pattern/pattern.rs'
FS='''        for pattern in from {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)
'''
FSI='''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
            }
'''
CTM='''        for msg in messages {
            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));
        }
        Ok(())
'''
EX='''        let mut messages = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages
'''
CT1='''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
        } else {
            Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),
                message.message()))
        }
'''
CP='''        let mut pattern = try!(result);
        let uuid = pattern.uuid().to_owned();
        let test_messages = Self::extract_test_messages(&mut pattern);
        matcher.add_pattern(pattern);
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages, &uuid)
'''
TV='''        let merged_values = TestMessage::merge_values(result);

        for (key, value) in self.values() {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())
'''
TV1='''        if let Some(got_value) = values.get(key) {
            let got_value: &str = got_value;
            if value == got_value {
                Ok(())
            } else {
                Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value))
            }
        } else {
            Err(Error::key_not_found(result.pattern().uuid(), key))
        }
'''
MV='''        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }
        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
'''
TT='''        for i in expected_tags {
            if !got_tags.contains(i) {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())
'''
RD='''        let mut buffer = String::new();
        let mut file = try!(File::open(pattern_file_path));
        try!(file.read_to_string(&mut buffer));
        Ok(buffer)
'''
LF='''        let path = path::Path::new(pattern_file_path);
        match path.extension() {
            Some(extension) => {
                match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {
                    "json" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_json::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    "yaml" | "yml" | "YAML" | "YML" => {
                        let content = try!(PatternLoader::read(pattern_file_path));
                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                        Ok(file)
                    },
                    _ => Err(BuildError::UnsupportedFileExtension),
                }
            }
            None => Err(BuildError::UnsupportedFileExtension),
        }
'''
NX='''        match self.patterns.pop() {
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }
'''
PL='''        while let Some(field) = try!(visitor.visit_key()) {
            match field {
                Field::NAME => name = Some(try!(visitor.visit_value())),
                Field::UUID => uuid = Some(try!(visitor.visit_value())),
                Field::PATTERN => pattern = Some(try!(visitor.visit_value())),
                Field::VALUES => values = Some(try!(visitor.visit_value())),
                Field::TAGS => tags = Some(try!(visitor.visit_value())),
                Field::TESTMESSAGES => test_messages = Some(try!(visitor.visit_value())),
            }
        }
'''
TML='''        let message_final = match message {
            Some(message) => message,
            None => try!(visitor.missing_field("message")),
        };

        let values = values.unwrap_or_default();
'''
V=[
# ---------------------------------------------------------------- behaviour kept
('src-whilelet','ok','',[(SRC,FS,'''        while let Some(pattern) = from.next() {
            match Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                Ok(()) => {}
                Err(error) => return Err(error),
            }
        }
        Ok(matcher)
''')]),
('src-question','ok','',[(SRC,FS,'''        for pattern in from {
            Self::check_pattern::<F::Matcher>(&mut matcher, pattern)?;
        }
        Ok(matcher)
''')]),
('src-inline','ok','',[(SRC,FS,'''        for item in from {
            let mut pattern = match item {
                Ok(p) => p,
                Err(e) => return Err(e),
            };
            let id = *pattern.uuid();
            let msgs = Self::extract_test_messages(&mut pattern);
            matcher.add_pattern(pattern);
            if let Err(e) = Self::check_test_messages(&matcher, &msgs, &id) {
                return Err(e);
            }
        }
        Ok(matcher)
''')]),
('src-ignore-match','ok','',[(SRC,FSI,'''            match Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                Ok(_) => (),
                Err(error) => { error!("{}", error); }
            }
''')]),
('src-ignore-helper','ok','',[(SRC,FSI,'''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            Self::report(result);
'''),(SRC,'''    fn extract_test_messages(pattern''','''    fn report(result: Result<(), BuildError>) {
        if let Err(error) = result {
            error!("{}", error);
        }
    }

    fn extract_test_messages(pattern''')]),
('src-checkall','ok','',[(SRC,CTM,'''        for msg in messages.iter() {
            match matcher.parse(msg.message()) {
                Some(result) => try!(Self::check_test_message(msg, &result, uuid)),
                None => return Err(BuildError::from(testmessage::Error::test_message_does_not_match(uuid, msg))),
            }
        }
        Ok(())
''')]),
('src-tryforeach','ok','',[(SRC,CTM,'''        messages.iter().try_for_each(|msg| {
            let result = try!(matcher.parse(msg.message())
                                     .ok_or_else(|| testmessage::Error::test_message_does_not_match(uuid, msg)));
            try!(Self::check_test_message(msg, &result, uuid));
            Ok(())
        })
''')]),
('src-index','ok','',[(SRC,CTM,'''        let mut i = 0;
        while i < messages.len() {
            let msg = &messages[i];
            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid, msg)));
            try!(Self::check_test_message(msg, &result, uuid));
            i += 1;
        }
        Ok(())
''')]),
('src-extract-loop','ok','',[(SRC,EX,'''        let mut messages = vec![];
        loop {
            match pattern.pop_test_message() {
                Some(m) => messages.push(m),
                None => break,
            }
        }
        messages
''')]),
('src-extract-rev','ok','',[(SRC,EX,'''        let mut messages = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            messages.push(test_message);
        }
        messages.reverse();
        messages
''')]),
('src-ne','ok','',[(SRC,CT1,'''        if result.pattern().uuid() != expected_uuid {
            return Err(testmessage::Error::matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),
                message.message()));
        }
        message.test_result(result)
''')]),
('src-uuid-local','ok','',[(SRC,CT1,'''        let got = result.pattern().uuid();
        let text = message.message();
        match got == expected_uuid {
            true => message.test_result(result),
            false => Err(testmessage::Error::matched_to_other_pattern(expected_uuid, got, text)),
        }
''')]),
('src-validate-helper','ok','',[(SRC,CP,'''        let mut pattern = result?;
        let uuid = pattern.uuid().to_owned();
        let test_messages = Self::extract_test_messages(&mut pattern);
        matcher.add_pattern(pattern);
        Self::validate(matcher, &test_messages, &uuid)
'''),(SRC,'    fn extract_test_messages(pattern','''    fn validate<M: Matcher>(matcher: &M, messages: &[TestMessage], uuid: &Uuid) -> Result<(), BuildError> {
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, messages, uuid)
    }

    fn extract_test_messages(pattern''')]),
('msg-values-all','ok','',[(MSG,TV,'''        let merged = TestMessage::merge_values(result);
        self.values().iter().map(|(key, value)| TestMessage::test_value(key, value, &merged, result)).collect()
''')]),
('msg-values-try','ok','',[(MSG,TV,'''        let merged = TestMessage::merge_values(result);
        for (key, value) in self.values().iter() {
            if let Err(e) = TestMessage::test_value(key, value, &merged, result) {
                return Err(e);
            }
        }
        Ok(())
''')]),
('msg-value-match','ok','',[(MSG,TV1,'''        match values.get(key) {
            None => Err(Error::key_not_found(result.pattern().uuid(), key)),
            Some(got) if *got == value => Ok(()),
            Some(got) => Err(Error::value_not_match(result.pattern().uuid(), key, value, got)),
        }
''')]),
('msg-value-early','ok','',[(MSG,TV1,'''        let got_value = match values.get(key) {
            Some(v) => *v,
            None => return Err(Error::key_not_found(result.pattern().uuid(), key)),
        };
        if value != got_value {
            return Err(Error::value_not_match(result.pattern().uuid(), key, value, got_value));
        }
        Ok(())
''')]),
('msg-merge-extend','ok','',[(MSG,MV,'''        if let Some(values) = result.pattern().values() {
            merged_values.extend(values.iter().map(|(k, v)| (k.as_str(), v.as_str())));
        }
        merged_values.extend(result.values().iter().map(|(k, v)| (*k, *v)));
''')]),
('msg-lookup-direct','ok','',[(MSG,TV,'''        for (key, value) in self.values() {
            let k: &str = key;
            let got = result.values().get(k).map(|v| *v).or_else(|| {
                result.pattern().values().and_then(|m| m.get(k)).map(|v| v.as_str())
            });
            match got {
                Some(g) if g == value.as_str() => {}
                Some(g) => return Err(Error::value_not_match(result.pattern().uuid(), key, value, g)),
                None => return Err(Error::key_not_found(result.pattern().uuid(), key)),
            }
        }
        Ok(())
'''),(MSG,'''    fn test_value(key''','''    #[allow(dead_code)]
    fn test_value(key'''),(MSG,'''    fn merge_values<''','''    #[allow(dead_code)]
    fn merge_values<''')]),
('msg-tags-all','ok','',[(MSG,TT,'''        if expected_tags.iter().all(|tag| got_tags.contains(tag)) {
            Ok(())
        } else {
            Err(self.report_unexpected_tags_error(result))
        }
''')]),
('msg-tags-any','ok','',[(MSG,TT,'''        if expected_tags.iter().any(|tag| !got_tags.contains(tag)) {
            return Err(self.report_unexpected_tags_error(result));
        }
        Ok(())
''')]),
('msg-tags-iterany','ok','',[(MSG,TT,'''        for tag in expected_tags.iter() {
            let found = got_tags.iter().any(|t| t == tag);
            if !found {
                return Err(self.report_unexpected_tags_error(result));
            }
        }
        Ok(())
''')]),
('msg-order','ok','',[(MSG,'''        try!(self.test_tags(result));
        self.test_values(result)
''','''        match self.test_tags(result) {
            Ok(()) => self.test_values(result),
            Err(error) => Err(error),
        }
''')]),
('msg-and-then','ok','',[(MSG,'''        try!(self.test_tags(result));
        self.test_values(result)
''','''        self.test_tags(result).and_then(|_| self.test_values(result))
''')]),
('ld-read-std','ok','',[(LD,RD,'''        let content = try!(::std::fs::read_to_string(pattern_file_path));
        Ok(content)
'''),(LD,'use std::fs::File;\nuse std::io::Read;\n','')]),
('ld-read-map','ok','',[(LD,RD,'''        let mut file = File::open(pattern_file_path)?;
        let mut buffer = String::with_capacity(1024);
        match file.read_to_string(&mut buffer) {
            Ok(_) => Ok(buffer),
            Err(error) => Err(BuildError::from(error)),
        }
''')]),
('ld-ext-helper','ok','',[(LD,LF,'''        let extension = match path::Path::new(pattern_file_path).extension() {
            Some(extension) => extension,
            None => return Err(BuildError::UnsupportedFileExtension),
        };
        let extension = try!(extension.to_str().ok_or(BuildError::NotUtf8FileName));
        match extension {
            "json" => PatternLoader::load_json(pattern_file_path),
            "yml" | "YML" | "yaml" | "YAML" => PatternLoader::load_yaml(pattern_file_path),
            _ => Err(BuildError::UnsupportedFileExtension),
        }
'''),(LD,'''    pub fn load_file(''','''    fn load_json(path: &str) -> Result<PatternFile, BuildError> {
        let content = PatternLoader::read(path)?;
        Ok(serde_json::from_str(&content)?)
    }

    fn load_yaml(path: &str) -> Result<PatternFile, BuildError> {
        let content = PatternLoader::read(path)?;
        serde_yaml::from_str(&content).map_err(BuildError::from)
    }

    pub fn load_file(''')]),
('ld-ifchain','ok','',[(LD,LF,'''        let path = path::Path::new(pattern_file_path);
        let extension = try!(path.extension().ok_or(BuildError::UnsupportedFileExtension));
        let extension = try!(extension.to_str().ok_or(BuildError::NotUtf8FileName));
        let yaml = ["yaml", "yml", "YAML", "YML"];
        if extension == "json" {
            let content = try!(PatternLoader::read(pattern_file_path));
            Ok(try!(serde_json::from_str::<PatternFile>(&content)))
        } else if yaml.contains(&extension) {
            let content = try!(PatternLoader::read(pattern_file_path));
            Ok(try!(serde_yaml::from_str::<PatternFile>(&content)))
        } else {
            Err(BuildError::UnsupportedFileExtension)
        }
''')]),
('ld-from-match','ok','',[(LD,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        F::Matcher::from_source::<F>(&mut file.into_iter())
''','''        match PatternLoader::load_file(pattern_file_path) {
            Ok(file) => {
                let mut source = file.into_iter();
                F::Matcher::from_source::<F>(&mut source)
            }
            Err(error) => Err(error),
        }
''')]),
('ld-ign-map','ok','',[(LD,'''        let file = try!(PatternLoader::load_file(pattern_file_path));
        Ok(F::Matcher::from_source_ignore_errors::<F>(&mut file.into_iter()))
''','''        PatternLoader::load_file(pattern_file_path)
            .map(|file| F::Matcher::from_source_ignore_errors::<F>(&mut file.into_iter()))
''')]),
('it-map','ok','',[(IT,NX,'        self.patterns.pop().map(Ok)\n')]),
('it-question','ok','',[(IT,NX,'        let pattern = self.patterns.pop()?;\n        Some(Ok(pattern))\n')]),
('it-vecdeque','ok','',[(IT,NX,'        self.patterns.pop_front().map(|p| Ok(p))\n'),(IT,'        IntoIter { patterns: self.patterns }','        IntoIter { patterns: self.patterns.into() }'),(IT,'''pub struct IntoIter {
    patterns: Vec<Pattern>,''','''pub struct IntoIter {
    patterns: ::std::collections::VecDeque<Pattern>,''')]),
('it-vecintoiter','ok','',[(IT,NX,'        self.patterns.next().map(|p| Ok(p))\n'),(IT,'        IntoIter { patterns: self.patterns }','        IntoIter { patterns: self.patterns.into_iter() }'),(IT,'''pub struct IntoIter {
    patterns: Vec<Pattern>,''','''pub struct IntoIter {
    patterns: ::std::vec::IntoIter<Pattern>,''')]),
('pd-loop','ok','',[(PD,PL,'''        loop {
            let key = try!(visitor.visit_key());
            let field = match key {
                Some(field) => field,
                None => break,
            };
            match field {
                Field::TESTMESSAGES => test_messages = Some(try!(visitor.visit_value())),
                Field::TAGS => tags = Some(try!(visitor.visit_value())),
                Field::VALUES => values = Some(try!(visitor.visit_value())),
                Field::PATTERN => { pattern = Some(visitor.visit_value()?); }
                Field::UUID => uuid = Some(visitor.visit_value()?),
                Field::NAME => name = Some(visitor.visit_value()?),
            }
        }
''')]),
('pd-uuid-match','ok','',[(PD,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
''','''        let uuid = match uuid {
            Some(uuid) => uuid,
            None => return Err(serde::de::Error::missing_field("uuid")),
        };
''')]),
('pd-compile-helper','ok','',[(PD,'''            Some(pattern) => {
                match ::grammar::parser::pattern(&pattern) {
                    Ok(pattern) => pattern,
''','''            Some(pattern) => {
                let compiled = ::grammar::parser::pattern(&pattern);
                match compiled {
                    Ok(tokens) => tokens,
''')]),
('pd-names-if','ok','',[(FD,'''                match value {
                    "patterns" => Ok(Field::PATTERNS),
                    _ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),
                }
''','''                if value == "patterns" {
                    return Ok(Field::PATTERNS);
                }
                Err(serde::de::Error::custom(format!("Unexpected field: {}", value)))
''')]),
('td-okor','ok','',[(TD,TML,'''        let message_final = match message {
            Some(message) => message,
            None => return Err(serde::de::Error::missing_field("message")),
        };
        let values = match values {
            Some(values) => values,
            None => ::std::collections::BTreeMap::new(),
        };
''')]),
('td-orelse','ok','',[(TD,TML,'''        let message_final = try!(message.ok_or_else(|| serde::de::Error::missing_field("message")));
        let values = values.unwrap_or_else(Default::default);
''')]),
('acc-match','ok','',[(PAT,'''        self.name.as_ref().map(|x| x.borrow())
''','''        match self.name {
            Some(ref name) => Some(name.as_str()),
            None => None,
        }
''')]),
('pop-match','ok','',[(PAT,'''        self.test_messages.as_mut().map_or(None, |x| x.pop())
''','''        match self.test_messages {
            Some(ref mut messages) => messages.pop(),
            None => None,
        }
''')]),
# ---------------------------------------------------------------- behaviour broken
('b-src-skip-err','bug','C10',[(SRC,FS,'''        for pattern in from {
            if let Ok(pattern) = pattern {
                try!(Self::check_pattern::<F::Matcher>(&mut matcher, Ok(pattern)));
            }
        }
        Ok(matcher)
''')]),
('b-src-flatten','bug','C10',[(SRC,FS,'''        for pattern in from.filter(|p| p.is_ok()) {
            try!(Self::check_pattern::<F::Matcher>(&mut matcher, pattern));
        }
        Ok(matcher)
''')]),
('b-src-log','bug','C10',[(SRC,FS,'''        for pattern in from {
            if let Err(e) = Self::check_pattern::<F::Matcher>(&mut matcher, pattern) {
                match e {
                    BuildError::TestMessage(testmessage::Error::UnexpectedTags { .. }) => { warn!("{}", e); }
                    e => return Err(e),
                }
            }
        }
        Ok(matcher)
'''),]),
('b-src-dedup','bug','C11',[(SRC,EX,'''        let mut messages: Vec<TestMessage> = Vec::new();

        while let Some(test_message) = pattern.pop_test_message() {
            if messages.iter().all(|m| m.message() != test_message.message()) {
                messages.push(test_message);
            }
        }
        messages
''')]),
('b-src-empty-skip','bug','C11',[(SRC,CTM,'''        for msg in messages {
            if msg.message().is_empty() {
                continue;
            }
            let result = try!(matcher.parse(msg.message())
                                     .ok_or(testmessage::Error::test_message_does_not_match(uuid,
                                                                                            msg)));
            try!(Self::check_test_message(msg, &result, uuid));
        }
        Ok(())
''')]),
('b-src-trim','bug','C11',[(SRC,'matcher.parse(msg.message())','matcher.parse(msg.message().trim())')]),
('b-src-novalues','bug','C11',[(SRC,'''        if result.pattern().uuid() == expected_uuid {
            message.test_result(result)
''','''        if result.pattern().uuid() == expected_uuid {
            if message.tags().is_none() && result.values().is_empty() {
                return Ok(());
            }
            message.test_result(result)
''')]),
('b-src-otherok','bug','C11',[(SRC,'''        if result.pattern().uuid() == expected_uuid {
''','''        if result.pattern().uuid() == expected_uuid || result.pattern().name().is_some() {
''')]),
('b-src-addlate','bug','C13',[(SRC,CP,'''        let mut pattern = try!(result);
        let uuid = pattern.uuid().to_owned();
        let test_messages = Self::extract_test_messages(&mut pattern);
        if test_messages.iter().any(|m| m.message().is_empty()) {
            return Ok(());
        }
        matcher.add_pattern(pattern);
        debug!("validating pattern: {}", uuid.hyphenated().to_string());
        Self::check_test_messages(matcher, &test_messages, &uuid)
''')]),
('b-ign-break','bug','C13',[(SRC,FSI,'''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(error) = result {
                error!("{}", error);
                break;
            }
''')]),
('b-ign-silent','bug','C13',[(SRC,FSI,'''            let result = Self::check_pattern::<F::Matcher>(&mut matcher, pattern);
            if let Err(BuildError::TestMessage(error)) = result {
                error!("{}", error);
            }
''')]),
('b-it-one','bug','C10,C11,C13',[(IT,NX,'''        match self.patterns.pop() {
            Some(ref pattern) if pattern.pattern().is_empty() => None,
            Some(pattern) => Some(Ok(pattern)),
            None => None,
        }
''')]),
('b-merge-order','bug','C12',[(MSG,MV,'''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
        if let Some(values) = result.pattern().values() {
            for (key, value) in values {
                merged_values.insert(key.borrow(), value.borrow());
            }
        }
''')]),
('b-merge-noempty','bug','C12',[(MSG,'''        for (key, value) in result.values() {
            merged_values.insert(key, value);
        }
''','''        for (key, value) in result.values() {
            if !value.is_empty() {
                merged_values.insert(key, value);
            }
        }
''')]),
('b-value-trim','bug','C12',[(MSG,'            if value == got_value {','            if value.trim() == got_value.trim() {')]),
('b-value-first','bug','C12',[(MSG,TV,'''        let merged_values = TestMessage::merge_values(result);

        for (key, value) in self.values().iter().take(8) {
            try!(TestMessage::test_value(key, value, &merged_values, result));
        }
        Ok(())
''')]),
('b-tag-ci','bug','C12',[(MSG,'            if !got_tags.contains(i) {','            if !got_tags.iter().any(|t| t.eq_ignore_ascii_case(i)) {')]),
('b-tag-exact','bug','C12',[(MSG,'            if !got_tags.contains(i) {','            if got_tags.len() != expected_tags.len() || !got_tags.contains(i) {')]),
('b-tag-only-if','bug','C12',[(MSG,'''        try!(self.test_tags(result));
        self.test_values(result)
''','''        if !self.values().is_empty() {
            try!(self.test_tags(result));
        }
        self.test_values(result)
''')]),
('b-err-swap','bug','C22',[(MSG,'Error::value_not_match(result.pattern().uuid(), key, value, got_value)','Error::value_not_match(result.pattern().uuid(), key, got_value, value)')]),
('b-err-uuid','bug','C22',[(SRC,'''matched_to_other_pattern(expected_uuid,
                result.pattern().uuid(),''','''matched_to_other_pattern(result.pattern().uuid(),
                expected_uuid,''')]),
('b-err-disp','bug','C22',[(ERR,'''                                           expected_value,
                                           got_value))''','''                                           got_value,
                                           expected_value))''')]),
('b-err-kind','bug','C22',[(MSG,'            Err(Error::key_not_found(result.pattern().uuid(), key))','            Err(Error::value_not_match(result.pattern().uuid(), key, value, ""))')]),
('b-err-tags','bug','C22',[(MSG,'''        let got = result.pattern().tags().map(|tags| tags.to_vec());''','''        let got = result.pattern().tags().map(|tags| tags.iter().take(1).cloned().collect());''')]),
('b-ext-ci','bug','C23',[(LD,'match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {','match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)).to_lowercase().as_ref() {')]),
('b-ext-lossy','bug','C23',[(LD,'match try!(extension.to_str().ok_or(BuildError::NotUtf8FileName)) {','match extension.to_str().unwrap_or("yaml") {')]),
('b-ext-none','bug','C23',[(LD,'            None => Err(BuildError::UnsupportedFileExtension),\n','''            None => {
                let content = try!(PatternLoader::read(pattern_file_path));
                Ok(try!(serde_json::from_str::<PatternFile>(&content)))
            }
''')]),
('b-read-lossy','bug','C10',[(LD,RD,'''        let mut buffer = Vec::new();
        let mut file = try!(File::open(pattern_file_path));
        try!(file.read_to_end(&mut buffer));
        Ok(String::from_utf8_lossy(&buffer).into_owned())
''')]),
('b-read-limit','bug','C10',[(LD,RD,'''        let mut buffer = String::new();
        let file = try!(File::open(pattern_file_path));
        try!(file.take(65536).read_to_string(&mut buffer));
        Ok(buffer)
''')]),
('b-unknown','bug','C14',[(PD,'''                    _ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),
''','''                    "description" => Ok(Field::NAME),
                    _ => Err(serde::de::Error::custom(format!("Unexpected field: {}", value))),
''')]),
('b-field-ci','bug','C14',[(FD,'                match value {','                match value.to_lowercase().as_ref() {')]),
('b-uuid-default','bug','C14',[(PD,'''        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
''','''        let uuid = uuid.unwrap_or_else(Uuid::nil);
''')]),
('b-pat-empty','bug','C14',[(PD,'''            None => {
                error!("Missing field 'pattern': name={:?} uuid={:?}", name, uuid);
                try!(Err(serde::de::Error::missing_field("pattern")))
            }
''','''            None => Vec::new(),
''')]),
('b-td-swap','bug','C14',[(TD,'                Field::VALUES => values = Some(try!(visitor.visit_value())),','''                Field::VALUES => {
                    let v = try!(visitor.visit_value());
                    if values.is_none() { values = Some(v); }
                }''')]),
('b-td-drop','bug','C14',[(TD,'        Ok(TestMessage::new(message_final, values, tags))','        let tags: Option<Vec<String>> = tags;\n        Ok(TestMessage::new(message_final, values, tags.and_then(|t| if t.is_empty() { None } else { Some(t) })))')]),
('b-td-nomsg','bug','C14',[(TD,'            None => try!(visitor.missing_field("message")),','            None => String::new(),')]),
('b-pd-trim','bug','C14',[(PD,'match ::grammar::parser::pattern(&pattern) {','match ::grammar::parser::pattern(pattern.trim()) {')]),
]
