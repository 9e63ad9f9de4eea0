P='src/grammar/parser/pattern_parser.rs'
MF='''        if pos > self.max_err_pos {
            self.max_err_pos = pos;
            self.expected.clear();
        }
        if pos == self.max_err_pos {
            self.expected.insert(expected);
        }
        Failed
'''
SE='''    if input.len() >= pos + l && &input.as_bytes()[pos..pos + l] == m.as_bytes() {
        Matched(pos + l, ())
    } else {
        state.mark_failure(pos, m)
    }
'''
PL='''    let mut remaining = pos;
    let mut lineno: usize = 1;
    for line in input.split('\\n') {
        let line_length = line.len() + 1;
        if remaining < line_length {
            return (lineno, remaining + 1);
        }
        remaining -= line_length;
        lineno += 1;
    }
    (lineno, remaining + 1)
'''
FIN='''    if let Matched(pos, value) = parse_pattern::<F>(input, &mut state, 0) {
        if pos == input.len() {
            return Ok(value);
        }
    }
    let (line, col) = pos_to_line(input, state.max_err_pos);
    Err(ParseError {
        line: line,
        column: col,
        offset: state.max_err_pos,
        expected: state.expected,
    })
'''
AC='''    if input.len() > pos {
        let (_, next) = char_range_at(input, pos);
        Matched(next, ())
    } else {
        state.mark_failure(pos, "<character>")
    }
'''
DI='''        try!(write!(fmt, "error at {}:{}: expected ", self.line, self.column));
'''
def b(n, *eds): return ('sy-b-'+n,'bug','C24',list(eds))
def o(n, *eds): return ('sy-o-'+n,'ok','',list(eds))
V=[
b('ge',(P,MF,MF.replace('pos > self.max','pos >= self.max'))),
b('noclear',(P,MF,MF.replace('            self.expected.clear();\n',''))),
b('noinsert',(P,MF,MF.replace('if pos == self.max_err_pos','if pos > self.max_err_pos'))),
b('nearer',(P,MF,MF.replace('if pos == self.max_err_pos','if pos <= self.max_err_pos'))),
b('first',(P,MF,MF.replace('pos > self.max_err_pos {','self.expected.is_empty() {'))),
b('min',(P,MF,MF.replace('pos > self.max_err_pos','pos < self.max_err_pos'))),
b('cap',(P,MF,MF.replace('if pos == self.max_err_pos {','if pos == self.max_err_pos && self.expected.len() < 4 {'))),
b('start',(P,'slice_eq',SE,SE.replace('mark_failure(pos, m)','mark_failure(pos + 1, m)'))),
b('prefix',(P,'slice_eq',SE,SE.replace('state.mark_failure(pos, m)','''{ let mut n = 0;
        while n < l && pos + n < input.len() && input.as_bytes()[pos + n] == m.as_bytes()[n] { n += 1; }
        state.mark_failure(pos + n, m) }'''))),
b('eqlabel',(P,'slice_eq',SE,SE.replace('mark_failure(pos, m)','mark_failure(pos, "literal")'))),
b('short',(P,'slice_eq',SE,'''    if input.len() < pos + l {
        return Failed;
    }
    if &input.as_bytes()[pos..pos + l] == m.as_bytes() {
        Matched(pos + l, ())
    } else {
        state.mark_failure(pos, m)
    }
''')),
b('anyend',(P,'any_char',AC,AC.replace('state.mark_failure(pos, "<character>")','Failed'))),
b('anylen',(P,'any_char',AC,AC.replace('mark_failure(pos, ','mark_failure(0, '))),
b('idend',(P,'''            } else {
                state.mark_failure(pos, "[a-zA-Z_.]")
            };
''','''            } else {
                Failed
            };
''')),
b('iddash',(P,'''                                            _ => state.mark_failure(pos, "[a-z-A-Z0-9_.]"),
''','''                                            _ => Failed,
''')),
b('idlab',(P,'''                    _ => state.mark_failure(pos, "[a-zA-Z_.]"),
''','''                    _ => state.mark_failure(pos, "[a-z_.]"),
''')),
b('idstart',(P,'''                    _ => state.mark_failure(pos, "[a-zA-Z_.]"),
''','''                    _ => state.mark_failure(start_pos + 1, "[a-zA-Z_.]"),
''')),
b('intstart',(P,'parse_int','''                            _ => state.mark_failure(pos, "[0-9]"),
''','''                            _ => state.mark_failure(start_pos, "[0-9]"),
''')),
b('intnum',(P,'parse_int','''                                state.mark_failure(pos, expected);
''','')),
b('intnum2',(P,'parse_int','''                                state.mark_failure(pos, expected);
''','''                                state.mark_failure(pos + 1, expected);
''')),
b('reset',(P,'parse_int','''        let start_pos = pos;
''','''        let start_pos = pos;
        state.max_err_pos = pos;
        state.expected.clear();
''')),
b('offset0',(P,FIN,FIN.replace('        offset: state.max_err_pos,','        offset: state.max_err_pos + 1,'))),
b('swapcol',(P,FIN,FIN.replace('line: line,\n        column: col','line: col,\n        column: line'))),
b('matchpos',(P,FIN,'''    let mut reached = 0;
    if let Matched(pos, value) = parse_pattern::<F>(input, &mut state, 0) {
        if pos == input.len() {
            return Ok(value);
        }
        reached = pos;
    }
    let (line, col) = pos_to_line(input, if reached > 0 { reached } else { state.max_err_pos });
    Err(ParseError {
        line: line,
        column: col,
        offset: if reached > 0 { reached } else { state.max_err_pos },
        expected: state.expected,
    })
''')),
b('noexp',(P,FIN,FIN.replace('expected: state.expected','expected: ::std::collections::HashSet::new()'))),
b('restate',(P,FIN,FIN.replace('''    let (line, col)''','''    state = ParseState::new();
    let _ = parse_pattern_piece::<F>(input, &mut state, 0);
    let (line, col)'''))),
b('lines',(P,PL,PL.replace("split('\\n')",'lines()'))),
b('le',(P,PL,PL.replace('remaining < line_length','remaining <= line_length'))),
b('lt',(P,PL,PL.replace('remaining < line_length','remaining + 1 < line_length'))),
b('col0',(P,PL,PL.replace('return (lineno, remaining + 1)','return (lineno, remaining)'))),
b('line0',(P,PL,PL.replace('lineno: usize = 1','lineno: usize = 0'))),
b('nolen',(P,PL,PL.replace('line.len() + 1','line.len()'))),
b('cr',(P,PL,PL.replace("split('\\n')","split('\\r')"))),
b('pref0',(P,PL,'''    let before = &input[..pos];
    let line = before.lines().count();
    let col = pos - before.rfind('\\n').map_or(0, |i| i + 1) + 1;
    (line, col)
''')),
b('pref1',(P,PL,'''    let before = &input[..pos];
    let line = before.matches('\\n').count() + 1;
    let col = pos - before.rfind('\\n').map_or(0, |i| i) + 1;
    (line, col)
''')),
b('pref2',(P,PL,'''    let before = &input[..pos];
    let line = before.matches('\\n').count() + 1;
    let col = pos - before.find('\\n').map_or(0, |i| i + 1) + 1;
    (line, col)
''')),
b('dispswap',(P,DI,DI.replace('self.line, self.column','self.column, self.line'))),
b('dispoff',(P,DI,DI.replace('self.line, self.column','self.line, self.offset'))),
o('mf-cmp',(P,MF,'''        use std::cmp::Ordering;
        match pos.cmp(&self.max_err_pos) {
            Ordering::Less => {}
            Ordering::Equal => {
                self.expected.insert(expected);
            }
            Ordering::Greater => {
                self.max_err_pos = pos;
                self.expected.clear();
                self.expected.insert(expected);
            }
        }
        Failed
''')),
o('mf-early',(P,MF,'''        if pos < self.max_err_pos {
            return Failed;
        }
        if pos != self.max_err_pos {
            self.max_err_pos = pos;
            self.expected = ::std::collections::HashSet::new();
        }
        self.expected.insert(expected);
        Failed
''')),
o('mf-max',(P,MF,'''        if pos > self.max_err_pos {
            self.expected.clear();
        }
        self.max_err_pos = ::std::cmp::max(pos, self.max_err_pos);
        if pos == self.max_err_pos {
            self.expected.insert(expected);
        }
        Failed
''')),
o('se-starts',(P,'slice_eq',SE,'''    if input[pos..].starts_with(m) {
        return Matched(pos + l, ());
    }
    state.mark_failure(pos, m)
''')),
o('se-get',(P,'slice_eq',SE,'''    match input.as_bytes().get(pos..pos + l) {
        Some(found) if found == m.as_bytes() => Matched(pos + l, ()),
        _ => state.mark_failure(pos, m),
    }
''')),
o('se-two',(P,'slice_eq',SE,'''    if input.len() < pos + l {
        return state.mark_failure(pos, m);
    }
    if &input.as_bytes()[pos..pos + l] == m.as_bytes() {
        Matched(pos + l, ())
    } else {
        state.mark_failure(pos, m)
    }
''')),
o('any-match',(P,'any_char',AC,'''    match input[pos..].chars().next() {
        Some(c) => Matched(pos + c.len_utf8(), ()),
        None => state.mark_failure(pos, "<character>"),
    }
''')),
o('any-early',(P,'any_char',AC,'''    if pos >= input.len() {
        return state.mark_failure(pos, "<character>");
    }
    let (_, next) = char_range_at(input, pos);
    Matched(next, ())
''')),
o('int-digit',(P,'parse_int','''                        match ch {
                            '0'...'9' => Matched(next, ()),
                            _ => state.mark_failure(pos, "[0-9]"),
                        }
''','''                        if ch.is_digit(10) {
                            Matched(next, ())
                        } else {
                            state.mark_failure(pos, "[0-9]")
                        }
''')),
o('fin-match',(P,FIN,'''    match parse_pattern::<F>(input, &mut state, 0) {
        Matched(pos, value) if pos == input.len() => return Ok(value),
        _ => (),
    }
    let offset = state.max_err_pos;
    let (line, column) = pos_to_line(input, offset);
    Err(ParseError {
        line: line,
        column: column,
        offset: offset,
        expected: state.expected,
    })
''')),
o('fin-helper',(P,FIN,FIN.replace('''    let (line, col) = pos_to_line(input, state.max_err_pos);
    Err(ParseError {
        line: line,
        column: col,
        offset: state.max_err_pos,
        expected: state.expected,
    })
''','''    Err(syntax_error(input, state))
''')),(P,'pub fn pattern<F: ParserFactory>(input: &str)','''fn syntax_error(input: &str, state: ParseState) -> ParseError {
    let place = pos_to_line(input, state.max_err_pos);
    ParseError {
        line: place.0,
        column: place.1,
        offset: state.max_err_pos,
        expected: state.expected,
    }
}
pub fn pattern<F: ParserFactory>(input: &str)''')),
o('pl-start',(P,PL,'''    let mut start = 0;
    let mut lineno: usize = 1;
    for line in input.split('\\n') {
        let end = start + line.len();
        if pos <= end {
            return (lineno, pos - start + 1);
        }
        start = end + 1;
        lineno += 1;
    }
    (lineno, pos - start + 1)
''')),
o('pl-enum',(P,PL,'''    let mut remaining = pos;
    for (i, line) in input.split("\\n").enumerate() {
        if remaining <= line.len() {
            return (i + 1, remaining + 1);
        }
        remaining -= line.len() + 1;
    }
    (1, remaining + 1)
''')),
o('pl-pref',(P,PL,'''    let before = &input[..pos];
    let line = before.matches('\\n').count() + 1;
    let col = pos - before.rfind('\\n').map_or(0, |i| i + 1) + 1;
    (line, col)
''')),
o('pl-pref2',(P,PL,'''    let before = &input[..pos];
    let lineno = 1 + before.bytes().filter(|&b| b == b'\\n').count();
    match before.rfind('\\n') {
        Some(i) => (lineno, pos - i),
        None => (lineno, pos + 1),
    }
''')),
o('pl-pref3',(P,PL,'''    let before = &input[..pos];
    let line = before.split('\\n').count();
    let col = before.rsplit('\\n').next().map_or(0, |s| s.len()) + 1;
    (line, col)
''')),
o('pl-bytes',(P,PL,'''    let mut line = 1;
    let mut column = 1;
    for b in input[..pos].bytes() {
        if b == b'\\n' {
            line += 1;
            column = 1;
        } else {
            column += 1;
        }
    }
    (line, column)
''')),
b('plchars',(P,PL,'''    let mut place = (1, 1);
    for c in input[..pos].chars() {
        if c == '\\n' {
            place = (place.0 + 1, 1);
        } else {
            place.1 += 1;
        }
    }
    place
''')),
o('disp-two',(P,DI,'''        try!(write!(fmt, "error at {}", self.line));
        try!(write!(fmt, ":{}: expected ", self.column));
''')),
b('nm-skip',(P,'for elem in iter {','for elem in iter.skip(1) {')),
b('nm-take',(P,'for elem in iter {','for elem in iter.take(5) {')),
b('nm-some',(P,'''                try!(write!(fmt, ", `{}`", escape_default(elem)));
''','''                if elem.len() > 1 {
                    try!(write!(fmt, ", `{}`", escape_default(elem)));
                }
''')),
b('nm-two',(P,'self.expected.len() == 1 {','self.expected.len() <= 2 {')),
b('nm-none',(P,'self.expected.is_empty() {','self.expected.len() <= 1 {')),
o('nm-join',(P,'''            let mut iter = self.expected.iter();
            try!(write!(fmt, "one of `{}`", escape_default(iter.next().unwrap())));
            for elem in iter {
                try!(write!(fmt, ", `{}`", escape_default(elem)));
            }
''','''            let names: Vec<String> = self.expected.iter().map(|e| format!("`{}`", escape_default(e))).collect();
            try!(write!(fmt, "one of {}", names.join(", ")));
''')),
o('nm-first',(P,'''            let mut iter = self.expected.iter();
            try!(write!(fmt, "one of `{}`", escape_default(iter.next().unwrap())));
            for elem in iter {
                try!(write!(fmt, ", `{}`", escape_default(elem)));
            }
''','''            try!(write!(fmt, "one of "));
            let mut first = true;
            for elem in &self.expected {
                if !first {
                    try!(write!(fmt, ", "));
                }
                first = false;
                try!(write!(fmt, "`{}`", escape_default(elem)));
            }
''')),
o('nm-enum',(P,'''            let mut iter = self.expected.iter();
            try!(write!(fmt, "one of `{}`", escape_default(iter.next().unwrap())));
            for elem in iter {
                try!(write!(fmt, ", `{}`", escape_default(elem)));
            }
''','''            for (i, elem) in self.expected.iter().enumerate() {
                let lead = if i == 0 { "one of " } else { ", " };
                try!(write!(fmt, "{}`{}`", lead, escape_default(elem)));
            }
''')),
o('nm-sort',(P,'''            let mut iter = self.expected.iter();
''','''            let mut names: Vec<_> = self.expected.iter().collect();
            names.sort();
            let mut iter = names.into_iter();
''')),
]
