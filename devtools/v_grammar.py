P='src/grammar/parser/pattern_parser.rs'
M='src/grammar/mod.rs'
U='src/utils/mod.rs'
F='src/matcher/trie/parser_factory.rs'
FL='''    let mut flattened_vec = Vec::new();
    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
    flattened_vec
'''
UN='''    literal.replace(r#"\\%\\{"#, "%{")
'''
FIN='''    if let Matched(pos, value) = parse_pattern::<F>(input, &mut state, 0) {
        if pos == input.len() {
            return Ok(value);
        }
    }
'''
LITBODY='''    {
        let start_pos = pos;
        {
            let seq_res = parse_literal::<F>(input, state, pos);
            match seq_res {
                Matched(pos, literal) => {
                    {
                        let match_str = &input[start_pos..pos];
                        Matched(pos, {
                            let unescaped_literal = grammar::unescape_literal(literal);
                            vec![TokenType::Literal(unescaped_literal)]
                        })
                    }
                }
                Failed => Failed,
            }
        }
    }
'''
NG='''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
'''
NI='''        let mut parser = IntParser::new();
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
'''
NS='''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
'''
PUSHPIECE='''                        Matched(newpos, value) => {
                            repeat_pos = newpos;
                            repeat_value.push(value);
                        }
'''
PAT='''                let mut repeat_pos = pos;
                let mut repeat_value = vec![];
                loop {
                    let pos = repeat_pos;
                    let step_res = parse_pattern_piece::<F>(input, state, pos);
                    match step_res {
                        Matched(newpos, value) => {
                            repeat_pos = newpos;
                            repeat_value.push(value);
                        }
                        Failed => {
                            break;
                        }
                    }
                }
                if repeat_value.len() >= 1usize {
                    Matched(repeat_pos, repeat_value)
                } else {
                    Failed
                }
'''
MACRO='''        match $param {
            OptionalParameter::Int(key, value) => {
                match key {
                    "min_len" => {
                        $parser.set_min_length(Some(value));
                    },
                    "max_len" => {
                        $parser.set_max_length(Some(value));
                    },
                    _ => ()
                }
            }
        }
'''
COMMA='''                    let mut repeat_pos = pos;
                    loop {
                        let pos = repeat_pos;
                        let step_res = slice_eq(input, state, pos, " ");
                        match step_res {
                            Matched(newpos, value) => {
                                repeat_pos = newpos;
                            }
                            Failed => {
                                break;
                            }
                        }
                    }
                    Matched(repeat_pos, ())
'''
V=[
# ---- behaviour kept
('flat-extend','ok','',[(U,FL,'''    let mut out = Vec::new();
    for v in vectors {
        out.extend(v);
    }
    out
''')]),
('flat-iter','ok','',[(U,FL,'''    vectors.into_iter().flat_map(|v| v.into_iter()).collect()
''')]),
('flat-flatten','ok','',[(U,FL,'''    vectors.into_iter().flatten().collect()
''')]),
('flat-fold','ok','',[(U,FL,'''    vectors.into_iter().fold(Vec::new(), |mut acc, v| { acc.extend(v); acc })
''')]),
('flat-append','ok','',[(U,FL,'''    let mut out = Vec::with_capacity(vectors.iter().map(|v| v.len()).sum());
    for mut v in vectors {
        out.append(&mut v);
    }
    out
''')]),
('flat-while','ok','',[(U,FL,'''    let mut out = Vec::new();
    let mut it = vectors.into_iter();
    while let Some(v) = it.next() {
        for x in v {
            out.push(x);
        }
    }
    out
''')]),
('flat-single','ok','',[(U,FL,'''    let mut flattened_vec = Vec::new();
    for vector in vectors {
        if vector.is_empty() {
            continue;
        }
        for i in vector {
            flattened_vec.push(i);
        }
    }
    flattened_vec
''')]),
('un-const','ok','',[(M,'pub fn unescape_literal(literal: &str) -> String {\n'+UN,'''const ESCAPED: &'static str = r#"\\%\\{"#;
const PLAIN: &'static str = "%{";

pub fn unescape_literal(literal: &str) -> String {
    literal.replace(ESCAPED, PLAIN)
''')]),
('un-guard','ok','',[(M,UN,'''    if !literal.contains(r#"\\%\\{"#) {
        return literal.to_owned();
    }
    literal.replace(r#"\\%\\{"#, "%{")
''')]),
('un-split','ok','',[(M,UN,'''    literal.split(r#"\\%\\{"#).collect::<Vec<_>>().join("%{")
''')]),
('entry-match','ok','',[(P,FIN,'''    match parse_pattern::<F>(input, &mut state, 0) {
        Matched(pos, value) => {
            if pos == input.len() {
                return Ok(value);
            }
        }
        Failed => (),
    }
''')]),
('entry-guard','ok','',[(P,FIN,'''    match parse_pattern::<F>(input, &mut state, 0) {
        Matched(pos, value) if pos >= input.len() => return Ok(value),
        _ => (),
    }
''')]),
('entry-rest','ok','',[(P,FIN,'''    if let Matched(pos, value) = parse_pattern::<F>(input, &mut state, 0) {
        if input[pos..].is_empty() {
            return Ok(value);
        }
    }
''')]),
('entry-helper','ok','',[(P,'''pub fn pattern<F: ParserFactory>(input: &str)''','''fn is_complete(input: &str, pos: usize) -> bool {
    pos == input.len()
}
pub fn pattern<F: ParserFactory>(input: &str)'''),(P,'''        if pos == input.len() {
            return Ok(value);
''','''        if is_complete(input, pos) {
            return Ok(value);
''')]),
('lit-simple','ok','',[(P,LITBODY,'''    match parse_literal::<F>(input, state, pos) {
        Matched(next, text) => {
            Matched(next, vec![TokenType::Literal(grammar::unescape_literal(text))])
        }
        Failed => Failed,
    }
''')]),
('lit-helper','ok','',[(P,LITBODY,'''    match parse_literal::<F>(input, state, pos) {
        Matched(next, text) => Matched(next, literal_tokens(text)),
        Failed => Failed,
    }
'''),(P,'fn parse_piece_literal<','''fn literal_tokens(text: &str) -> Vec<TokenType> {
    let token = TokenType::Literal(grammar::unescape_literal(text));
    vec![token]
}
fn parse_piece_literal<''')]),
('piece-order','ok','',[(P,'parse_pattern_piece','let choice_res = parse_piece_literal::<F>(input, state, pos);','let choice_res = parse_piece_parser::<F>(input, state, pos);'),
   (P,'parse_pattern_piece','Failed => parse_piece_parser::<F>(input, state, pos)','Failed => parse_piece_literal::<F>(input, state, pos)')]),
('piece-order2','ok','',[(P,'parse_pattern_piece','let choice_res = parse_parser_GREEDY::<F>(input, state, pos);','let choice_res = parse_piece_parser::<F>(input, state, pos);'),
   (P,'parse_pattern_piece','Failed => parse_piece_parser::<F>(input, state, pos)','Failed => parse_parser_GREEDY::<F>(input, state, pos)')]),
('kind-order','ok','',[(P,'parse_parser','let choice_res = parse_parser_SET','let choice_res = parse_parser_INT'),(P,'parse_parser','Failed => parse_parser_INT','Failed => parse_parser_SET')]),
('opt-order','ok','',[(P,'parse_parser_BASE_optional_param','parse_MIN_LEN','parse_MIN_LEN_'),(P,'parse_parser_BASE_optional_param','parse_MAX_LEN','parse_MIN_LEN'),(P,'parse_parser_BASE_optional_param','parse_MIN_LEN_','parse_MAX_LEN')]),
('greedy-vec','ok','',[(P,'parse_parser_GREEDY','''let mut tokens =
                                                                                        Vec::new();
''','''let mut tokens: Vec<TokenType> = Vec::with_capacity(2);
''')]),
('greedy-match','ok','',[(P,'parse_parser_GREEDY','''                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
                                                                                    let parser =
                                                                                        F::new_greedy(name,
                                                                                                      end_string.as_ref().map(|string| &string[..]));
                                                                                    tokens.push(TokenType::Parser(parser));
                                                                                    if let Some(end_string)
                                                                                           =
                                                                                           end_string
                                                                                           {
                                                                                        tokens.push(TokenType::Literal(end_string));
                                                                                    }
''','''                                                                                    match end_string {
                                                                                        Some(text) => {
                                                                                            let text = grammar::unescape_literal(text);
                                                                                            tokens.push(TokenType::Parser(F::new_greedy(name, Some(&text))));
                                                                                            tokens.push(TokenType::Literal(text));
                                                                                        }
                                                                                        None => tokens.push(TokenType::Parser(F::new_greedy(name, None))),
                                                                                    }
''')]),
('greedy-helper','ok','',[(P,'parse_parser_GREEDY','''                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
                                                                                    let parser =
                                                                                        F::new_greedy(name,
                                                                                                      end_string.as_ref().map(|string| &string[..]));
                                                                                    tokens.push(TokenType::Parser(parser));
                                                                                    if let Some(end_string)
                                                                                           =
                                                                                           end_string
                                                                                           {
                                                                                        tokens.push(TokenType::Literal(end_string));
                                                                                    }
''','''                                                                                    greedy_tokens::<F>(name, end_string, &mut tokens);
'''),(P,'fn parse_parser_GREEDY<','''fn greedy_tokens<F: ParserFactory>(name: Option<&str>, end_string: Option<&str>, tokens: &mut Vec<TokenType>) {
    let end_string = end_string.map(grammar::unescape_literal);
    let parser = F::new_greedy(name, end_string.as_ref().map(|s| s.as_ref()));
    tokens.push(TokenType::Parser(parser));
    if let Some(literal) = end_string {
        tokens.push(TokenType::Literal(literal));
    }
}
fn parse_parser_GREEDY<''')]),
('pat-count','ok','',[(P,'parse_pattern','if repeat_value.len() >= 1usize {','if !repeat_value.is_empty() {')]),
('pat-while','ok','',[(P,PAT,'''                let mut repeat_pos = pos;
                let mut repeat_value = vec![];
                while let Matched(newpos, value) = parse_pattern_piece::<F>(input, state, repeat_pos) {
                    repeat_value.push(value);
                    repeat_pos = newpos;
                }
                if repeat_value.len() >= 1usize {
                    Matched(repeat_pos, repeat_value)
                } else {
                    Failed
                }
''')]),
('pat-flat','ok','',[(P,'parse_pattern','''                            let mut pieces = pieces;
                            utils::flatten_vec(pieces)
''','''                            utils::flatten_vec(pieces)
''')]),
('pat-inline-flat','ok','',[(P,'parse_pattern','''                            let mut pieces = pieces;
                            utils::flatten_vec(pieces)
''','''                            pieces.into_iter().flat_map(|p| p).collect()
''')]),
('pat-direct','ok','',[(P,'parse_pattern',PUSHPIECE,'''                        Matched(newpos, value) => {
                            repeat_pos = newpos;
                            repeat_value.extend(value);
                        }
'''),(P,'parse_pattern','''                            let mut pieces = pieces;
                            utils::flatten_vec(pieces)
''','''                            pieces
''')]),
('id-alpha','ok','',[(P,'parse_identifier',"'a'...'z' | 'A'...'Z' | '_' | '.' => Matched(next, ()),","c if c.is_ascii_alphabetic() || c == '_' || c == '.' => Matched(next, ()),")]),
('id-not','ok','',[(P,'parse_identifier','''                                                match assert_res {
                                                    Failed => Matched(pos, ()),
                                                    Matched(..) => Failed,
                                                }
''','''                                                if let Failed = assert_res {
                                                    Matched(pos, ())
                                                } else {
                                                    Failed
                                                }
''')]),
('lit-find','ok','',[(P,'parse_literal','''            let seq_res = {
                let mut repeat_pos = pos;
                let mut repeat_value = vec![];
                loop {
                    let pos = repeat_pos;
                    let step_res = {
                        let seq_res = {
                            let assert_res = parse_PARSER_BEGIN::<F>(input, state, pos);
                            match assert_res {
                                Failed => Matched(pos, ()),
                                Matched(..) => Failed,
                            }
                        };
                        match seq_res {
                            Matched(pos, _) => {
                                any_char(input, state, pos)
                            }
                            Failed => Failed,
                        }
                    };
                    match step_res {
                        Matched(newpos, value) => {
                            repeat_pos = newpos;
                            repeat_value.push(value);
                        }
                        Failed => {
                            break;
                        }
                    }
                }
                if repeat_value.len() >= 1usize {
                    Matched(repeat_pos, ())
                } else {
                    Failed
                }
            };
''','''            let len = input[pos..].find("%{").unwrap_or(input.len() - pos);
            let seq_res: RuleResult<()> = if len > 0 { Matched(pos + len, ()) } else { Failed };
''')]),
('lit-flag','ok','',[(P,'parse_literal','let mut repeat_value = vec![];','let mut any = false;'),(P,'parse_literal','repeat_value.push(value);','any = true;'),(P,'parse_literal','if repeat_value.len() >= 1usize {','if any {')]),
('lit-pos','ok','',[(P,'parse_literal','let mut repeat_value = vec![];',''),(P,'parse_literal','repeat_value.push(value);',''),(P,'parse_literal','if repeat_value.len() >= 1usize {','if repeat_pos > pos {')]),
('comma-trim','ok','',[(P,COMMA,'''                    let mut repeat_pos = pos;
                    while let Matched(newpos, _) = slice_eq(input, state, repeat_pos, " ") {
                        repeat_pos = newpos;
                    }
                    Matched(repeat_pos, ())
''')]),
('comma-bytes','ok','',[(P,COMMA,'''                    let mut repeat_pos = pos;
                    while input[repeat_pos..].starts_with(' ') {
                        repeat_pos += 1;
                    }
                    Matched(repeat_pos, ())
''')]),
('int-parse','ok','',[(P,'parse_int','usize::from_str(match_str).or(Err("a representable number"))','match_str.parse::<usize>().map_err(|_| "a representable number")')]),
('int-match','ok','',[(P,'parse_int','''                        match {
                            usize::from_str(match_str).or(Err("a representable number"))
                        } {
                            Ok(res) => Matched(pos, res),
                            Err(expected) => {
                                state.mark_failure(pos, expected);
                                Failed
                            }
                        }
''','''                        match usize::from_str(match_str) {
                            Ok(res) => Matched(pos, res),
                            Err(_) => {
                                state.mark_failure(pos, "a representable number");
                                Failed
                            }
                        }
''')]),
('opt-shared','ok','',[(P,'parse_parser_BASE_optional_param','OptionalParameter::Int(name, value)\n                                                    })\n                                                }\n                                            }\n                                            Failed => Failed,\n                                        }\n                                    }\n                                }\n                                Failed => Failed,\n                            }\n                        }\n                    }\n                    Failed => Failed,\n                }\n            }\n        };','OptionalParameter::Int("min_len", value)\n                                                    })\n                                                }\n                                            }\n                                            Failed => Failed,\n                                        }\n                                    }\n                                }\n                                Failed => Failed,\n                            }\n                        }\n                    }\n                    Failed => Failed,\n                }\n            }\n        };')]),
('fac-greedy-short','ok','',[(F,NG,'''        let mut parser = GreedyParser::new();
        parser.set_name(name.map(str::to_owned));
        parser.set_end_string(end_string.map(String::from));
        Box::new(parser)
''')]),
('fac-greedy-iflet','ok','',[(F,NG,'''        let mut parser = GreedyParser::new();
        if let Some(text) = end_string {
            parser.set_end_string(Some(text.to_owned()));
        }
        if let Some(name) = name {
            parser.set_name(Some(name.to_owned()));
        }
        Box::new(parser)
''')]),
('fac-int-order','ok','',[(F,NI,'''        let mut parser = IntParser::new();
        parser.set_name(name.map(|name| name.to_string()));
        set_optional_params!(&mut parser, opt_params);
        Box::new(parser)
''')]),
('fac-int-fn','ok','',[(F,NI,'''        let mut parser = IntParser::new();
        apply(&mut parser, opt_params.unwrap_or_else(Vec::new));
        parser.set_name(name.map(|name| name.to_owned()));
        Box::new(parser)
'''),(F,'pub struct TrieParserFactory;','''fn apply<P: HasLengthConstraint>(parser: &mut P, params: Vec<OptionalParameter>) {
    for param in params {
        let OptionalParameter::Int(key, value) = param;
        if key == "min_len" {
            parser.set_min_length(Some(value));
        } else if key == "max_len" {
            parser.set_max_length(Some(value));
        }
    }
}

pub struct TrieParserFactory;''')]),
('fac-foreach','ok','',[(F,'''            for i in opt_params.into_iter() {
                set_optinal_param!($parser, i);
            }
''','''            opt_params.into_iter().for_each(|i| { set_optinal_param!($parser, i); });
''')]),
('fac-iflet','ok','',[(F,MACRO,'''        let OptionalParameter::Int(key, value) = $param;
        if key == "max_len" {
            $parser.set_max_length(Some(value));
        } else if key == "min_len" {
            $parser.set_min_length(Some(value));
        }
''')]),
('seq-early','ok','',[(P,'''fn parse_piece_parser<'input, F: ParserFactory>(input: &'input str,
                                                state: &mut ParseState<'input>,
                                                pos: usize)
                                                -> RuleResult<Vec<TokenType>> {
''','''fn parse_piece_parser<'input, F: ParserFactory>(input: &'input str,
                                                state: &mut ParseState<'input>,
                                                pos: usize)
                                                -> RuleResult<Vec<TokenType>> {
    let begin = match parse_PARSER_BEGIN::<F>(input, state, pos) {
        Matched(p, _) => p,
        Failed => return Failed,
    };
    let (after, parser) = match parse_parser::<F>(input, state, begin) {
        Matched(p, v) => (p, v),
        Failed => return Failed,
    };
    return match parse_PARSER_END::<F>(input, state, after) {
        Matched(end, _) => Matched(end, vec![TokenType::Parser(parser)]),
        Failed => Failed,
    };
    #[allow(unreachable_code)]
''')]),
('kw-direct','ok','',[(P,'parse_parser_SET','parse_SET::<F>(input, state, pos)','slice_eq(input, state, pos, "SET")')]),
('kw-one','ok','',[(P,'parse_parser_SET','let seq_res = parse_SET::<F>(input, state, pos);','let seq_res = slice_eq(input, state, pos, "SET(");'),
   (P,'parse_parser_SET','let seq_res = parse_PARSER_PARAMS_BEGIN::<F>(input, state, pos);','let seq_res: RuleResult<()> = Matched(pos, ());')]),
('slice-starts','ok','',[(P,'slice_eq','''    let l = m.len();
    if input.len() >= pos + l && &input.as_bytes()[pos..pos + l] == m.as_bytes() {
        Matched(pos + l, ())
''','''    if input[pos..].starts_with(m) {
        Matched(pos + m.len(), ())
''')]),
('any-chars','ok','',[(P,'any_char','''    if input.len() > pos {
        let (_, next) = char_range_at(input, pos);
        Matched(next, ())
    } else {
        state.mark_failure(pos, "<character>")
    }
''','''    match input[pos..].chars().next() {
        Some(c) => Matched(pos + c.len_utf8(), ()),
        None => state.mark_failure(pos, "<character>"),
    }
''')]),
('rename-rule','ok','',[(P,'parse_piece_literal','let unescaped_literal = grammar::unescape_literal(literal);\n                            vec![TokenType::Literal(unescaped_literal)]','let mut v = Vec::with_capacity(1);\n                            v.push(TokenType::Literal(grammar::unescape_literal(literal)));\n                            v')]),
# ---- bugs
('b-un-once','bug','C17',[(M,UN,'''    literal.replacen(r#"\\%\\{"#, "%{", 1)
''')]),
('b-un-short','bug','C17',[(M,UN,'''    literal.replace(r#"\\%\\{"#, "%{").replace(r#"\\\\"#, r#"\\"#)
''')]),
('b-un-pct','bug','C17',[(M,UN,'''    literal.replace(r#"\\%"#, "%").replace(r#"\\{"#, "{")
''')]),
('b-un-trim','bug','C17',[(M,UN,'''    literal.trim_right().replace(r#"\\%\\{"#, "%{")
''')]),
('b-un-lead','bug','C17',[(M,UN,'''    if literal.starts_with('\\\\') {
        literal.replace(r#"\\%\\{"#, "%{")
    } else {
        literal.to_owned()
    }
''')]),
('b-un-two','bug','C17',[(M,UN,'''    let unescaped = literal.replace(r#"\\%\\{"#, "%{");
    unescaped.replace(r#"\\%{"#, "%{")
''')]),
('b-greedy-raw','bug','C17',[(P,'parse_parser_GREEDY','end_string.as_ref().map(|string| &string[..])','raw_end'),
   (P,'parse_parser_GREEDY','''                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
''','''                                                                                    let raw_end = end_string;
                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
''')]),
('b-greedy-lit-raw','bug','C17',[(P,'parse_parser_GREEDY','tokens.push(TokenType::Literal(end_string));','tokens.push(TokenType::Literal(raw_end.unwrap().to_owned()));'),
   (P,'parse_parser_GREEDY','''                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
''','''                                                                                    let raw_end = end_string;
                                                                                    let end_string =
                                                                                        end_string.map(grammar::unescape_literal);
''')]),
('b-greedy-drop','bug','C15',[(P,'parse_parser_GREEDY','tokens.push(TokenType::Literal(end_string));','if end_string.len() > 1 { tokens.push(TokenType::Literal(end_string)); }')]),
('b-greedy-name','bug','C15',[(P,'parse_parser_GREEDY','F::new_greedy(name,','F::new_greedy(name.and_then(|_| Some(match_str)),')]),
('b-int-noname','bug','C15',[(P,'parse_parser_INT','F::new_int(name, opt_params)','F::new_int(if opt_params.is_some() { None } else { name }, opt_params)')]),
('b-set-opts','bug','C15',[(P,'parse_parser_SET','''                                                                                                           name,
                                                                                                           opt_params)''','''                                                                                                           name,
                                                                                                           if name.is_some() { None } else { opt_params })''')]),
('b-set-whole','bug','C15',[(P,'parse_parser_SET','F::new_set(set,','F::new_set(match_str,')]),
('b-set-trim','bug','C15',[(P,'parse_parser_SET','F::new_set(set,','F::new_set(set.trim(),')]),
('b-class-amp','bug','C16',[(P,'parse_identifier',"'a'...'z' | 'A'...'Z' | '_' | '.' =>","'a'...'z' | 'A'...'Z' | '_' | '.' | '0'...'9' =>")]),
('b-class-Az','bug','C16',[(P,'parse_identifier',"'a'...'z' | 'A'...'Z' | '_' | '.' =>","'A'...'z' | '.' =>")]),
('b-class-uni','bug','C16',[(P,'parse_identifier',"'a'...'z' | 'A'...'Z' | '_' | '.' =>","c if c.is_alphabetic() || c == '_' || c == '.' =>")]),
('b-ident-nonot','bug','C16',[(P,'parse_identifier','''                                                match assert_res {
                                                    Failed => Matched(pos, ()),
                                                    Matched(..) => Failed,
                                                }
''','''                                                Matched(pos, ())
''')]),
('b-end-missing','bug','C16',[(P,'pattern','        if pos == input.len() {','        if pos == input.len() || input[pos..].trim().is_empty() {')]),
('b-end-partial','bug','C16',[(P,FIN,'''    if let Matched(pos, value) = parse_pattern::<F>(input, &mut state, 0) {
        if pos > 0 && state.max_err_pos <= pos || pos == input.len() {
            return Ok(value);
        }
    }
''')]),
('b-plus-star','bug','C16',[(P,'parse_pattern','if repeat_value.len() >= 1usize {','if true {')]),
('b-set-empty','bug','C16',[(P,'parse_all_chars_until_quotation_mark','if repeat_value.len() >= 1usize {','if repeat_value.len() >= 0usize {')]),
('b-int-sat','bug','C16',[(P,'parse_int','usize::from_str(match_str).or(Err("a representable number"))','usize::from_str(match_str).or(Ok::<usize, &\'static str>(usize::max_value()))')]),
('b-int-plus','bug','C16',[(P,'parse_int',"'0'...'9' => Matched(next, ()),","'0'...'9' | '_' => Matched(next, ()),")]),
('b-int-u32','bug','C15',[(P,'parse_int','usize::from_str(match_str).or(Err("a representable number"))','u16::from_str(match_str).map(|n| n as usize).or(Err("a representable number"))')]),
('b-comma-opt','bug','C16',[(P,'parse_comma','slice_eq(input, state, pos, ",")','slice_eq(input, state, pos, if input[pos..].starts_with(";") { ";" } else { "," })')]),
('b-comma-tab','bug','C16',[(P,'parse_comma','slice_eq(input, state, pos, " ")','if input[pos..].starts_with("\\t") { Matched(pos + 1, ()) } else { slice_eq(input, state, pos, " ") }')]),
('b-comma-one','bug','C15',[(P,COMMA,'''                    match slice_eq(input, state, pos, " ") {
                        Matched(newpos, _) => Matched(newpos, ()),
                        Failed => Matched(pos, ()),
                    }
''')]),
('b-sep-any','bug','C16',[(P,'parse_parser_INT_optional_params','Failed => break,\n','Failed => pos,\n')]),
('b-sep-trail','bug','C16',[(P,'parse_parser_INT_optional_params','''                                        Matched(newpos, _) => {
                                            newpos
                                        }
''','''                                        Matched(newpos, _) => {
                                            repeat_pos = newpos;
                                            newpos
                                        }
''')]),
('b-opts-last','bug','C15',[(P,'parse_parser_INT_optional_params','repeat_value.push(value);','if repeat_value.len() < 2 { repeat_value.push(value); }')]),
('b-opts-front','bug','C15',[(P,'parse_parser_SET_optional_params','repeat_value.push(value);','repeat_value.insert(0, value);')]),
('b-opt-eq','bug','C16',[(P,'parse_parser_BASE_optional_param','let seq_res = parse_MIN_LEN::<F>(input, state, pos);\n                match','let seq_res = parse_MAX_LEN::<F>(input, state, pos);\n                match')]),
('b-kw-ci','bug','C16',[(P,'parse_INT','slice_eq(input','slice_eq_case_insensitive(input')]),
('b-kw-ci2','bug','C16',[(P,'parse_GREEDY','slice_eq(input','slice_eq_case_insensitive(input')]),
('b-kw-prefix','bug','C16',[(P,'parse_MIN_LEN','"min_len"','"min_"')]),
('b-close-opt','bug','C16',[(P,'parse_PARSER_PARAMS_END','slice_eq(input, state, pos, ")")','if pos + 1 == input.len() { Matched(pos, ()) } else { slice_eq(input, state, pos, ")") }')]),
('b-close-eof','bug','C16',[(P,'parse_PARSER_END','slice_eq(input, state, pos, "}")','if pos == input.len() { Matched(pos, ()) } else { slice_eq(input, state, pos, "}") }')]),
('b-lit-brace','bug','C15',[(P,'parse_literal','parse_PARSER_BEGIN::<F>(input, state, pos)','slice_eq(input, state, pos, "%")')]),
('b-lit-esc','bug','C15,C16',[(P,'parse_literal','''                            let assert_res = parse_PARSER_BEGIN::<F>(input, state, pos);
''','''                            let assert_res = if pos > start_pos && input.as_bytes()[pos - 1] == b'\\\\' { Failed } else { parse_PARSER_BEGIN::<F>(input, state, pos) };
''')]),
('b-flat-rev','bug','C15',[(U,FL,'''    let mut flattened_vec = Vec::new();
    for vector in vectors.into_iter().rev() {
        for i in vector.into_iter() {
            flattened_vec.push(i);
        }
    }
    flattened_vec
''')]),
('b-flat-first','bug','C15',[(U,FL,'''    let mut flattened_vec = Vec::new();
    for vector in vectors.into_iter() {
        for i in vector.into_iter().take(1) {
            flattened_vec.push(i);
        }
    }
    flattened_vec
''')]),
('b-flat-cap','bug','C15',[(U,FL,'''    let mut flattened_vec = Vec::new();
    for vector in vectors.into_iter() {
        for i in vector.into_iter() {
            if flattened_vec.len() < 64 {
                flattened_vec.push(i);
            }
        }
    }
    flattened_vec
''')]),
('b-pat-lastpiece','bug','C15',[(P,'parse_pattern','repeat_value.push(value);','if repeat_value.len() < 32 { repeat_value.push(value); }')]),
('b-fac-swap','bug','C15',[(F,'''                        $parser.set_max_length(Some(value));
''','''                        if value > 0 { $parser.set_max_length(Some(value)); }
''')]),
('b-fac-firstopt','bug','C15',[(F,'for i in opt_params.into_iter() {','for i in opt_params.into_iter().take(2) {')]),
('b-fac-noname','bug','C15',[(F,NS,'''        let mut parser = SetParser::new(set);
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_lowercase());
        parser.set_name(name);
        Box::new(parser)
''')]),
('b-fac-endtrim','bug','C15',[(F,NG,'''        let mut parser = GreedyParser::new();
        let end_string = end_string.map(|string| string.trim().to_owned());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
''')]),
('b-fac-endchar','bug','C15',[(F,NG,'''        let mut parser = GreedyParser::new();
        let end_string = end_string.and_then(|s| s.chars().next()).map(|c| c.to_string());
        parser.set_end_string(end_string);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
''')]),
('b-fac-setlower','bug','C15',[(F,NS,'''        let mut parser = SetParser::new(set.trim());
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned());
        parser.set_name(name);
        Box::new(parser)
''')]),
('b-fac-emptyname','bug','C15',[(F,NI,'''        let mut parser = IntParser::new();
        set_optional_params!(&mut parser, opt_params);
        let name = name.map(|name| name.to_owned()).or(Some("INT".to_owned()));
        parser.set_name(name);
        Box::new(parser)
''')]),
('b-merge-lit','bug','C15',[(P,'parse_pattern_piece','''        let choice_res = parse_parser_GREEDY::<F>(input, state, pos);
''','''        let choice_res = if pos > 0 { Failed } else { parse_parser_GREEDY::<F>(input, state, pos) };
''')]),
]
