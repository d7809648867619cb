import re
T="localiser/src/tree.rs"
AT="C13 C14 C15 C26 C27 C28 C29 C30 C31 C33 C35 C39 C40 C41"
HELP='''    // Internal methods

    fn children_len(nodes: &[Node], parser: &ParserStates) -> usize {
        nodes[parser.current.unwrap()]
            .children
            .as_ref()
            .unwrap()
            .len()
    }
'''
INV=re.compile(r'TreeError::InvalidToken\(\s*parser\.state,\s*tokens\[(\*?\w+)\]\.start_grapheme,\s*tokens\[\*?\w+\]\.string\.to_string\(\),\s*\)')
def invalid(s):
    s=INV.sub(r'invalid_token(parser.state, &tokens[\1])',s)
    s=s.replace("invalid_token(parser.state, &tokens[","invalid(&parser, &tokens[")
    i=s.index("    fn pattern_start(")
    s=s[:i]+s[i:].replace("invalid(&parser,","invalid(parser,")
    return s.replace("// Various ParserStates the tokens may be in.",'''fn invalid(parser: &ParserStates, token: &Token) -> TreeError {
    TreeError::InvalidToken(
        parser.state,
        token.start_grapheme,
        token.string.to_string(),
    )
}

// Various ParserStates the tokens may be in.''')
def count(s):
    s=re.sub(r'let children =\s*nodes\[parser\.current\.unwrap\(\)\]\.children\.as_ref\(\)\.unwrap\(\);\s*if children\.len\(\) != (\d) \{',r'if Tree::children_len(&nodes, &parser) != \1 {',s)
    return s.replace("    // Internal methods\n",HELP)
def token_ref(s):
    """the current token by reference in the states that take no other"""
    i=s.index("                ParserState::Command => {"); j=s.index("                ParserState::NamedString => {")
    b=s[i:j].replace('trace!("ParserState::Command");\n','trace!("ParserState::Command");\n\n                    let token = &tokens[current];\n',1).replace("tokens[current].","token.")
    return s[:i]+b+s[j:]
def command_match(s):
    i=s.index("                ParserState::Command => {"); j=s.index("                ParserState::NamedString => {")
    b=s[i:j]
    b=b.replace("                    if tokens[current].token_type == TokenType::Identifier {","                    match tokens[current].token_type {\n                    TokenType::Identifier => {")
    b=b.replace("                    } else if tokens[current].token_type == TokenType::Grammar {","                    }\n                    TokenType::Grammar => {")
    b=b.replace("                    } else if tokens[current].token_type == TokenType::WhiteSpace {\n                    } else {","                    }\n                    TokenType::WhiteSpace => {}\n                    _ => {")
    b=b.rstrip(); assert b.endswith("}"); b=b[:-1].rstrip()+"\n                    }\n                }\n"
    return s[:i]+b+s[j:]
def start_helper(s):
    """the beginning of a named string's string in one place"""
    s=re.sub(r'Tree::create_node\(&mut nodes, &mut parser, NodeType::String\);\s*parser\.nested_states\.push\(ParserState::NamedString\);\s*Tree::create_node_add_token\(\s*&mut nodes,\s*&mut parser,\s*NodeType::(\w+),\s*&current,\s*\);\s*parser\.state = ParserState::SubString;',
             r'Tree::start_string(&mut nodes, &mut parser, NodeType::\1, &current);',s)
    return s.replace("    // Internal methods\n",'''    // Internal methods

    fn start_string(
        nodes: &mut Vec<Node>,
        parser: &mut ParserStates,
        node_type: NodeType,
        token: &usize,
    ) {
        parser.nested_states.push(ParserState::NamedString);
        parser.state = ParserState::SubString;
        Tree::create_node(nodes, parser, NodeType::String);
        Tree::create_node_add_token(nodes, parser, node_type, token);
    }
''')
def next_all(s):
    """every token after the first of a step is taken by one helper"""
    s=re.sub(r'let Some\(\((\w+), token\)\) = lexer\.next\(\) else \{\s*return Err\(TreeError::EndedAbruptly\);\s*\};\s*Tree::push_token\(&mut tokens, &mut lengths, token\);',
             r'let \1 = Tree::following(lexer.next(), &mut tokens, &mut lengths)?;',s)
    return s.replace("    // Internal methods\n",'''    // Internal methods

    fn following(
        next: Option<(usize, Token)>,
        tokens: &mut Vec<Token>,
        lengths: &mut Length,
    ) -> Result<usize, TreeError> {
        let (index, token) = next.ok_or(TreeError::EndedAbruptly)?;
        Tree::push_token(tokens, lengths, token);
        Ok(index)
    }
''')
EDITS={
"invalid":([(T,invalid,"")],AT),
"count":([(T,count,"")],AT),
"token_ref":([(T,token_ref,"")],AT),
"command_match":([(T,command_match,"")],AT),
"start_helper":([(T,start_helper,"")],AT),
"next_all":([(T,next_all,"")],AT),
"loop_":([(T,'''        while let Some((current, token)) = lexer.next() {
            if token.token_type == TokenType::Grammar {
                has_grammar = true;
            }''','''        loop {
            let Some((current, token)) = lexer.next() else {
                break;
            };
            has_grammar |= token.token_type == TokenType::Grammar;''')],AT),
"own_index":([(T,'''            .enumerate()
            .peekable();
        while let Some((current, token)) = lexer.next() {''','''            .enumerate()
            .peekable();
        while let Some((_, token)) = lexer.next() {
            let current = tokens.len();''')],AT),
"sign_last":([(T,'''                            if let Some(last) = children.last() {
                                if nodes[*last].node_type == NodeType::NumberSign {
                                    return Err(TreeError::MultiNumberSign(
                                        tokens[current].start_grapheme,
                                    ));
                                }
                            }''','''                            let after_sign = children
                                .last()
                                .map_or(false, |last| nodes[*last].node_type == NodeType::NumberSign);
                            if after_sign {
                                return Err(TreeError::MultiNumberSign(
                                    tokens[current].start_grapheme,
                                ));
                            }''')],AT),
"named_match":([(T,'''                        let node = *parser.current.as_ref().unwrap();
                        let len = nodes[node].children.as_ref().unwrap().len();
                        if len == 0 {''','''                        let node = parser.current.unwrap();
                        let len = nodes[node].children.as_ref().map_or(0, |children| children.len());
                        if len == 0 {'''),(T,'''                            if tokens[current].token_type == TokenType::WhiteSpace {
                                // Skip over whitespace token separator.
                                continue;
                            }
                            return Err(''','''                            if tokens[current].token_type != TokenType::WhiteSpace {
                                return Err('''),(T,'''                                parser.state,
                                tokens[current].start_grapheme,
                                tokens[current].string.to_string(),
                            ));
                        } else if len == 1 {''','''                                parser.state,
                                tokens[current].start_grapheme,
                                tokens[current].string.to_string(),
                            ));
                            }
                            // Skip over whitespace token separator.
                            continue;
                        } else if len == 1 {''')],AT),
"named_question":([(T,'''                            match Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            ) {
                                Ok(_) => {}
                                Err(error) => return Err(error),
                            };''','''                            Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            )?;''')],AT),
"states_unwrap":([(T,'''                        parser.state = match parser.nested_states.pop() {
                            Some(s) => s,
                            None => ParserState::String,
                        };
                        continue;''','''                        parser.state = parser
                            .nested_states
                            .pop()
                            .unwrap_or(ParserState::String);
                        continue;''')],AT),
"literal_not":([(T,lambda s:s.replace('''                        // The literal text has already moved to its container, thus only the state changes.
                        parser.state = match parser.nested_states.pop() {
                            Some(s) => s,
                            None => ParserState::String,
                        };
                        continue;
                    }
                    return Err(TreeError::InvalidToken(
                        parser.state,
                        tokens[current].start_grapheme,
                        tokens[current].string.to_string(),
                    ));''','''                        // The literal text has already moved to its container, thus only the state changes.
                        parser.state = match parser.nested_states.pop() {
                            Some(s) => s,
                            None => ParserState::String,
                        };
                    } else {
                        return Err(TreeError::InvalidToken(
                            parser.state,
                            tokens[current].start_grapheme,
                            tokens[current].string.to_string(),
                        ));
                    }'''),"")],AT),
"pattern_flat":([(T,lambda s:s[:s.index("        if tokens[*token].token_type == TokenType::Identifier {\n            // Multilingual")]+'''        let first = &tokens[*token];
        let mark = match first.token_type {
            TokenType::Identifier => None,
            TokenType::Grammar => Some(first.string.as_str()),
            _ => Some(""),
        };
        match mark {
            None => {
                // Multilingual pattern
                if patterns.contains_key(&first.string) {
                    return Err(TreeError::UniquePattern(first.string.to_string()));
                }
                Tree::create_node(nodes, parser, NodeType::Pattern);
                patterns.insert(first.string.to_string(), parser.current.unwrap());
                Tree::create_node_add_token(nodes, parser, NodeType::Identifier, token);
                Tree::move_to_container(nodes, parser); // Move back to Pattern node.
                parser.nested_states.push(parser.state);
                parser.state = ParserState::Pattern;
            }
            Some("`") => {
                // Literal pattern.
                Tree::create_node(nodes, parser, NodeType::Text);
                parser
                    .nested_states
                    .extend([parser.state, ParserState::Literal]);
                parser.state = ParserState::LiteralText;
            }
            Some("#") => {
                // Command pattern.
                Tree::create_node(nodes, parser, NodeType::Command);
                parser.nested_states.push(parser.state);
                parser.state = ParserState::Command;
            }
            _ => {
                return Err(TreeError::InvalidToken(
                    parser.state,
                    first.start_grapheme,
                    first.string.to_string(),
                ));
            }
        }
'''+s[s.index("        Ok(())\n    }\n}\n\n// Various"):],"")],AT),
"accessors":([(T,'''        self.children(node_index).first()''','''        self.children(node_index).get(0)'''),(T,'''        self.nodes[*node_index].tokens.as_ref() // )''','''        let node = &self.nodes[*node_index];
        match &node.tokens {
            Some(tokens) => Some(tokens),
            None => None,
        }'''),(T,'''        self.children(node_index).last()''','''        let children = self.children(node_index);
        children.get(children.len().wrapping_sub(1))''')],AT),
"has_grammar_any":([(T,'''            if token.token_type == TokenType::Grammar {
                has_grammar = true;
            }
''',''),(T,'''        if !parser.nested_states.is_empty() {
            return Err(TreeError::EndedAbruptly);
        }''','''        if !parser.nested_states.is_empty() {
            return Err(TreeError::EndedAbruptly);
        }
        let has_grammar = tokens
            .iter()
            .any(|token| token.token_type == TokenType::Grammar);'''),(T,'''        let mut has_grammar = false;
''','')],AT),
}
