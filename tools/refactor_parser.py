T="localiser/src/tree.rs"; C="localiser/src/command.rs"
AT="C26 C27 C28 C29 C30"; AC="C13 C14 C15 C16"
INV='''return Err(TreeError::InvalidToken(
                                    parser.state,
                                    tokens[current].start_grapheme,
                                    tokens[current].string.to_string(),
                                ));'''
import re
EDITS={
"t_insert":([(T,'''        let children: Option<Vec<usize>> = if node_type.allow_children() {
            Some(Vec::<usize>::new())
        } else {
            None
        };
        let tokens: Option<Vec<usize>> = if node_type.allow_tokens() {
            Some(Vec::<usize>::new())
        } else {
            None
        };
        let node = Node {
            node_type,
            parent,
            children,
            tokens,
        };
        let index = nodes.len();
        nodes.push(node);
        let index_node = nodes.get_mut(*node_index).unwrap();
        index_node.children.as_mut().unwrap().push(index);
        index''','''        let index = nodes.len();
        nodes.push(Node {
            parent,
            children: node_type.allow_children().then(Vec::new),
            tokens: node_type.allow_tokens().then(Vec::new),
            node_type,
        });
        if let Some(children) = nodes[*node_index].children.as_mut() {
            children.push(index);
        }
        index''')],AT),
"t_create":([(T,'''        token: &usize,
    ) {
        Tree::move_to_container(nodes, parser);
        parser.current = Some(Tree::insert(
            nodes,
            &parser.current.take().unwrap(),
            node_type,
        ));
        nodes
            .get_mut(*parser.current.as_ref().unwrap())
            .unwrap()
            .tokens
            .as_mut()
            .unwrap()
            .push(*token);''','''        token: &usize,
    ) {
        Tree::create_node(nodes, parser, node_type);
        let node = &mut nodes[parser.current.unwrap()];
        node.tokens.as_mut().unwrap().push(*token);'''),(T,'''        parser.state = match parser.nested_states.pop() {
            Some(s) => s,
            None => ParserState::String,
        };
        parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
    }''','''        parser.state = parser.nested_states.pop().unwrap_or(ParserState::String);
        let current = parser.current.unwrap();
        parser.current = nodes[current].parent;
    }''')],AT),
"t_add_token":([(T,'''        let node = nodes.get_mut(*parser.current.as_ref().unwrap()).unwrap();
        if node.node_type == node_type {
            node.tokens.as_mut().unwrap().push(*token);
        } else {
            Tree::create_node_add_token(nodes, parser, node_type, token);
        }''','''        let current = parser.current.unwrap();
        if nodes[current].node_type != node_type {
            return Tree::create_node_add_token(nodes, parser, node_type, token);
        }
        nodes[current].tokens.as_mut().unwrap().push(*token);''')],AT),
"t_match_str":([(T,'''                    if tokens[current].token_type == TokenType::Grammar {
                        let token_str = tokens[current].string.as_str();
                        if token_str == "`" {
                            // Skip over ` token as next token is a literal.
                            let Some((next, token)) = lexer.next() else {
                                return Err(TreeError::EndedAbruptly);
                            };
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                        } else if token_str == "{" {
                            // Skip over { token as it marks start of pattern.
                            let Some((next, token)) = lexer.next() else {
                                return Err(TreeError::EndedAbruptly);
                            };
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            )?;
                        } else if token_str == "#" {
                            // Skip over # token as end of string reached, move to the root
                            parser.current = Some(0);
                            Tree::create_node(&mut nodes, &mut parser, NodeType::NamedGroup);
                            parser.state = ParserState::NamedGroup;
                        } else {
                            // Any other grammar is invalid for string.
                            return Err(TreeError::InvalidToken(
                                parser.state,
                                tokens[current].start_grapheme,
                                tokens[current].string.to_string(),
                            ));
                        }
                    } else {
                        Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &current);
                    }''','''                    if tokens[current].token_type != TokenType::Grammar {
                        Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &current);
                        continue;
                    }
                    match tokens[current].string.as_str() {
                        "#" => {
                            // Skip over # token as end of string reached, move to the root
                            parser.current = Some(0);
                            parser.state = ParserState::NamedGroup;
                            Tree::create_node(&mut nodes, &mut parser, NodeType::NamedGroup);
                        }
                        "`" => {
                            // Skip over ` token as next token is a literal.
                            let (next, token) = lexer.next().ok_or(TreeError::EndedAbruptly)?;
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                        }
                        "{" => {
                            // Skip over { token as it marks start of pattern.
                            let (next, token) = lexer.next().ok_or(TreeError::EndedAbruptly)?;
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::pattern_start(
                                &mut nodes,
                                &mut parser,
                                &mut tokens,
                                &next,
                                &mut patterns,
                            )?;
                        }
                        _ => {
                            // Any other grammar is invalid for string.
                            return Err(TreeError::InvalidToken(
                                parser.state,
                                tokens[current].start_grapheme,
                                tokens[current].string.to_string(),
                            ));
                        }
                    }''')],AT),
"t_next_helper":([(T,'''                        let Some((current, token)) = lexer.next() else {
                            return Err(TreeError::EndedAbruptly);
                        };
                        Tree::push_token(&mut tokens, &mut lengths, token);
                        if tokens[current].string.as_str() != "#" {''','''                        let current = Tree::next_token(&mut lexer, &mut tokens, &mut lengths)?;
                        if tokens[current].string.as_str() != "#" {'''),(T,'''                        let Some((current, token)) = lexer.next() else {
                            return Err(TreeError::EndedAbruptly);
                        };
                        Tree::push_token(&mut tokens, &mut lengths, token);
                        if tokens[current].token_type != TokenType::Identifier {''','''                        let current = Tree::next_token(&mut lexer, &mut tokens, &mut lengths)?;
                        if tokens[current].token_type != TokenType::Identifier {'''),(T,'''    // Internal methods
''','''    // Internal methods

    fn next_token(
        lexer: &mut impl Iterator<Item = (usize, Token)>,
        tokens: &mut Vec<Token>,
        lengths: &mut Length,
    ) -> Result<usize, TreeError> {
        match lexer.next() {
            None => Err(TreeError::EndedAbruptly),
            Some((index, token)) => {
                Tree::push_token(tokens, lengths, token);
                Ok(index)
            }
        }
    }
''')],AT),
"t_unique":([(T,'''                            if named_strings.contains_key(&string) {
                                return Err(TreeError::UniqueNamed(string));
                            }
                            named_strings.insert(string, current);''','''                            if named_strings.insert(string.clone(), current).is_some() {
                                return Err(TreeError::UniqueNamed(string));
                            }'''),(T,'''            Tree::create_node(nodes, parser, NodeType::Pattern);
            if patterns.contains_key(&tokens[*token].string) {
                return Err(TreeError::UniquePattern(tokens[*token].string.to_string()));
            }
            patterns.insert(''','''            let name = tokens[*token].string.clone();
            if patterns.contains_key(&name) {
                return Err(TreeError::UniquePattern(name));
            }
            Tree::create_node(nodes, parser, NodeType::Pattern);
            patterns.insert(''')],AT),
"t_extract_pattern":([(T,'''                    let token_type = tokens[current].token_type;
                    if token_type == TokenType::Identifier {
                        Tree::create_node_add_token(
                            &mut nodes,
                            &mut parser,
                            NodeType::Identifier,
                            &current,
                        );
                        Tree::move_to_container(&mut nodes, &mut parser);
                        parser.state = ParserState::Keyword;
                    } else if tokens[current].token_type == TokenType::WhiteSpace {
                        // Optional whitespace ignored.
                    } else if tokens[current].token_type == TokenType::Grammar {
                        if tokens[current].string.as_str() != "}" {
                            return Err(TreeError::InvalidToken(
                                parser.state,
                                tokens[current].start_grapheme,
                                tokens[current].string.to_string(),
                            ));
                        }

                        // None (only identifier provide with default type of preformatted string)
                        Tree::end_nested_state(&mut nodes, &mut parser);
                    } else {
                        return Err(TreeError::InvalidToken(
                            parser.state,
                            tokens[current].start_grapheme,
                            tokens[current].string.to_string(),
                        ));
                    }''','''                    Tree::state_pattern(&mut nodes, &mut parser, &tokens, current)?;'''),(T,'''    // Internal methods
''','''    // Internal methods

    fn state_pattern(
        nodes: &mut Vec<Node>,
        parser: &mut ParserStates,
        tokens: &[Token],
        current: usize,
    ) -> Result<(), TreeError> {
        let token = &tokens[current];
        match token.token_type {
            TokenType::Identifier => {
                Tree::create_node_add_token(nodes, parser, NodeType::Identifier, &current);
                Tree::move_to_container(nodes, parser);
                parser.state = ParserState::Keyword;
            }
            TokenType::WhiteSpace => {}
            TokenType::Grammar if token.string == "}" => Tree::end_nested_state(nodes, parser),
            _ => {
                return Err(TreeError::InvalidToken(
                    parser.state,
                    token.start_grapheme,
                    token.string.clone(),
                ))
            }
        }
        Ok(())
    }
''')],AT),
"t_literal_peek":([(T,'''                        match lexer.next_if(|(_, token)| token.string.as_str() == "`") {
                            Some((next, token)) => {
                                // Literal 2nd ` found.
                                Tree::push_token(&mut tokens, &mut lengths, token);
                                Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                            }
                            None => Tree::end_nested_state(&mut nodes, &mut parser),
                        }
                        continue;
                    }
                    Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &current);''','''                        if let Some((next, token)) = lexer.next_if(|x| x.1.string == "`") {
                            // Literal 2nd ` found.
                            Tree::push_token(&mut tokens, &mut lengths, token);
                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                        } else {
                            Tree::end_nested_state(&mut nodes, &mut parser);
                        }
                    } else {
                        Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &current);
                    }''')],AT),
"t_reorder_init":([(T,'''        // Initialise fields
        let mut tokens = Vec::<Token>::new();
        let mut has_grammar = false;
        let mut lengths = Length {
            bytes: 0,
            characters: 0,
            graphemes: 0,
            tokens: 0,
        };
        let mut nodes = Vec::<Node>::new();

        // Initialise tree
        let node = Node {
            node_type: NodeType::Root,
            parent: None,
            children: Some(Vec::<usize>::new()),
            tokens: None,
        };
        nodes.push(node);
''','''        // Initialise tree
        let mut nodes = vec![Node {
            node_type: NodeType::Root,
            parent: None,
            children: Some(Vec::new()),
            tokens: None,
        }];

        // Initialise fields
        let mut has_grammar = false;
        let mut tokens = Vec::with_capacity(16);
        let mut lengths = Length {
            bytes: 0,
            characters: 0,
            graphemes: 0,
            tokens: 0,
        };
'''),(T,'''            if token.token_type == TokenType::Grammar {
                has_grammar = true;
            }
''','''            has_grammar |= token.token_type == TokenType::Grammar;
''')],AT),
"t_pattern_start":([(T,'''        } else if tokens[*token].token_type == TokenType::Grammar {
            // Future: may allow empty {} to be treated as literal {}
            if tokens[*token].string.as_str() == "`" {
                // Literal pattern.
                Tree::create_node(nodes, parser, NodeType::Text);
                parser.nested_states.push(parser.state);
                parser.nested_states.push(ParserState::Literal);
                parser.state = ParserState::LiteralText;
            } else if tokens[*token].string.as_str() == "#" {
                // Command pattern.
                Tree::create_node(nodes, parser, NodeType::Command);
                parser.nested_states.push(parser.state);
                parser.state = ParserState::Command;
            } else {
                return Err(TreeError::InvalidToken(
                    parser.state,
                    tokens[*token].start_grapheme,
                    tokens[*token].string.to_string(),
                ));
            }
        } else {''','''        } else if tokens[*token].token_type == TokenType::Grammar && tokens[*token].string == "`" {
            // Literal pattern.
            let state = std::mem::replace(&mut parser.state, ParserState::LiteralText);
            parser.nested_states.extend([state, ParserState::Literal]);
            Tree::create_node(nodes, parser, NodeType::Text);
        } else if tokens[*token].token_type == TokenType::Grammar && tokens[*token].string == "#" {
            // Command pattern.
            parser.nested_states.push(parser.state);
            parser.state = ParserState::Command;
            Tree::create_node(nodes, parser, NodeType::Command);
        } else {''')],AT),
"c_entry":([(C,'''        if binding.contains_key(command) {
            return Err(CommandError::AlreadyExists(command.to_string()));
        }
        binding.insert(command.to_string(), function);
        Ok(())''','''        match binding.entry(command.to_string()) {
            std::collections::hash_map::Entry::Occupied(entry) => {
                Err(CommandError::AlreadyExists(entry.key().clone()))
            }
            std::collections::hash_map::Entry::Vacant(entry) => {
                entry.insert(function);
                Ok(())
            }
        }''')],AC),
"c_get":([(C,'''        let Some(result) = binding.get(command) else {
            return Err(CommandError::NotFound(command.to_string()));
        };
        Ok(result.to_owned())''','''        binding
            .get(command)
            .copied()
            .ok_or_else(|| CommandError::NotFound(command.to_string()))'''),(C,'''        Vec::from_iter(binding.keys().map(|x| x.to_string()))''','''        Vec::from_iter(binding.keys().cloned())''')],AC),
"c_helper":([(C,'''    let string = match &parameters[1] {
        PlaceholderValue::String(string) => string,
        _ => return Err(CommandError::InvalidType(command.clone(), 1)),
    };
    let path''','''    let PlaceholderValue::String(string) = &parameters[1] else {
        return Err(CommandError::InvalidType(command.clone(), 1));
    };
    let path'''),(C,'''    let mut chars = string.chars();
    match chars.next() {
        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
        _ => Ok("a".to_string()),
    }''','''    let article = if string.starts_with(['a', 'e', 'i', 'o', 'u']) {
        "an"
    } else {
        "a"
    };
    Ok(article.to_string())''')],AC),
"c_param_helper":([(C,'''pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let command = match parameters.first() {
        Some(PlaceholderValue::String(string)) => string,

        // When called from within the `Formatter` methods, this branch is never reached.
        _ => {
            return Err(CommandError::InvalidType(
                "command identifier".to_string(),
                0,
            ))
        }
    };
    if parameters.len() < 2 {
        return Err(CommandError::ParameterMissing(command.clone(), 1));
    }
    let string = match &parameters[1] {
        PlaceholderValue::String(string) => string,
        _ => return Err(CommandError::InvalidType(command.clone(), 1)),
    };
''','''fn string_parameter(parameters: &[PlaceholderValue]) -> Result<&String, CommandError> {
    let Some(PlaceholderValue::String(command)) = parameters.first() else {
        return Err(CommandError::InvalidType(
            "command identifier".to_string(),
            0,
        ));
    };
    match parameters.get(1) {
        None => Err(CommandError::ParameterMissing(command.clone(), 1)),
        Some(PlaceholderValue::String(string)) => Ok(string),
        Some(_) => Err(CommandError::InvalidType(command.clone(), 1)),
    }
}

pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let string = string_parameter(&parameters)?;
''')],AC),
"c_slice_pattern":([(C,'''    if parameters.len() < 2 {
        return Err(CommandError::ParameterMissing(command.clone(), 1));
    }
    let string = match &parameters[1] {
        PlaceholderValue::String(string) => string,
        _ => return Err(CommandError::InvalidType(command.clone(), 1)),
    };
    let mut chars = string.chars();
    match chars.next() {
        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
        _ => Ok("a".to_string()),
    }''','''    let string = match parameters.as_slice() {
        [_, PlaceholderValue::String(string), ..] => string,
        [_, _, ..] => return Err(CommandError::InvalidType(command.clone(), 1)),
        _ => return Err(CommandError::ParameterMissing(command.clone(), 1)),
    };
    if matches!(string.chars().next(), Some('a' | 'e' | 'i' | 'o' | 'u')) {
        return Ok("an".to_string());
    }
    Ok("a".to_string())''')],AC),
}
