import re
U="utility/src/language.rs"; X="lexer/src/lexer.rs"; C="localiser/src/command.rs"; D="utility/src/script.rs"
AU="C01 C02 C03 C04 C13 C14 C39 C40 C41 C43 C44"
AX="C06 C07 C08 C26 C27 C28 C29 C40 C41 C44"
AC="C13 C14 C15 C16 C36 C38 C39 C40 C41 C44"
AD="C05 C40 C41 C42 C44"
def body(name,new,before="    pub fn "):
    def g(s):
        i=s.index("    pub fn %s("%name); i=s.index(" {\n",i)+3; j=s.index("\n    }\n",i)
        return s[:i]+new+s[j:]
    return g
TAGS="""        #[cfg(not(feature = "sync"))]
        let mut tags = self.tags.borrow_mut();

        #[cfg(feature = "sync")]
        let mut tags = self.tags.lock().unwrap();
"""
DEPR=TAGS.replace("tags","deprecated")
def rest(new):
    def g(s):
        i=s.index("        // Check if requested tag is just another deprecated tag"); j=s.index("\n    }\n",s.index("Ok(RefCount::clone(&rc_new_tag))"))
        return s[:i]+new+s[j:]
    return g
def locks(s):
    """a helper takes every lock"""
    s=re.sub(r'\n *#\[cfg\(feature = "sync"\)\]\n[^#]*?(?=\n\n|\n    \}\n|\n        \}\n)', lambda m: "" if "lock()" in m.group(0) else m.group(0), s)
    return s
EDITS={
"tag_entry":([(U,rest('''        // Add to registry if it is new.
'''+TAGS+'''
        let tag = RefCount::clone(
            tags.entry(new_tag.clone())
                .or_insert_with(|| RefCount::new(LanguageTag { tag: new_tag })),
        );
        drop(tags);
        if language_tag != tag.as_str() {
            #[cfg(not(feature = "sync"))]
            let mut deprecated = self.deprecated.borrow_mut();

            #[cfg(feature = "sync")]
            let mut deprecated = self.deprecated.lock().unwrap();

            deprecated.insert(language_tag.to_string(), RefCount::clone(&tag));
        }
        Ok(tag)'''),"")],AU),
"tag_known":([(U,rest('''        // Add to registry if it is new.
        #[cfg(not(feature = "sync"))]
        let known = self.tags.borrow().get(&new_tag).cloned();

        #[cfg(feature = "sync")]
        let known = self.tags.lock().unwrap().get(&new_tag).cloned();

        let tag = match known {
            Some(tag) => tag,
            None => {
                let tag = RefCount::new(LanguageTag {
                    tag: new_tag.clone(),
                });

                #[cfg(not(feature = "sync"))]
                self.tags
                    .borrow_mut()
                    .insert(new_tag, RefCount::clone(&tag));

                #[cfg(feature = "sync")]
                self.tags
                    .lock()
                    .unwrap()
                    .insert(new_tag, RefCount::clone(&tag));

                tag
            }
        };
        if tag.as_str() != language_tag {
            self.add_deprecated(language_tag, &tag);
        }
        Ok(tag)'''),""),(U,lambda s:s.replace('''impl Default for LanguageTagRegistry''','''impl LanguageTagRegistry {
    fn add_deprecated(&self, language_tag: &str, tag: &RefCount<LanguageTag>) {
        #[cfg(not(feature = "sync"))]
        let mut deprecated = self.deprecated.borrow_mut();

        #[cfg(feature = "sync")]
        let mut deprecated = self.deprecated.lock().unwrap();

        deprecated.insert(language_tag.to_string(), RefCount::clone(tag));
    }
}

impl Default for LanguageTagRegistry''',1),"")],AU),
"tag_cloned":([(U,'''        #[cfg(not(feature = "sync"))]
        if let Some(result) = self.tags.borrow().get(language_tag) {
            return Ok(RefCount::clone(result));
        }

        #[cfg(feature = "sync")]
        if let Some(result) = self.tags.lock().unwrap().get(language_tag) {
            return Ok(RefCount::clone(result));
        }
''','''        #[cfg(not(feature = "sync"))]
        let known = self.tags.borrow().get(language_tag).cloned();

        #[cfg(feature = "sync")]
        let known = self.tags.lock().unwrap().get(language_tag).cloned();

        if let Some(result) = known {
            return Ok(result);
        }
''')],AU),
"tag_map_err":([(U,'''        let new_tag = IcuLanguage::canonicalize(language_tag)?;''','''        let new_tag = match IcuLanguage::canonicalize(language_tag) {
            Ok(new_tag) => new_tag,
            Err(error) => return Err(error.into()),
        };''')],AU),
"lists_cloned":([(U,lambda s:s.replace(".values().map(RefCount::clone)",".values().cloned()"),"")],AU),
"list_all_calls":([(U,body("list_all",'''        let mut list = self.list();
        list.extend(self.list_deprecated());
        list'''),"")],AU),
"icu_or_insert":([(U,body("icu_language",'''        IcuLanguage::try_from_bytes(self.as_str().as_bytes()).unwrap()'''),""),(U,lambda s:s[:s.index("    pub fn icu_language(&self, language_tag")]+body("icu_language",'''        #[cfg(not(feature = "sync"))]
        let mut icu = self.icu.borrow_mut();

        #[cfg(feature = "sync")]
        let mut icu = self.icu.lock().unwrap();

        match icu.get(language_tag) {
            Some(result) => RefCount::clone(result),
            None => {
                let icu_language = RefCount::new(language_tag.icu_language());
                icu.insert(
                    RefCount::clone(language_tag),
                    RefCount::clone(&icu_language),
                );
                icu_language
            }
        }''')(s[s.index("    pub fn icu_language(&self, language_tag"):]),"")],AU),
"line_first":([(D,body("line","        self.directions().0"),""),(D,body("grapheme","        let (_, grapheme) = self.directions();\n        grapheme"),"")],AD),
"directions_pair":([(D,body("directions","        (self.line(), self.grapheme())"),"")],AD),
"line_merged":([(D,body("line",'''        use ScriptDirection::*;
        match self {
            TopToBottomLeftToRight | TopToBottomRightToLeft => Direction::TopToBottom,
            BottomToTopLeftToRight | BottomToTopRightToLeft => Direction::BottomToTop,
            LeftToRightTopToBottom | LeftToRightBottomToTop => Direction::LeftToRight,
            _ => Direction::RightToLeft,
        }'''),"")],AD),
"lex_start":([(X,'''        let mut token_string = String::new();
        let (_, character) = iterator.next().unwrap();
''','''        let Some((_, character)) = iterator.next() else {
            return Err(LexerError::EmptyString);
        };
'''),(X,'''        token_string.push(character);
        Ok(LexerIterator {''','''        let token_string = String::from(character);
        Ok(LexerIterator {''')],AX),
"lex_guards":([(X,lambda s:s.replace('''        if grammar.is_empty() {
            return Err(LexerError::NoGrammar);
        }
        if string.is_empty() {
            return Err(LexerError::EmptyString);
        }
''','''        match (grammar.is_empty(), string.is_empty()) {
            (true, _) => return Err(LexerError::NoGrammar),
            (false, true) => return Err(LexerError::EmptyString),
            _ => {}
        }
'''),"")],AX),
"lex_classify":([(X,'''        if self
            .icu_data_provider
            .white_space()
            .as_borrowed()
            .contains(*character)
        {
            TokenType::WhiteSpace
        } else if self
            .icu_data_provider
            .syntax()
            .as_borrowed()
            .contains(*character)
        {
            if self.grammar.contains(character) {
                TokenType::Grammar
            } else {
                TokenType::Syntax
            }
        } else {
            TokenType::Identifier
        }''','''        let icu = &self.icu_data_provider;
        if icu.white_space().as_borrowed().contains(*character) {
            return TokenType::WhiteSpace;
        }
        let syntax = icu.syntax().as_borrowed().contains(*character);
        let listed = self.grammar.iter().any(|listed| listed == character);
        match (syntax, listed) {
            (true, true) => TokenType::Grammar,
            (true, false) => TokenType::Syntax,
            (false, _) => TokenType::Identifier,
        }''')],AX),
"lex_token_order":([(X,'''        let token_type = self.token_type;
        self.token_type = new_token_type;
        let token = Token {
            string: self.token_string.clone(),
            token_type,''','''        let token = Token {
            string: self.token_string.clone(),
            token_type: self.token_type,'''),(X,'''        self.token_string = character.to_string();
        token''','''        self.token_string = character.to_string();
        self.token_type = new_token_type;
        token''')],AX),
"lex_token_clear":([(X,'''        self.token_string = character.to_string();
        token''','''        self.token_string.clear();
        self.token_string.push(character);
        token''')],AX),
"lex_len_chars":([(X,'''            length_bytes: self.start_byte - self.token_start_byte,''','''            length_bytes: self.token_string.len(),''')],AX),
"lex_end":([(X,'''        // Complete final token
        self.end_reached = true;
        self.start_byte = self.length_bytes;
        self.start_character += 1;
        Some(self.token(TokenType::Identifier, ' '))''','''        // Complete final token
        self.start_byte = self.length_bytes;
        self.start_character += 1;
        let last = self.token(TokenType::Identifier, ' ');
        self.end_reached = true;
        Some(last)''')],AX),
"cmd_any":([(C,'''    let mut chars = string.chars();
    match chars.next() {
        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
        _ => Ok("a".to_string()),
    }''','''    let article = if string.starts_with(['a', 'e', 'i', 'o', 'u']) {
        "an"
    } else {
        "a"
    };
    Ok(article.to_string())''')],AC),
"cmd_contains":([(C,'''    let mut chars = string.chars();
    match chars.next() {
        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
        _ => Ok("a".to_string()),
    }''','''    let vowel = string
        .chars()
        .next()
        .is_some_and(|first| "aeiou".contains(first));
    Ok(String::from(if vowel { "an" } else { "a" }))''')],AC),
"cmd_path":([(C,'''    let path = PathBuf::from_str(string).unwrap();
    Ok(path.display().to_string())''','''    let path = PathBuf::from(string);
    Ok(path.display().to_string())''')],AC),
"cmd_get":([(C,lambda s:re.sub(r'''    if parameters\.len\(\) < 2 \{
        return Err\(CommandError::ParameterMissing\(command\.clone\(\), 1\)\);
    \}
    let string = match &parameters\[1\] \{
        PlaceholderValue::String\(string\) => string,
        _ => return Err\(CommandError::InvalidType\(command\.clone\(\), 1\)\),
    \};''','''    let string = match parameters.get(1) {
        Some(PlaceholderValue::String(string)) => string,
        Some(_) => return Err(CommandError::InvalidType(command.clone(), 1)),
        None => return Err(CommandError::ParameterMissing(command.clone(), 1)),
    };''',s),"")],AC),
"cmd_ok_or":([(C,'''        let Some(result) = binding.get(command) else {
            return Err(CommandError::NotFound(command.to_string()));
        };
        Ok(result.to_owned())''','''        binding
            .get(command)
            .copied()
            .ok_or_else(|| CommandError::NotFound(command.to_string()))'''),(C,'''        Vec::from_iter(binding.keys().map(|x| x.to_string()))''','''        binding.keys().cloned().collect()''')],AC),
}
