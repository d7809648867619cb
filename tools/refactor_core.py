U="utility/src/language.rs"; X="lexer/src/lexer.rs"; L="localiser/src/localiser.rs"
AU="C01 C02 C03 C04 C05 C13 C14"; AX="C06 C07 C08 C14"; AL="C09 C10 C11 C12 C13 C14"
EDITS={
"tag_lookup_helper":([(U,'''        // Check if requested tag is already in tags.
        #[cfg(not(feature = "sync"))]
        if let Some(result) = self.tags.borrow().get(language_tag) {
            return Ok(RefCount::clone(result));
        }

        #[cfg(feature = "sync")]
        if let Some(result) = self.tags.lock().unwrap().get(language_tag) {
            return Ok(RefCount::clone(result));
        }

        // Check if requested tag is already in deprecated.
        #[cfg(not(feature = "sync"))]
        if let Some(result) = self.deprecated.borrow().get(language_tag) {
            return Ok(RefCount::clone(result));
        }

        #[cfg(feature = "sync")]
        if let Some(result) = self.deprecated.lock().unwrap().get(language_tag) {
            return Ok(RefCount::clone(result));
        }
''','''        if let Some(found) = Self::lookup(&self.tags, language_tag)
            .or_else(|| Self::lookup(&self.deprecated, language_tag))
        {
            return Ok(found);
        }
'''),(U,'''    /// Obtain a reference counted [`Rc`] or [`Arc`] (using feature `sync`) ICU4X
    /// [`LanguageIdentifier`]''','''    fn lookup(
        map: &MutCell<HashMap<String, RefCount<LanguageTag>>>,
        key: &str,
    ) -> Option<RefCount<LanguageTag>> {
        #[cfg(not(feature = "sync"))]
        return map.borrow().get(key).cloned();

        #[cfg(feature = "sync")]
        return map.lock().unwrap().get(key).cloned();
    }

    /// Obtain a reference counted [`Rc`] or [`Arc`] (using feature `sync`) ICU4X
    /// [`LanguageIdentifier`]''')],AU),
"tag_reorder":([(U,'''        let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
        if language_tag != rc_new_tag.as_str() {
            #[cfg(not(feature = "sync"))]
            self.deprecated
                .borrow_mut()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));

            #[cfg(feature = "sync")]
            self.deprecated
                .lock()
                .unwrap()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
        }

        #[cfg(not(feature = "sync"))]
        self.tags.borrow_mut().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );

        #[cfg(feature = "sync")]
        self.tags.lock().unwrap().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );

        Ok(RefCount::clone(&rc_new_tag))''','''        let is_alias = language_tag != new_tag.as_str();
        let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag.clone() });

        #[cfg(not(feature = "sync"))]
        self.tags.borrow_mut().insert(new_tag, RefCount::clone(&rc_new_tag));

        #[cfg(feature = "sync")]
        self.tags.lock().unwrap().insert(new_tag, RefCount::clone(&rc_new_tag));

        if is_alias {
            #[cfg(not(feature = "sync"))]
            self.deprecated
                .borrow_mut()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));

            #[cfg(feature = "sync")]
            self.deprecated
                .lock()
                .unwrap()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
        }
        Ok(rc_new_tag)''')],AU),
"tag_early_return":([(U,'''        if language_tag != rc_new_tag.as_str() {
            #[cfg(not(feature = "sync"))]
            self.deprecated
                .borrow_mut()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));

            #[cfg(feature = "sync")]
            self.deprecated
                .lock()
                .unwrap()
                .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
        }

        #[cfg(not(feature = "sync"))]
        self.tags.borrow_mut().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );

        #[cfg(feature = "sync")]
        self.tags.lock().unwrap().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );

        Ok(RefCount::clone(&rc_new_tag))''','''        #[cfg(not(feature = "sync"))]
        self.tags.borrow_mut().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );

        #[cfg(feature = "sync")]
        self.tags.lock().unwrap().insert(
            rc_new_tag.as_str().to_string(),
            RefCount::clone(&rc_new_tag),
        );
        if rc_new_tag.as_str() == language_tag {
            return Ok(rc_new_tag);
        }
        self.remember_deprecated(language_tag, &rc_new_tag);
        Ok(rc_new_tag)'''),(U,'''    /// Obtain a reference counted [`Rc`] or [`Arc`] (using feature `sync`) ICU4X
    /// [`LanguageIdentifier`]''','''    fn remember_deprecated(&self, alias: &str, tag: &RefCount<LanguageTag>) {
        #[cfg(not(feature = "sync"))]
        let mut deprecated = self.deprecated.borrow_mut();

        #[cfg(feature = "sync")]
        let mut deprecated = self.deprecated.lock().unwrap();

        deprecated.insert(alias.to_owned(), RefCount::clone(tag));
    }

    /// Obtain a reference counted [`Rc`] or [`Arc`] (using feature `sync`) ICU4X
    /// [`LanguageIdentifier`]''')],AU),
"icu_entry":([(U,'''        #[cfg(not(feature = "sync"))]
        if let Some(result) = self.icu.borrow().get(language_tag) {
            return RefCount::clone(result);
        }

        #[cfg(feature = "sync")]
        if let Some(result) = self.icu.lock().unwrap().get(language_tag) {
            return RefCount::clone(result);
        }

        let icu_language = RefCount::new(language_tag.icu_language());

        #[cfg(not(feature = "sync"))]
        self.icu.borrow_mut().insert(
            RefCount::clone(language_tag),
            RefCount::clone(&icu_language),
        );

        #[cfg(feature = "sync")]
        self.icu.lock().unwrap().insert(
            RefCount::clone(language_tag),
            RefCount::clone(&icu_language),
        );

        icu_language''','''        #[cfg(not(feature = "sync"))]
        let mut cache = self.icu.borrow_mut();

        #[cfg(feature = "sync")]
        let mut cache = self.icu.lock().unwrap();

        let entry = cache
            .entry(RefCount::clone(language_tag))
            .or_insert_with(|| RefCount::new(language_tag.icu_language()));
        RefCount::clone(entry)''')],AU),
"list_loop":([(U,'''        #[cfg(not(feature = "sync"))]
        return Vec::from_iter(self.tags.borrow().values().map(RefCount::clone));

        #[cfg(feature = "sync")]
        Vec::from_iter(self.tags.lock().unwrap().values().map(RefCount::clone))''','''        #[cfg(not(feature = "sync"))]
        let tags = self.tags.borrow();

        #[cfg(feature = "sync")]
        let tags = self.tags.lock().unwrap();

        let mut list = Vec::with_capacity(tags.len());
        for tag in tags.values() {
            list.push(RefCount::clone(tag));
        }
        list'''),(U,'''        #[cfg(not(feature = "sync"))]
        return Vec::from_iter(self.deprecated.borrow().values().map(RefCount::clone));
''','''        #[cfg(not(feature = "sync"))]
        return self.deprecated.borrow().values().cloned().collect();
''')],AU),
"list_all_chain":([(U,'''        #[cfg(not(feature = "sync"))]
        let mut list = Vec::from_iter(self.tags.borrow().values().map(RefCount::clone));

        #[cfg(feature = "sync")]
        let mut list = Vec::from_iter(self.tags.lock().unwrap().values().map(RefCount::clone));

        #[cfg(not(feature = "sync"))]
        let mut deprecated = Vec::from_iter(self.deprecated.borrow().values().map(RefCount::clone));

        #[cfg(feature = "sync")]
        let mut deprecated = Vec::from_iter(
            self.deprecated
                .lock()
                .unwrap()
                .values()
                .map(RefCount::clone),
        );

        list.append(&mut deprecated);
        list''','''        let mut list = self.list();
        list.extend(self.list_deprecated());
        list''')],AU),
"lexer_helper":([(X,'''        let token_type = if icu_data_provider
            .white_space()
            .as_borrowed()
            .contains(character)
        {
            TokenType::WhiteSpace
        } else if icu_data_provider.syntax().as_borrowed().contains(character) {
            if grammar.contains(&character) {
                TokenType::Grammar
            } else {
                TokenType::Syntax
            }
        } else {
            TokenType::Identifier
        };
''','''        let token_type = classify(icu_data_provider, &grammar, character);
'''),(X,'''        if self
            .icu_data_provider
            .white_space()
            .as_borrowed()
            .contains(*character)
        {
            TokenType::WhiteSpace
        } else if self
            .icu_data_provider
            .syntax()
            .as_borrowed()
            .contains(*character)
        {
            if self.grammar.contains(character) {
                TokenType::Grammar
            } else {
                TokenType::Syntax
            }
        } else {
            TokenType::Identifier
        }
''','''        classify(&self.icu_data_provider, &self.grammar, *character)
'''),(X,'''impl Iterator for LexerIterator {''','''fn classify(provider: &IcuDataProvider, grammar: &[char], character: char) -> TokenType {
    if provider.white_space().as_borrowed().contains(character) {
        return TokenType::WhiteSpace;
    }
    if !provider.syntax().as_borrowed().contains(character) {
        return TokenType::Identifier;
    }
    match grammar.contains(&character) {
        true => TokenType::Grammar,
        false => TokenType::Syntax,
    }
}

impl Iterator for LexerIterator {''')],AX),
"lexer_next":([(X,'''            let token_type = self.token_type(&character);
            match token_type {
                TokenType::WhiteSpace => {
                    if self.token_type != TokenType::WhiteSpace {
                        return Some(self.token(TokenType::WhiteSpace, character));
                    }
                    self.token_string.push(character);
                }
                TokenType::Grammar => {
                    // Each grammar syntax character is its own token
                    return Some(self.token(TokenType::Grammar, character));
                }
                TokenType::Syntax => {
                    if self.token_type != TokenType::Syntax {
                        return Some(self.token(TokenType::Syntax, character));
                    }
                    self.token_string.push(character);
                }
                TokenType::Identifier => {
                    if self.token_type != TokenType::Identifier {
                        return Some(self.token(TokenType::Identifier, character));
                    }
                    self.token_string.push(character);
                }
            }''','''            let token_type = self.token_type(&character);
            if token_type == TokenType::Grammar || self.token_type != token_type {
                return Some(self.token(token_type, character));
            }
            self.token_string.push(character);''')],AX),
"lexer_take":([(X,'''        let token_type = self.token_type;
        self.token_type = new_token_type;
        let token = Token {
            string: self.token_string.clone(),
            token_type,''','''        let token_type = std::mem::replace(&mut self.token_type, new_token_type);
        let token = Token {
            string: std::mem::take(&mut self.token_string),
            token_type,'''),(X,'''        self.token_string = character.to_string();
        token''','''        self.token_string.push(character);
        token''')],AX),
"lexer_loop":([(X,'''        while let Some((position, character)) = self.iterator.next() {
            self.start_byte = position;''','''        loop {
            let Some((position, character)) = self.iterator.next() else {
                break;
            };
            self.start_byte = position;''')],AX),
"lexer_segment":([(X,'''        let len_graphemes = self
            .icu_data_provider
            .grapheme_segmenter()
            .segment_str(&self.token_string)
            .count()
            - 1;
''','''        let boundaries = self
            .icu_data_provider
            .grapheme_segmenter()
            .segment_str(self.token_string.as_str())
            .count();
        let len_graphemes = boundaries - 1;
''')],AX),
"loc_defaults_helper":([(L,'''        #[cfg(feature = "logging")]
        debug!("Localiser is using format_with_defaults().");

        #[cfg(not(feature = "sync"))]
        let tag = &RefCount::clone(&self.language_tag.borrow());

        #[cfg(not(feature = "sync"))]
        let bool_fallback = *self.fallback.borrow();

        #[cfg(not(feature = "sync"))]
        let bool_caching = *self.caching.borrow();

        #[cfg(feature = "sync")]
        let tag = &RefCount::clone(&self.language_tag.read().unwrap());

        #[cfg(feature = "sync")]
        let bool_fallback = *self.fallback.read().unwrap();

        #[cfg(feature = "sync")]
        let bool_caching = *self.caching.read().unwrap();

        self.actual_format(
            component,
            identifier,
            values,
            tag,
            bool_fallback,
            bool_caching,
        )''','''        #[cfg(feature = "logging")]
        debug!("Localiser is using format_with_defaults().");

        let tag = self.default_language();
        self.format(component, identifier, values, &tag, None, None)''')],AL),
"loc_result_map":([(L,'''                            match formatter.borrow_mut().format(self, values) {
                                Err(error) => Err(LocaliserError::Formatter(error)),
                                Ok(localised) => {
                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
                                }
                            }''','''                            formatter
                                .borrow_mut()
                                .format(self, values)
                                .map(|(string, tag)| (RefCount::new(string), RefCount::clone(tag)))
                                .map_err(LocaliserError::Formatter)'''),(L,'''                            match formatter.write().unwrap().format(self, values) {
                                Err(error) => Err(LocaliserError::Formatter(error)),
                                Ok(localised) => {
                                    Ok((RefCount::new(localised.0), RefCount::clone(localised.1)))
                                }
                            }''','''                            let mut formatter = formatter.write().unwrap();
                            let (string, tag) = formatter.format(self, values)?;
                            Ok((RefCount::new(string), RefCount::clone(tag)))''')],AL),
"loc_not_found":([(L,'''                    return match self.actual_format(
                        component,
                        identifier,
                        values,
                        &default_language,
                        false,
                        caching,
                    ) {
                        Err(LocaliserError::StringNotFound(_, _, _, _)) => {
                            Err(LocaliserError::StringNotFound(
                                component.to_string(),
                                identifier.to_string(),
                                language_tag.as_str().to_owned(),
                                true,
                            ))
                        }
                        result => result,
                    };''','''                    return self
                        .actual_format(
                            component,
                            identifier,
                            values,
                            &default_language,
                            false,
                            caching,
                        )
                        .map_err(|error| match error {
                            LocaliserError::StringNotFound(..) => LocaliserError::StringNotFound(
                                component.to_string(),
                                identifier.to_string(),
                                language_tag.as_str().to_owned(),
                                true,
                            ),
                            error => error,
                        });''')],AL),
"loc_string_cache":([(L,'''        if localised.0.is_empty() {
            let string = RefCount::new(localised.0);
            if caching {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                return Ok((string, localised.1));
            }
            return Ok((string, localised.1));
        }''','''        if localised.0.is_empty() {
            let string = RefCount::new(localised.0);
            if caching {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
            }
            return Ok((string, localised.1));
        }'''),(L,'''        let mut formatter = match Formatter::try_new(self, localised.0.as_str(), &localised.1) {
            Ok(value) => value,
            Err(error) => match error {
                FormatterError::NoGrammar => {
                    // No grammar syntax was found, thus a literal string.
                    let string = RefCount::new(localised.0);
                    if caching {
                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                        return Ok((string, localised.1));
                    }
                    return Ok((string, localised.1));
                }
                _ => return Err(LocaliserError::Formatter(error)),
            },
        };''','''        let (text, tag) = localised;
        let mut formatter = match Formatter::try_new(self, text.as_str(), &tag) {
            Ok(value) => value,
            Err(FormatterError::NoGrammar) => {
                let string = RefCount::new(text);
                if caching {
                    self.add_string_to_cache(language_tag, combined, &string, &tag);
                }
                return Ok((string, tag));
            }
            Err(error) => return Err(error.into()),
        };''')],AL),
"loc_lookup_helper":([(L,'''            if let Some(result) = binding.get(language_tag) {
                if let Some(result2) = result.get(&combined) {
                    return match result2 {
                        CacheData::Localised(string, tag) => {
                            Ok((RefCount::clone(string), RefCount::clone(tag)))
                        } //lstring.clone()),''','''            if let Some(entry) = binding.get(language_tag).and_then(|map| map.get(&combined)) {
                {
                    return match entry {
                        CacheData::Localised(string, tag) => {
                            Ok((RefCount::clone(string), RefCount::clone(tag)))
                        } //lstring.clone()),''')],AL),
"loc_data_match":([(L,'''        Ok(if data.values.is_none() {
            self.actual_literal(
                data.component.as_str(),
                data.identifier.as_str(),
                language_tag,
                fallback,
                caching,
            )?
        } else {
            let mut values_new = HashMap::<String, PlaceholderValue>::new();
            for (placeholder, value) in data.values.as_ref().unwrap() {
                match value {
                    PlaceholderValue::LocalisationData(inner) => {
                        let localised = self.actual_format_localisation_data(
                            inner,
                            language_tag,
                            fallback,
                            caching,
                        )?;
                        let _ = values_new.insert(
                            placeholder.clone(),
                            PlaceholderValue::Localised(localised.0, localised.1),
                        );
                    }
                    _ => {
                        let _ = values_new.insert(placeholder.to_string(), value.clone());
                    }
                }
            }
            self.actual_format(
                data.component.as_str(),
                data.identifier.as_str(),
                &values_new,
                language_tag,
                fallback,
                caching,
            )?
        })''','''        let Some(values) = &data.values else {
            return self.actual_literal(
                &data.component,
                &data.identifier,
                language_tag,
                fallback,
                caching,
            );
        };
        let mut values_new = HashMap::<String, PlaceholderValue>::with_capacity(values.len());
        for (placeholder, value) in values.iter() {
            let new_value = if let PlaceholderValue::LocalisationData(inner) = value {
                let (string, tag) = self.actual_format_localisation_data(
                    inner,
                    language_tag,
                    fallback,
                    caching,
                )?;
                PlaceholderValue::Localised(string, tag)
            } else {
                value.clone()
            };
            values_new.insert(placeholder.clone(), new_value);
        }
        self.actual_format(
            &data.component,
            &data.identifier,
            &values_new,
            language_tag,
            fallback,
            caching,
        )''')],AL),
"loc_data_collect":([(L,'''            let mut values_new = HashMap::<String, PlaceholderValue>::new();
            for (placeholder, value) in data.values.as_ref().unwrap() {
                match value {
                    PlaceholderValue::LocalisationData(inner) => {
                        let localised = self.actual_format_localisation_data(
                            inner,
                            language_tag,
                            fallback,
                            caching,
                        )?;
                        let _ = values_new.insert(
                            placeholder.clone(),
                            PlaceholderValue::Localised(localised.0, localised.1),
                        );
                    }
                    _ => {
                        let _ = values_new.insert(placeholder.to_string(), value.clone());
                    }
                }
            }
''','''            let values_new = data
                .values
                .as_ref()
                .unwrap()
                .iter()
                .map(|(placeholder, value)| {
                    let value = match value {
                        PlaceholderValue::LocalisationData(inner) => {
                            let localised = self.actual_format_localisation_data(
                                inner,
                                language_tag,
                                fallback,
                                caching,
                            )?;
                            PlaceholderValue::Localised(localised.0, localised.1)
                        }
                        _ => value.clone(),
                    };
                    Ok((placeholder.clone(), value))
                })
                .collect::<Result<HashMap<String, PlaceholderValue>, LocaliserError>>()?;
''')],AL),
"loc_defaults_order":([(L,'''        if let Some(language_tag) = language_tag {
            #[cfg(not(feature = "sync"))]
            {
                self.language_tag.replace(language_tag);
                let binding = self.language_tag.borrow();
                self.language_script_data.replace(get_script_data(
                    binding.as_str(),
                    &self.script_data,
                    &self.expander,
                ));
            }

            #[cfg(feature = "sync")]
            {
                *self.language_tag.write().unwrap() = language_tag;
                let binding = self.language_tag.read().unwrap();
                *self.language_script_data.write().unwrap() =
                    get_script_data(binding.as_str(), &self.script_data, &self.expander);
            }
        }''','''        if let Some(language_tag) = language_tag {
            let data = self.script_data_for_language_tag(&language_tag);

            #[cfg(not(feature = "sync"))]
            {
                self.language_script_data.replace(data);
                self.language_tag.replace(language_tag);
            }

            #[cfg(feature = "sync")]
            {
                *self.language_tag.write().unwrap() = language_tag;
                *self.language_script_data.write().unwrap() = data;
            }
        }''')],AL),
"loc_cache_direct":([(L,'''            binding
                .entry(RefCount::clone(language_tag))
                .or_default()
                .insert(
                    combined.clone(),
                    CacheData::Formatter(MutCell::new(formatter)),
                );''','''            let strings = binding.entry(RefCount::clone(language_tag)).or_default();
            strings.insert(
                combined.clone(),
                CacheData::Formatter(MutCell::new(formatter)),
            );'''),(L,'''        let result = binding.get(language_tag).unwrap();
        let result2 = result.get(&combined).unwrap();
        match result2 {''','''        match binding.get(language_tag).and_then(|r| r.get(&combined)).unwrap() {''')],AL),
"script_match":([(L,'''        let mut locale = Locale::try_from_bytes(tag.as_bytes()).unwrap();
        if locale.id.script.is_some() {
            return script_data.get(locale.id.script.unwrap().as_str()).cloned();
        } else {
            match expander.maximize(locale.as_mut()) {
                TransformResult::Modified => {
                    return script_data.get(locale.id.script.unwrap().as_str()).cloned()
                }
                TransformResult::Unmodified => None,
            }
        }''','''        let mut locale = Locale::try_from_bytes(tag.as_bytes()).unwrap();
        if locale.id.script.is_none()
            && expander.maximize(locale.as_mut()) == TransformResult::Unmodified
        {
            return None;
        }
        script_data.get(locale.id.script.unwrap().as_str()).cloned()'''),(L,'''        let mut identifier = LanguageIdentifier::try_from_bytes(tag.as_bytes()).unwrap();
        if identifier.script.is_some() {
            return script_data
                .get(identifier.script.unwrap().as_str())
                .cloned();
        } else {
            match expander.maximize(identifier.as_mut()) {
                TransformResult::Modified => {
                    return script_data
                        .get(identifier.script.unwrap().as_str())
                        .cloned()
                }
                TransformResult::Unmodified => None,
            }
        }''','''        let mut identifier = LanguageIdentifier::try_from_bytes(tag.as_bytes()).unwrap();
        if let Some(script) = identifier.script {
            return script_data.get(script.as_str()).cloned();
        }
        match expander.maximize(identifier.as_mut()) {
            TransformResult::Modified => script_data
                .get(identifier.script.unwrap().as_str())
                .cloned(),
            TransformResult::Unmodified => None,
        }''')],AL),
"contains_any":([(L,'''        if caching && !string.contains(|character| self.grammar.contains(character)) {
            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
        }''','''        if caching {
            let has_grammar = string.chars().any(|character| self.grammar.contains(character));
            if !has_grammar {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
            }
        }''')],AL),
}
