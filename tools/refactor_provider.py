import re
P = "provider/sqlite3/src/provider.rs"
A = "C13 C14 C17 C18 C19 C20 C21 C22 C23 C24 C25"
ERR = '''return Err(ProviderError::Custom(RefCount::new(Box::new(
%s    ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
%s))))'''
HELP = '''
fn sqlite_error(error: rusqlite::Error) -> ProviderError {
    ProviderError::Custom(RefCount::new(Box::new(ProviderSqlite3Error::Sqlite3(
        RefCount::new(error),
    ))))
}
'''


def err_helper(s):
    """every `match X { Ok(value) => value, Err(error) => return Err(Custom(..)) }` becomes X.map_err(sqlite_error)?"""
    s = re.sub(r"match ([^{};]*?) \{\n *Ok\(value\) => value,\n *Err\(error\) => \{\n *return Err\(ProviderError::Custom\(RefCount::new\(Box::new\(\n *ProviderSqlite3Error::Sqlite3\(RefCount::new\(error\)\),\n *\)\)\)\)\n *\}\n *\}",
               r"\1.map_err(sqlite_error)?", s)
    return s + HELP


def err_fn_only(s):
    s = re.sub(r"return Err\(ProviderError::Custom\(RefCount::new\(Box::new\(\n *ProviderSqlite3Error::Sqlite3\(RefCount::new\(error\)\),\n *\)\)\)\)", "return Err(sqlite_error(error))", s)
    return s + HELP


QUERY = re.compile(r'''        let mut _query: Option<String> = None;
        \{
            #\[cfg\(not\(feature = "sync"\)\)\]
            let borrow = self\.queries\.borrow\(\);

            #\[cfg\(feature = "sync"\)\]
            let borrow = self\.queries\.lock\(\)\.unwrap\(\);

            _query = borrow\.get\(&query_identifier\)\.cloned\(\);
        \}

        #\[cfg\(not\(feature = "sync"\)\)\]
        if _query\.is_none\(\) \{
            \{
                self\s*\.queries\s*\.borrow_mut\(\)\s*\.insert\(\s*query_identifier\.clone\(\),\s*(query_\w+\([^()]*\)),?\s*\);
            \}
            let borrow = self\.queries\.borrow\(\);
            _query = borrow\.get\(&query_identifier\)\.cloned\(\);
        \}

        #\[cfg\(feature = "sync"\)\]
        if _query\.is_none\(\) \{
            \{
                self\s*\.queries\s*\.lock\(\)\s*\.unwrap\(\)\s*\.insert\(\s*query_identifier\.clone\(\),\s*(query_\w+\([^()]*\)),?\s*\);
            \}
            let borrow = self\.queries\.lock\(\)\.unwrap\(\);
            _query = borrow\.get\(&query_identifier\)\.cloned\(\);
        \}
''')


def query_entry(s):
    n, k = QUERY.subn(r'''        #[cfg(not(feature = "sync"))]
        let mut queries = self.queries.borrow_mut();
        #[cfg(feature = "sync")]
        let mut queries = self.queries.lock().unwrap();
        let query = queries
            .entry(query_identifier)
            .or_insert_with(|| \1)
            .clone();
        drop(queries);
''', s)
    assert k == 6, k
    n = n.replace("_query.as_ref().unwrap()", "query").replace("_query.unwrap().as_str()", "query.as_str()")
    return n


def query_helper(s):
    n, k = QUERY.subn(r'''        let query = self.cached_query(&query_identifier, || \1);
''', s)
    assert k == 6, k
    n = n.replace("_query.as_ref().unwrap()", "query").replace("_query.unwrap().as_str()", "query.as_str()")
    return n.replace('''    // Internal functions.
''', '''    // Internal functions.

    fn cached_query<F: FnOnce() -> String>(&self, identifier: &str, build: F) -> String {
        #[cfg(not(feature = "sync"))]
        let known = self.queries.borrow().get(identifier).cloned();
        #[cfg(feature = "sync")]
        let known = self.queries.lock().unwrap().get(identifier).cloned();
        if let Some(query) = known {
            return query;
        }
        let query = build();
        #[cfg(not(feature = "sync"))]
        self.queries
            .borrow_mut()
            .insert(identifier.to_string(), query.clone());
        #[cfg(feature = "sync")]
        self.queries
            .lock()
            .unwrap()
            .insert(identifier.to_string(), query.clone());
        query
    }
''', 1)


def no_cache(s):
    n, k = QUERY.subn(r'''        let _ = (&query_identifier, &self.queries);
        let query = \1;
''', s)
    assert k == 6, k
    return n.replace("_query.as_ref().unwrap()", "query").replace("_query.unwrap().as_str()", "query.as_str()")


def connect_helper(s):
    k = s.count('''        #[cfg(not(feature = "sync"))]
        let (connection, schema_version) = self.connection(component, all_in_one)?;

        #[cfg(feature = "sync")]
        let (connection, schema_version) = self.connection_sync(component, all_in_one)?;
''')
    assert k == 6, k
    s = s.replace('''        #[cfg(not(feature = "sync"))]
        let (connection, schema_version) = self.connection(component, all_in_one)?;

        #[cfg(feature = "sync")]
        let (connection, schema_version) = self.connection_sync(component, all_in_one)?;
''', '''        let (connection, schema_version) = self.connect(component, all_in_one)?;
''')
    return s.replace("fn connection(", "fn connect(").replace("fn connection_sync(", "fn connect(")


def open_helper(s):
    k = s.count('''Connection::open_with_flags(
                            path.clone(),
                            OpenFlags::SQLITE_OPEN_READ_ONLY
                                | OpenFlags::SQLITE_OPEN_NO_MUTEX
                                | OpenFlags::SQLITE_OPEN_URI,
                        )''')
    assert k == 2
    s = s.replace('''Connection::open_with_flags(
                            path.clone(),
                            OpenFlags::SQLITE_OPEN_READ_ONLY
                                | OpenFlags::SQLITE_OPEN_NO_MUTEX
                                | OpenFlags::SQLITE_OPEN_URI,
                        )''', "open_read_only(&path)")
    s = s.replace('''Connection::open_with_flags(
                &result.0,
                OpenFlags::SQLITE_OPEN_READ_ONLY
                    | OpenFlags::SQLITE_OPEN_NO_MUTEX
                    | OpenFlags::SQLITE_OPEN_URI,
            )''', "open_read_only(&result.0)")
    return s + '''
fn open_read_only(path: &std::path::Path) -> rusqlite::Result<Connection> {
    let flags = OpenFlags::SQLITE_OPEN_READ_ONLY
        | OpenFlags::SQLITE_OPEN_NO_MUTEX
        | OpenFlags::SQLITE_OPEN_URI;
    Connection::open_with_flags(path, flags)
}
'''


def open_const(s):
    s = re.sub(r"OpenFlags::SQLITE_OPEN_READ_ONLY\n *\| OpenFlags::SQLITE_OPEN_NO_MUTEX\n *\| OpenFlags::SQLITE_OPEN_URI,", "READ_ONLY,", s)
    return s + '''
const READ_ONLY: OpenFlags = OpenFlags::SQLITE_OPEN_READ_ONLY
    .union(OpenFlags::SQLITE_OPEN_NO_MUTEX)
    .union(OpenFlags::SQLITE_OPEN_URI);
'''


LD = '''LanguageData {
%(i)s    count: 0usize,
%(i)s    ratio: 0f32,
%(i)s    contributors: Vec::<String>::new(),
%(i)s}'''


def empty_data(s):
    n, k = re.subn(r"LanguageData \{\s*count: 0usize,\s*ratio: 0f32,\s*contributors: Vec::<String>::new\(\),\s*\}", "empty_language()", s)
    assert k == 4
    return n + '''
fn empty_language() -> LanguageData {
    LanguageData {
        count: 0,
        ratio: 0.0,
        contributors: Vec::new(),
    }
}
'''


def for_direct(s):
    n = re.sub(r"let (\w+_iterator) = ([^;]+);\n( *)for (\w+) in \1 \{", r"for \4 in \2 {", s)
    assert n != s
    return n


EDITS = {
"err_helper": ([(P, err_helper, None)], A),
"err_fn_only": ([(P, err_fn_only, None)], A),
"query_entry": ([(P, query_entry, None)], A),
"query_helper": ([(P, query_helper, None)], A),
"no_cache": ([(P, no_cache, None)], A),
"connect_helper": ([(P, connect_helper, None)], A),
"open_helper": ([(P, open_helper, None)], A),
"open_const": ([(P, open_const, None)], A),
"empty_data": ([(P, empty_data, None)], A),
"for_direct": ([(P, for_direct, None)], A),
"query_id_format": ([(P, '''        let mut query_identifier = "Pattern".to_string();
        if exact {
            query_identifier.push_str("Exact");
        }
        if all_in_one {
            query_identifier.push_str("Aio");
        }
        if only_one {
            query_identifier.push_str("One");
        }
''', '''        let query_identifier = format!(
            "Pattern{}{}{}",
            if exact { "Exact" } else { "" },
            if all_in_one { "Aio" } else { "" },
            if only_one { "One" } else { "" }
        );
''')], A),
"query_id_match": ([(P, '''        let mut query_identifier = "Languages".to_string();
        if all_in_one {
            query_identifier.push_str("Aio");
        }
''', '''        let query_identifier = match all_in_one {
            true => "LanguagesAio",
            false => "Languages",
        }
        .to_string();
''')], A),
"pattern_literals": ([(P, '''            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \\
            languageTag "
                .to_string();
            if exact {
                query.push_str("= ?2")
            } else {
                query.push_str("|| '-' LIKE ?2")
            }
            query.push_str(" AND component = ?3");
            if only_one {
                query.push_str(" LIMIT 1")
            }
            query
''', '''            let condition = if exact {
                "languageTag = ?2"
            } else {
                "languageTag || '-' LIKE ?2"
            };
            let limit = if only_one { " LIMIT 1" } else { "" };
            format!(
                "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND {} AND component = ?3{}",
                condition, limit
            )
''')], A),
"pattern_reordered_sql": ([(P, '''            query.push_str(" AND component = ?3");
            if only_one {
                query.push_str(" LIMIT 1")
            }
            query
''', '''            query += " AND component = ?3";
            if only_one {
                query += " LIMIT 1";
            }
            query
'''), (P, '''"SELECT languageTag FROM pattern WHERE identifier = ?1 AND component = ?2"''', '''"SELECT languageTag FROM pattern WHERE component = ?2 AND identifier = ?1"''')], A),
"find_fallback_loop": ([(P, '''        let mut tag = language_tag.as_str().to_string();
        while !tag.is_empty() {
            let pattern = match exact {
                true => tag.clone(),
                false => format!("{}-%", tag),
            };
''', '''        let mut tag = language_tag.as_str();
        while !tag.is_empty() {
            let pattern = if exact {
                tag.to_string()
            } else {
                format!("{tag}-%")
            };
'''), (P, '''            tag = match tag.rsplit_once('-') {
                None => String::new(),
                Some(value) => value.0.to_owned(),
            };
''', '''            tag = tag.rsplit_once('-').map_or("", |(parent, _)| parent);
''')], A),
"find_loop_break": ([(P, '''        while !tag.is_empty() {
            let pattern = match exact {
                true => tag.clone(),
                false => format!("{}-%", tag),
            };
''', '''        loop {
            if tag.is_empty() {
                break;
            }
            let mut pattern = tag.clone();
            if !exact {
                pattern.push_str("-%");
            }
'''), (P, '''            tag = match tag.rsplit_once('-') {
                None => String::new(),
                Some(value) => value.0.to_owned(),
            };
''', '''            match tag.rfind('-') {
                None => break,
                Some(index) => tag.truncate(index),
            }
''')], A),
"find_row_helper": ([(P, '''                let string: String = match row.get(0) {
                    Ok(value) => value,
                    Err(error) => {
                        return Err(ProviderError::Custom(RefCount::new(Box::new(
                            ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
                        ))))
                    }
                };
                let tag_raw: String = match row.get(1) {
                    Ok(value) => value,
                    Err(error) => {
                        return Err(ProviderError::Custom(RefCount::new(Box::new(
                            ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
                        ))))
                    }
                };
                let language = self.language_tag_registry.as_ref().tag(tag_raw.as_str())?;
                strings.push((string, language));
''', '''                strings.push(self.string_of_row(row)?);
'''), (P, '''    // Fallback to <component>.sqlite3 is handled by caller.
    fn find_strings(''', '''    fn string_of_row(
        &self,
        row: &Row<'_>,
    ) -> Result<(String, RefCount<LanguageTag>), ProviderError> {
        let text = |index: usize| {
            row.get::<usize, String>(index).map_err(|error| {
                ProviderError::Custom(RefCount::new(Box::new(ProviderSqlite3Error::Sqlite3(
                    RefCount::new(error),
                ))))
            })
        };
        let string = text(0)?;
        let raw = text(1)?;
        Ok((string, self.language_tag_registry.tag(&raw)?))
    }

    // Fallback to <component>.sqlite3 is handled by caller.
    fn find_strings(''')], A),
"string_helper": ([(P, '''        if component_files.0 {
            #[cfg(feature = "logging")]
            debug!("Trying the '__all_in_one__.sqlite3' for string.");

            let mut strings =
                self.find_strings(component, identifier, language_tag, true, true, false)?;
            if !strings.is_empty() {
                return Ok(strings.pop());
            }
        }

        // Not found in __all_in_one__.sqlite3 or not present. Trying individual <component>.sqlite3 file.
        #[cfg(feature = "logging")]
        debug!("Trying the component sqlite3 file for string.");

        if component_files.1 {
            let mut strings =
                self.find_strings(component, identifier, language_tag, false, true, false)?;
            if !strings.is_empty() {
                return Ok(strings.pop());
            }
        }
        Ok(None)
''', '''        let (in_all, own) = *component_files;
        for (present, all_in_one) in [(in_all, true), (own, false)] {
            if !present {
                continue;
            }
            let found = self.find_strings(
                component,
                identifier,
                language_tag,
                all_in_one,
                true,
                false,
            )?;
            if let Some(string) = found.into_iter().next() {
                return Ok(Some(string));
            }
        }
        Ok(None)
''')], A),
"exact_pop": ([(P, '''                self.find_strings(component, identifier, language_tag, true, true, true)?;
            if !strings.is_empty() {
                return Ok(strings.pop());
            }
''', '''                self.find_strings(component, identifier, language_tag, true, true, true)?;
            if let Some(string) = strings.pop() {
                return Ok(Some(string));
            }
'''), (P, '''            let mut strings =
                self.find_strings(component, identifier, language_tag, false, true, true)?;
            if !strings.is_empty() {
                return Ok(strings.pop());
            }
        }
        Ok(None)
''', '''            return self
                .find_strings(component, identifier, language_tag, false, true, true)
                .map(|mut strings| strings.pop());
        }
        Ok(None)
''')], A),
"strings_early": ([(P, '''        let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();

        // Try __all_in_one__.sqlite3 first.
        if component_files.0 {
            #[cfg(feature = "logging")]
            debug!("Trying the '__all_in_one__.sqlite3' for strings.");

            strings = self.find_strings(component, identifier, language_tag, true, false, false)?;
            if !strings.is_empty() {
                return Ok(strings);
            }
        }

        // Not found in __all_in_one__.sqlite3 or not present. Trying individual <component>.sqlite3 file.
        #[cfg(feature = "logging")]
        debug!("Trying the component sqlite3 file for strings.");

        if component_files.1 {
            strings =
                self.find_strings(component, identifier, language_tag, false, false, false)?;
        }
        Ok(strings)
''', '''        let &(in_all, own) = component_files;
        let strings = if in_all {
            self.find_strings(component, identifier, language_tag, true, false, false)?
        } else {
            Vec::new()
        };
        if strings.is_empty() && own {
            self.find_strings(component, identifier, language_tag, false, false, false)
        } else {
            Ok(strings)
        }
''')], A),
"scan_component_entry": ([(P, '''                                if components.contains_key(&component) {
                                    let value = components.get_mut(&component).unwrap();
                                    value.1 = true;
                                } else {
                                    components.insert(component.clone(), (false, true));
                                }
''', '''                                components
                                    .entry(component.clone())
                                    .or_insert((false, false))
                                    .1 = true;
'''), (P, '''                                        if let std::collections::hash_map::Entry::Vacant(e) =
                                            components.entry(component.clone())
                                        {
                                            e.insert((true, false));
                                        } else {
                                            let value = components.get_mut(&component).unwrap();
                                            value.0 = true;
                                        }
''', '''                                        components
                                            .entry(component)
                                            .and_modify(|value| value.0 = true)
                                            .or_insert((true, false));
''')], A),
"scan_get_mut": ([(P, '''                                if components.contains_key(&component) {
                                    let value = components.get_mut(&component).unwrap();
                                    value.1 = true;
                                } else {
                                    components.insert(component.clone(), (false, true));
                                }
''', '''                                match components.get_mut(&component) {
                                    Some(value) => value.1 = true,
                                    None => {
                                        components.insert(component.clone(), (false, true));
                                    }
                                }
''')], A),
"scan_extension": ([(P, '''            if let Some(extension) = entry_data.path().extension() {
                if extension == "sqlite3" {
                    let path = entry_data.path();
''', '''            let path = entry_data.path();
            {
                if path.extension().is_some_and(|extension| extension == "sqlite3") {
''')], A),
"scan_continue": ([(P, '''            let entry_data = entry?; // If IO error is returned, usually it is a permission issue.
            if let Some(extension) = entry_data.path().extension() {
                if extension == "sqlite3" {
                    let path = entry_data.path();
''', '''            let path = entry?.path();
            match path.extension() {
                Some(extension) if extension == "sqlite3" => {}
                _ => continue,
            }
            {
                {
'''), (P, '''component.as_str().cmp("__all_in_one__") == Ordering::Equal''', '''component == "__all_in_one__"''')], A),
"scan_register_helper": ([(P, '''                                {
                                    let mut statement = connection
                                        .prepare_cached("SELECT identifier FROM component")?;
                                    let mut rows = statement.query([])?;
                                    while let Some(row) = rows.next()? {
                                        let component: String = row.get(0)?;

                                        #[cfg(logging)]
                                        trace!(
                                            "__all_in_one__.sqlite3 has component: {}",
                                            component
                                        );

                                        if let std::collections::hash_map::Entry::Vacant(e) =
                                            components.entry(component.clone())
                                        {
                                            e.insert((true, false));
                                        } else {
                                            let value = components.get_mut(&component).unwrap();
                                            value.0 = true;
                                        }
                                    }
                                }
''', '''                                for name in component_names(&connection)? {
                                    components.entry(name).or_insert((false, false)).0 = true;
                                }
'''), (P, '''fn query_default(schema_version: &str) -> String {''', '''fn component_names(connection: &Connection) -> Result<Vec<String>, rusqlite::Error> {
    let mut statement = connection.prepare_cached("SELECT identifier FROM component")?;
    let mut rows = statement.query([])?;
    let mut names = Vec::new();
    while let Some(row) = rows.next()? {
        names.push(row.get(0)?);
    }
    Ok(names)
}

fn query_default(schema_version: &str) -> String {''')], A),
"connection_chain": ([(P, '''        #[allow(unused_variables)]
        let Some(value) = self.components.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        };
        if all_in_one && value.0 {
            let result = self.connections.get("__all_in_one__").unwrap();
            return Ok((RefCount::clone(&result.0), result.1.as_str()));
        }
        if value.1 {
            let result = self.connections.get(component).unwrap();
            return Ok((RefCount::clone(&result.0), result.1.as_str()));
        }
        Err(ProviderError::ComponentNotFound(component.to_string()))
''', '''        let not_found = || ProviderError::ComponentNotFound(component.to_string());
        let &(in_all, own) = self.components.get(component).ok_or_else(not_found)?;
        let key = if all_in_one && in_all {
            "__all_in_one__"
        } else if own {
            component
        } else {
            return Err(not_found());
        };
        let (connection, version) = &self.connections[key];
        Ok((RefCount::clone(connection), version))
''')], A),
"details_get_or": ([(P, '''        let components = match self.component_details.get() {
            None => {
                self.build_cache()?;
                self.component_details.get().unwrap()
            }
            Some(value) => value,
        };
        match components.get(component) {
            None => Err(ProviderError::ComponentNotFound(component.to_string())),
            Some(value) => Ok(RefCount::clone(value)),
        }
''', '''        if self.component_details.get().is_none() {
            self.build_cache()?;
        }
        self.component_details
            .get()
            .unwrap()
            .get(component)
            .cloned()
            .ok_or_else(|| ProviderError::ComponentNotFound(component.to_string()))
'''), (P, '''        match self.repository_details.get() {
            None => {
                self.build_cache()?;
                return Ok(RefCount::clone(self.repository_details.get().unwrap()));
            }
            Some(value) => Ok(RefCount::clone(value)),
        }
''', '''        if let Some(value) = self.repository_details.get() {
            return Ok(RefCount::clone(value));
        }
        self.build_cache()?;
        Ok(self.repository_details.get().unwrap().clone())
''')], A),
"identifier_details_reorder": ([(P, '''        match components.get(component) {
            None => Err(ProviderError::ComponentNotFound(component.to_string())),
            Some(component_details) => {
                let mut languages = self.identifier_languages(component, identifier, true)?;
                if languages.is_empty() && self.components.get(component).is_some_and(|x| x.1) {
                    languages = self.identifier_languages(component, identifier, false)?;
                }
                Ok(IdentifierDetails {
                    languages,
                    default: RefCount::clone(&component_details.default),
                })
            }
        }
''', '''        let Some(details) = components.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        };
        let default = RefCount::clone(&details.default);
        let own = self.components.get(component).is_some_and(|files| files.1);
        let mut languages = self.identifier_languages(component, identifier, true)?;
        if own && languages.is_empty() {
            languages = self.identifier_languages(component, identifier, false)?;
        }
        Ok(IdentifierDetails { languages, default })
''')], A),
"count_once": ([(P, '''        let mut count = 0usize;
        let mut rows = match statement.query([language_tag.as_str(), component]) {
            Ok(value) => value,
            Err(error) => {
                return Err(ProviderError::Custom(RefCount::new(Box::new(
                    ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
                ))))
            }
        };
        while let Some(row) = match rows.next() {
            Ok(value) => value,
            Err(error) => {
                return Err(ProviderError::Custom(RefCount::new(Box::new(
                    ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
                ))))
            }
        } {
            count = match row.get(0) {
                Ok(value) => value,
                Err(error) => {
                    return Err(ProviderError::Custom(RefCount::new(Box::new(
                        ProviderSqlite3Error::Sqlite3(RefCount::new(error)),
                    ))))
                }
            };
        }
        Ok(count)
''', '''        let failed = |error| {
            ProviderError::Custom(RefCount::new(Box::new(ProviderSqlite3Error::Sqlite3(
                RefCount::new(error),
            ))))
        };
        let mut rows = statement
            .query([language_tag.as_str(), component])
            .map_err(failed)?;
        let mut count = 0usize;
        while let Some(row) = rows.next().map_err(failed)? {
            count = row.get(0).map_err(failed)?;
        }
        Ok(count)
''')], A),
"cache_component_pattern": ([(P, '''        let components_iterator = self.components.iter();
        for component in components_iterator {
            repository_details.components.push(component.0.to_string());
''', '''        for (name, files) in &self.components {
            let component = (name, files);
            repository_details.components.push(name.clone());
''')], A),
"cache_contains_entry": ([(P, '''                languages = self.languages(component.0, true)?;
                let languages_iterator = languages.iter();
                for language in languages_iterator {
                    component_details.languages.insert(
                        RefCount::clone(language),
                        LanguageData {
                            count: 0usize,
                            ratio: 0f32,
                            contributors: Vec::<String>::new(),
                        },
                    );
                    if !repository_details.languages.contains_key(language) {
                        repository_details.languages.insert(
                            RefCount::clone(language),
                            LanguageData {
                                count: 0usize,
                                ratio: 0f32,
                                contributors: Vec::<String>::new(),
                            },
                        );
                    }
                }
''', '''                languages = self.languages(component.0, true)?;
                for language in &languages {
                    component_details.languages.insert(
                        RefCount::clone(language),
                        LanguageData {
                            count: 0usize,
                            ratio: 0f32,
                            contributors: Vec::<String>::new(),
                        },
                    );
                    repository_details
                        .languages
                        .entry(RefCount::clone(language))
                        .or_insert_with(|| LanguageData {
                            count: 0usize,
                            ratio: 0f32,
                            contributors: Vec::<String>::new(),
                        });
                }
''')], A),
"cache_count_let": ([(P, '''                if component.1 .0 {
                    language_data.count = self.count(component.0, language, true)?;
                }
                if component.1 .1 {
                    language_data.count += self.count(component.0, language, false)?;
                }
                let repository_language = repository_details.languages.get_mut(language).unwrap();
                repository_language.count += language_data.count;
                component_details.total_strings += language_data.count;
                repository_details.total_strings += language_data.count;
''', '''                let mut count = 0;
                if component.1 .0 {
                    count += self.count(component.0, language, true)?;
                }
                if component.1 .1 {
                    count += self.count(component.0, language, false)?;
                }
                language_data.count = count;
                component_details.total_strings += count;
                repository_details.total_strings += count;
                if let Some(repository_language) = repository_details.languages.get_mut(language) {
                    repository_language.count += count;
                }
''')], A),
"cache_ratio": ([(P, '''            let mut _count = 0usize;
            {
                let default_language_data = component_details
                    .languages
                    .get(&component_details.default)
                    .unwrap();
                _count = default_language_data.count;
            }
            let languages_iterator = component_details.languages.iter_mut();
            for language_data in languages_iterator {
                language_data.1.ratio = language_data.1.count as f32 / _count as f32;
            }
''', '''            let base = component_details.languages[&component_details.default].count as f32;
            for data in component_details.languages.values_mut() {
                data.ratio = data.count as f32 / base;
            }
'''), (P, '''        if repository_details.default.is_some() {
            let mut _count = 0usize;
            {
                let default_language_data = repository_details
                    .languages
                    .get(repository_details.default.as_ref().unwrap())
                    .unwrap();
                _count = default_language_data.count;
            }
            let languages_iterator = repository_details.languages.iter_mut();
            for language_data in languages_iterator {
                language_data.1.ratio = language_data.1.count as f32 / _count as f32;
            }
        }
''', '''        if let Some(default) = &repository_details.default {
            let base = repository_details.languages[default].count;
            for (_, data) in repository_details.languages.iter_mut() {
                data.ratio = data.count as f32 / base as f32;
            }
        }
''')], A),
"cache_default": ([(P, '''            let mut language = None;
            if component.1 .0 {
                language = self.default_language(component.0, true)?;
            }
            if language.is_none() && component.1 .1 {
                language = self.default_language(component.0, false)?;
            }
            if language.is_none() {
                return Err(ProviderError::DefaultLanguage(component.0.to_string()));
            }
            if !component_details
                .languages
                .contains_key(language.as_ref().unwrap())
            {
                return Err(ProviderError::InvalidDefaultLanguage(
                    component.0.to_string(),
                ));
            }
            component_details.default = RefCount::clone(language.as_ref().unwrap());
            if component.0.as_str().cmp("application") == Ordering::Equal {
                repository_details.default = language;
            }
''', '''            let mut language = if component.1 .0 {
                self.default_language(component.0, true)?
            } else {
                None
            };
            if component.1 .1 && language.is_none() {
                language = self.default_language(component.0, false)?;
            }
            let Some(default) = language else {
                return Err(ProviderError::DefaultLanguage(component.0.clone()));
            };
            if !component_details.languages.contains_key(&default) {
                return Err(ProviderError::InvalidDefaultLanguage(component.0.clone()));
            }
            if component.0 == "application" {
                repository_details.default = Some(RefCount::clone(&default));
            }
            component_details.default = default;
''')], A),
"schema_any": ([(P, '''            if name.as_str() == "metadata" {
                metadata = true;
            }
            table_list.push(name);
''', '''            metadata = metadata || name == "metadata";
            table_list.push(name);
''')], A),
"schema_tables_loop": ([(P, '''            table_exists(&table_list, "contributor")?;
            table_exists(&table_list, "language")?;
            table_exists(&table_list, "pattern")?;
            table_exists(&table_list, "component")?;
            table_exists(&table_list, "languageData")?;
''', '''            for table in [
                "contributor",
                "language",
                "pattern",
                "component",
                "languageData",
            ] {
                table_exists(&table_list, table)?;
            }
''')], A),
"schema_exists_any": ([(P, '''    let mut found = false;
    for table in table_list {
        if table.as_str() == name {
            found = true;
        }
    }
    if !found {
        return Err(SchemaError::MissingTable(name.to_string()));
    }
    Ok(())
''', '''    if table_list.iter().any(|table| table == name) {
        Ok(())
    } else {
        Err(SchemaError::MissingTable(name.to_string()))
    }
''')], A),
"schema_check_let": ([(P, '''    let name_: String = row.get(1)?;
    if name_.as_str() != name {
        return Err(SchemaError::MissingColumn(
            table.to_string(),
            name.to_string(),
        ));
    }
    let type__: String = row.get(2)?;
    if type__.as_str() != type_ {
''', '''    let found: String = row.get(1)?;
    if found != name {
        return Err(SchemaError::MissingColumn(
            table.to_owned(),
            name.to_owned(),
        ));
    }
    let kind = row.get::<_, String>(2)?;
    if !(kind == type_) {
''')], A),
}
