import re
L="localiser/src/localiser.rs"
A="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C34 C36 C38 C39 C40 C41 C43 C44"
def sub(a,b,count=None):
    def g(s):
        assert a in s and (count is None or s.count(a)==count),(s.count(a),a)
        return s.replace(a,b)
    return g
def chain(*fs):
    def g(s):
        for f in fs: s=f(s)
        return s
    return g
def rx(a,b,n):
    def g(s):
        s,k=re.subn(a,b,s)
        assert k==n,k
        return s
    return g
NF=r'''return match self\.(actual_\w+)\(([^;]*?)\) \{
                        Err\(LocaliserError::StringNotFound\(_, _, _, _\)\) => \{
                            Err\(LocaliserError::StringNotFound\(
                                component\.to_string\(\),
                                identifier\.to_string\(\),
                                language_tag\.as_str\(\)\.to_owned\(\),
                                true,
                            \)\)
                        \}
                        result => result,
                    \};'''
CACHED='''            if let Some(result) = binding.get(language_tag) {
                if let Some(result2) = result.get(&combined) {
                    return match result2 {'''
CACHED2='''            if let Some(result2) = binding
                .get(language_tag)
                .and_then(|result| result.get(&combined))
            {
                {
                    return match result2 {'''
DEF='''                    let default_language = RefCount::clone(
                        &self
                            .localisation_provider
                            .component_details(component.as_ref())?
                            .default,
                    );
'''
NOT='''                        return Err(LocaliserError::StringNotFound(
                            component.to_string(),
                            identifier.to_string(),
                            language_tag.as_str().to_string(),
                            false,
                        ));'''
def data_helper(s):
    i=s.index("        Ok(if data.values.is_none() {"); j=s.index("    fn add_string_to_cache(")
    return s[:i]+'''        let component = data.component.as_str();
        let identifier = data.identifier.as_str();
        let Some(values) = &data.values else {
            return self.actual_literal(component, identifier, language_tag, fallback, caching);
        };
        let mut localised_values = HashMap::<String, PlaceholderValue>::with_capacity(values.len());
        for (placeholder, value) in values.iter() {
            let value = if let PlaceholderValue::LocalisationData(inner) = value {
                let (string, tag) =
                    self.actual_format_localisation_data(inner, language_tag, fallback, caching)?;
                PlaceholderValue::Localised(string, tag)
            } else {
                value.clone()
            };
            localised_values.insert(placeholder.clone(), value);
        }
        self.actual_format(
            component,
            identifier,
            &localised_values,
            language_tag,
            fallback,
            caching,
        )
    }

'''+s[j:]
def try_collect(s):
    i=s.index("            let mut values_new = HashMap"); j=s.index("            self.actual_format(\n                data.component.as_str(),",i)
    return s[:i]+'''            let values_new = data
                .values
                .as_ref()
                .unwrap()
                .iter()
                .map(|(placeholder, value)| {
                    let value = match value {
                        PlaceholderValue::LocalisationData(inner) => {
                            let localised = self.actual_format_localisation_data(
                                inner,
                                language_tag,
                                fallback,
                                caching,
                            )?;
                            PlaceholderValue::Localised(localised.0, localised.1)
                        }
                        other => other.clone(),
                    };
                    Ok((placeholder.clone(), value))
                })
                .collect::<Result<HashMap<String, PlaceholderValue>, LocaliserError>>()?;
'''+s[j:]
def delegate(s):
    """the methods with defaults call the ones with settings"""
    def one(s,name,call):
        i=s.index("    pub fn %s("%name); i=s.index(") -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {\n",i); i=s.index("{\n",i)+2
        j=s.index("\n    }\n",i)
        return s[:i]+"        let tag = self.default_language();\n        "+call+s[j:]
    s=one(s,"format_with_defaults","self.format(component, identifier, values, &tag, None, None)")
    s=one(s,"literal_with_defaults","self.literal(component, identifier, &tag, None, None)")
    s=one(s,"format_localisation_data_with_defaults","self.format_localisation_data(data, &tag, None, None)")
    s=one(s,"format_error_with_defaults","self.format_error(error, &tag, None, None)")
    return s
def error_delegate(s):
    i=s.index("    pub fn format_error("); i=s.index("LocaliserError> {\n",i)+len("LocaliserError> {\n"); j=s.index("\n    }\n",i)
    return s[:i]+"        let data = error.localisation_data();\n        self.format_localisation_data(&data, language_tag, fallback, caching)"+s[j:]
def settings(s):
    """one helper finds the settings to use"""
    s=re.sub(r'''        #\[cfg\(not\(feature = "sync"\)\)\]
        let bool_fallback = fallback\.unwrap_or\(\*self\.fallback\.borrow\(\)\);

        #\[cfg\(not\(feature = "sync"\)\)\]
        let bool_caching = caching\.unwrap_or\(\*self\.caching\.borrow\(\)\);

        #\[cfg\(feature = "sync"\)\]
        let bool_fallback = fallback\.unwrap_or\(\*self\.fallback\.read\(\)\.unwrap\(\)\);

        #\[cfg\(feature = "sync"\)\]
        let bool_caching = caching\.unwrap_or\(\*self\.caching\.read\(\)\.unwrap\(\)\);
''','''        let (bool_fallback, bool_caching) = self.settings(fallback, caching);
''',s)
    return s.replace('''    fn add_string_to_cache(''','''    fn settings(&self, fallback: Option<bool>, caching: Option<bool>) -> (bool, bool) {
        #[cfg(not(feature = "sync"))]
        let defaults = (*self.fallback.borrow(), *self.caching.borrow());

        #[cfg(feature = "sync")]
        let defaults = (
            *self.fallback.read().unwrap(),
            *self.caching.read().unwrap(),
        );

        (
            fallback.unwrap_or(defaults.0),
            caching.unwrap_or(defaults.1),
        )
    }

    fn add_string_to_cache(''')
def format_first(s):
    """the string is formatted before its formatter is kept"""
    i=s.index('        {\n            #[cfg(feature = "logging")]\n            debug!("Caching formatting string.");'); j=s.index("    fn actual_literal(")
    k=s.rindex("\n    }\n",i,j)
    return s[:i]+'''        let result = formatter
            .format(self, values)
            .map(|localised| (RefCount::new(localised.0), RefCount::clone(localised.1)))
            .map_err(LocaliserError::Formatter);

        #[cfg(feature = "logging")]
        debug!("Caching formatting string.");

        #[cfg(not(feature = "sync"))]
        let mut binding = self.cache.borrow_mut();

        #[cfg(feature = "sync")]
        let mut binding = self.cache.write().unwrap();

        binding
            .entry(RefCount::clone(language_tag))
            .or_default()
            .insert(combined, CacheData::Formatter(MutCell::new(formatter)));
        result'''+s[k:]
EDITS={
"cached_chain":([(L,sub(CACHED,CACHED2,2),"")],A),
"not_found_map_err":([(L,rx(NF,r'''return self.\1(\2).map_err(|error| match error {
                        LocaliserError::StringNotFound(..) => LocaliserError::StringNotFound(
                            component.to_string(),
                            identifier.to_string(),
                            language_tag.as_str().to_string(),
                            true,
                        ),
                        other => other,
                    });''',2),"")],A),
"not_found_helper":([(L,chain(sub(NOT,"                        return Err(not_found(component, identifier, language_tag, false));",2),rx(r'''Err\(LocaliserError::StringNotFound\(
                                component\.to_string\(\),
                                identifier\.to_string\(\),
                                language_tag\.as_str\(\)\.to_owned\(\),
                                true,
                            \)\)''','Err(not_found(component, identifier, language_tag, true))',2),sub("fn get_script_data(",'''fn not_found(
    component: &str,
    identifier: &str,
    language_tag: &RefCount<LanguageTag>,
    fallback: bool,
) -> LocaliserError {
    LocaliserError::StringNotFound(
        component.to_string(),
        identifier.to_string(),
        language_tag.as_str().to_string(),
        fallback,
    )
}

fn get_script_data(''',1)),"")],A),
"default_helper":([(L,chain(sub(DEF,"                    let default_language = self.component_default(component)?;\n",2),sub("    fn add_string_to_cache(",'''    fn component_default(&self, component: &str) -> Result<RefCount<LanguageTag>, LocaliserError> {
        let details = self.localisation_provider.component_details(component)?;
        Ok(RefCount::clone(&details.default))
    }

    fn add_string_to_cache(''',1)),"")],A),
"literal_strings":([(L,'''        if localised.0.is_empty() {
            let string = RefCount::new(localised.0);
            if caching {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                return Ok((string, localised.1));
            }
            return Ok((string, localised.1));
        }''','''        if localised.0.is_empty() {
            let string = RefCount::new(localised.0);
            if caching {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
            }
            return Ok((string, localised.1));
        }'''),(L,'''            Ok(value) => value,
            Err(error) => match error {
                FormatterError::NoGrammar => {
                    // No grammar syntax was found, thus a literal string.
                    let string = RefCount::new(localised.0);
                    if caching {
                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                        return Ok((string, localised.1));
                    }
                    return Ok((string, localised.1));
                }
                _ => return Err(LocaliserError::Formatter(error)),
            },''','''            Ok(value) => value,
            Err(FormatterError::NoGrammar) => {
                let string = RefCount::new(localised.0);
                if caching {
                    self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                }
                return Ok((string, localised.1));
            }
            Err(error) => return Err(error.into()),''')],A),
"literal_string_helper":([(L,'''            let string = RefCount::new(localised.0);
            if caching {
                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                return Ok((string, localised.1));
            }
            return Ok((string, localised.1));
        }''','''            return Ok(self.plain(language_tag, combined, localised, caching));
        }'''),(L,'''                    // No grammar syntax was found, thus a literal string.
                    let string = RefCount::new(localised.0);
                    if caching {
                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                        return Ok((string, localised.1));
                    }
                    return Ok((string, localised.1));
                }''','''                    return Ok(self.plain(language_tag, combined, localised, caching));
                }'''),(L,'''    fn add_string_to_cache(''','''    fn plain(
        &self,
        language_tag: &RefCount<LanguageTag>,
        combined: CacheKey,
        localised: (String, RefCount<LanguageTag>),
        caching: bool,
    ) -> (RefCount<String>, RefCount<LanguageTag>) {
        let (string, tag) = localised;
        let string = RefCount::new(string);
        if caching {
            self.add_string_to_cache(language_tag, combined, &string, &tag);
        }
        (string, tag)
    }

    fn add_string_to_cache(''')],A),
"data_helper":([(L,data_helper,"")],A),
"try_collect":([(L,try_collect,"")],A),
"delegate":([(L,delegate,"")],A),
"error_delegate":([(L,error_delegate,"")],A),
"settings":([(L,settings,"")],A),
"format_first":([(L,format_first,"")],A),
"grammar_chars":([(L,'''        if caching && !string.contains(|character| self.grammar.contains(character)) {''','''        let has_grammar = string.chars().any(|character| self.grammar.contains(character));
        if caching && !has_grammar {''')],A),
"let_else":([(L,rx(r'''        let localised =
            match self
                \.localisation_provider
                \.string\(component, identifier, language_tag\)\?
            \{
                Some\(result\) => result,
                None => \{''',r'''        let found = self
            .localisation_provider
            .string(component, identifier, language_tag)?;
        let localised =
            if let Some(result) = found {
                result
            } else {
                {''',2),""),(L,lambda s:s.replace('''                        result => result,
                    };
                }
            };''','''                        result => result,
                    };
                }
            };'''  ).replace("        let combined = (component.to_string(), identifier.to_string());","        let combined: CacheKey = (component.to_owned(), identifier.to_owned());"),"")],A),
"cache_match":([(L,'''        binding
            .entry(RefCount::clone(language_tag))
            .or_default()
            .insert(
                combined,
                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
            );''','''        let entry = CacheData::Localised(RefCount::clone(string), RefCount::clone(tag));
        match binding.get_mut(language_tag) {
            Some(strings) => {
                strings.insert(combined, entry);
            }
            None => {
                binding.insert(
                    RefCount::clone(language_tag),
                    HashMap::from([(combined, entry)]),
                );
            }
        }''')],A),
"try_new_order":([(L,'''        let script_data = DataProvider::new();
        let expander = LocaleExpander::new_extended();
        let tag = language_tag_registry.tag(language_tag)?;
''','''        let tag = language_tag_registry.tag(language_tag)?;
        let expander = LocaleExpander::new_extended();
        let script_data = DataProvider::new();
'''),(L,'''            grammar: "{}`#".to_string(),''','''            grammar: String::from("{}`#"),''')],A),
}
