"""Behaviour-preserving edits of the collection of details."""
P = "provider/sqlite3/src/provider.rs"
A = "C20 C21 C22 C23 C45 C40 C41"
COMMON = '''                    language_data.contributors = self.contributors(component.0, language, true)?;
                    let contributors_iterator = language_data.contributors.iter();
                    for contributor in contributors_iterator {
                        if !repository_language.contributors.contains(contributor) {
                            repository_language
                                .contributors
                                .push(contributor.to_string());
                        }
                        if !repository_details.contributors.contains(contributor) {
                            repository_details
                                .contributors
                                .push(contributor.to_string());
                        }
                    }
'''
OWN = '''                    let contributors_separate = self.contributors(component.0, language, false)?;
                    let contributors_iterator = contributors_separate.iter();
                    for contributor in contributors_iterator {
                        if !language_data.contributors.contains(contributor) {
                            language_data.contributors.push(contributor.to_string());
                        }
                        if !repository_language.contributors.contains(contributor) {
                            repository_language
                                .contributors
                                .push(contributor.to_string());
                        }
                        if !repository_details.contributors.contains(contributor) {
                            repository_details
                                .contributors
                                .push(contributor.to_string());
                        }
                    }
'''
TAIL = "fn query_pattern("
HELP = '''fn add_once(list: &mut Vec<String>, item: &String) {
    if list.contains(item) {
        return;
    }
    list.push(item.clone());
}

fn query_pattern('''
IDENT = '''                let mut languages = self.identifier_languages(component, identifier, true)?;
                if self.components.get(component).is_some_and(|x| x.0 && x.1) {
                    // Also in own <component>.sqlite3
                    for language in self.identifier_languages(component, identifier, false)? {
                        if !languages.contains(&language) {
                            languages.push(language);
                        }
                    }
                }
'''
RATIO = '''            let languages_iterator = component_details.languages.iter_mut();
            for language_data in languages_iterator {
                language_data.1.ratio = language_data.1.count as f32 / _count as f32;
            }
'''
EDITS = {
    "helper": ([(P, COMMON, '''                    language_data.contributors = self.contributors(component.0, language, true)?;
                    for contributor in &language_data.contributors {
                        add_once(&mut repository_language.contributors, contributor);
                        add_once(&mut repository_details.contributors, contributor);
                    }
'''), (P, OWN, '''                    for contributor in &self.contributors(component.0, language, false)? {
                        add_once(&mut language_data.contributors, contributor);
                        add_once(&mut repository_language.contributors, contributor);
                        add_once(&mut repository_details.contributors, contributor);
                    }
'''), (P, TAIL, HELP)], A),
    "all_pushed": ([(P, COMMON, '''                    let contributors = self.contributors(component.0, language, true)?;
                    for contributor in contributors.iter() {
                        if !language_data.contributors.contains(contributor) {
                            language_data.contributors.push(contributor.to_string());
                        }
                        if !repository_language.contributors.contains(contributor) {
                            repository_language.contributors.push(contributor.to_owned());
                        }
                        if !repository_details.contributors.contains(contributor) {
                            repository_details.contributors.push(contributor.to_string());
                        }
                    }
''')], A),
    "any": ([(P, OWN, OWN.replace("if !repository_details.contributors.contains(contributor) {", "if !repository_details.contributors.iter().any(|x| x == contributor) {"))], A),
    "foreach": ([(P, OWN, OWN.replace('''                    let contributors_iterator = contributors_separate.iter();
                    for contributor in contributors_iterator {
''', '''                    contributors_separate.iter().for_each(|contributor| {
''').replace('''                        }
                    }
''', '''                        }
                    });
'''))], A),
    "sources_loop": ([(P, COMMON.join(('''                if component.1 .0 {
''', '''                }
''')) + '''                if component.1 .1 {
''' + OWN + '''                }
''', '''                for (present, all_in_one) in [(component.1 .0, true), (component.1 .1, false)] {
                    if !present {
                        continue;
                    }
''' + OWN.replace("language, false", "language, all_in_one") + '''                }
''')], A),
    "application_eq": ([(P, '''            if component.0.as_str().cmp("application") == Ordering::Equal {
                repository_details.default = language;
            }
''', '''            if component.0 == "application" {
                repository_details.default = Some(RefCount::clone(&component_details.default));
            }
''')], A),
    "application_match": ([(P, '''            if component.0.as_str().cmp("application") == Ordering::Equal {
                repository_details.default = language;
            }
''', '''            match component.0.as_str().cmp("application") {
                Ordering::Equal => repository_details.default = language,
                _ => {}
            }
''')], A),
    "values_mut": ([(P, RATIO, '''            for data in component_details.languages.values_mut() {
                data.ratio = data.count as f32 / _count as f32;
            }
''')], A),
    "ratio_direct": ([(P, '''            let mut _count = 0usize;
            {
                let default_language_data = component_details
                    .languages
                    .get(&component_details.default)
                    .unwrap();
                _count = default_language_data.count;
            }
''' + RATIO, '''            let base = component_details.languages[&component_details.default].count as f32;
            for (_, data) in component_details.languages.iter_mut() {
                data.ratio = data.count as f32 / base;
            }
''')], A),
    "ident_helper": ([(P, IDENT, '''                let mut languages = self.identifier_languages(component, identifier, true)?;
                if self.components.get(component).is_some_and(|x| x.0 && x.1) {
                    let own = self.identifier_languages(component, identifier, false)?;
                    merge_tags(&mut languages, own);
                }
'''), (P, TAIL, '''fn merge_tags(tags: &mut Vec<RefCount<LanguageTag>>, others: Vec<RefCount<LanguageTag>>) {
    for other in others {
        if tags.contains(&other) {
            continue;
        }
        tags.push(other);
    }
}

fn query_pattern(''')], A),
    "ident_match": ([(P, IDENT, '''                let mut languages = self.identifier_languages(component, identifier, true)?;
                if let Some(&(true, true)) = self.components.get(component) {
                    for language in self.identifier_languages(component, identifier, false)?.iter() {
                        if !languages.contains(language) {
                            languages.push(RefCount::clone(language));
                        }
                    }
                }
''')], A),
    "ident_fresh": ([(P, IDENT, '''                let mut languages = Vec::new();
                for all_in_one in [true, false] {
                    let present = self.components.get(component).is_some_and(|x| if all_in_one { x.0 } else { x.1 });
                    if !present {
                        continue;
                    }
                    for language in self.identifier_languages(component, identifier, all_in_one)? {
                        if !languages.contains(&language) {
                            languages.push(language);
                        }
                    }
                }
''')], A),
    "keys_collect": ([(P, "            components: Vec::<String>::new(),\n", "            components: self.components.keys().cloned().collect(),\n"), (P, "            repository_details.components.push(component.0.to_string());\n", "")], A),
    "destructure": ([(P, '''        let components_iterator = self.components.iter();
        for component in components_iterator {
            repository_details.components.push(component.0.to_string());
''', '''        for (name, &(common, own)) in self.components.iter() {
            let component = (name, (common, own));
            repository_details.components.push(name.clone());
''')], A),
}
