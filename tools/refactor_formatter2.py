import re
F="localiser/src/formatter.rs"
A=" ".join("C%02d"%i for i in (13,14,15,29,30,31,32,33,34,35,36,37,39,40,41,43,44))
def between(a,b,f):
    def g(s):
        i=s.index(a); j=s.index(b,i)
        return s[:i]+f(s[i:j])+s[j:]
    return g
CHECK='''
// Selectors of plural and ordinal: each a plural category, naming a string already known; `other` is required.
fn check_selectors(
    strings: &HashMap<String, String>,
    patterns: &HashMap<String, Vec<PatternPart>>,
    option_selectors: &OptionSelectors,
    keyword: &str,
    placeholder: &str,
) -> Result<(), FormatterError> {
    for (selector, named) in strings.iter() {
        if !option_selectors.valid_plurals.contains(&selector.as_str()) {
            return Err(FormatterError::InvalidSelector(
                selector.to_string(),
                keyword.to_string(),
                placeholder.to_string(),
            ));
        }
        if named.as_str() == "_" || !patterns.contains_key(named) {
            return Err(FormatterError::SelectorNamed(
                named.to_string(),
                selector.to_string(),
                placeholder.to_string(),
            ));
        }
    }
    if !strings.contains_key("other") {
        return Err(FormatterError::SelectorOther(
            keyword.to_string(),
            placeholder.to_string(),
        ));
    }
    Ok(())
}

// Commands always returns static text
'''
def shared(s):
    i=s.index('    } else if keyword_token.string.as_str() == "ordinal" {'); j=s.index('    } else if keyword_token.string.as_str() == "select" {')
    blk=""
    for k,v in (("ordinal","Ordinal"),("plural","Plural")):
        blk+='''    } else if keyword_token.string.as_str() == "%s" {
        let strings = pattern_selectors(tree, index)?;
        check_selectors(
            &strings,
            patterns,
            option_selectors,
            "%s",
            placeholder_token.string.as_str(),
        )?;
        selectors.push(strings);
        pattern.push(PatternPart::PatternComplex {
            placeholder: placeholder_token.string.to_string(),
            complex: ComplexType::%s,
            selectors: selectors.len() - 1,
        });
'''%(k,k,v)
    s=s[:i]+blk+s[j:]
    return s.replace("\n// Commands always returns static text\n",CHECK)
def one_branch(s):
    i=s.index('    } else if keyword_token.string.as_str() == "ordinal" {'); j=s.index('    } else if keyword_token.string.as_str() == "plural" {'); k=s.index('    } else if keyword_token.string.as_str() == "select" {')
    b=s[i:j]
    b=b.replace('keyword_token.string.as_str() == "ordinal" {','keyword_token.string.as_str() == "ordinal"\n        || keyword_token.string.as_str() == "plural"\n    {\n        let keyword = keyword_token.string.as_str();')
    b=b.replace('"ordinal".to_string()','keyword.to_string()').replace("complex: ComplexType::Ordinal","complex: if keyword == \"plural\" {\n                ComplexType::Plural\n            } else {\n                ComplexType::Ordinal\n            }")
    return s[:i]+b+s[k:]
def complex1(s):
    i=s.index("                        ComplexType::Plural => {\n"); j=s.index("                        ComplexType::Ordinal => {\n")
    b='''                        ComplexType::Plural => {
                            let plurals = self.plural_rules_cardinal(localiser, &data_locale)?;
                            let fixed_decimal = match value {
                                PlaceholderValue::FixedDecimal(number) => number.clone(),
                                PlaceholderValue::Unsigned(number) => FixedDecimal::from(*number),
                                PlaceholderValue::Integer(number) => FixedDecimal::from(*number),
                                PlaceholderValue::Float(number) => FixedDecimal::try_from_f64(
                                    *number,
                                    DoublePrecision::Floating,
                                )?,
                                _ => {
                                    return Err(FormatterError::InvalidValue(
                                        "PatternPlural".to_string(),
                                    ))
                                }
                            };
                            self.find_number_sign(
                                localiser,
                                values,
                                &mut string,
                                &fixed_decimal,
                                plurals,
                                &data_locale,
                                *selectors_index,
                            )?;
                        }
'''
    return s[:i]+b+s[j:]
def complex2(s):
    i=s.index("                        ComplexType::Ordinal => {\n"); j=s.index("                        ComplexType::Select => {\n")
    b='''                        ComplexType::Ordinal => {
                            // Only positive integers and zero are allowed.
                            let plurals = self.plural_rules_ordinal(localiser, &data_locale)?;
                            let PlaceholderValue::Unsigned(number) = value else {
                                return Err(FormatterError::InvalidValue(
                                    "PatternOrdinal".to_string(),
                                ));
                            };
                            self.find_number_sign(
                                localiser,
                                values,
                                &mut string,
                                &FixedDecimal::from(*number),
                                plurals,
                                &data_locale,
                                *selectors_index,
                            )?;
                        }
'''
    s=s[:i]+b+s[j:]
    i=s.index("                        ComplexType::Select => {\n"); j=s.index("                PatternPart::NumberSign(index) => {\n")
    b='''                        ComplexType::Select => {
                            let chosen = match value {
                                PlaceholderValue::String(value) => value,
                                // LanguageTag is not used.
                                PlaceholderValue::TaggedString(value) => value.as_string(),
                                PlaceholderValue::Localised(localised, _) => localised.as_ref(),
                                _ => {
                                    return Err(FormatterError::InvalidValue(
                                        "PatternSelect".to_string(),
                                    ))
                                }
                            };
                            self.select(localiser, values, &mut string, chosen, *selectors_index)?;
                        }
                    }
                }
'''
    return s[:i]+b+s[j:]
def part_fn(s):
    """one helper adds a child to a pattern, number signs allowed or not"""
    a=s.index("                for child in children.iter() {\n                    let node_type"); b=s.index("                patterns.insert(identifier_token.string.as_str().to_string(), pattern);")
    call='''for child in children.iter() {
%(i)s    part(
%(i)s        &mut pattern,
%(i)s        &patterns,
%(i)s        &tree,
%(i)s        child,
%(i)s        &mut selectors,
%(i)s        %(n)s,
%(i)s        &option_selectors,
%(i)s        &icu_language,
%(i)s        localiser,
%(i)s    )?;
%(i)s}
'''
    s=s[:a]+"                "+call%dict(i="                ",n="Some(&mut numbers)")+s[b:]
    a=s.index("        for child in children.iter() {\n            if tree.node_type(child) == &NodeType::Text"); b=s.index('        patterns.insert("_".to_string(), pattern);')
    s=s[:a]+"        "+call%dict(i="        ",n="None")+s[b:]
    return s.replace('''// Internal structures, enums, etc.
''','''// Internal structures, enums, etc.

#[allow(clippy::too_many_arguments)]
fn part(
    pattern: &mut Vec<PatternPart>,
    patterns: &HashMap<String, Vec<PatternPart>>,
    tree: &Tree,
    child: &usize,
    selectors: &mut Vec<HashMap<String, String>>,
    numbers: Option<&mut Vec<String>>,
    option_selectors: &OptionSelectors,
    icu_language: &RefCount<IcuLanguage>,
    localiser: &Localiser,
) -> Result<(), FormatterError> {
    match (tree.node_type(child), numbers) {
        (NodeType::Text, _) => part_text(pattern, tree, child),
        (NodeType::NumberSign, Some(numbers)) => {
            pattern.push(PatternPart::NumberSign(numbers.len()));
            numbers.push(String::new());
            Ok(())
        }
        (NodeType::Pattern, _) => part_pattern(
            pattern,
            patterns,
            tree,
            child,
            selectors,
            option_selectors,
            icu_language,
        ),
        (NodeType::Command, _) => part_command(pattern, tree, child, localiser.command_registry()),
        // Should never reach
        _ => Err(FormatterError::InvalidNode(NodeType::String)),
    }
}
''')
EDITS={
"check_selectors":([(F,shared,"")],A),
"one_branch":([(F,one_branch,"")],A),
"options_match":([(F,lambda s:s.replace('''            if key.as_str() == "sign" {
                sign = Some(sign_display(value.as_str())?);
            } else if key.as_str() == "group" {
                group = Some(decimal_grouping_display(value.as_str())?);
            } else {
                return Err(FormatterError::InvalidOption(
                    key.as_str().to_string(),
                    "decimal".to_string(),
                    placeholder_token.string.as_str().to_string(),
                ));
            }
''','''            match key.as_str() {
                "sign" => sign = Some(sign_display(value)?),
                "group" => group = Some(decimal_grouping_display(value)?),
                _ => {
                    return Err(FormatterError::InvalidOption(
                        key.to_string(),
                        "decimal".to_string(),
                        placeholder_token.string.to_string(),
                    ))
                }
            }
'''),"")],A),
"options_get":([(F,'''        for (key, value) in strings.iter() {
            if key.as_str() == "sign" {
                sign = Some(sign_display(value.as_str())?);
            } else if key.as_str() == "group" {
                group = Some(decimal_grouping_display(value.as_str())?);
            } else {
                return Err(''','''        if let Some(value) = strings.get("sign") {
            sign = Some(sign_display(value)?);
        }
        if let Some(value) = strings.get("group") {
            group = Some(decimal_grouping_display(value)?);
        }
        for key in strings.keys() {
            if key != "sign" && key != "group" {
                return Err(''')],A),
"complex1":([(F,complex1,"")],A),
"complex2":([(F,complex2,"")],A),
"part_fn":([(F,part_fn,"")],A),
"select_match":([(F,'''        let Some(named) = selectors
            .get(string_value)
            .or_else(|| selectors.get("other"))
        else {
            return Err(FormatterError::SelectorsIndexNamed(
                string_value.to_string(),
                selectors_index,
            ));
        };
        let part_string = self.format_pattern(localiser, values, &named.to_string())?;
        string.push_str(part_string.as_str());
        Ok(())''','''        let named = match selectors.get(string_value) {
            Some(named) => named.clone(),
            None => match selectors.get("other") {
                Some(named) => named.clone(),
                None => {
                    return Err(FormatterError::SelectorsIndexNamed(
                        string_value.clone(),
                        selectors_index,
                    ))
                }
            },
        };
        *string += &self.format_pattern(localiser, values, &named)?;
        Ok(())''')],A),
"selectors_ident":([(F,'''        let first = tree.first(selector).unwrap();
        if tree.node_type(first) != &NodeType::Identifier {
            return Err(FormatterError::NodeNotFound(NodeType::Identifier));
        }
        let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
        let last = tree.last(selector).unwrap();
        if tree.node_type(last) != &NodeType::Identifier {
            return Err(FormatterError::NodeNotFound(NodeType::Identifier));
        }
        let last_token = tree.token(&tree.tokens(last).unwrap()[0]);
        pairs.insert(
            first_token.string.to_string(),
            last_token.string.to_string(),
        );
    }
    Ok(pairs)
}''','''        let name = identifier_text(tree, tree.first(selector).unwrap())?;
        let value = identifier_text(tree, tree.last(selector).unwrap())?;
        pairs.insert(name, value);
    }
    Ok(pairs)
}

fn identifier_text(tree: &Tree, node: &usize) -> Result<String, FormatterError> {
    match tree.node_type(node) {
        NodeType::Identifier => Ok(tree.token(&tree.tokens(node).unwrap()[0]).string.to_string()),
        _ => Err(FormatterError::NodeNotFound(NodeType::Identifier)),
    }
}''')],A),
"time_cut":([(F,'''    let no_plus = match no_t.find('+') {
        None => no_t,
        Some(pos) => &no_t[..pos],
    };
    let trimmed = match no_plus.find('-') {
        None => no_plus,
        Some(pos) => &no_plus[..pos],
    }
    .trim_end_matches('Z');''','''    let no_plus = before(no_t, '+');
    let trimmed = before(no_plus, '-').trim_end_matches('Z');'''),(F,'''// Internal structures, enums, etc.
''','''// Internal structures, enums, etc.

fn before(string: &str, mark: char) -> &str {
    match string.find(mark) {
        Some(pos) => &string[..pos],
        None => string,
    }
}
''')],A),
"time_let_else":([(F,between("    let mut hour = IsoHour::zero();","// Internal structures",lambda b:'''    let mut time = Time::new(
        IsoHour::zero(),
        IsoMinute::zero(),
        IsoSecond::zero(),
        NanoSecond::zero(),
    );
    let Some(slice) = trimmed.get(..2) else {
        return Ok(time);
    };
    time.hour = IsoHour::from_str(slice)?;

    let rest = trimmed[2..].trim_start_matches(':');
    let Some(slice) = rest.get(..2) else {
        return Ok(time);
    };
    time.minute = IsoMinute::from_str(slice)?;

    let rest = rest[2..].trim_start_matches(':');
    let Some(slice) = rest.get(..2) else {
        return Ok(time);
    };
    time.second = IsoSecond::from_str(slice)?;

    let rest = rest[2..].trim_start_matches('.');
    if !rest.is_empty() {
        time.nanosecond = NanoSecond::from_str(rest)?;
    }
    Ok(time)
}

'''),"")],A),
"time_no_early":([(F,'''    if trimmed.is_empty() {
        return Ok(Time::new(
            IsoHour::zero(),
            IsoMinute::zero(),
            IsoSecond::zero(),
            NanoSecond::zero(),
        ));
    }
''','')],A),
"date_flow":([(F,'''    let mut year: i32 = 0;
    let mut month: u8 = 1;
    let mut day: u8 = 1;
    if no_plus.is_empty() {
        // no year
        let date = Date::try_new_iso_date(year, month, day)?;
        return Ok(date);
    }
    let parts''','''    if no_plus.is_empty() {
        return Ok(Date::try_new_iso_date(0, 1, 1)?);
    }
    let (mut year, mut month, mut day) = (0i32, 1u8, 1u8);
    let parts'''),(F,'''        let mut index = 0usize;
        let mut year_string = String::new();
        if parts[0].is_empty() {
            // negative dates
            year_string.push('-');
            index = 1;
        }
        year_string.push_str(parts[index]);
        year = i32::from_str(&year_string)?;

        // try month
        index += 1;
        if let Some(slice) = parts.get(index) {
            month = u8::from_str(slice)?;

            // try day
            index += 1;
            if let Some(slice) = parts.get(index) {
                day = u8::from_str(slice)?;
            }
        }''','''        let negative = parts[0].is_empty();
        let first = if negative { 1 } else { 0 };
        year = if negative {
            i32::from_str(&format!("-{}", parts[first]))?
        } else {
            i32::from_str(parts[first])?
        };
        if let Some(slice) = parts.get(first + 1) {
            month = slice.parse::<u8>()?;
        }
        if let Some(slice) = parts.get(first + 2) {
            day = slice.parse::<u8>()?;
        }''')],A),
"sign_ifs":([(F,'''    match sign {
        "auto" => Ok(SignDisplay::Auto),
        "never" => Ok(SignDisplay::Never),
        "always" => Ok(SignDisplay::Always),
        "except_zero" => Ok(SignDisplay::ExceptZero),
        "negative" => Ok(SignDisplay::Negative),
        _ => Err(FormatterError::InvalidOptionValue(
            sign.to_string(),
            "sign".to_string(),
            "decimal".to_string(),
        )),
    }''','''    let display = match sign {
        "negative" => SignDisplay::Negative,
        "except_zero" => SignDisplay::ExceptZero,
        "always" => SignDisplay::Always,
        "never" => SignDisplay::Never,
        "auto" => SignDisplay::Auto,
        other => {
            return Err(FormatterError::InvalidOptionValue(
                other.to_string(),
                "sign".to_string(),
                "decimal".to_string(),
            ))
        }
    };
    Ok(display)''')],A),
"sign_table":([(F,'''    match sign {
        "auto" => Ok(SignDisplay::Auto),
        "never" => Ok(SignDisplay::Never),
        "always" => Ok(SignDisplay::Always),
        "except_zero" => Ok(SignDisplay::ExceptZero),
        "negative" => Ok(SignDisplay::Negative),
        _ => Err(FormatterError::InvalidOptionValue(
            sign.to_string(),
            "sign".to_string(),
            "decimal".to_string(),
        )),
    }''','''    const SIGNS: [(&str, SignDisplay); 5] = [
        ("auto", SignDisplay::Auto),
        ("never", SignDisplay::Never),
        ("always", SignDisplay::Always),
        ("except_zero", SignDisplay::ExceptZero),
        ("negative", SignDisplay::Negative),
    ];
    for (name, display) in SIGNS.iter() {
        if *name == sign {
            return Ok(*display);
        }
    }
    Err(FormatterError::InvalidOptionValue(
        sign.to_string(),
        "sign".to_string(),
        "decimal".to_string(),
    ))''')],A),
"date_string_split":([(F,between("                            let date_time_strings: Vec<&str> = value.split('T').collect();","                        _ => {\n                            return Err(FormatterError::InvalidValue(\"PatternDateTime\"",lambda b:'''                            let date_time_strings: Vec<&str> = value.split('T').collect();
                            let date_string = match date_time_strings.as_slice() {
                                ["", time] => {
                                    let time = decompose_iso_time(time)?;
                                    self.time_formatter(localiser, &data_locale, length_time)?
                                        .format_to_string(&time)
                                }
                                [date, time] => {
                                    let date = decompose_iso_date(date)?;
                                    let time = decompose_iso_time(time)?;
                                    let date_time = DateTime::<Iso>::new(date, time);
                                    self.date_time_formatter(localiser, &data_locale, options)?
                                        .format_to_string(&date_time.to_any())?
                                }
                                other => {
                                    let date = decompose_iso_date(other[0])?;
                                    self.date_formatter(localiser, &data_locale, length_date)?
                                        .format_to_string(&date.to_any())?
                                }
                            };
                            string.push_str(&date_string);
                        }
'''),"")],A),
"date_helpers":([(F,'''                        PlaceholderValue::Date(date) => {
                            let df = self.date_formatter(localiser, &data_locale, length_date)?;
                            let date_string = df.format_to_string(&date.to_any())?;
                            string.push_str(date_string.as_str());
                        }''','''                        PlaceholderValue::Date(date) => {
                            self.push_date(
                                localiser,
                                &data_locale,
                                length_date,
                                date,
                                &mut string,
                            )?;
                        }'''),(F,'''                                let df =
                                    self.date_formatter(localiser, &data_locale, length_date)?;
                                let date_string = df.format_to_string(&date.to_any())?;
                                string.push_str(date_string.as_str());''','''                                self.push_date(
                                    localiser,
                                    &data_locale,
                                    length_date,
                                    &date,
                                    &mut string,
                                )?;'''),(F,'''    fn update_number_part(''','''    fn push_date(
        &self,
        localiser: &Localiser,
        data_locale: &DataLocale,
        length_date: DateLength,
        date: &Date<Iso>,
        string: &mut String,
    ) -> Result<(), FormatterError> {
        let df = self.date_formatter(localiser, data_locale, length_date)?;
        let date_string = df.format_to_string(&date.to_any())?;
        string.push_str(date_string.as_str());
        Ok(())
    }

    fn update_number_part(''')],A),
"value_of":([(F,lambda s:re.sub(r'''let Some\(value\) = values\.get\(placeholder\) else \{
                        return Err\(FormatterError::PlaceholderValue\(
                            ("\w+")\.to_string\(\),
                            placeholder\.to_string\(\),
                        \)\);
                    \};''',r'''let value = placeholder_value(values, placeholder, \1)?;''',s).replace("// Internal structures, enums, etc.\n",'''// Internal structures, enums, etc.

fn placeholder_value<'a>(
    values: &'a HashMap<String, PlaceholderValue>,
    placeholder: &String,
    part: &str,
) -> Result<&'a PlaceholderValue, FormatterError> {
    values
        .get(placeholder)
        .ok_or_else(|| FormatterError::PlaceholderValue(part.to_string(), placeholder.to_string()))
}
'''),"")],A),
"decimal_once":([(F,between("                    match value {\n                        PlaceholderValue::FixedDecimal(number) => {\n                            let fixed_decimal = &mut","                PatternPart::PatternDateTime {",lambda b:'''                    let mut fixed_decimal = match value {
                        PlaceholderValue::FixedDecimal(number) => number.clone(),
                        PlaceholderValue::Unsigned(number) => FixedDecimal::from(*number),
                        PlaceholderValue::Integer(number) => FixedDecimal::from(*number),
                        PlaceholderValue::Float(number) => {
                            FixedDecimal::try_from_f64(*number, DoublePrecision::Floating)?
                        }
                        _ => {
                            return Err(FormatterError::InvalidValue("PatternDecimal".to_string()))
                        }
                    };
                    if let Some(sign) = sign {
                        fixed_decimal.apply_sign_display(*sign);
                    }
                    string.push_str(&fdf.format_to_string(&fixed_decimal));
                }
'''),"")],A),
"number_update_inline":([(F,between("        {\n            let mut _len = 0usize;\n            {\n                let Some(pattern) = self.patterns.get(&_named)","        let part_string = self.format_pattern(localiser, values, &_named)?;",lambda b:'''        let Some(pattern) = self.patterns.get(&_named) else {
            return Err(FormatterError::PatternNamed(_named));
        };
        for part in pattern.iter() {
            if let PatternPart::NumberSign(index) = part {
                match self.numbers.get_mut(*index) {
                    Some(number) => *number = number_string.clone(),
                    None => return Err(FormatterError::NumberSignString(*index)),
                }
            }
        }
'''),""),(F,between("    fn update_number_part(","    fn fixed_decimal_formatter(",lambda b:""),"")],A),
"param_cloned":([(F,'''                        if let Some(value) = values.get(string) {
                            parameters.push(value.clone());
                        } else {
                            parameters.push(parameter.clone());
                        }''','''                        parameters.push(values.get(string).unwrap_or(parameter).clone());''')],A),
"named_shadow":([(F,'''                let identifier_token = tree.token(&tree.tokens(identifier).unwrap()[0]);
                if patterns.contains_key(identifier_token.string.as_str()) {
                    return Err(FormatterError::NamedStringIdentifier(
                        identifier_token.string.as_str().to_string(),
                    ));
                }''','''                let name = tree.token(&tree.tokens(identifier).unwrap()[0]).string.to_string();
                if patterns.contains_key(&name) {
                    return Err(FormatterError::NamedStringIdentifier(name));
                }'''),(F,"patterns.insert(identifier_token.string.as_str().to_string(), pattern);","patterns.insert(name, pattern);")],A),
"keyword_const":([(F,'''    if keyword_token.string.as_str() == "decimal" {''','''    let keyword_name = keyword_token.string.as_str();
    if keyword_name == "decimal" {'''),(F,lambda s:s.replace("} else if keyword_token.string.as_str() ==","} else if keyword_name =="),"")],A),
}
