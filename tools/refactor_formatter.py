F="localiser/src/formatter.rs"
A="C30 C31 C32 C33 C34 C35 C36 C37"
EDITS={
"for_each_clear":([(F,'''        for number in self.numbers.iter_mut() {
            number.clear();
        }''','''        self.numbers.iter_mut().for_each(String::clear);''')],A),
"for_range":([(F,'''        let mut i = 0usize;
        while i < _len {
            let Some(part) = self.part_ref(named, &i) else {''','''        for i in 0.._len {
            let Some(part) = self.part_ref(named, &i) else {'''),(F,'''                    string.push_str(&function(parameters)?);
                }
            }
            i += 1;
        }''','''                    string.push_str(&function(parameters)?);
                }
            }
        }''')],A),
"text_helper":([(F,'''    let mut string = String::new();
    for token in tree.tokens(index).unwrap().iter() {
        string.push_str(tree.token(token).string.as_str());
    }
    pattern.push(PatternPart::Text(string));
    Ok(())
}''','''    pattern.push(PatternPart::Text(tokens_text(tree, index)));
    Ok(())
}

fn tokens_text(tree: &Tree, index: &usize) -> String {
    let mut string = String::new();
    for token in tree.tokens(index).unwrap().iter() {
        string.push_str(tree.token(token).string.as_str());
    }
    string
}'''),(F,'''            let mut string = String::new();
            for token in tree.tokens(parameter).unwrap().iter() {
                string.push_str(tree.token(token).string.as_str());
            }
            parameters.push(PlaceholderValue::String(string));''','''            parameters.push(PlaceholderValue::String(tokens_text(tree, parameter)));''')],A),
"text_collect":([(F,'''    let mut string = String::new();
    for token in tree.tokens(index).unwrap().iter() {
        string.push_str(tree.token(token).string.as_str());
    }
    pattern.push(PatternPart::Text(string));
    Ok(())
}''','''    let string = tree
        .tokens(index)
        .unwrap()
        .iter()
        .map(|token| tree.token(token).string.as_str())
        .collect::<String>();
    pattern.push(PatternPart::Text(string));
    Ok(())
}''')],A),
"if_let_sign":([(F,'''                            let fixed_decimal = &mut number.clone();
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
                            let number_string = fdf.format(fixed_decimal).to_string();''','''                            let mut fixed_decimal = number.clone();
                            if let Some(sign) = sign {
                                fixed_decimal.apply_sign_display(*sign);
                            }
                            let number_string = fdf.format(&fixed_decimal).to_string();'''),
 (F,'''                    if group.is_some() {
                        options.grouping_strategy = group.unwrap();
                    }''','''                    if let Some(group) = group {
                        options.grouping_strategy = *group;
                    }'''),
 (F,'''                    let length_date = match length_date {
                        None => DateLength::Medium,
                        Some(result) => *result,
                    };''','''                    let length_date = length_date.unwrap_or(DateLength::Medium);''')],A),
"part_ref":([(F,'''        if let Some(pattern) = self.patterns.get(string) {
            if let Some(part) = pattern.get(*index) {
                return Some(part);
            }
        }
        None''','''        self.patterns.get(string)?.get(*index)''')],A),
"part_ref2":([(F,'''        if let Some(pattern) = self.patterns.get(string) {
            if let Some(part) = pattern.get(*index) {
                return Some(part);
            }
        }
        None''','''        self.patterns.get(string).and_then(|pattern| pattern.get(*index))''')],A),
"fmt_decimal_helper":([(F,'''                    match value {
                        PlaceholderValue::FixedDecimal(number) => {
                            let fixed_decimal = &mut number.clone();
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
                            let number_string = fdf.format(fixed_decimal).to_string();
                            string.push_str(number_string.as_str());
                        }
                        PlaceholderValue::Unsigned(number) => {
                            let mut fixed_decimal = FixedDecimal::from(*number);
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
                            let number_string = fdf.format(&fixed_decimal).to_string();
                            string.push_str(number_string.as_str());
                        }
                        PlaceholderValue::Integer(number) => {
                            let mut fixed_decimal = FixedDecimal::from(*number);
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
                            let number_string = fdf.format(&fixed_decimal).to_string();
                            string.push_str(number_string.as_str());
                        }
                        PlaceholderValue::Float(number) => {
                            // Precision is always Floating, for other precisions options use PlaceholderFixedDecimal
                            let mut fixed_decimal =
                                FixedDecimal::try_from_f64(*number, DoublePrecision::Floating)?;
                            if sign.is_some() {
                                fixed_decimal.apply_sign_display(sign.unwrap());
                            }
                            let number_string = fdf.format(&fixed_decimal).to_string();
                            string.push_str(number_string.as_str());
                        }
                        _ => {
                            return Err(FormatterError::InvalidValue("PatternDecimal".to_string()))
                        }
                    }
''','''                    let mut fixed_decimal = match value {
                        PlaceholderValue::FixedDecimal(number) => number.clone(),
                        PlaceholderValue::Unsigned(number) => FixedDecimal::from(*number),
                        PlaceholderValue::Integer(number) => FixedDecimal::from(*number),
                        PlaceholderValue::Float(number) => {
                            // Precision is always Floating, for other precisions options use PlaceholderFixedDecimal
                            FixedDecimal::try_from_f64(*number, DoublePrecision::Floating)?
                        }
                        _ => {
                            return Err(FormatterError::InvalidValue("PatternDecimal".to_string()))
                        }
                    };
                    if let Some(sign) = sign {
                        fixed_decimal.apply_sign_display(*sign);
                    }
                    string.push_str(&fdf.format(&fixed_decimal).to_string());
''')],A),
"selectors_helper":([(F,'''                let Some(pattern) = self.patterns.get(&_named) else {
                    return Err(FormatterError::PatternNamed(_named));
                };
                _len = pattern.len();
            }
            let mut i = 0usize;
            while i < _len {
                let mut _part: Option<&PatternPart> = None;
                {
                    let Some(part) = self.part_ref(&_named, &i) else {
                        return Err(FormatterError::PatternPart(_named, i));
                    };
                    _part = Some(part);
                }
                if let PatternPart::NumberSign(index) = _part.unwrap() {
                    self.update_number_part(*index, &number_string)?
                }
                i += 1;
            }''','''                let Some(pattern) = self.patterns.get(&_named) else {
                    return Err(FormatterError::PatternNamed(_named));
                };
                _len = pattern.len();
            }
            for i in 0.._len {
                let Some(part) = self.part_ref(&_named, &i) else {
                    return Err(FormatterError::PatternPart(_named, i));
                };
                if let PatternPart::NumberSign(index) = part {
                    self.update_number_part(*index, &number_string)?
                }
            }''')],A),
"number_sign_collect":([(F,'''            let mut _len = 0usize;
            {
                let Some(pattern) = self.patterns.get(&_named) else {
                    return Err(FormatterError::PatternNamed(_named));
                };
                _len = pattern.len();
            }
            let mut i = 0usize;
            while i < _len {
                let mut _part: Option<&PatternPart> = None;
                {
                    let Some(part) = self.part_ref(&_named, &i) else {
                        return Err(FormatterError::PatternPart(_named, i));
                    };
                    _part = Some(part);
                }
                if let PatternPart::NumberSign(index) = _part.unwrap() {
                    self.update_number_part(*index, &number_string)?
                }
                i += 1;
            }''','''            let Some(pattern) = self.patterns.get(&_named) else {
                return Err(FormatterError::PatternNamed(_named));
            };
            let mut signs = Vec::<usize>::new();
            for part in pattern.iter() {
                if let PatternPart::NumberSign(index) = part {
                    signs.push(*index);
                }
            }
            for index in signs {
                self.update_number_part(index, &number_string)?;
            }''')],A),
"number_sign_filter":([(F,'''            let mut _len = 0usize;
            {
                let Some(pattern) = self.patterns.get(&_named) else {
                    return Err(FormatterError::PatternNamed(_named));
                };
                _len = pattern.len();
            }
            let mut i = 0usize;
            while i < _len {
                let mut _part: Option<&PatternPart> = None;
                {
                    let Some(part) = self.part_ref(&_named, &i) else {
                        return Err(FormatterError::PatternPart(_named, i));
                    };
                    _part = Some(part);
                }
                if let PatternPart::NumberSign(index) = _part.unwrap() {
                    self.update_number_part(*index, &number_string)?
                }
                i += 1;
            }''','''            let Some(pattern) = self.patterns.get(&_named) else {
                return Err(FormatterError::PatternNamed(_named));
            };
            let signs = pattern
                .iter()
                .filter_map(|part| match part {
                    PatternPart::NumberSign(index) => Some(*index),
                    _ => None,
                })
                .collect::<Vec<usize>>();
            for index in signs {
                self.update_number_part(index, &number_string)?;
            }''')],A),
"category_match":([(F,'''            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                return Err(FormatterError::SelectorsIndexNamed(
                    category,
                    selectors_index,
                ));
            };
            _named = named.to_string();''','''            _named = match selectors.get(&category) {
                Some(named) => named.clone(),
                None => match selectors.get("other") {
                    Some(named) => named.clone(),
                    None => {
                        return Err(FormatterError::SelectorsIndexNamed(
                            category,
                            selectors_index,
                        ))
                    }
                },
            };''')],A),
"iso_pieces":([(F,'''        year_string.push_str(parts[index]);
        year = i32::from_str(&year_string)?;

        // try month
        index += 1;
        if let Some(slice) = parts.get(index) {
            month = u8::from_str(slice)?;

            // try day
            index += 1;
            if let Some(slice) = parts.get(index) {
                day = u8::from_str(slice)?;
            }
        }''','''        year_string.push_str(parts[index]);
        year = year_string.parse::<i32>()?;
        if index + 1 < parts.len() {
            month = parts[index + 1].parse::<u8>()?;
        }
        if index + 2 < parts.len() {
            day = parts[index + 2].parse::<u8>()?;
        }''')],A),
"iso_contains":([(F,'''    let parts: Vec<&str> = no_plus.split('-').collect();
    if parts.len() == 1 {''','''    let parts = no_plus.split('-').collect::<Vec<_>>();
    if !no_plus.contains('-') {''')],A),
"command_map":([(F,'''        if tree.node_type(parameter) == &NodeType::Identifier {
            let identifier_token = tree.token(&tree.tokens(parameter).unwrap()[0]);
            parameters.push(PlaceholderValue::String(
                identifier_token.string.to_string(),
            ));
        } else if tree.node_type(parameter) == &NodeType::Text {
            let mut string = String::new();
            for token in tree.tokens(parameter).unwrap().iter() {
                string.push_str(tree.token(token).string.as_str());
            }
            parameters.push(PlaceholderValue::String(string));
        } else {
            return Err(FormatterError::InvalidNode(NodeType::Command));
        }''','''        let string = match tree.node_type(parameter) {
            NodeType::Identifier => tree.token(&tree.tokens(parameter).unwrap()[0]).string.to_string(),
            NodeType::Text => {
                let mut string = String::new();
                for token in tree.tokens(parameter).unwrap() {
                    string += tree.token(token).string.as_str();
                }
                string
            }
            _ => return Err(FormatterError::InvalidNode(NodeType::Command)),
        };
        parameters.push(PlaceholderValue::String(string));''')],A),
"command_values":([(F,'''                        if let Some(value) = values.get(string) {
                            parameters.push(value.clone());
                        } else {
                            parameters.push(parameter.clone());
                        }''','''                        parameters.push(values.get(string).unwrap_or(parameter).clone());''')],A),
"delay_peek":([(F,'''    let mut iterator_peeking = iterator.clone();
    let command_next = iterator_peeking.next();
    if command_next.is_some() && tree.node_type(command_next.unwrap()) == &NodeType::NumberSign {
        delay = true;
        iterator = iterator_peeking;
    }
''','''    let mut iterator_peeking = iterator.clone();
    if let Some(command_next) = iterator_peeking.next() {
        if tree.node_type(command_next) == &NodeType::NumberSign {
            delay = true;
            iterator = iterator_peeking;
        }
    }
''')],A),
"build_helper":([(F,'''                let children = tree.children(string);
                for child in children.iter() {
                    let node_type = tree.node_type(child);
                    if node_type == &NodeType::Text {
                        part_text(&mut pattern, &tree, child)?;
                    } else if node_type == &NodeType::NumberSign {
                        let len = numbers.len();
                        numbers.push(String::new());
                        pattern.push(PatternPart::NumberSign(len));
                    } else if node_type == &NodeType::Pattern {
                        part_pattern(
                            &mut pattern,
                            &patterns,
                            &tree,
                            child,
                            &mut selectors,
                            &option_selectors,
                            &icu_language,
                        )?;
                    } else if node_type == &NodeType::Command {
                        part_command(&mut pattern, &tree, child, localiser.command_registry())?;
                    } else {
                        // Should never reach
                        return Err(FormatterError::InvalidNode(NodeType::String));
                    }
                }''','''                let children = tree.children(string);
                for child in children.iter() {
                    match tree.node_type(child) {
                        NodeType::Text => part_text(&mut pattern, &tree, child)?,
                        NodeType::NumberSign => {
                            pattern.push(PatternPart::NumberSign(numbers.len()));
                            numbers.push(String::new());
                        }
                        NodeType::Pattern => part_pattern(
                            &mut pattern,
                            &patterns,
                            &tree,
                            child,
                            &mut selectors,
                            &option_selectors,
                            &icu_language,
                        )?,
                        NodeType::Command => {
                            part_command(&mut pattern, &tree, child, localiser.command_registry())?
                        }
                        _ => return Err(FormatterError::InvalidNode(NodeType::String)),
                    }
                }''')],A),
"keyword_match":([(F,'''    if keyword_token.string.as_str() == "decimal" {
        // Currently''','''    let keyword_string = keyword_token.string.as_str();
    if keyword_string == "decimal" {
        // Currently'''),(F,'''    } else if keyword_token.string.as_str() == "date_time" {''','''    } else if keyword_string == "date_time" {''')],A),
"no_op":([(F,'''        let pattern_string = self.format_pattern(localiser, values, "_")?;''','''        let _unused = values.len();
        let pattern_string = self.format_pattern(localiser, values, "_")?;'''),(F,'''        let mut string = String::new();
        let mut _len = 0usize;''','''        let _ = 1 + 1;
        let mut string = String::new();
        let mut _len = 0usize;''')],A),
}
