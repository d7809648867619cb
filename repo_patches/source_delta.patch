From 1c015f76497235be1b36762869826db84471b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 01/42] fix: cache localised strings under the language tag
 requested from the provider

---
 crates/localiser/src/localiser.rs | 149 +++++++++++++-----------------
 1 file changed, 62 insertions(+), 87 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..89da914 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -950,7 +950,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier.as_ref());
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -959,7 +958,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1008,25 +1006,32 @@ impl Localiser {
                             false,
                         ));
                     }
-                    let default_language = &self
-                        .localisation_provider
-                        .component_details(component.as_ref())?
-                        .default;
-                    match self.localisation_provider.string(
-                        component.as_ref(),
-                        identifier.as_ref(),
-                        default_language,
-                    )? {
-                        Some(result) => result,
-                        None => {
-                            return Err(LocaliserError::StringNotFound(
+                    // The string is cached only for the language it was requested with from the provider, so that
+                    // a later request without fallback is not satisfied by it.
+                    let default_language = RefCount::clone(
+                        &self
+                            .localisation_provider
+                            .component_details(component.as_ref())?
+                            .default,
+                    );
+                    return match self.actual_format(
+                        component,
+                        identifier,
+                        values,
+                        &default_language,
+                        false,
+                        caching,
+                    ) {
+                        Err(LocaliserError::StringNotFound(_, _, _, _)) => {
+                            Err(LocaliserError::StringNotFound(
                                 component.to_string(),
                                 identifier.to_string(),
                                 language_tag.as_str().to_owned(),
                                 true,
                             ))
                         }
-                    }
+                        result => result,
+                    };
                 }
             };
 
@@ -1036,7 +1041,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1053,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(language_tag, combined, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1068,36 +1073,19 @@ impl Localiser {
             #[cfg(feature = "logging")]
             debug!("Caching formatting string.");
 
-            if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
-                data_entry.insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
+            #[cfg(not(feature = "sync"))]
+            let mut binding = self.cache.borrow_mut();
 
-                #[cfg(not(feature = "sync"))]
-                self.cache
-                    .borrow_mut()
-                    .insert(RefCount::clone(language_tag), data_entry);
-
-                #[cfg(feature = "sync")]
-                self.cache
-                    .write()
-                    .unwrap()
-                    .insert(RefCount::clone(language_tag), data_entry);
-            } else {
-                #[cfg(not(feature = "sync"))]
-                let mut binding = self.cache.borrow_mut();
-
-                #[cfg(feature = "sync")]
-                let mut binding = self.cache.write().unwrap();
-
-                let data_entry = binding.get_mut(language_tag);
-                data_entry.unwrap().insert(
+            #[cfg(feature = "sync")]
+            let mut binding = self.cache.write().unwrap();
+
+            binding
+                .entry(RefCount::clone(language_tag))
+                .or_default()
+                .insert(
                     combined.clone(),
                     CacheData::Formatter(MutCell::new(formatter)),
                 );
-            }
         }
 
         // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
@@ -1141,7 +1129,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier);
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1150,7 +1137,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1182,32 +1168,38 @@ impl Localiser {
                             false,
                         ));
                     }
-                    let default_language = &self
-                        .localisation_provider
-                        .component_details(component.as_ref())?
-                        .default;
-                    match self.localisation_provider.string(
-                        component.as_ref(),
-                        identifier.as_ref(),
-                        default_language,
-                    )? {
-                        Some(result) => result,
-                        None => {
-                            return Err(LocaliserError::StringNotFound(
+                    // The string is cached only for the language it was requested with from the provider, so that
+                    // a later request without fallback is not satisfied by it.
+                    let default_language = RefCount::clone(
+                        &self
+                            .localisation_provider
+                            .component_details(component.as_ref())?
+                            .default,
+                    );
+                    return match self.actual_literal(
+                        component,
+                        identifier,
+                        &default_language,
+                        false,
+                        caching,
+                    ) {
+                        Err(LocaliserError::StringNotFound(_, _, _, _)) => {
+                            Err(LocaliserError::StringNotFound(
                                 component.to_string(),
                                 identifier.to_string(),
                                 language_tag.as_str().to_owned(),
                                 true,
                             ))
                         }
-                    }
+                        result => result,
+                    };
                 }
             };
 
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(language_tag, combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1259,9 +1251,11 @@ impl Localiser {
         })
     }
 
+    // Cache the string under the language tag that was requested from the provider, which may differ from the
+    // language tag of the string itself.
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
+        language_tag: &RefCount<LanguageTag>,
         combined: String,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
@@ -1269,38 +1263,19 @@ impl Localiser {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
-            data_entry.insert(
-                combined.to_string(),
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
-
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
-            data_entry.unwrap().insert(
+        binding
+            .entry(RefCount::clone(language_tag))
+            .or_default()
+            .insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
             );
-        }
     }
 }
 
-- 
2.43.0


From 53201561973f3c6373e2ea4d3bd2307ef39b2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 02/42] fix: do not cache pattern strings obtained as literals
 as formatted strings

---
 crates/localiser/src/localiser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 89da914..e5c0f8f 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1196,9 +1196,10 @@ impl Localiser {
                 }
             };
 
-        // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
+        // Since pattern string is treated as literal, simply cache (if allowed) and return the string. A string that
+        // contains grammar syntax characters is not cached, as it still needs to be parsed for formatting requests.
         let string = RefCount::new(localised.0);
-        if caching {
+        if caching && !string.contains(|character| self.grammar.contains(character)) {
             self.add_string_to_cache(language_tag, combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
-- 
2.43.0


From 946a1d3023702939437487753c16e954ca7321de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:16 +0000
Subject: [PATCH 03/42] fix: keep component and identifier separate in the
 localiser cache key

---
 crates/localiser/src/localiser.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index e5c0f8f..975daa9 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,9 +947,7 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
+        let combined = (component.to_string(), identifier.to_string());
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1126,9 +1124,7 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier);
+        let combined = (component.to_string(), identifier.to_string());
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1257,7 +1253,7 @@ impl Localiser {
     fn add_string_to_cache(
         &self,
         language_tag: &RefCount<LanguageTag>,
-        combined: String,
+        combined: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
     ) {
@@ -1282,6 +1278,9 @@ impl Localiser {
 
 // Internal structs, enums, etc
 
+// Component and identifier of the string.
+type CacheKey = (String, String);
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From 3b46fba03dbd6564c14d0b90a29ee2c93dd220ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 04/42] fix: selectors and options use the identifier after the
 number sign

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From ee49e8d97576650c6db6be9e038471ac6c6bef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 05/42] fix: allow named strings to start with syntax, literals
 and patterns

---
 crates/localiser/src/tree.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..f91bba5 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -574,16 +574,19 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
                             match Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
                             ) {
                                 Ok(_) => {}
@@ -612,6 +615,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -637,6 +641,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From b11657d0b524431908d5e6437e51196060d0c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 06/42] fix: return to the command node after the delay marker
 of a command

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index f91bba5..ee14ee2 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -474,6 +474,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From eb10ec3165d874624c7e15c65385bb6fa38fd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 07/42] fix: reject invalid grammar tokens after the keyword of
 a pattern

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index ee14ee2..c12dbc1 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -366,9 +366,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From fcc43e67f19a270ecb2b2326311700ac222e4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 08/42] fix: end literal text of patterns and commands at its
 closing backtick

---
 crates/localiser/src/tree.rs | 39 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index c12dbc1..33c7a26 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -391,15 +393,13 @@ impl Tree {
                         && tokens[current].string.as_str() == "`"
                     {
                         // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
-                            // Literal 2nd ` found.
-                            Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
-                        } else {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        match lexer.next_if(|(_, token)| token.string.as_str() == "`") {
+                            Some((next, token)) => {
+                                // Literal 2nd ` found.
+                                Tree::push_token(&mut tokens, &mut lengths, token);
+                                Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
+                            }
+                            None => Tree::end_nested_state(&mut nodes, &mut parser),
                         }
                         continue;
                     }
@@ -413,7 +413,11 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // The literal text has already moved to its container, thus only the state changes.
+                        parser.state = match parser.nested_states.pop() {
+                            Some(s) => s,
+                            None => ParserState::String,
+                        };
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -449,17 +453,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 09d290dfc19392fc8355ec51deacf48426755b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 09/42] fix: refuse selectors that refer to the main string

---
 crates/localiser/src/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..98f151d 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1179,7 +1179,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1214,7 +1214,7 @@ fn part_pattern(
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
@@ -1241,7 +1241,7 @@ fn part_pattern(
     } else if keyword_token.string.as_str() == "select" {
         let strings = pattern_selectors(tree, index)?;
         for (selector, named) in strings.iter() {
-            if !patterns.contains_key(named) {
+            if named.as_str() == "_" || !patterns.contains_key(named) {
                 return Err(FormatterError::SelectorNamed(
                     named.as_str().to_string(),
                     selector.as_str().to_string(),
-- 
2.43.0


From a1c03fdc40963f18aca1705619f85b4468666361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 10/42] fix: clear the numbers of the previous formatting
 before formatting again

---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 98f151d..ddd3490 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -192,6 +192,10 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Numbers of previous formatting are not to be used.
+        for number in self.numbers.iter_mut() {
+            number.clear();
+        }
         let pattern_string = self.format_pattern(localiser, values, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From 555fd135796476436084afb99b590f091b0693ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 11/42] fix: accept ISO times without nanoseconds and with the
 zone designator Z

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index ddd3490..c6d3c37 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -982,7 +982,8 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
     let trimmed = match no_plus.find('-') {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
-    };
+    }
+    .trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
@@ -1013,7 +1014,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From 8f092996b04b19b4670b94fd727e3a95e9bc08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:26 +0000
Subject: [PATCH 12/42] fix: commands report empty parameters instead of
 panicking

---
 crates/localiser/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..6815beb 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -177,8 +177,8 @@ impl Default for CommandRegistry {
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
-        PlaceholderValue::String(string) => string,
+    let command = match parameters.first() {
+        Some(PlaceholderValue::String(string)) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
         _ => {
@@ -203,8 +203,8 @@ pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandErr
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
-        PlaceholderValue::String(string) => string,
+    let command = match parameters.first() {
+        Some(PlaceholderValue::String(string)) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
         _ => {
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 1dec01403da5d4cb343bb955e975b84f7e9cae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:25 +0000
Subject: [PATCH 13/42] fix: the command registry uses a lock instead of
 RefCell in the sync build

---
 crates/localiser/src/command.rs | 41 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 6815beb..16d7dea 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -3,12 +3,18 @@
 
 use crate::CommandError;
 use i18n_utility::PlaceholderValue;
-use std::cell::RefCell;
 use std::collections::HashMap;
 use std::iter::FromIterator;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+#[cfg(not(feature = "sync"))]
+use std::cell::RefCell as MutCell;
+
+#[cfg(feature = "sync")]
+#[cfg(target_has_atomic = "ptr")]
+use std::sync::RwLock as MutCell;
+
 /// Registry for pattern commands callback functions.
 ///
 /// # Examples
@@ -32,7 +38,7 @@ use std::str::FromStr;
 /// ```
 #[allow(clippy::type_complexity)]
 pub struct CommandRegistry {
-    registry: RefCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
+    registry: MutCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
 }
 
 impl CommandRegistry {
@@ -59,7 +65,7 @@ impl CommandRegistry {
     /// ```
     pub fn new() -> Self {
         CommandRegistry {
-            registry: RefCell::new(HashMap::<
+            registry: MutCell::new(HashMap::<
                 String,
                 fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
             >::new()),
@@ -97,14 +103,16 @@ impl CommandRegistry {
         command: &str, //T,
         function: fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
     ) -> Result<(), CommandError> {
-        {
-            if self.registry.borrow().contains_key(command) {
-                return Err(CommandError::AlreadyExists(command.to_string()));
-            }
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.registry.borrow_mut();
+
+        #[cfg(feature = "sync")]
+        let mut binding = self.registry.write().unwrap();
+
+        if binding.contains_key(command) {
+            return Err(CommandError::AlreadyExists(command.to_string()));
         }
-        self.registry
-            .borrow_mut()
-            .insert(command.to_string(), function);
+        binding.insert(command.to_string(), function);
         Ok(())
     }
 
@@ -135,7 +143,12 @@ impl CommandRegistry {
         &self,
         command: &str, //T,
     ) -> Result<fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, CommandError> {
+        #[cfg(not(feature = "sync"))]
         let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
         let Some(result) = binding.get(command) else {
             return Err(CommandError::NotFound(command.to_string()));
         };
@@ -159,7 +172,13 @@ impl CommandRegistry {
     /// }
     /// ```
     pub fn list(&self) -> Vec<String> {
-        Vec::from_iter(self.registry.borrow().keys().map(|x| x.to_string()))
+        #[cfg(not(feature = "sync"))]
+        let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.read().unwrap();
+
+        Vec::from_iter(binding.keys().map(|x| x.to_string()))
     }
 }
 
-- 
2.43.0


From dbcd618b4dbddebf6f2c9c7d96807712107dc83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:24 +0000
Subject: [PATCH 14/42] fix: an exact match search does not retry with shorter
 language tags

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..5f7a273 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From bfcb436419631a5ae2ee50579518ffbb15b99030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:27 +0000
Subject: [PATCH 15/42] fix: a language search does not match other languages
 that begin with the same letters

---
 crates/provider/sqlite3/src/provider.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 5f7a273..3a0bdbf 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,10 +407,11 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
-            let mut rows = match statement.query([identifier, tag.as_str(), component]) {
+            let pattern = match exact {
+                true => tag.clone(),
+                false => format!("{}-%", tag),
+            };
+            let mut rows = match statement.query([identifier, pattern.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
                     return Err(ProviderError::Custom(RefCount::new(Box::new(
@@ -2168,7 +2169,7 @@ fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
             if exact {
                 query.push_str("= ?2")
             } else {
-                query.push_str("LIKE ?2")
+                query.push_str("|| '-' LIKE ?2")
             }
             query.push_str(" AND component = ?3");
             if only_one {
-- 
2.43.0


From e177761acc9dc503a13987a4660c4580af43db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:29 +0000
Subject: [PATCH 16/42] fix: details of an unknown identifier do not report its
 component as missing

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 3a0bdbf..688daa0 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1439,7 +1439,7 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
                 let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
+                if languages.is_empty() && self.components.get(component).is_some_and(|x| x.1) {
                     languages = self.identifier_languages(component, identifier, false)?;
                 }
                 Ok(IdentifierDetails {
-- 
2.43.0


From d9c76a39da85bd5c016f8c41326380c828306f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:35 +0000
Subject: [PATCH 17/42] fix: skip sqlite3 files whose name is not valid Unicode
 instead of panicking

---
 crates/provider/sqlite3/src/provider.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 688daa0..82b63d8 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,13 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let Some(component) = path.file_stem().and_then(|stem| stem.to_str()) else {
+                        #[cfg(feature = "logging")]
+                        error!("{} is not a valid component name.", path.display());
+
+                        continue;
+                    };
+                    let component = component.to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From 34c59b8ae6b84963d70d57e48f445e8993eae33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:01 +0000
Subject: [PATCH 18/42] fix: refuse databases whose tables lack columns of the
 schema

---
 crates/provider/sqlite3/src/provider.rs | 62 +++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 82b63d8..0eda8a4 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1596,7 +1596,9 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1679,12 +1681,27 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "contributor",
+                columns,
+                &[
+                    "rowID",
+                    "component",
+                    "languageTag",
+                    "contributor",
+                    "substituteFor",
+                    "comment",
+                    "verified",
+                ],
+            )?;
 
             // Table: language
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('language');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1718,12 +1735,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "language",
+                columns,
+                &["rowID", "tag", "englishName", "added"],
+            )?;
 
             // Table: pattern
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('pattern');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1790,12 +1814,27 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "pattern",
+                columns,
+                &[
+                    "rowID",
+                    "component",
+                    "identifier",
+                    "languageTag",
+                    "string",
+                    "comment",
+                    "verified",
+                ],
+            )?;
 
             // Table: component
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('component');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1848,12 +1887,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "component",
+                columns,
+                &["rowID", "identifier", "languageTag", "comment", "added"],
+            )?;
 
             // Table: languageData
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('languageData');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1914,6 +1960,11 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "languageData",
+                columns,
+                &["rowID", "component", "languageTag", "count", "ratio"],
+            )?;
         }
         _ => {
             return Err(SchemaError::Version(
@@ -1953,6 +2004,17 @@ enum DefaultValue {
     Date(String),
 }
 
+// Check that the table has all the columns, as a column is only checked when it is present.
+fn columns_exist(table: &str, columns: usize, names: &[&str]) -> Result<(), SchemaError> {
+    match names.get(columns) {
+        Some(name) => Err(SchemaError::MissingColumn(
+            table.to_string(),
+            name.to_string(),
+        )),
+        None => Ok(()),
+    }
+}
+
 /// Check schema of the table's columns.
 fn columns_check(
     table: &str,
-- 
2.43.0


From 541697b322c15337a9c75e02622d17b6371eb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 19/42] fix: report an unknown schema version of a database
 whose path is not valid Unicode instead of panicking

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 0eda8a4..b1072a7 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1968,7 +1968,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0


From 34ab821b9bd478a9639920b14d7970e3bfe6655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:44 +0000
Subject: [PATCH 20/42] fix: report the token that follows a named string's
 name, not the name, when it is not a separator

---
 crates/localiser/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 33c7a26..f72356b 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -525,6 +525,11 @@ impl Tree {
                                 // Skip over whitespace token separator.
                                 continue;
                             }
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         } else if len == 1 {
                             Tree::create_node(&mut nodes, &mut parser, NodeType::String);
                             parser.nested_states.push(ParserState::NamedString);
-- 
2.43.0


From b937af05a9bdb49ca21028ac09b37d905efc9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:32 +0000
Subject: [PATCH 21/42] fix: name the unknown option, not its value, when an
 option of a pattern is refused

---
 crates/localiser/src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index c6d3c37..f1d22f0 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1095,7 +1095,7 @@ fn part_pattern(
                 group = Some(decimal_grouping_display(value.as_str())?);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
+                    key.as_str().to_string(),
                     "decimal".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
@@ -1119,10 +1119,10 @@ fn part_pattern(
                 length_time = Some(time_length(value.as_str())?);
             } else if key.as_str() == "calendar" {
                 if !option_selectors.calendars.contains(&value.as_str()) {
-                    return Err(FormatterError::InvalidOption(
+                    return Err(FormatterError::InvalidOptionValue(
                         value.as_str().to_string(),
-                        "ordinal".to_string(),
-                        placeholder_token.string.as_str().to_string(),
+                        "calendar".to_string(),
+                        "date_time".to_string(),
                     ));
                 }
                 let mut new_calendar = "-u-ca-".to_string();
@@ -1163,8 +1163,8 @@ fn part_pattern(
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
-                    "date-time".to_string(),
+                    key.as_str().to_string(),
+                    "date_time".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-- 
2.43.0


From 01e397223a20c5fc64d69b45706f260472aef3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 22/42] fix: plural, ordinal and select use the selector other
 when there is none for the value

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index f1d22f0..669dade 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -604,7 +604,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -652,7 +652,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From d9a169b53c3721ff4ef7983639bee728e5eab78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 23/42] fix: the calendar option of date_time accepts the
 documented calendars

---
 crates/localiser/src/formatter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 669dade..0ddc770 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -28,6 +28,8 @@ use icu_locid::LanguageIdentifier as IcuLanguage;
 #[cfg(feature = "extend")]
 use icu_locid::Locale as IcuLanguage;
 
+use icu_locid::Locale;
+
 #[cfg(feature = "logging")]
 use log::{debug, trace};
 
@@ -83,10 +85,10 @@ impl Formatter {
         let option_selectors = OptionSelectors {
             valid_plurals: vec!["zero", "one", "two", "few", "many", "other"],
             calendars: vec![
-                "gregorian",
+                "gregory",
                 "buddhist",
                 "japanese",
-                "ethiopian",
+                "ethiopic",
                 "indian",
                 "coptic",
                 "iso",
@@ -1114,7 +1116,7 @@ fn part_pattern(
         let strings = pattern_selectors(tree, index)?;
         let mut length_date: Option<DateLength> = None;
         let mut length_time: Option<TimeLength> = None;
-        let mut calendar: Option<IcuLanguage> = None;
+        let mut calendar: Option<Locale> = None;
         for (key, value) in strings.iter() {
             if key.as_str() == "date" {
                 length_date = Some(date_length(value.as_str())?);
@@ -1462,7 +1464,7 @@ enum PatternPart {
         placeholder: String,
         length_date: Option<DateLength>,
         length_time: Option<TimeLength>,
-        calendar: Option<IcuLanguage>,
+        calendar: Option<Locale>,
     },
     PatternComplex {
         placeholder: String,
-- 
2.43.0


From 74b8a918d428cbcd7f679872afcd90bda3b87c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 24/42] fix: a date of only an expanded year keeps all its
 digits

---
 crates/localiser/src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 0ddc770..ad3171a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -915,7 +915,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
     if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
-        if let Some(slice) = parts[0].get(..4) {
+        if no_plus.len() != string.len() {
+            // +YYYYY, all digits are of the year.
+            year = i32::from_str(parts[0])?;
+        } else if let Some(slice) = parts[0].get(..4) {
             year = i32::from_str(slice)?;
 
             // try month
-- 
2.43.0


From da4394a486515e37c2d99b120abe8bb66b0c9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 25/42] fix: errors refer to the components and identifiers of
 the shipped localisation strings

---
 crates/lexer/src/error.rs     |  8 ++++----
 crates/localiser/src/error.rs | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..99a50cf 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..b229981 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -309,7 +309,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -336,7 +336,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -367,7 +367,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -398,7 +398,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From 298053e5b7ed8095dbaef7762e4df40dcabc6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 26/42] fix: errors provide their details under the
 placeholders of the localisation strings

---
 crates/localiser/src/error.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b229981..2780d90 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -305,7 +305,7 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -332,7 +332,7 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -359,11 +359,11 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -390,11 +390,11 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From 44010addc3d3920b5f04664a6cd70aeeffd123aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 27/42] fix: errors provide positions and indices as strings as
 their localisation strings have no number patterns

---
 crates/localiser/src/error.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 2780d90..d5ebfbe 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -105,7 +105,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
@@ -160,7 +160,7 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -364,7 +364,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -395,7 +395,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From a3ac0d896ad8ad5a6a8d0aab6561c4abdbf24e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:33 +0000
Subject: [PATCH 28/42] fix: the lexer's localisation strings belong to the
 component i18n_lexer

---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

-- 
2.43.0


From 13b4c4cdf36ae88aba43a0e209378ef2f7eaa102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:33 +0000
Subject: [PATCH 29/42] fix: the strings of an invalid selector and of
 sequential number signs use the provided details

---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |   4 ++--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index d5ebfbe..b92c86c 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From c7754bdaee22afbbeea86668c048ebfe2fa087bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:33 +0000
Subject: [PATCH 30/42] fix: errors without details are formatted when their
 localisation strings are patterns

---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b92c86c..62e2183 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..6a7b7ac 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From 722dc16acafb98407fc02ccfe20da79fea55cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:39 +0000
Subject: [PATCH 31/42] fix: errors are named after their types and variants

---
 crates/lexer/src/error.rs     | 4 ++--
 crates/localiser/src/error.rs | 6 +++---
 crates/utility/src/error.rs   | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 99a50cf..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 62e2183..641c0d1 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -63,7 +63,7 @@ impl LocalisationTrait for TreeError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("LexerError".to_string()),
+                    PlaceholderValue::String("Lexer".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -218,7 +218,7 @@ impl Display for TreeError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
             TreeError::Lexer(ref error) => write!(
-                formatter, "TreeError::LexerError: [{}].", error
+                formatter, "TreeError::Lexer: [{}].", error
             ),
             TreeError::EndedAbruptly => write!(
                 formatter, "TreeError::EndedAbruptly: The string ended abruptly."
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From e67e0194ff58f8317eec13e68578554ec25c090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:39 +0000
Subject: [PATCH 32/42] fix: the messages of pattern parts and column
 mismatches have their details in the right places

---
 crates/localiser/src/error.rs        | 2 +-
 crates/provider/sqlite3/src/error.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 641c0d1..0a85190 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1783,7 +1783,7 @@ impl Display for FormatterError {
                 write!(
                     formatter,
                     "FormatterError::PatternPart: Failed to retrieve the part ‘{}’ of the pattern for the named string ‘{}’.",
-                    identifier, index
+                    index, identifier
                 ),
             FormatterError::InvalidOptionValue( value, option, keyword ) =>
                 write!(
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 6a7b7ac..826b1d8 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -505,8 +505,8 @@ impl Display for SchemaError {
                 formatter,
                 "Check `verify_schema()` as default value type does not match column type for \
                 the column ‘{}’ of table ‘{}’.",
-                table,
-                column
+                column,
+                table
             ),
         }
     }
-- 
2.43.0


From 907cb3841daa5f472ab5dd4e009a836961de2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:32 +0000
Subject: [PATCH 33/42] fix: errors wrapped by a formatter error are localised
 too

---
 crates/localiser/src/error.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 0a85190..f8e8d64 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -812,7 +812,6 @@ impl LocalisationTrait for FormatterError {
         let type_string = PlaceholderValue::String("FormatterError".to_string());
         match self {
             FormatterError::Localiser(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -821,7 +820,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -830,7 +829,6 @@ impl LocalisationTrait for FormatterError {
                 }
             }
             FormatterError::Tree(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -839,7 +837,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 1ddadc3d1b8e393b11a12e8f808da61797f96139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 34/42] fix: Armenian, Kannada, Kaithi, Khojki and Todhri are
 written from left to right

---
 crates/localiser/src/script.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..314b999 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,7 +671,7 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1484,7 +1484,7 @@ impl DataProvider {
             "Todr".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 5c687dd3e6314e840b5c8ee58a11f701fd64e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 35/42] fix: script data are found for Yi, Gurung Khema,
 Zanabazar Square and Hrkt under their ISO 15924 codes

---
 crates/localiser/src/script.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index 314b999..0cec2fb 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -408,7 +408,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Gukn".to_string(),
+            "Gukh".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
@@ -549,7 +549,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Hikt".to_string(),
+            "Hrkt".to_string(),
             ScriptData {
                 category: Category::Syllabic,
                 directions: vec![
@@ -1569,15 +1569,15 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
         data.insert(
-            "Zand".to_string(),
+            "Zanb".to_string(),
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-- 
2.43.0


From 0af620a1a2691913550e4b6a12ca04170266f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 36/42] fix: the Ethiopic and Kannada scripts are in use today

---
 crates/localiser/src/script.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index 0cec2fb..16d2b56 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -321,7 +321,7 @@ impl DataProvider {
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-                historic: true,
+                historic: false,
             },
         );
         data.insert(
@@ -672,7 +672,7 @@ impl DataProvider {
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-                historic: true,
+                historic: false,
             },
         );
         data.insert(
-- 
2.43.0


From a9f06a2819ccda34feb46e8a528c5580cb81e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:18 +0000
Subject: [PATCH 37/42] fix: the feature icu_extended switches the locale type
 of language tags

---
 crates/localiser/src/formatter.rs |  4 ++--
 crates/utility/src/error.rs       | 16 ++++++++--------
 crates/utility/src/language.rs    |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index ad3171a..855691c 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -22,10 +22,10 @@ use icu_decimal::{options, FixedDecimalFormatter};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 use icu_locid::Locale;
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index 70d251c..3baec13 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -21,9 +21,9 @@ use std::{
 #[derive(Debug, PartialEq, Copy, Clone)]
 #[non_exhaustive]
 pub enum RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     LanguageIdentifier(ParserError),
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     Locale(ParserError),
 }
 
@@ -33,7 +33,7 @@ impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
         let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -53,7 +53,7 @@ impl LocalisationTrait for RegistryError {
                 }
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -79,12 +79,12 @@ impl LocalisationTrait for RegistryError {
 impl Display for RegistryError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(ref error) => {
                 write!(formatter, "RegistryError::LanguageIdentifier: [{}].", error)
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(ref error) => {
                 write!(formatter, "RegistryError::Locale: [{}].", error)
             }
@@ -96,12 +96,12 @@ impl Display for RegistryError {
 impl Error for RegistryError {}
 
 impl From<ParserError> for RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::LanguageIdentifier(error)
     }
 
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::Locale(error)
     }
diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..2f991d6 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -5,10 +5,10 @@
 
 use crate::RegistryError;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(not(feature = "sync"))]
-- 
2.43.0


From c2c7c7ef712b1526d46c42b8ed7110cd1fad3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:45 +0000
Subject: [PATCH 38/42] fix: the feature logging switches all messages of the
 Sqlite3 provider

---
 crates/provider/sqlite3/src/provider.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index b1072a7..f73f8a2 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -147,7 +147,7 @@ impl LocalisationProviderSqlite3 {
                     };
                     let component = component.to_string();
 
-                    #[cfg(logging)]
+                    #[cfg(feature = "logging")]
                     trace!("Sqlite3 file: {}", component);
 
                     if component.as_str().cmp("__all_in_one__") == Ordering::Equal {
@@ -170,7 +170,7 @@ impl LocalisationProviderSqlite3 {
                                     while let Some(row) = rows.next()? {
                                         let component: String = row.get(0)?;
 
-                                        #[cfg(logging)]
+                                        #[cfg(feature = "logging")]
                                         trace!(
                                             "__all_in_one__.sqlite3 has component: {}",
                                             component
@@ -212,7 +212,7 @@ impl LocalisationProviderSqlite3 {
                             Ok(connection) => {
                                 let schema_version = verify_schema(&connection)?;
 
-                                #[cfg(logging)]
+                                #[cfg(feature = "logging")]
                                 trace!("Added component: {}", component);
 
                                 if components.contains_key(&component) {
-- 
2.43.0


From 2c3da25deba610401e18b30c1b0af1308483ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:35 +0000
Subject: [PATCH 39/42] fix: the calendar option replaces the calendar of any
 locale

---
 crates/localiser/src/formatter.rs | 43 +++++--------------------------
 1 file changed, 7 insertions(+), 36 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 855691c..2ebe47e 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -28,7 +28,7 @@ use icu_locid::LanguageIdentifier as IcuLanguage;
 #[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
-use icu_locid::Locale;
+use icu_locid::{extensions::unicode::key, Locale};
 
 #[cfg(feature = "logging")]
 use log::{debug, trace};
@@ -1133,41 +1133,12 @@ fn part_pattern(
                         "date_time".to_string(),
                     ));
                 }
-                let mut new_calendar = "-u-ca-".to_string();
-                new_calendar.push_str(value.as_str());
-                let mut locale_string = icu_language.to_string();
-                match locale_string.find("-u-ca-") {
-                    None => {
-                        locale_string.push_str(new_calendar.as_str());
-                    }
-                    Some(tag_position) => {
-                        let mut hyphens = locale_string.match_indices('-');
-                        while let Some(pair) = hyphens.next() {
-                            if pair.0 == tag_position {
-                                hyphens.next(); // There is an experimental advance_by( 2 ) to replace two next()
-                                hyphens.next();
-                                match hyphens.next() {
-                                    None => {
-                                        // The calendar tag is last tag
-                                        let old_calendar =
-                                            locale_string.get(tag_position..).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                    Some(end) => {
-                                        new_calendar.push('-');
-                                        let old_calendar =
-                                            locale_string.get(tag_position..=end.0).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-                let calendar_locale = locale_string.parse()?;
+                let mut calendar_locale = Locale::from(RefCount::as_ref(icu_language).clone());
+                calendar_locale
+                    .extensions
+                    .unicode
+                    .keywords
+                    .set(key!("ca"), value.as_str().parse()?);
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-- 
2.43.0


From 45e360f239b0661a27c47adc0b284371be29a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:07 +0000
Subject: [PATCH 40/42] fix: the error for a wrong key flag names the expected
 key flag

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index f73f8a2..2c93573 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -2057,7 +2057,7 @@ fn columns_check(
         return Err(SchemaError::ColumnProperty(
             table.to_string(),
             name.to_string(),
-            match notnull {
+            match pk {
                 1 => "PRIMARY KEY",
                 _ => "",
             }
-- 
2.43.0


From d283481d38858243428279eec07df8b3ee9cd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 41/42] fix: details of an identifier list the languages of
 every database that has its component

---
 crates/provider/sqlite3/src/provider.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 2c93573..c6c9c83 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1445,8 +1445,13 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
                 let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() && self.components.get(component).is_some_and(|x| x.1) {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                if self.components.get(component).is_some_and(|x| x.0 && x.1) {
+                    // Also in own <component>.sqlite3
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From aeecbdc0c99b60a3d597c7079a89a001d25a0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 42/42] fix: repository details list the contributors of each
 language

---
 crates/provider/sqlite3/src/provider.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index c6c9c83..4853703 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1064,10 +1064,16 @@ impl LocalisationProviderSqlite3 {
             let languages_iterator = languages.iter();
             for language in languages_iterator {
                 let language_data = component_details.languages.get_mut(language).unwrap();
+                let repository_language = repository_details.languages.get_mut(language).unwrap();
                 if component.1 .0 {
                     language_data.contributors = self.contributors(component.0, language, true)?;
                     let contributors_iterator = language_data.contributors.iter();
                     for contributor in contributors_iterator {
+                        if !repository_language.contributors.contains(contributor) {
+                            repository_language
+                                .contributors
+                                .push(contributor.to_string());
+                        }
                         if !repository_details.contributors.contains(contributor) {
                             repository_details
                                 .contributors
@@ -1082,6 +1088,11 @@ impl LocalisationProviderSqlite3 {
                         if !language_data.contributors.contains(contributor) {
                             language_data.contributors.push(contributor.to_string());
                         }
+                        if !repository_language.contributors.contains(contributor) {
+                            repository_language
+                                .contributors
+                                .push(contributor.to_string());
+                        }
                         if !repository_details.contributors.contains(contributor) {
                             repository_details
                                 .contributors
@@ -1096,7 +1107,6 @@ impl LocalisationProviderSqlite3 {
                 if component.1 .1 {
                     language_data.count += self.count(component.0, language, false)?;
                 }
-                let repository_language = repository_details.languages.get_mut(language).unwrap();
                 repository_language.count += language_data.count;
                 component_details.total_strings += language_data.count;
                 repository_details.total_strings += language_data.count;
-- 
2.43.0

