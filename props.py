"""Single source of the property texts: gen.py writes properties.jsonl and MANIFEST.json from it."""
A_LIB = "the standard library, ICU4X and rusqlite behave as documented: their calls are modelled, not analysed"
A_BUILD = "only the configurations that are analysed (listed in coverage.configurations) are covered"
ENGINE = ("path-sensitive abstract interpretation of the compiler's MIR (extracted on every run from /repo by a rustc driver): "
          "arguments are opaque terms, so every path holds for all inputs; loops are closed by a havoc fixpoint; workspace helpers are analysed in context")
LEVEL = ("Sound for every input on the analysed MIR, up to the modelled library semantics; a path whose obligation cannot be "
         "discharged is reported. Trusted: rustc's MIR, the driver, the Python engine and its library models.")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, rule, mod, fn, floor, technique, assumptions=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, rule=rule,
                  mod=mod, fn=fn, floor=floor, technique=technique, assumptions=[A_LIB, A_BUILD] + list(assumptions), observe=list(observe)))


NA = []


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


U = "crates/utility/src/"
prop("C01", "A language tag request always yields the canonical tag of the text",
     "Whatever was requested before, asking the registry for a language tag succeeds exactly when the text is a well-formed language identifier, and then returns the tag whose text is the canonical form of that text. "
     "Different spellings of one language (case, underscores, deprecated forms) always resolve to equal tags, and repeated requests agree. Malformed text is refused with the parse error and never yields a tag.",
     ["inputs", "histories"], "every text, after every sequence of earlier requests, single-threaded and thread-safe builds",
     "tests ask for two or three fixed spellings on a fresh registry; the guarantee is over all texts and all earlier request histories",
     [U + "language.rs"], [("canonicalisation before storing", U + "language.rs LanguageTagRegistry::tag"), ("lookup by canonical and by deprecated spelling", U + "language.rs LanguageTagRegistry::tag")],
     "Every path of tag(s): Ok value is a new tag of canonicalize(s), or a stored entry looked up under s or canonicalize(s); Err only when canonicalize(s) failed, carrying its error; new tags are stored. Inductive store invariant: every insert, from any public function of the crate, maps a spelling to its canonical tag.",
     "utility", "c01", 14, "MIR abstract interpretation with an inductive store invariant")
prop("C02", "Registry listings report exactly the tags and spellings accepted so far",
     "The registry's listing contains every canonical tag it ever handed out, once each, and nothing else; the deprecated listing contains one entry for every accepted non-canonical spelling and none for canonical ones; the combined listing is both together. "
     "A refused request leaves all listings unchanged, and no request ever removes or replaces an entry.",
     ["inputs", "histories"], "every sequence of requests on a single-threaded registry",
     "tests count entries after one request; the guarantee is over every request history",
     [U + "language.rs"], [("insertion of new and deprecated spellings", U + "language.rs LanguageTagRegistry::tag"), ("listing functions", U + "language.rs LanguageTagRegistry::list, list_deprecated, list_all")],
     "Listings: the returned vector is built from one unfiltered pass over one store per listing. tag(): per path, the canonical store gains the tag iff absent, the deprecated store gains the spelling iff it differs from the canonical text, nothing is written on Err; only insert mutates the stores; a new registry is empty.",
     "utility", "c02", 15, "MIR abstract interpretation, collection-building and effect rules")
prop("C03", "The language object of a tag is always that tag's own language",
     "The parsed language obtained for a tag, directly or through the registry's cache, is always the parse of exactly that tag's text, no matter which other tags were asked for before.",
     ["inputs", "histories"], "every tag and every earlier sequence of requests",
     "tests ask for one language once; a cache keyed or filled wrongly shows only after other requests",
     [U + "language.rs"], [("language cache", U + "language.rs LanguageTagRegistry::icu_language"), ("parse of own text", U + "language.rs LanguageTag::icu_language")],
     "Return value of the direct accessor is parse(own text); every path of the registry accessor returns that for its argument or the cache entry stored under its argument; every cache insert pairs a tag with its own language.",
     "utility", "c03", 6, "MIR abstract interpretation with cache-coherence rule")
prop("C04", "Handed-out tags and tagged strings never change and are never forged",
     "A language tag can only come into being from canonicalised text, and a tagged string keeps exactly the text and tag it was created with; no operation of the library can alter either afterwards. Reading a tagged string back (as text, as tag, by display) gives what was stored.",
     ["programs", "inputs"], "every program using the public API, every text and tag",
     "no test can show the absence of a mutation or forging path",
     [U + "language.rs", U + "tagged_string.rs"], [("private fields and read-only accessors", U + "tagged_string.rs, language.rs")],
     "Fields are not public; no function in the workspace takes or returns mutable access to these types or assigns their fields; every construction of a tag takes canonicalize's result; accessors, Display and equality are analysed on an arbitrary value.",
     "utility", "c04", 100, "ownership/visibility scan over all MIR bodies plus abstract interpretation of accessors")
prop("C05", "Script direction answers are consistent with each other and with the name",
     "For every script direction, the combined answer equals the separate line and grapheme answers, the two are perpendicular, they are the ones named, and no two script directions share the same pair.",
     ["inputs"], "all script directions",
     "no test covers them",
     [U + "script.rs"], [("direction tables", U + "script.rs ScriptDirection::directions, line, grapheme")],
     "The three accessors are evaluated abstractly on each variant of the type and cross-checked.",
     "utility", "c05", 14, "abstract evaluation over the finite variant domain")
X = "crates/lexer/src/"
prop("C06", "Tokens reproduce the input text exactly, with exact positions",
     "For every non-empty string, concatenating the texts of all tokens in order gives back exactly the string. Every token's start, length and end (bytes, characters) locate precisely its text in the string, the next token starts where the previous one ends, and grapheme starts are the running total of the grapheme counts of the preceding tokens.",
     ["inputs"], "every string, grammar and property data; single-threaded and thread-safe builds",
     "tests lex a few fixed strings; losslessness and positions must hold for every string",
     [X + "lexer.rs"], [("pending token and restart on a boundary", X + "lexer.rs LexerIterator::next, token"), ("initial state", X + "lexer.rs LexerIterator::try_new")],
     "Induction over the iterator's steps: construction establishes, and each abstract step (append / emit-and-restart / final emit) preserves, the relation between consumed characters, pending text and the five position counters; roles of fields are inferred from the emitted token.",
     "lexer", "c06", 80, "inductive invariant over abstract MIR steps")
prop("C07", "Characters are classified by the Unicode sets and merged maximally by class",
     "A token is white space, syntax, grammar or identifier according to its characters: Pattern_White_Space characters, Pattern_Syntax characters that are in the given grammar, other Pattern_Syntax characters, and all others, in that order. Neighbouring characters of the same class are always in the same token and characters of different classes never are, except that each grammar character is a token of its own.",
     ["inputs"], "every string and grammar",
     "tests lex a few fixed strings",
     [X + "lexer.rs"], [("classification", X + "lexer.rs LexerIterator::token_type, try_new"), ("merge decision", X + "lexer.rs LexerIterator::next")],
     "Every step path determines the class of the character from set-membership facts; appending paths require the same non-grammar class as the pending one, emitting paths require a different class or grammar; the pending class recorded afterwards is the character's.",
     "lexer", "c07", 22, "inductive invariant over abstract MIR steps")
prop("C08", "The lexer never panics, refuses empty input and ends exactly once",
     "Building the token iterator fails with the matching error exactly for an empty grammar or an empty string, and never panics. A non-empty string yields at least one token, the iterator reports the end only after the last pending text was delivered, and it keeps reporting the end afterwards.",
     ["inputs", "histories"], "every string, grammar, and number of further calls after the end",
     "tests stop at the first end report and use fixed strings",
     [X + "lexer.rs"], [("argument checks", X + "lexer.rs LexerIterator::try_new"), ("end flag", X + "lexer.rs LexerIterator::next")],
     "No feasible panic path; error variants match the emptiness facts; `next` is re-analysed from the construction state, from every mid-token post-state (never the end) and from the final post-state (always the end).",
     "lexer", "c08", 20, "typestate analysis of the iterator over MIR")
L = "crates/localiser/src/"
prop("C09", "Caching and earlier requests never change the answer",
     "Whatever requests were made before and whether or not their results were cached, a request for a string returns the text and tag that a fresh localiser without cache would return for the same component, identifier, values and language (a literal request for a string held as parsed pattern may be refused with the dedicated cache error instead). "
     "Text cached as a plain string is a string without pattern syntax, stored under the component, identifier and language it belongs to, and formatting with one set of values leaves no trace in later formatting.",
     ["histories", "inputs"], "every sequence of requests with every mix of caching settings, values and languages",
     "a wrong cache entry shows only in a later request with other arguments; tests ask each string once",
     [L + "localiser.rs", L + "formatter.rs"], [("cache reads and writes", L + "localiser.rs Localiser::format_string, actual_format, actual_literal"), ("per-format state", L + "formatter.rs Formatter::format")],
     "Every write into a collection of the localiser maps (component, identifier, language asked of the provider) to the provider's answer for exactly these (as text without grammar characters, or as the formatter of that text); every answer read from a collection is read under the request's own keys; fields of a formatter that formatting writes are reset on every path before being read.",
     "localiser", "c09", 3000, "MIR abstract interpretation with cache-coherence rule (store invariant over all writes and reads)")
prop("C10", "Requests return the right string, fall back only as asked, or say not found",
     "An answer is always the provider's string for the requested component and identifier in the requested language, or, only when fallback is in force and that language has none, in the component's default language; the tag returned is the one of the string found. "
     "When neither has a string the not-found error names the component, identifier and language asked for, and provider errors reach the caller unchanged.",
     ["inputs", "histories"], "every component, identifier, values, language and fallback setting",
     "tests use one language with matching data; fallback decisions and failure paths need all combinations",
     [L + "localiser.rs"], [("lookup and fallback", L + "localiser.rs Localiser::actual_format, actual_literal, format, literal, literal_with_defaults, format_with_defaults")],
     "Each Ok path is classified by the provider call its text, tag and formatter derive from; keys, settings in force and the emptiness facts of the first lookup are checked; each Err path carries the failing callee's error or the not-found data of this request.",
     "localiser", "c10", 2000, "MIR abstract interpretation, provenance of answers")
prop("C11", "Defaults apply exactly when a request leaves a setting out",
     "A setting given in a request is the one used; a setting left out takes the value last set as default, initially the one given at construction, and changing one default never alters another. Nothing is stored in the cache when caching is off. The language and script reported are always those of the default language in force.",
     ["histories", "inputs"], "every sequence of default changes and every combination of given and omitted settings",
     "tests construct once with fixed defaults",
     [L + "localiser.rs"], [("defaults", L + "localiser.rs Localiser::try_new, defaults, default_language"), ("cache decision", L + "localiser.rs Localiser::actual_format, actual_literal")],
     "Summary of the defaults setter (which cells, which values, nothing else); constructor gives the same cells the given values; accessors read these cells; in every request path the setting that decides is the argument if present, else its cell; collection writes need caching in force.",
     "localiser", "c11", 800, "MIR abstract interpretation, effect summaries of interior-mutable cells")
prop("C12", "Localising structured data keeps its shape and its own values",
     "Localising structured data or an error formats its own component and identifier with its own values (delivered literally when it has none) under the request's language and settings. Every nested message is localised the same way and put in the place of the value it came from, every other value is passed through untouched, and a failure anywhere is returned.",
     ["inputs"], "every nesting of data and values",
     "tests use flat data; the guarantee is inductive over nesting",
     [L + "localiser.rs"], [("structured data and errors", L + "localiser.rs Localiser::format_localisation_data, format_error and their with_defaults forms"), ("nested data", L + "localiser.rs Localiser::actual_format_localisation_data")],
     "One level is analysed with the nested call opaque (structural induction): the map handed to the formatting call has, for each entry of the input, the same key and either the same value or the tagged result of the nested call on that very value with the request's settings; no entry is dropped or added.",
     "localiser", "c12", 4000, "MIR abstract interpretation, structural induction over the data type")
prop("C13", "No call can deadlock on, or panic over, the library's own locks",
     "No public operation ever takes a lock or borrow that it already holds, neither itself nor through the library code it calls, locks are released on return, and any two locks are always taken in the same order. So no single call and no set of concurrent calls can block forever or panic because of them, as long as registered commands do not call back into the localiser that is running them.",
     ["schedules", "inputs"], "every interleaving of public calls, every path through them, RefCell and lock builds",
     "tests run single-threaded and re-entrancy or ordering problems need particular schedules",
     [U + "language.rs", L + "localiser.rs", L + "command.rs", "crates/provider/sqlite3/src/provider.rs"], [("locks and cells", "every RefCell, Mutex and RwLock field of these types")],
     "Lock events on every abstract path of every public function: no acquisition of a lock held on that path (directly or through a callee), no call under a guard that can come back to the same lock, no guard escaping, acyclic order graph over lock fields.",
     "threads", "c13", 5000, "lock-order and guard-lifetime analysis over abstract MIR paths")
prop("C14", "The thread-safe build can really be shared between threads",
     "With the thread-safe feature enabled, the public types can be sent to and shared between threads, and none of them holds a single-threaded reference count or cell. No type is made shareable by unchecked assertion.",
     ["programs", "schedules"], "every program built with the thread-safe feature",
     "the tests never build with that feature across threads",
     ["crates/utility/src/", "crates/lexer/src/", "crates/localiser/src/", "crates/provider/"], [("feature switch of reference counts and cells", "use declarations under cfg(feature = \"sync\")")],
     "Compile witnesses: for each public type a function requiring Send and Sync must compile against the sync build; every field type of every workspace type in the sync build is searched for Rc, RefCell, Cell, raw pointers; no unsafe impl Send/Sync.",
     "threads", "c14", 95, "compile-time trait witnesses plus type scan of the compiler's type tables")
prop("C15", "The command registry never loses, replaces or invents commands",
     "A command stays registered under its name with its first function: registering a taken name is refused and changes nothing, registering a free name makes exactly that function retrievable under that name, and an unknown name is reported as such. The listing has exactly the registered names.",
     ["histories", "inputs"], "every sequence of registrations and lookups",
     "tests register one command",
     [L + "command.rs"], [("registration and lookup", L + "command.rs CommandRegistry")],
     "Per path of insert/command/list/new: insertion only under the fact that the name is absent, key and value are the arguments, error names the argument; lookup returns the payload stored under the argument.",
     "commands", "c15", 9, "MIR abstract interpretation with store invariant")
prop("C16", "Built-in commands never panic and report wrong parameters as errors",
     "The commands shipped with the library return text or an error for every list of parameters, never panic, and report a missing or wrongly typed parameter with an error naming the command. The path command returns the given path unchanged; the article command answers 'an' exactly for words beginning with one of the small letters a, e, i, o, u and 'a' otherwise.",
     ["inputs"], "every parameter list of any length and value types",
     "tests pass well-formed parameters only",
     [L + "command.rs"], [("built-in commands", L + "command.rs file_path, english_a_or_an")],
     "Both commands: no feasible panic path, Ok only for textual parameters, error variant and data follow the failed check, result is the parameter or the article decided by its first character.",
     "commands", "c16", 18, "MIR abstract interpretation over all value variants")
S = "crates/provider/sqlite3/src/"
prop("C17", "Localisation databases are only ever read",
     "No operation of the library writes to a localisation database or to any file: databases are opened read-only, only single SELECT statements are run on them, and no file is created, changed, renamed or removed.",
     ["inputs", "programs"], "every request with every argument, in the single-threaded and thread-safe builds",
     "tests use repositories that nobody compares before and after",
     [S + "provider.rs"], [("opening", S + "provider.rs LocalisationProviderSqlite3::try_new, connection_sync"), ("queries", S + "provider.rs find_strings, languages, count")],
     "Every reference to the database library in every function of the workspace is on a list of reading operations; the flags of every open are evaluated and contain READ_ONLY and neither READ_WRITE nor CREATE; every prepared text resolves to constants that are one SELECT; no writing file-system function is referenced.",
     "provider", "c17", 1500, "effect analysis over all MIR references plus abstract interpretation of opens and statements")
prop("C18", "Requested names and tags can never become part of a query's text",
     "Whatever component names, identifiers and language tags are requested, the text of every database query is one of a fixed set of constants, and the requested texts reach the database only as bound values. Every query uses tables and columns of the shipped schema and gets exactly as many values as it has parameters.",
     ["inputs", "histories"], "every text, after every history of requests that filled the table of kept queries",
     "no test uses hostile names, and a query kept under a wrong key shows only in the order of requests",
     [S + "provider.rs", "crates/provider/sqlite3/l10n/schema.sql"], [("query texts", S + "provider.rs query_pattern and the other query_ functions"), ("kept queries", S + "provider.rs find_strings and the other readers")],
     "At every query execution on every path the statement text resolves to constants, directly or through the table of kept queries (each constant key of which holds one constant text over all paths); the number of bound values equals the number of parameters; tables and columns are those of schema.sql.",
     "provider", "c18", 2500, "taint-style constant-origin analysis on MIR paths, checked against schema.sql")
prop("C19", "A lookup answers only with strings stored for what was asked",
     "Every string returned by a lookup is stored in the repository for exactly the requested component and identifier, and is returned together with the language tag stored beside it. The language is the requested one or one that extends it or one of its shortenings made by removing subtags from the end; the exact lookup answers only for the requested tag itself.",
     ["inputs"], "every repository content and every request",
     "tests use one repository with a handful of strings",
     [S + "provider.rs"], [("selection of rows", S + "provider.rs find_strings, query_pattern"), ("answers", S + "provider.rs string, string_exact_match, strings, identifier_details")],
     "On every path: the query selects from the pattern table by component, identifier and language; the values bound to these columns are the arguments, the language one being the requested tag or a loop variable that starts as it and is only shortened at the last separator, followed by the pattern suffix; every collected pair is the string and the registered tag of one row; the answer is made of collected pairs only.",
     "provider", "c19", 1000, "MIR abstract interpretation with provenance of rows and bound values")
prop("C20", "Lookups search the common database first and give up only when all are empty",
     "For a component present in the common database and in its own, the common one is searched first and the own one only when the first has no answer; an empty answer is given only after every database holding the component was searched for the tag and, except in exact lookups, all its shortenings. A shorter tag is tried only when the longer one gave nothing, and every matching row of the answering level is returned by the listing lookup.",
     ["inputs"], "every distribution of components over databases and every content",
     "tests have a single database per component",
     [S + "provider.rs"], [("search order", S + "provider.rs string, string_exact_match, strings, identifier_details"), ("levels", S + "provider.rs find_strings")],
     "Per path, the sequence of databases consulted, the registration flags and the emptiness facts: the own database only after the common one was empty or does not hold the component; an answer that may be empty only when each source was consulted or is known absent; rows are read to the end and each is collected; the loop over shorter tags continues only with an empty level and ends only with an answer or an empty tag.",
     "provider", "c20", 800, "MIR abstract interpretation, typestate over consulted sources")
prop("C21", "Database failures are reported, never turned into answers or invented",
     "When opening, preparing, running or reading a query fails, or a stored language tag is malformed, the request fails with an error that carries that failure; it is never presented as a missing string or an empty answer. Without such a failure the only errors are that the component is unknown, and for details a missing or unlisted default language.",
     ["fault_sequences", "inputs"], "a failure at any call into the database or the tag registry, in any request",
     "tests run on healthy databases; each call has its own error branch that none of them takes",
     [S + "provider.rs"], [("error handling of every call", S + "provider.rs, all functions")],
     "On every path of every request, each call into the database, registry and readers is examined, and a failed one makes the function return an error containing its error value (opening a file while collecting the repository is exempt: such files are skipped); errors without a failed call are only the named ones, under their condition.",
     "provider", "c21", 7478, "error-propagation analysis over MIR paths")
prop("C22", "Repository and component details add up and name a listed default language",
     "Details are kept for every component under its own name; their default language is the one stored for the component and is always one of the listed languages; the number of strings of a language counts every database holding the component, and the totals of component and repository grow by exactly these numbers. The default language reported for an identifier is that of its component.",
     ["inputs", "histories"], "every repository content and every order of detail requests",
     "tests look at one repository with one language per component",
     [S + "provider.rs"], [("collection", S + "provider.rs build_cache"), ("readers", S + "provider.rs languages, contributors, count, default_language"), ("answers", S + "provider.rs component_details, repository_details, identifier_details")],
     "The reading functions are classified by their query and must be scoped to their arguments; on every iteration over the components one entry is kept under the component's name whose default was read for it and looked up among its languages; in the loop over languages the count, component total and repository total change by the same sum of the counts read, one per database holding the component; answers come from the kept details, which are set once.",
     "provider", "c22", 444, "MIR abstract interpretation with linear-change rule on loop iterations")
prop("C23", "No request to the provider panics, whatever the databases contain",
     "Opening a repository, looking up strings and asking for details return a value or an error for every directory content, database content and request; none of them panics.",
     ["inputs", "fault_sequences"], "every directory, database content, request and library failure, both builds",
     "tests use well-formed repositories",
     [S + "provider.rs"], [("registration invariant", S + "provider.rs try_new, connection, connection_sync"), ("details", S + "provider.rs build_cache"), ("query selection", S + "provider.rs query_ functions")],
     "Every panic reachable in MIR from every request is shown infeasible: connection look-ups by the invariant that a component is registered for a source only together with its connection, unsupported-version branches by the versions the schema check accepts, unwraps in the details by key-membership between the collections, once-cells by being set on every successful way; poisoned locks are exempt.",
     "provider", "c23", 60, "panic-reachability analysis on MIR with inductive collection invariants", ["no other thread panicked while holding a lock of the provider", "counts do not overflow the machine word"])
prop("C24", "A repository consists of exactly the checked sqlite3 files of its directory",
     "Opening a repository uses exactly the entries of the directory whose name ends in .sqlite3, each only after its schema was checked, under the name of its file, and registers every component listed in the common database. A path that is no directory and a directory without any component are refused with their errors.",
     ["inputs"], "every directory content",
     "tests open two fixed directories",
     [S + "provider.rs"], [("opening", S + "provider.rs try_new")],
     "On every path of opening: a file is opened only under the fact that its extension is sqlite3 and it is the directory entry; its connection is kept only after a successful schema check of that connection, under its file stem (or the common name when the stem is it), with the version found; components are registered under the stem or the identifier read, together with the connection; the directory is read to its end; success requires a directory and a component.",
     "provider", "c24", 44, "MIR abstract interpretation, typestate opened-checked-kept")
prop("C25", "Only databases with the complete shipped schema are accepted",
     "A database is accepted only when its recorded schema version is the supported one and every table of the shipped schema has all columns of that schema in their positions, with the same name, type, nullability and key flag; otherwise opening fails, and the error names the table, the column and the property that are at fault.",
     ["inputs"], "every database",
     "tests only open valid databases",
     [S + "provider.rs", "crates/provider/sqlite3/l10n/schema.sql"], [("schema check", S + "provider.rs verify_schema, columns_check")],
     "Every accepting path has read the version from the metadata and knows it to be the supported constant, and has counted at least as many columns per table as schema.sql has; in the loop over a table's columns every position of schema.sql is distinguished and continues only with name, type, nullability and key equal to those of schema.sql; every rejecting path that is about a column names the table, the column and the expected property it has just found missing or different.",
     "provider", "c25", 94, "MIR abstract interpretation compared with the shipped SQL schema")

T = "crates/localiser/src/tree.rs"
prop("C26", "Parsing a pattern string never panics",
     "For every string, the parser of pattern strings returns a syntax tree or an error; it never panics, whatever the order and number of grammar characters, identifiers, white space and other text.",
     ["inputs"], "every sequence of tokens, of any length",
     "tests parse a few dozen strings; an index or unwrap that fails needs a particular sequence of tokens",
     [T], [("parser", T + " Tree::try_new and its helpers")],
     "The parser is turned into a finite transition system over token classes: at the head of its token loop the abstract state is reduced to the parser state, the stack of states and the nodes between root and current node, and each reduced state is explored once for every class of next token. No path of this system reaches a panic.",
     "patterns", "c26", 2764, "abstract interpretation of MIR into a finite token automaton, panic reachability")
prop("C27", "The strings accepted as patterns are exactly those of the documented grammar",
     "A string is accepted exactly when its tokens follow the documented pattern grammar: text with escapes, literals, commands, placeholders with keyword and options, and named strings after a number sign; a string of any other form is refused, and none of this form is refused except for a duplicate name. The result also tells correctly whether any grammar character occurred.",
     ["inputs"], "every sequence of tokens, of any length",
     "tests sample single strings per construct; a wrong transition shows only after a particular prefix",
     [T], [("parser", T + " Tree::try_new and its helpers")],
     "The transition system of the parser (see C26) is run in product with a reference automaton of the grammar: no transition goes on where the reference refuses, success occurs only at the end of input in an accepting reference state, errors only where the reference refuses, at the end in a non-accepting state, or for a duplicate name; every reference state is reached with every class of token.",
     "patterns", "c27", 3830, "product of extracted token automaton and reference grammar automaton")
prop("C28", "Every token ends up in the part of the pattern the grammar assigns it to",
     "In the tree of an accepted string each token belongs to exactly the construct the grammar assigns it to: text, literal and escaped tokens to text of the enclosing string, names and keywords to their placeholder, option names and values pairwise to one option, command names and parameters each to an own parameter of the command, in order of occurrence; delimiters and separators belong to none. Nothing is added, lost, duplicated or moved.",
     ["inputs"], "every accepted sequence of tokens, of any length",
     "tests compare final texts of a few patterns",
     [T], [("parser", T + " Tree::try_new, create_node, add_token, move_to_container, end_nested_state")],
     "On every transition of the product (see C27) the nodes created and the node and parent receiving each token are those of the reference; the chain of open nodes fits the grammar state; lists of children and tokens of open and finished nodes have the required form; the tree returned is the one built.",
     "patterns", "c28", 16766, "product automaton with placement obligations per transition")
prop("C29", "Names are unique, and refusals name the offending token",
     "No accepted string contains two named strings of the same name or two placeholders of the same name, and a name is refused only when it occurred before in the same role. Every other refusal reports the position and text of the first token that does not fit the grammar, and a string that stops too early is reported as ended abruptly.",
     ["inputs"], "every sequence of tokens, of any length",
     "tests check a handful of refusals, mostly only that there is an error",
     [T], [("name tables", T + " try_new, pattern_start"), ("refusals", T + " every TreeError")],
     "On every transition of the product (see C27) reading a name, the name was looked up and found absent in the one collection of its role and recorded there; nothing else is recorded; duplicate errors only under the fact that the name is in that collection; other errors carry position and text of the token at which the reference refuses.",
     "patterns", "c29", 4000, "product automaton with name-table and error-content obligations")

F = "crates/localiser/src/formatter.rs"
prop("C30", "Building a formatter and formatting never panic",
     "For every pattern string and language a formatter is built or refused with an error, and for every set of values formatting gives a text or an error; the same holds for reading ISO dates and times. None of them panics, whatever the string, the values or the order of earlier formatting.",
     ["inputs", "histories"], "every pattern string accepted or refused by the parser, every set of values, every ISO text",
     "tests format a few dozen patterns with fitting values; an unwrap, index or slice that fails needs a particular combination",
     [F], [("building", F + " Formatter::try_new and its helpers"), ("formatting", F + " Formatter::format, format_pattern"), ("dates and times", F + " decompose_iso_date, decompose_iso_time")],
     "Every panic in MIR reachable from building, formatting and the ISO readers (unwrap, expect, index, slice, map index, subtraction below zero, explicit panic) is infeasible on the abstract paths; for building, the facts about the tree are those shown of the parser by C28 (which children and tokens each kind of node has).",
     "formatter", "c30", 1071, "panic-reachability analysis on MIR under the tree-shape invariant", ["commands supplied by the user do not panic", "counters do not overflow the machine word"])
prop("C31", "Pattern keywords and options mean what is documented, all else is refused",
     "A placeholder's keyword and its options are accepted exactly when documented: decimal with sign and group, date_time with date, time and calendar, plural and ordinal with their categories, select with any selectors; each option value is taken for its documented meaning. Any other keyword, option name or option value is refused with an error naming it, plural and ordinal need the other category, and a selector must name a named string of the pattern.",
     ["inputs"], "every accepted syntax tree",
     "tests use a handful of options; a value mapped to the wrong meaning or an unknown name ignored needs that very value",
     [F], [("placeholders", F + " part_pattern"), ("option table", F + " OptionSelectors")],
     "Every path of building a part from a placeholder: the part made has the kind of the keyword text compared, each option field is set only under an option of that name and value, from the documented table; refusals carry the text that fits no entry and occur only under facts excluding all documented entries.",
     "formatter", "c31", 1111, "MIR abstract interpretation against a reference option table")
prop("C32", "Formatting shows every piece of the pattern once, in order",
     "The text of a formatted string is the concatenation of the texts of its pieces, each shown exactly once and in the order of the pattern: plain, literal and escaped text unchanged, and for every placeholder, number sign and command what it stands for. The result carries the language tag of the string, and formatting leaves the formatter fit to be used again with the same outcome.",
     ["inputs", "histories"], "every pattern, every set of values, every number of repeated uses",
     "tests compare complete outputs of a few patterns",
     [F], [("building", F + " Formatter::try_new, part_text, part_command"), ("formatting", F + " Formatter::format, format_pattern")],
     "Building: each iteration over the children of a string adds exactly one part, of the kind of the child and with its tokens, to the list of that string, kept under its name. Formatting: each iteration adds one text to the end of the result, the position moves from the first to the last part, success only after the last; parts are never changed; the tag returned is the one given at building.",
     "formatter", "c32", 2015, "MIR abstract interpretation, per-iteration obligations on building and formatting")
prop("C33", "A placeholder shows its own value, by type, options and language",
     "A placeholder shows the value supplied under its name and no other: strings as their text, numbers formatted by ICU with the sign and grouping options of the placeholder, dates and times with its length and calendar options, all for the language of the string. A missing value or a value of a type the placeholder does not accept is an error; all accepted types work.",
     ["inputs"], "every kind of placeholder, option and value",
     "tests cover few combinations of kind, option and value type",
     [F], [("formatting", F + " format_pattern, decimal and date_time parts")],
     "On every path formatting a string, number or date_time part: the value is looked up under the part's own placeholder; the text added is ICU's formatting of exactly that value with the options of that part in their places and the formatter's locale; errors only when the value is missing, of another type, or a library call failed, carrying its error.",
     "formatter", "c33", 208, "MIR abstract interpretation, value-provenance rule")
prop("C34", "Plural, ordinal and select choose the right string",
     "A plural shows the named string selected for the cardinal category of its number, an ordinal that for the ordinal category, a select that for its text; when there is no such selector the other string is used, and without that it is an error. Number signs within a string chosen by plural or ordinal show the number of that selection formatted for the language, never one of an earlier use.",
     ["inputs", "histories"], "every number, every set of selectors, repeated formatting with different values",
     "tests choose one or two categories",
     [F], [("formatting", F + " format_pattern, plural, ordinal and select parts"), ("number slots", F + " number_sign handling")],
     "On every path formatting a selection: the key is the category ICU gives for the part's own value with cardinal (plural) or ordinal rules of the formatter's locale, or the text of the value; the string formatted is the part's own selector of that key, or of other under the fact that the key is absent; every number slot of the selected string is set to that number before it is formatted, and all slots are cleared before each formatting.",
     "formatter", "c34", 99, "MIR abstract interpretation, selection and slot-freshness rules")
prop("C35", "No pattern makes formatting run in circles",
     "Formatting always ends: a formatter is built only when no string selects itself, directly or through others, so that following selectors always comes to an end. Selectors naming an unknown string or the main string are refused at building.",
     ["inputs"], "every pattern string, every set of values",
     "a cycle needs a particular arrangement of named strings",
     [F], [("selectors", F + " part_pattern"), ("order of building", F + " Formatter::try_new")],
     "Every selector stored in a formatter was looked up in the strings built before (or is refused), and a string is recorded only after its parts are built; formatting calls itself only with a name taken from the stored selectors, and its loops advance. Hence the selection order is well-founded.",
     "formatter", "c35", 403, "MIR abstract interpretation, well-founded-order rule on recursion")
prop("C36", "Commands run with their own parameters, at once or at formatting",
     "A command of a pattern is the one registered under its name, called with its parameters in order; it runs when the formatter is built, unless it is a delayed one (marked by a number sign after its name), which runs at each formatting with those parameters replaced by the values of that name where there are any. An unknown command and a failing command are errors, and the text of a command appears in its place.",
     ["inputs", "histories"], "every pattern and every set of values",
     "tests use one command with one or two parameters",
     [F], [("building", F + " part_command"), ("formatting", F + " format_pattern, commands")],
     "Every path building a command part or formatting a delayed one: registry lookup under the command's own name, argument list is one unfiltered pass over the parameters, result or error passed on unchanged.",
     "formatter", "c36", 34, "MIR abstract interpretation, call-argument provenance rule")
prop("C37", "ISO 8601 dates and times are read as documented",
     "A date text is read as year, month and day in the extended form (numbers separated by dashes, a leading dash making the year negative), the basic form (four, two and two digits), or a plus sign followed by a year of any length; a time text as hour, minute, second and fraction, with or without colons, a leading T and a zone or offset at the end being ignored. Components left out are the first month and day or zero, and a component that is no number in range is an error.",
     ["inputs"], "every text",
     "tests read two or three dates",
     [F], [("dates", F + " decompose_iso_date"), ("times", F + " decompose_iso_time")],
     "Every path of the two readers: which form the path is about is read from its facts; the components of the date or time made must be the numbers of the pieces of that form in their places, absent ones the default, and every error is that of reading such a piece or of making the date.",
     "formatter", "c37", 210, "MIR abstract interpretation against reference forms")
ERR = ["crates/utility/src/error.rs", "crates/lexer/src/error.rs", "crates/localiser/src/error.rs", "crates/provider/core/src/error.rs", "crates/provider/sqlite3/src/error.rs"]
prop("C38", "Every error can be shown in the languages the crates ship strings for",
     "The localisation data of every error, and of every error it wraps, names a component that is shipped with the crates and a string that component has in its default language. In every language that has the string it is a well-formed pattern that uses only details which the error provides, each of a kind its placeholder takes, or a plain text if the error provides none; so localising an error never fails and never shows pattern syntax.",
     ["inputs"], "every error value of every error type, in every shipped language",
     "no test localises an error; a name or detail that does not fit a shipped string fails only when that one error occurs and is to be shown",
     ERR + ["crates/lexer/l10n/i18n_lexer.sqlite3", "crates/localiser/l10n/i18n_localiser.sqlite3", "crates/provider/core/l10n/i18n_provider.sqlite3", "crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3"],
     [("localisation data", ERR[2] + " localisation_data"), ("shipped strings", "crates/localiser/l10n/i18n_localiser.sqlite3")],
     "Every path of every localisation_data: the component is the name of a shipped database (read on every run) and is in it, the identifier has a string in the component's default language, and in each language the placeholders of the string are among the keys of the values on that path, once each, with a value of a fitting kind.",
     "errors", "c38", 1500, "MIR abstract interpretation, cross-checked with the shipped databases")
prop("C39", "An error tells which error it is and all its details, in their places",
     "Where the text or the localisation of an error names its type and variant, these are its own. Every detail of an error appears once in its text and once in its localisation, in the same places of the sentence; a wrapped error that has a localisation of its own is localised too, and turning an error into another wraps it unchanged.",
     ["inputs"], "every error value of every error type",
     "tests print one or two errors; the others are seen only when something has gone wrong",
     ERR, [("localisation data", ERR[2] + " localisation_data"), ("text", ERR[2] + " Display::fmt"), ("conversions", ERR[2] + " From::from")],
     "Every path of every localisation_data and Display::fmt of an error: names equal those of the type and of the variant the path is about; each field of the variant occurs exactly once in the values used by the default-language string and exactly once in the displayed pieces, in the same order; a flag makes the texts differ; From is the variant with the argument.",
     "errors", "c39", 600, "MIR abstract interpretation, field provenance and agreement of two implementations")
ALLSRC = ["crates/utility/src/", "crates/lexer/src/", "crates/localiser/src/", "crates/provider/core/src/", "crates/provider/sqlite3/src/"]
prop("C40", "Logging changes nothing but the log",
     "Built with the logging feature, every function of the library does the same as without it: it returns the same results and errors in the same cases, makes the same calls and leaves the same state behind. Writing to the log never fails, stops or replaces an operation.",
     ["configurations", "inputs"], "every function of every crate, every input",
     "the tests run in one configuration and attach no logger",
     ALLSRC, [("log statements", "cfg(feature = \"logging\") in crates/provider/sqlite3/src/provider.rs and localiser")],
     "Every function of the workspace is analysed in a build with and one without the feature; each abstract path (outcome, returned term, effectful calls in order, final state, facts it depends on) of one build must exist in the other, calls to the log and to functions without effect aside; workspace calls are compared by name, so that the functions are compared one by one.",
     "equiv", "c40", 1900, "relational abstract interpretation of two builds' MIR")
prop("C41", "The thread-safe build gives the same answers",
     "Built with the thread-safe feature, every function of the library does the same as in the ordinary build when it is called from one thread: it returns the same results and errors in the same cases, makes the same calls and leaves the same state behind. The only difference is how shared state is held and that databases are opened anew for each request.",
     ["configurations", "inputs"], "every function of every crate, every input",
     "the tests run in one configuration; the two variants of a statement are never compared",
     ALLSRC, [("pairs of statements", "cfg(feature = \"sync\") in crates/localiser/src/localiser.rs, utility/src/language.rs, provider/sqlite3/src/provider.rs")],
     "As for logging, with the builds with and without the thread-safe feature: names of the pairs of reference counts, cells and locks are identified, acquiring and releasing them is left out (deadlock and poisoning have their own property), and a connection opened for the request counts as the kept one.",
     "equiv", "c41", 2100, "relational abstract interpretation of two builds' MIR",
     ["opening a database that could be opened at start succeeds again"])
SCR = ["crates/localiser/src/script.rs", "crates/localiser/src/localiser.rs", "crates/utility/src/script.rs"]
prop("C42", "The script data reported for a language are those of its script",
     "For every language tag the localiser reports the data of the script the tag names or, when it names none, of the script CLDR gives as likely; every script of Unicode and every other script the library knows is found under its ISO 15924 code. The directions reported for a script include the one Unicode gives its letters and none it is not written in, and the kind of writing is that of the script. No script written today is reported as historic, and no extinct one as current.",
     ["inputs"], "every language tag, every script",
     "tests look up a script or two; an entry of the table that is wrong, missing or unreachable is seen only by speakers of that language",
     SCR, [("script table", SCR[0] + " DataProvider::new"), ("look-up", SCR[1] + " get_script_data, script_data_for_language_tag")],
     "The map the constructor builds and the look-up's paths are abstractly evaluated for each of 230 ISO 15924 codes: exactly one answer each; the code is registered; directions, kind and historic flag are within the reference (Unicode Bidi_Class, ISO 15924, UAX 31); the script looked up is the parsed tag's own or the one maximised with the extended CLDR data; nothing is reported only where no script is known.",
     "scripts", "c42", 2500, "MIR abstract interpretation, table evaluation against embedded ISO 15924 / Unicode data",
     ["the embedded reference agrees with ISO 15924 and Unicode 16"])
prop("C43", "Every selection of the optional features builds and takes effect",
     "Each package of the library builds with any selection of the optional features it offers. Everything that is written for a feature is compiled in when that feature is selected: no conditional part depends on a name that cannot be selected, and a feature selected for the whole library is selected in each part that is written differently with it.",
     ["configurations"], "every package, every selection of its features",
     "the tests are built with one selection; a statement that only exists in another is not even type-checked",
     ALLSRC + ["crates/i18n/src/"], [("conditions", "cfg(feature = ...) throughout"), ("features", "[features] of each Cargo.toml")],
     "Every cfg condition in the sources is read from the token stream; with the names that no package declares and the compiler does not know fixed to false, it must still be able to hold and to fail. Every feature must switch on, through the manifests, the same feature in each package it is built with whose sources test it. Each package is type-checked with no, each single, all but one and all of its features (thorough: every pair as well), with and without its default features.",
     "features", "c43", 180, "cfg predicate satisfiability over the declared features, feature reachability, and type-checking of every selection",
     ["selections of features other than the ones enumerated build as well"])
prop("C44", "The build with extended locales does everything else the same",
     "Built with the extended locale feature, language tags are read as whole locales, so that their extensions are kept, and every function of the library otherwise does the same as in the ordinary build: it returns the same results and errors in the same cases, makes the same calls and leaves the same state behind.",
     ["configurations", "inputs"], "every function of every crate, every input",
     "no test is built with extended locales; the two variants of a statement are never compared",
     ALLSRC, [("pairs of statements", "cfg(feature = \"icu_extended\") in crates/utility/src/language.rs, utility/src/error.rs, localiser/src/localiser.rs and formatter.rs")],
     "As for logging, with the builds with and without extended locales: the locale and language identifier types, the functions of the same name on them, the error variants named after them and the identifier within a locale are identified; every abstract path of one build must exist in the other.",
     "equiv", "c44", 1900, "relational abstract interpretation of two builds' MIR",
     ["reading a tag as a locale and as a language identifier agree on tags without extensions"])
prop("C45", "Details list every language, contributor and component, each once",
     "The details of an identifier list every language it has a string in, over all databases holding its component, each once. The details of a component and of the repository give for every language each contributor stored for it in any of these databases once, and the repository lists every contributor and every component once and takes its default language from the application component. The ratio of a language is its number of strings divided by that of the default language, and nothing without one.",
     ["inputs", "histories"], "every repository content and every order of detail requests",
     "tests look at one repository with one contributor and one language per component and no component in two databases",
     [S + "provider.rs"], [("identifier", S + "provider.rs identifier_details, identifier_languages"), ("lists and ratios", S + "provider.rs build_cache")],
     "On every iteration over contributors read for a language, the abstract path must add the contributor to (or know it on) the list of that language in the component, that language in the repository and the repository, and add only under the fact that the list has it not; every database that has the component is asked. The languages of an identifier must flow from every row loop executed into the answer, merged without repetition. Each component iteration lists its name once; the default language of the repository changes only, and always, for the application; every ratio kept is the quotient of the entry's own count and that of the default language in the same map.",
     "provider", "c45", 1000, "MIR abstract interpretation, list-membership facts per loop iteration and flow of read rows into answers",
     ["language tags are stored in one spelling per database"])
