"""Edits of one of several builds only."""
import re
U="utility/src/language.rs"; L="localiser/src/localiser.rs"; P="provider/sqlite3/src/provider.rs"; F="localiser/src/formatter.rs"; X="lexer/src/lexer.rs"
NS='#[cfg(not(feature = "sync"))]'; SY='#[cfg(feature = "sync")]'
CL="C08 C09 C10 C11 C12 C13 C14 C40 C41"; CP="C17 C18 C19 C20 C21 C22 C23 C14 C40 C41"; CU="C01 C02 C03 C13 C14 C40 C41"
def sub(a,b,n=None,rx=False):
    def f(s):
        if rx: r,k=re.subn(a,b,s)
        else: k=s.count(a); r=s.replace(a,b)
        assert k and (n is None or k==n),(a,k)
        return r
    return f
def expect(s): return s.replace(".read().unwrap()",'.read().expect("poisoned")').replace(".write().unwrap()",'.write().expect("poisoned")').replace(".lock().unwrap()",'.lock().expect("poisoned")')
def current(s):
    s=s.replace("""        #[cfg(not(feature = "sync"))]
        let tag = &RefCount::clone(&self.language_tag.borrow());
""","""        #[cfg(not(feature = "sync"))]
        let tag = &self.current_tag();
""")
    return s.replace("    // Internal methods\n","""    #[cfg(not(feature = "sync"))]
    fn current_tag(&self) -> RefCount<LanguageTag> {
        RefCount::clone(&*self.language_tag.borrow())
    }

    // Internal methods
""",1)
def both_default(s):
    return s.replace("""        #[cfg(feature = "sync")]
        let tag = &RefCount::clone(&self.language_tag.read().unwrap());
""","""        #[cfg(feature = "sync")]
        let tag = &self.default_language();
""")
def settings(s):
    s=re.sub(r"""        #\[cfg\(not\(feature = "sync"\)\)\]
        let bool_fallback = \*self.fallback.borrow\(\);

        #\[cfg\(not\(feature = "sync"\)\)\]
        let bool_caching = \*self.caching.borrow\(\);
""","""        #[cfg(not(feature = "sync"))]
        let (bool_fallback, bool_caching) = self.settings();
""",s)
    return s.replace("    // Internal methods\n","""    #[cfg(not(feature = "sync"))]
    fn settings(&self) -> (bool, bool) {
        let fallback = self.fallback.borrow();
        let caching = self.caching.borrow();
        (*fallback, *caching)
    }

    // Internal methods
""",1)
def entry(s):
    return s.replace("""        #[cfg(not(feature = "sync"))]
        if _query.is_none() {
            {
                self.queries.borrow_mut().insert(
                    query_identifier.clone(),
                    query_pattern(schema_version, only_one, exact),
                );
            }
            let borrow = self.queries.borrow();
            _query = borrow.get(&query_identifier).cloned();
        }
""","""        #[cfg(not(feature = "sync"))]
        if _query.is_none() {
            let query = query_pattern(schema_version, only_one, exact);
            self.queries.borrow_mut().insert(query_identifier.clone(), query.clone());
            _query = Some(query);
        }
""")
EDITS={
"replace_assign":([(L,sub("            self.fallback.replace(fallback);","            {\n                *self.fallback.borrow_mut() = fallback;\n            }",1),0),(L,sub("            self.caching.replace(caching);","            {\n                let mut cell = self.caching.borrow_mut();\n                *cell = caching;\n            }",1),0)],CL),
"unwrap_or_else":([(L,sub("let bool_fallback = fallback.unwrap_or(*self.fallback.borrow());","let bool_fallback = fallback.unwrap_or_else(|| *self.fallback.borrow());"),0)],CL),
"unwrap_or_match":([(L,sub("let bool_caching = caching.unwrap_or(*self.caching.borrow());","let bool_caching = match caching {\n            Some(value) => value,\n            None => *self.caching.borrow(),\n        };"),0)],CL),
"sync_match":([(L,sub("let bool_caching = caching.unwrap_or(*self.caching.read().unwrap());","let bool_caching = match caching {\n            Some(value) => value,\n            None => *self.caching.read().unwrap(),\n        };"),0)],CL),
"expect_loc":([(L,expect,0)],CL),
"expect_prov":([(P,expect,0)],CP),
"expect_utility":([(U,expect,0)],CU),
"current_tag":([(L,current,0)],CL),
"both_default":([(L,both_default,0)],CL),
"settings":([(L,settings,0)],CL),
"entry":([(P,entry,0)],CP),
"log_helper":([(P,sub("""        #[cfg(feature = "logging")]
        debug!("Getting database connection for component '{}'.", component,);
""","""        #[cfg(feature = "logging")]
        log_connection(component);
"""),0),(P,lambda s: s+'''
#[cfg(feature = "logging")]
fn log_connection(component: &str) {
    debug!("Getting database connection for component '{}'.", component);
}
''',0)],CP),
"log_enabled":([(P,sub("""        #[cfg(feature = "logging")]
        debug!("Get languages for component '{}'.", component);
""","""        #[cfg(feature = "logging")]
        if log::log_enabled!(log::Level::Debug) {
            debug!("Get languages for component '{}'.", component);
        }
"""),0)],CP),
"log_block":([(P,sub("""            #[cfg(feature = "logging")]
            error!("No sqlite3 files are found in {}.", directory.display());
""","""            #[cfg(feature = "logging")]
            {
                let place = directory.display().to_string();
                error!("No sqlite3 files are found in {}.", place);
            }
"""),0)],CP),
"log_if_let":([(P,sub("""        #[cfg(feature = "logging")]
        debug!("SQL query string: [{}].", _query.as_ref().unwrap());
""","""        #[cfg(feature = "logging")]
        if let Some(query) = &_query {
            debug!("SQL query string: [{}].", query);
        }
"""),0)],CP),
"tag_registered":([(U,sub("""        #[cfg(not(feature = "sync"))]
        if let Some(result) = self.deprecated.borrow().get(language_tag) {
            return Ok(RefCount::clone(result));
        }
""","""        #[cfg(not(feature = "sync"))]
        {
            let known = self.deprecated.borrow().get(language_tag).cloned();
            if let Some(result) = known {
                return Ok(result);
            }
        }
"""),0)],CU),
"binding_cloned":([(L,sub("""        let binding = self.language_script_data.borrow();

        #[cfg(feature = "sync")]
        let binding = self.language_script_data.read().unwrap();

        binding.clone()""","""        return self.language_script_data.borrow().clone();

        #[cfg(feature = "sync")]
        self.language_script_data.read().unwrap().clone()"""),0)],CL),
}
