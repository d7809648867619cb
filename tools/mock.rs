#![allow(dead_code, unused_imports)]
use i18n_lexer::*;
use i18n_localiser::*;
use i18n_provider::*;
use i18n_utility::*;
use std::collections::HashMap;
use std::rc::Rc;

/// In-memory provider: (component, identifier, language) -> pattern; falls back to the bare language subtag.
struct Mock {
    reg: Rc<LanguageTagRegistry>,
    map: HashMap<(String, String, String), String>,
    default: String,
}
impl LocalisationProviderTrait for Mock {
    fn string(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        let mut l = t.as_str().to_string();
        loop {
            if let Some(s) = self.map.get(&(c.to_string(), i.to_string(), l.clone())) {
                return Ok(Some((s.clone(), self.reg.tag(l.as_str()).unwrap())));
            }
            match l.rfind('-') {
                Some(p) => l.truncate(p),
                None => return Ok(None),
            }
        }
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(self.map.get(&(c.to_string(), i.to_string(), t.as_str().to_string())).map(|s| (s.clone(), t.clone())))
    }
    fn strings(&self, _: &str, _: &str, _: &Rc<LanguageTag>) -> Result<Vec<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(vec![])
    }
    fn identifier_details(&self, _: &str, _: &str) -> Result<IdentifierDetails, ProviderError> {
        Ok(IdentifierDetails { languages: vec![], default: self.reg.tag(self.default.as_str()).unwrap() })
    }
    fn component_details(&self, _: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        Ok(Rc::new(ComponentDetails { languages: HashMap::new(), default: self.reg.tag(self.default.as_str()).unwrap(), total_strings: 0 }))
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        Ok(Rc::new(RepositoryDetails { languages: HashMap::new(), default: None, total_strings: 0, components: vec![], contributors: vec![] }))
    }
}
struct L {
    reg: Rc<LanguageTagRegistry>,
    cmd: Rc<CommandRegistry>,
    loc: Localiser,
}
fn localiser(fallback: bool, caching: bool, lang: &str, default: &str, entries: &[(&str, &str, &str, &str)]) -> L {
    let reg = Rc::new(LanguageTagRegistry::new());
    let icu = Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap());
    let cmd = Rc::new(CommandRegistry::new());
    let map = entries.iter().map(|(c, i, l, s)| ((c.to_string(), i.to_string(), l.to_string()), s.to_string())).collect();
    let m = Mock { reg: reg.clone(), map, default: default.to_string() };
    let loc = Localiser::try_new(&icu, &reg, Box::new(m), &cmd, fallback, caching, lang).unwrap();
    L { reg, cmd, loc }
}
impl L {
    fn tag(&self, t: &str) -> Rc<LanguageTag> { self.reg.tag(t).unwrap() }
    fn f(&self, c: &str, i: &str, v: &[(&str, PlaceholderValue)], t: &str, fb: Option<bool>, ca: Option<bool>) -> String {
        let m: HashMap<String, PlaceholderValue> = v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect();
        match self.loc.format(c, i, &m, &self.tag(t), fb, ca) {
            Ok((s, t)) => format!("{}|{}", s, t.as_str()),
            Err(e) => format!("ERR {}", e),
        }
    }
    fn l(&self, c: &str, i: &str, t: &str, fb: Option<bool>, ca: Option<bool>) -> String {
        match self.loc.literal(c, i, &self.tag(t), fb, ca) {
            Ok((s, t)) => format!("{}|{}", s, t.as_str()),
            Err(e) => format!("ERR {}", e),
        }
    }
}
fn st(s: &str) -> PlaceholderValue { PlaceholderValue::String(s.to_string()) }
/// One-off formatting of a pattern in English.
fn once(p: &str, v: &[(&str, PlaceholderValue)]) -> String {
    localiser(false, false, "en", "en", &[("c", "i", "en", p)]).f("c", "i", v, "en", None, None)
}
