#![allow(dead_code, unused_imports)]
use i18n_lexer::*;
use i18n_localiser::*;
use i18n_provider::*;
use i18n_provider_sqlite3::*;
use i18n_utility::*;
use std::rc::Rc;
/// The text of an error in the language of the strings that the crates ship.
pub fn text(error: &dyn LocalisationTrait) -> String {
    let d = std::env::temp_dir().join(format!("i18n_demo_{}_{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos()));
    std::fs::create_dir_all(&d).unwrap();
    for f in ["lexer/l10n/i18n_lexer", "localiser/l10n/i18n_localiser", "provider/core/l10n/i18n_provider", "provider/sqlite3/l10n/i18n_provider_sqlite3"] {
        let s = std::path::PathBuf::from(format!("/repo/crates/{}.sqlite3", f));
        std::fs::copy(&s, d.join(s.file_name().unwrap())).unwrap();
    }
    let registry = Rc::new(LanguageTagRegistry::new());
    let icu = Rc::new(IcuDataProvider::try_new(DataProvider::Internal).unwrap());
    let commands = Rc::new(CommandRegistry::new());
    let provider = LocalisationProviderSqlite3::try_new(d.clone(), &registry, false).unwrap();
    let l = Localiser::try_new(&icu, &registry, Box::new(provider), &commands, true, false, "en-ZA").unwrap();
    let tag = registry.tag("en-ZA").unwrap();
    let r = match l.format_localisation_data(&error.localisation_data(), &tag, None, None) {
        Ok(r) => r.0.as_str().to_string(),
        Err(e) => format!("ERR {}", e),
    };
    std::fs::remove_dir_all(&d).unwrap();
    r
}
