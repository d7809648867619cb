#![allow(dead_code)]
use i18n_provider::*;
use i18n_provider_sqlite3::*;
use i18n_utility::*;
use std::path::PathBuf;
use std::sync::Arc as Rc;
pub struct Dir(pub PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
pub fn dir() -> Dir {
    let d = std::env::temp_dir().join(format!("i18n_demo_{}_{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos()));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
/// file name (without extension), components (name, default language), contributors (component, tag, who), strings (component, identifier, tag, text)
pub fn db(d: &Dir, name: &str, components: &[(&str, &str)], contributors: &[(&str, &str, &str)], strings: &[(&str, &str, &str, &str)]) {
    let c = rusqlite::Connection::open(d.0.join(format!("{}.sqlite3", name))).unwrap();
    c.execute_batch(&std::fs::read_to_string("/repo/crates/provider/sqlite3/l10n/schema.sql").unwrap()).unwrap();
    c.execute_batch("PRAGMA foreign_keys = off;").unwrap();
    for x in components { c.execute("INSERT INTO component (identifier, languageTag, added) VALUES (?1, ?2, '2024-01-01')", [x.0, x.1]).unwrap(); }
    c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', '1.0')", [components[0].0]).unwrap();
    for x in contributors { c.execute("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", [x.0, x.1, x.2]).unwrap(); }
    for x in strings { c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", [x.0, x.1, x.2, x.3]).unwrap(); }
}
pub fn provider(d: &Dir) -> (LocalisationProviderSqlite3, Rc<LanguageTagRegistry>) {
    let r = Rc::new(LanguageTagRegistry::new());
    (LocalisationProviderSqlite3::try_new(d.0.clone(), &r, false).unwrap(), r)
}
