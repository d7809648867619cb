import re
S="localiser/src/script.rs"; L="localiser/src/localiser.rs"
A="C42 C11 C40 C41"
ROW=re.compile(r'        data\.insert\(\n            ("\w+")\.to_string\(\),\n            ScriptData \{\n                category: Category::(\w+),\n                directions: vec!\[(.*?)\],\n                historic: (\w+),\n            \},\n        \);\n',re.S)
def rows(s): return [(m[1],m[2],re.sub(r'//[^\n]*|\s+','',m[3]),m[4]) for m in ROW.finditer(s)]
def cut(s):
    a=s.index("    pub fn new()"); b=s.index("    pub fn get(")
    return s[:a],s[b:]
def helper(s):
    h,t=cut(s)
    r="".join('        add(&mut data, %s, Category::%s, vec![%s], %s);\n'%x for x in rows(s))
    return h+"    pub fn new() -> DataProvider {\n        let mut data = HashMap::<String, ScriptData>::new();\n"+r+"        DataProvider { data }\n    }\n\n"+t+'''
fn add(data: &mut HashMap<String, ScriptData>, code: &str, category: Category, directions: Vec<ScriptDirection>, historic: bool) {
    data.insert(code.to_string(), ScriptData { category, directions, historic });
}
'''
def array(s):
    h,t=cut(s)
    r="".join('            (%s.to_string(), ScriptData { category: Category::%s, directions: vec![%s], historic: %s }),\n'%x for x in rows(s))
    return h+"    pub fn new() -> DataProvider {\n        let data = HashMap::<String, ScriptData>::from([\n"+r+"        ]);\n        DataProvider { data }\n    }\n\n"+t
def collected(s):
    h,t=cut(s)
    r="".join('            (%s, Category::%s, vec![%s], %s),\n'%x for x in rows(s))
    return h+"    pub fn new() -> DataProvider {\n        let data = vec![\n"+r+"        ]\n        .into_iter()\n        .map(|(code, category, directions, historic)| (code.to_string(), ScriptData { category, directions, historic }))\n        .collect();\n        DataProvider { data }\n    }\n\n"+t
def looped(s):
    h,t=cut(s)
    r="".join('            (%s, Category::%s, vec![%s], %s),\n'%x for x in rows(s))
    return h+"    pub fn new() -> DataProvider {\n        let mut data = HashMap::new();\n        for (code, category, directions, historic) in [\n"+r+"        ] {\n            data.insert(code.to_string(), ScriptData { category, directions, historic });\n        }\n        DataProvider { data }\n    }\n\n"+t
def constant(s):
    h,t=cut(s)
    r="".join('    (%s, Category::%s, &[%s], %s),\n'%x for x in rows(s))
    n=len(rows(s))
    h=h.replace("pub struct DataProvider","type Row = (&'static str, Category, &'static [ScriptDirection], bool);\n\nconst SCRIPTS: [Row; %d] = [\n%s];\n\npub struct DataProvider"%(n,r))
    return h+"    pub fn new() -> DataProvider {\n        let mut data = HashMap::new();\n        for (code, category, directions, historic) in SCRIPTS {\n            data.insert(code.to_string(), ScriptData { category, directions: directions.to_vec(), historic });\n        }\n        DataProvider { data }\n    }\n\n"+t
def slice_(s):
    h,t=cut(s)
    r="".join('    (%s, Category::%s, &[%s], %s),\n'%x for x in rows(s))
    h=h.replace("pub struct DataProvider","type Row = (&'static str, Category, &'static [ScriptDirection], bool);\n\nstatic SCRIPTS: &[Row] = &[\n%s];\n\npub struct DataProvider"%r)
    return h+"    pub fn new() -> DataProvider {\n        let mut data = HashMap::new();\n        for (code, category, directions, historic) in SCRIPTS.iter() {\n            data.insert(code.to_string(), ScriptData { category: category.clone(), directions: directions.to_vec(), historic: *historic });\n        }\n        DataProvider { data }\n    }\n\n"+t
def matched(s):
    r="".join('            %s => (Category::%s, vec![%s], %s),\n'%x for x in {y[0]:y for y in rows(s)}.values())
    return '''use i18n_utility::{Category, ScriptData, ScriptDirection};

pub struct DataProvider;

impl DataProvider {
    pub fn new() -> DataProvider {
        DataProvider
    }

    pub fn get(&self, script: &str) -> Option<ScriptData> {
        let (category, directions, historic) = match script {
'''+r+'''            _ => return None,
        };
        Some(ScriptData { category, directions, historic })
    }
}
'''
def uncloned(s): return re.sub(r'\n?\s*\.cloned\(\)(?=;|\n\s*\})', lambda m: '' , s.replace('.get(locale.id.script.unwrap().as_str()).cloned()','.get(locale.id.script.unwrap().as_str())'),count=99) if False else s[:s.index('fn get_script_data(')]+s[s.index('fn get_script_data('):].replace('.cloned()','')
def split(s):
    return s.replace('''        data.insert(
            "Gara".to_string(),''','''        Self::rest(&mut data);
        DataProvider { data }
    }

    fn rest(data: &mut HashMap<String, ScriptData>) {
        data.insert(
            "Gara".to_string(),''').replace('''        DataProvider { data }
    }

    pub fn get''','''    }

    pub fn get''')
def reordered(s):
    i=s.index("#[cfg(not(feature = \"icu_extended\"))]\n    {\n        let mut identifier")
    j=s.index("    }\n}\n",i)
    return s[:i]+'''#[cfg(not(feature = "icu_extended"))]
    {
        let mut identifier = LanguageIdentifier::try_from_bytes(tag.as_bytes()).unwrap();
        if identifier.script.is_none() && expander.maximize(&mut identifier) == TransformResult::Unmodified {
            return None;
        }
        let script = identifier.script?;
        script_data.get(script.as_str()).cloned()
'''+s[j:]
def always(s):
    i=s.index("#[cfg(not(feature = \"icu_extended\"))]\n    {\n        let mut identifier")
    j=s.index("    }\n}\n",i)
    return s[:i]+'''#[cfg(not(feature = "icu_extended"))]
    {
        let mut identifier = LanguageIdentifier::try_from_bytes(tag.as_bytes()).unwrap();
        expander.maximize(&mut identifier);
        match identifier.script {
            Some(script) => script_data.get(&script.to_string()).cloned(),
            None => None,
        }
'''+s[j:]
def method(s):
    i=s.index("#[cfg(not(feature = \"icu_extended\"))]\n    {\n        let mut identifier")
    j=s.index("    }\n}\n",i)
    return s[:i]+'''#[cfg(not(feature = "icu_extended"))]
    {
        let mut identifier: LanguageIdentifier = tag.parse().expect("canonical");
        let known = identifier.script.or_else(|| {
            expander.maximize(&mut identifier);
            identifier.script
        });
        known.and_then(|script| script_data.get(script.as_str()).cloned())
'''+s[j:]
EDITS={k:([(S,f,"")],A) for k,f in dict(helper=helper,array=array,collected=collected,looped=looped,constant=constant,slice_=slice_,split=split).items()}
EDITS["matched"]=([(S,matched,""),(L,uncloned,"")],A)
for k,f in dict(reordered=reordered,always=always,method=method).items(): EDITS[k]=([(L,f,"")],A)
