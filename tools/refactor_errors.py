import re
E="localiser/src/error.rs"; X="lexer/src/error.rs"; PR="provider/core/src/error.rs"; SQ="provider/sqlite3/src/error.rs"; UT="utility/src/error.rs"
A="C38 C39"
INS=re.compile(r'(\w+)\.insert\(\s*"(\w+)"\.to_string\(\),\s*((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*?),?\s*\);')
BLOCK=re.compile(r'let mut (\w+) = HashMap::<String, PlaceholderValue>::new\(\);\s*((?:\1\.insert\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\);\s*)+)')
def from_array(s):
    def f(m):
        es=["(%s.to_string(), %s)"%('"'+x.group(2)+'"',x.group(3)) for x in INS.finditer(m.group(2))]
        return "let %s = HashMap::<String, PlaceholderValue>::from([%s]);\n"%(m.group(1),", ".join(es))
    return BLOCK.sub(f,s)
def collected(s):
    def f(m):
        es=["(%s, %s)"%('"'+x.group(2)+'"',x.group(3)) for x in INS.finditer(m.group(2))]
        return "let %s: HashMap<String, PlaceholderValue> = [%s].into_iter().map(|(key, value)| (key.to_string(), value)).collect();\n"%(m.group(1),", ".join(es))
    return BLOCK.sub(f,s)
def vec_collected(s):
    def f(m):
        es=["(%s.to_string(), %s)"%('"'+x.group(2)+'"',x.group(3)) for x in INS.finditer(m.group(2))]
        return "let %s = vec![%s].into_iter().collect::<HashMap<String, PlaceholderValue>>();\n"%(m.group(1),", ".join(es))
    return BLOCK.sub(f,s)
def extended(s):
    def f(m):
        es=["(%s.to_string(), %s)"%('"'+x.group(2)+'"',x.group(3)) for x in INS.finditer(m.group(2))]
        return "let mut %s = HashMap::<String, PlaceholderValue>::with_capacity(%d);\n%s.extend([%s]);\n"%(m.group(1),len(es),m.group(1),", ".join(es))
    return BLOCK.sub(f,s)
WRAP=re.compile(r'let mut values = HashMap::<String, PlaceholderValue>::new\(\);\s*values\.insert\("type"\.to_string\(\), type_string\);\s*values\.insert\(\s*"variant"\.to_string\(\),\s*PlaceholderValue::String\(("\w+")\.to_string\(\)\),\s*\);\s*values\.insert\(\s*"message"\.to_string\(\),\s*PlaceholderValue::LocalisationData\(message\),\s*\);\s*LocalisationData \{\s*component: "i18n_localiser"\.to_string\(\),\s*identifier: "error_format_enum"\.to_string\(\),\s*values: Some\(values\),\s*\}')
HELP='''
fn wrap_message(kind: PlaceholderValue, variant: &str, message: LocalisationData) -> LocalisationData {
    let mut values = HashMap::<String, PlaceholderValue>::new();
    values.insert("type".to_string(), kind);
    values.insert("variant".to_string(), PlaceholderValue::String(variant.into()));
    values.insert("message".to_string(), PlaceholderValue::LocalisationData(message));
    LocalisationData {
        component: String::from("i18n_localiser"),
        identifier: "error_format_enum".to_owned(),
        values: Some(values),
    }
}
'''
def helper(s):
    n=WRAP.sub(lambda m:"wrap_message(type_string, %s, message)"%m.group(1),s)
    return n+HELP
def strings(s): return s.replace(".to_string(),\n                    identifier",".into(),\n                    identifier").replace('".to_string(), type_string','".into(), type_string')
def disp_string(s):
    return s.replace("            TreeError::EndedAbruptly => write!(\n                formatter, \"TreeError::EndedAbruptly: The string ended abruptly.\"\n            ),",'            TreeError::EndedAbruptly => formatter.write_str("TreeError::EndedAbruptly: The string ended abruptly."),').replace('''            TreeError::MultiNumberSign( position ) => write!(
                formatter,
                "TreeError::MultiNumberSign: Found sequential number signs at the position {} of the string.",
                position
            ),''','''            TreeError::MultiNumberSign(position) => {
                let text = format!("TreeError::MultiNumberSign: Found sequential number signs at the position {position} of the string.");
                formatter.write_str(&text)
            }''').replace('''            TreeError::UniquePattern( identifier) => write!(
                formatter,
                "TreeError::UniquePattern: Pattern identifiers must be unique. The identifier ‘{}’ already exists.",
                identifier
            ),''','''            TreeError::UniquePattern(identifier) => {
                write!(formatter, "TreeError::UniquePattern: Pattern identifiers must be unique. ")?;
                write!(formatter, "The identifier ‘{}’ already exists.", identifier)
            }''')
def tail(s):
    """the display of all tree errors is written after the match"""
    i=s.index("impl Display for CommandError"); j=s.index("impl Error for CommandError")
    b=s[i:j].replace("match self {","let text = match self {",1).replace("write!(\n                formatter,","format!(").replace("write!( formatter,","format!(")
    b=re.sub(r"write!\(\s*formatter,","format!(",b)
    k=b.rindex("        }\n    }\n}")
    b=b[:k]+'        };\n        formatter.write_str(text.as_str())\n    }\n}'+b[k+len("        }\n    }\n}"):]
    return s[:i]+b+s[j:]
EDITS={}
for n,f in (("from_array",from_array),("collected",collected),("vec_collected",vec_collected),("extended",extended),("helper",helper),("strings",strings)):
    for k,p in (("loc",E),("lexer",X),("prov",PR),("sq",SQ)):
        if n in("from_array","helper") or k in("loc",): EDITS[n+"_"+k]=([(p,f,"")],A)
EDITS["disp_string"]=([(E,disp_string,"")],A)
EDITS["disp_tail"]=([(E,tail,"")],A)
EDITS["from_into"]=([(UT,'''        RegistryError::LanguageIdentifier(error)
    }''','''        let wrapped = error;
        Self::LanguageIdentifier(wrapped)
    }''')],A)
