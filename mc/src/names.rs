//! Names and texts that programs are tempted to treat specially.

/// names without blanks or double quotes, lower case
pub fn odd() -> Vec<String> {
    let mut v: Vec<String> = [
        // separators, comments and quotes of other formats
        "/", "//", "//a", "a//b", "a//", "/a", "a/", "a/b/c", "a\\b", "\\", "\\n", "a\\", ".", "..", "../a", "./a", "a/../b", "a.", ".a", "a.b", "a.tga", "a.wad", "a,b", "a;b", ";a", "a:b", "a=b", "a|b", "a#b", "#", "#a", "@", "@a", "'", "'a'", "`", "&", "&a", "%", "%d", "%20", "<a>", "~",
        // brackets of maps
        "(", ")", "[", "]", "{", "}", "(a)", "[a]", "{a}", "{a", "}a", "a}", "a{", "()", "[]", "{}",
        // numbers and what resembles them
        "0", "1", "-0", "-1", "+1", "00", "1e5", "1e", "0x10", "1.5", ".5", "nan", "inf", "-inf", "infinity", "1_000", "1f",
        // words
        "null", "nil", "none", "some", "true", "false", "default", "*", "**", "?", "_", "-", "--", "a*", "*a", "a?", "any", "all", "unknown", "missing", "empty", "undefined",
        // names that mean something to engines and editors
        "__tb_empty", "__tb", "_tb_id", "skip", "clip", "trigger", "origin", "hint", "sky", "sky1", "nodraw", "caulk", "aaatrigger", "worldspawn", "func_group", "classname", "common/clip", "textures/common/clip", "textures/a", "+0a", "+1a", "+aa", "-0a", "~a", "!a", "$a", "^a", "aa", "a_", "_a", "a_b", "a-b", "a+b", "a0", "a1", "a_1", "a-1",
        // letters beyond ASCII, and of different lengths in upper and lower case
        "\u{e9}", "\u{df}", "i\u{307}", "\u{3c3}", "\u{65e5}\u{672c}", "\u{1f600}", "e\u{301}", "\u{fb01}", "a\u{200b}b", "\u{fffd}", "\u{7f}", "\u{1}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // long ones, at the lengths of fixed fields and counters
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 70000] {
        v.push("l".repeat(n));
    }
    v
}

/// texts without double quotes and line ends: the names, and what has blanks
pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "  ", " a", "a ", " a ", "a b", "a  b", "a\tb", "\ta", "a\t", "\u{a0}a", "a\u{a0}", "\u{3000}", "\u{feff}a", " // a", "a // b", "( 1 2 3 )", "{ a }", "1 2 3", " 1", "1 ", "A", "aB", "NULL", "None", "True", "Worldspawn", "WORLDSPAWN", "WorldSpawn", " worldspawn", "worldspawn ", "\u{c9}", "\u{130}", "\u{1e9e}"].iter().map(|s| s.to_string()).collect();
    v.extend(odd());
    v
}

/// the name itself and all its variants of letter case and surroundings that stand for another name
pub fn relatives(name: &str) -> Vec<String> {
    let mut v = Vec::new();
    let ch: Vec<char> = name.chars().collect();
    let n = ch.len();
    let case = |f: &dyn Fn(usize) -> bool| -> String { (0..n).map(|i| if f(i) { ch[i].to_ascii_uppercase() } else { ch[i].to_ascii_lowercase() }).collect() };
    v.push(case(&|_| true));
    v.push(case(&|_| false));
    let places: Vec<usize> = (0..n).filter(|k| n < 40 || *k == 0 || k + 1 == n || (k + 1) % (n / 8) == 0).collect();
    for &k in &places {
        v.push(case(&|i| i == k));
        v.push(case(&|i| i != k));
        v.push(case(&|i| i < k));
        v.push(case(&|i| i >= k));
    }
    v.push(case(&|i| i % 2 == 0));
    for &k in &places {
        // prefixes, suffixes, one letter left out, doubled, or changed
        v.push(ch[..k].iter().collect());
        v.push(ch[k..].iter().collect());
        v.push(ch.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect());
        v.push(ch[..=k].iter().chain(&ch[k..]).collect());
        v.push(ch.iter().enumerate().map(|(i, c)| if i == k { '_' } else { *c }).collect());
    }
    for s in [" ", "_", "1", "s", ".", "/", "x", "\t", "\u{a0}"] {
        v.push(format!("{}{}", name, s));
        v.push(format!("{}{}", s, name));
    }
    // pieces between separators
    for q in name.split(|c: char| !c.is_alphanumeric()) {
        v.push(q.to_string());
    }
    for (i, c) in name.char_indices().filter(|c| !c.1.is_alphanumeric()) {
        v.push(name[..i].to_string());
        v.push(name[i + c.len_utf8()..].to_string());
        v.push(format!("{}{}", &name[..i], &name[i + c.len_utf8()..]));
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|s| s != name && seen.insert(s.clone()));
    v
}

/// words of letters, digits and underscores
pub fn words() -> Vec<String> {
    let mut v: Vec<String> = odd().into_iter().filter(|s| s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).collect();
    v.extend(["PointClass", "SolidClass", "BaseClass", "pointclass", "base", "size", "color", "color255", "studio", "model", "integer", "string", "float", "choices", "Choices", "flags", "Flags", "target_source", "target_destination", "readonly", "report", "include", "Include", "mapsize", "MaterialExclusion", "version", "Origin", "Classname", "True", "NULL", "A", "Z9"].map(String::from));
    v
}
