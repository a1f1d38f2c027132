//! What the simulator and its stand-in tools both know.
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}
/// The text that counts.
pub fn squeeze(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect()
}
/// A class the stand-in for doxygen finds in a file, and its methods: name, and where it is, if it is known.
pub fn class(k: usize, name: &str, text: &[u8]) -> (String, String, Vec<(String, Option<String>, Option<u64>)>) {
    let x = fnv(&squeeze(text));
    let base = name.rsplit('/').next().unwrap();
    let method = |m: usize| match (x as usize >> (8 * m)) % 5 {
        0 => (format!("m{m}"), None, None),
        1 => (format!("m{m}"), Some(base.to_string()), None),
        2 => (format!("m{m}"), Some(format!("other{}.h", k % 2)), Some(900 + 10 * k as u64 + m as u64)),
        _ => (format!("m{m}"), Some(base.to_string()), Some(20 + 10 * k as u64 + m as u64)),
    };
    (format!("N{x:x}"), base.to_string(), (0..(x >> 40) as usize % 4).map(method).collect())
}
/// What the stand-in for doxygen writes: one class for each file, named after its content.
pub fn pages(files: &[(String, Vec<u8>)], flags: &str) -> Vec<(String, String)> {
    let mut index = format!("<doxygenindex version=\"{flags}\">");
    let mut out = vec![(String::new(), String::new())];
    for (k, (name, text)) in files.iter().enumerate() {
        let (class, base, methods) = class(k, name, text);
        let r = format!("class_{k}");
        index += &format!("<compound refid=\"{r}\" kind=\"class\"><name>{class}</name>");
        let mut members = String::new();
        for (m, (name, file, line)) in methods.iter().enumerate() {
            index += &format!("<member refid=\"{r}_{m}\" kind=\"function\"><name>{name}</name></member>");
            let line = line.map_or(String::new(), |l| format!(" line=\"{l}\""));
            let at = file.as_ref().map_or(String::new(), |f| format!("<location file=\"/src/{f}\"{line}/>"));
            members += &format!("<memberdef id=\"{r}_{m}\">{at}</memberdef>");
        }
        index += "</compound>";
        out.push((format!("{r}.xml"), format!("<doxygen><compounddef id=\"{r}\" kind=\"class\"><compoundname>{class}</compoundname><location file=\"{base}\" line=\"{}\"/><sectiondef>{members}</sectiondef></compounddef></doxygen>", 10 + k)));
    }
    index += "</doxygenindex>";
    out[0] = ("index.xml".into(), index);
    out.push(("Doxyfile.xml".into(), "<doxyfile/>".into()));
    out
}
/// What the stand-in for cc_bindings_from_rs writes.
pub fn bindings(text: &[u8], flags: &str) -> (String, String) {
    let x = fnv(&squeeze(text));
    (format!("// header {x:x} {flags}\n"), format!("// rust {x:x} {flags}\n"))
}
