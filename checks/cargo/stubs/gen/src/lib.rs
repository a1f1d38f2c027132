//! Stand-in for the bindings generator: its outputs are functions of the crate's metadata, of those
//! of its dependencies, and of the flags. Fails where the sources say so, also after the header.
use arc_anyhow::{anyhow, bail, Context, Result};
use cmdline::Cmdline;

pub fn run_with_cmdline_args(cmdline: &Cmdline) -> Result<()> {
    let name = cmdline.source_crate_name.as_deref().ok_or_else(|| anyhow!("no source crate"))?;
    let mut meta = String::new();
    let mut others = vec![];
    for (n, path) in &cmdline.externs {
        let text = std::fs::read_to_string(path).with_context(|| format!("reading {path}"))?;
        if n == name {
            meta = text;
        } else if !text.contains("stdlib") {
            let last = text.lines().find(|l| l.starts_with("id ")).unwrap_or("").to_string();
            others.push(format!("{n} {last}"));
        } else {
            others.push(format!("{n} {}", text.trim().replace('\n', " ")));
        }
    }
    if meta.is_empty() {
        bail!("can't find crate for `{name}`");
    }
    if !meta.ends_with("end\n") {
        bail!("invalid metadata for `{name}`");
    }
    others.sort();
    let generator = std::env::var("SIM_GENERATOR").unwrap_or_default();
    let mut body = format!("// generator {generator}\n");
    for l in meta.lines() {
        body.push_str(&format!("// {l}\n"));
    }
    for o in others {
        body.push_str(&format!("// with {o}\n"));
    }
    let mut flags: Vec<String> = cmdline.crate_headers.iter().map(|(a, b)| format!("header {a}={b}")).collect();
    flags.extend(cmdline.crate_namespaces.iter().map(|(a, b)| format!("namespace {a}={b}")));
    flags.sort();
    for f in flags {
        body.push_str(&format!("// {f}\n"));
    }
    if meta.contains("UNBINDABLE\n") {
        bail!("no bindings for `{name}`");
    }
    std::fs::write(&cmdline.h_out, format!("// Header of {name}\n{body}// end of {name}\n")).context("writing the header")?;
    if meta.contains("UNBINDABLE_LATE\n") {
        bail!("no bindings for `{name}`, found late");
    }
    std::fs::write(&cmdline.rs_out, format!("// Glue of {name}\n{body}// end of {name}\n")).context("writing the glue")?;
    Ok(())
}
