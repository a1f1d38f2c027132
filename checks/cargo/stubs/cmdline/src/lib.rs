//! Stand-in for the generator's command line: the flags the cargo subcommand gives it.
use clap::Parser;
use std::path::PathBuf;

fn pair(s: &str) -> Result<(String, String), String> {
    s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).ok_or_else(|| "no `=`".into())
}

#[derive(Debug, Parser)]
pub struct Cmdline {
    #[clap(long)]
    pub h_out: PathBuf,
    #[clap(long)]
    pub rs_out: PathBuf,
    #[clap(long)]
    pub crubit_support_path_format: String,
    #[clap(long)]
    pub enable_rmeta_interface: bool,
    #[clap(long)]
    pub source_crate_name: Option<String>,
    #[clap(long = "crate-header", value_parser = pair)]
    pub crate_headers: Vec<(String, String)>,
    #[clap(long = "crate-namespace", value_parser = pair)]
    pub crate_namespaces: Vec<(String, String)>,
    #[clap(long = "extern", value_parser = pair)]
    pub externs: Vec<(String, String)>,
    #[clap(short = 'L')]
    pub search: Vec<String>,
}
impl Cmdline {
    pub fn new(args: &[String]) -> anyhow::Result<Cmdline> {
        Ok(Cmdline::try_parse_from(args)?)
    }
}
