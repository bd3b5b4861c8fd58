//! genparser INDIR OUTDIR: runs the same parser generator as /repo's build script.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = lalrpop::Configuration::new();
    c.set_in_dir(&a[1]).set_out_dir(&a[2]).emit_rerun_directives(false).force_build(true);
    if let Err(e) = c.process() {
        eprintln!("genparser: {e}");
        std::process::exit(1);
    }
}
