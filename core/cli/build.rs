// The sources of the command as they are, with a way to call `main`.
use std::fs;
use std::path::Path;

const WHOLE: &str = "
/// Runs it to its end and says whether it reports success.
pub fn whole() -> bool {
    let code = std::process::Termination::report(main());
    format!(\"{code:?}\") == format!(\"{:?}\", std::process::ExitCode::SUCCESS)
}
";

fn copy(from: &Path, to: &Path, top: bool) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &q, false);
        } else {
            let mut t = fs::read_to_string(&p).unwrap();
            if top && p.ends_with("main.rs") {
                t += WHOLE;
            }
            if fs::read_to_string(&q).ok().as_ref() != Some(&t) {
                fs::write(&q, t).unwrap();
            }
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed=/repo/cli/src");
    let gen = Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("gen");
    copy(Path::new("/repo/cli/src"), &gen, true);
}
