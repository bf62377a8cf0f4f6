use std::{env, fs, path::Path};
fn main() {
    // the program itself, as a module
    let main = "/repo/cli/src/main.rs";
    println!("cargo:rerun-if-changed=/repo/cli/src");
    let src: String = fs::read_to_string(main).unwrap().lines().filter(|l| !l.trim_start().starts_with("//!") && !l.starts_with("#![")).map(|l| if l.starts_with("mod ") && l.ends_with(';') { let n = &l[4..l.len() - 1]; format!("#[path = \"/repo/cli/src/{}.rs\"]\n{}\n", n, l) } else { format!("{}\n", l) }).collect();
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("cli.rs"), src).unwrap();
    let mut fns = String::new();
    let mut files: Vec<_> = fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        for l in fs::read_to_string(&f).unwrap().lines() {
            if let Some(i) = l.find("fn prop_") {
                let r = &l[i + 3..];
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if l.contains("extern \"C\"") { fns.push_str(&format!("vh_cli::{}::{},\n", m, n)); }
            }
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("props.rs"), format!("props!({});", fns)).unwrap();
}
