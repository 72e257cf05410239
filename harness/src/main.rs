mod dom;
mod engine;
mod gen;
mod norm;
mod props;

use std::path::PathBuf;

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("tape") => {
            let t: Vec<u32> = serde_json::from_reader(std::io::stdin()).expect("tape");
            engine::tape(props::find(&a[2]), t)
        }
        Some("seed") => engine::tape_of(props::find(&a[2]), a[3].parse().expect("seed")),
        Some(x @ "check" | x @ "worker") => {
            let p = props::find(&a[2]);
            let ctx = engine::Ctx {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                tier: a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into()),
                root,
                scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            if x == "check" {
                engine::supervise(p, &ctx)
            } else {
                engine::run_prop(p, &ctx)
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            engine::replay(props::find(v["property"].as_str().unwrap()), &v)
        }
        // the oracle of a property on the text of a file
        Some("text") => {
            let p = props::find(&a[2]);
            let s = std::fs::read_to_string(&a[3]).unwrap();
            let tf = p.text.expect("property has no text oracle");
            let r = engine::in_big_stack(move || engine::guard("text", || tf(&s)).and_then(|x| x));
            println!("{:?}", r);
            r.is_err() as i32
        }
        Some("tree") => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let p: vimwiki::Page = vimwiki::Language::from_vimwiki_str(&s).parse().unwrap();
            println!("{}", if a.len() > 3 { norm::page(&p).plain() } else { norm::page(&p).show() });
            0
        }
        #[cfg(feature = "watch")]
        Some("watch") => props::watch::child(),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID [tier] | replay FILE | text ID FILE | tree FILE");
            2
        }
    };
    std::process::exit(code);
}
