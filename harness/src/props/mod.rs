use crate::engine::*;
pub mod build;
pub mod cli;
pub mod conf;
pub mod fault;
pub mod format;
pub mod grid;
pub mod html;
pub mod macros;
pub mod parse;
pub mod time;
pub mod tree;
#[cfg(feature = "watch")]
pub mod watch;
#[cfg(feature = "wasm")]
pub mod wasm;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(parse::PROPS.iter());
    v.extend(time::PROPS.iter());
    v.extend(conf::PROPS.iter());
    v.extend(cli::PROPS.iter());
    v.extend(fault::PROPS.iter());
    v.extend(macros::PROPS.iter());
    v.extend(format::PROPS.iter());
    v.extend(html::PROPS.iter());
    v.extend(tree::PROPS.iter());
    v.extend(build::PROPS.iter());
    v.extend(grid::PROPS.iter());
    #[cfg(feature = "wasm")]
    v.extend(wasm::PROPS.iter());
    #[cfg(feature = "watch")]
    v.extend(watch::PROPS.iter());
    v
}

pub fn find(id: &str) -> &'static Prop {
    all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
