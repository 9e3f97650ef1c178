//! Takes the mod manager's crate root from /repo and keeps everything but the window: the module
//! that needs a display, and the items that mention the GUI toolkit.
use std::{env, fs, path::PathBuf};

use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;

const SRC: &str = "/repo/unreal_mod_manager/src";
const DROPPED: [&str; 1] = ["app"];
const GUI: [&str; 4] = ["eframe", "egui", "egui_extras", "app"];

fn mentions(t: TokenStream, words: &[&str]) -> bool {
    t.into_iter().any(|t| match t {
        TokenTree::Ident(i) => words.contains(&i.to_string().as_str()),
        TokenTree::Group(g) => mentions(g.stream(), words),
        _ => false,
    })
}

fn main() {
    println!("cargo:rerun-if-changed={SRC}/lib.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let text = fs::read_to_string(format!("{SRC}/lib.rs")).expect("no mod manager");
    let file = syn::parse_file(&text).expect("mod manager does not parse");
    let mut out = TokenStream::new();
    for item in file.items {
        if let syn::Item::Mod(m) = &item {
            if m.content.is_none() {
                let name = m.ident.to_string();
                if DROPPED.contains(&name.as_str()) {
                    continue;
                }
                let mut path = format!("{SRC}/{name}.rs");
                if fs::metadata(&path).is_err() {
                    path = format!("{SRC}/{name}/mod.rs");
                }
                let mut m = m.clone();
                m.attrs.push(syn::parse_quote!(#[path = #path]));
                m.attrs.push(syn::parse_quote!(#[allow(dead_code, unused)]));
                m.to_tokens(&mut out);
                continue;
            }
        }
        if mentions(item.to_token_stream(), &GUI) {
            continue;
        }
        item.to_tokens(&mut out);
    }
    fs::write(PathBuf::from(env::var("OUT_DIR").unwrap()).join("manager.rs"), out.to_string()).unwrap();
}
