//! The functions of the node that consolidate and build blocks are private to a crate which needs
//! an actor system that is not available here.  This copies them, and whatever they use of the
//! same file, into a module of the harness.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::{Item, UseTree};

const CRATES: [&str; 10] = [
    "std", "itertools", "log", "witnet_config", "witnet_crypto", "witnet_data_structures", "witnet_rad", "witnet_validations", "witnet_util", "serde",
];

fn leaves(tree: &UseTree, path: String, out: &mut Vec<String>) {
    let sep = if path.is_empty() { "" } else { "::" };
    match tree {
        UseTree::Path(p) => leaves(&p.tree, format!("{path}{sep}{}", p.ident), out),
        UseTree::Group(g) => g.items.iter().for_each(|t| leaves(t, path.clone(), out)),
        UseTree::Name(n) => out.push(format!("{path}{sep}{}", n.ident)),
        UseTree::Rename(r) => out.push(format!("{path}{sep}{} as {}", r.ident, r.rename)),
        UseTree::Glob(_) => out.push(format!("{path}::*")),
    }
}

fn words(tokens: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in tokens {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => words(g.stream(), out),
            _ => {}
        }
    }
}

/// Items of the file reachable by name from the wanted ones
fn extract(file: &str, wanted: &[&str]) -> String {
    println!("cargo:rerun-if-changed={file}");
    let src = std::fs::read_to_string(file).unwrap();
    let parsed = syn::parse_file(&src).unwrap();
    let mut named: BTreeMap<String, Vec<&Item>> = BTreeMap::new();
    let mut uses = vec![];
    for item in &parsed.items {
        let name = match item {
            Item::Fn(x) => x.sig.ident.to_string(),
            Item::Struct(x) => x.ident.to_string(),
            Item::Enum(x) => x.ident.to_string(),
            Item::Const(x) => x.ident.to_string(),
            Item::Static(x) => x.ident.to_string(),
            Item::Type(x) => x.ident.to_string(),
            Item::Trait(x) => x.ident.to_string(),
            Item::Impl(x) => match &*x.self_ty {
                syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => continue,
            },
            Item::Use(u) => {
                leaves(&u.tree, String::new(), &mut uses);
                continue;
            }
            _ => continue,
        };
        named.entry(name).or_default().push(item);
    }
    // those of the actors stay behind
    named.remove("ChainManager");
    named.remove("ChainManagerError");
    let mut todo: Vec<String> = wanted.iter().map(|s| s.to_string()).collect();
    let mut seen = BTreeSet::new();
    let mut text = String::new();
    while let Some(n) = todo.pop() {
        if !seen.insert(n.clone()) {
            continue;
        }
        for item in named.get(&n).into_iter().flatten() {
            let tokens = item.to_token_stream();
            let mut w = BTreeSet::new();
            words(tokens.clone(), &mut w);
            todo.extend(w.into_iter().filter(|x| named.contains_key(x)));
            let mut item = (*item).clone();
            let open: syn::Visibility = syn::parse_str("pub").unwrap();
            match &mut item {
                Item::Fn(x) => x.vis = open,
                Item::Struct(x) => {
                    x.vis = open.clone();
                    x.fields.iter_mut().for_each(|f| f.vis = open.clone());
                }
                Item::Enum(x) => x.vis = open,
                Item::Const(x) => x.vis = open,
                Item::Type(x) => x.vis = open,
                Item::Impl(x) if x.trait_.is_none() => {
                    for i in &mut x.items {
                        if let syn::ImplItem::Fn(f) = i {
                            f.vis = open.clone();
                        }
                    }
                }
                _ => {}
            }
            text.push_str(&item.to_token_stream().to_string());
            text.push('\n');
        }
        assert!(named.contains_key(&n), "{n} is not in {file} any more");
    }
    let uses: String = uses.iter().filter(|u| CRATES.contains(&u.split("::").next().unwrap())).map(|u| format!("use {u};\n")).collect();
    format!("{uses}{text}")
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let dir = "/repo/node/src/actors/chain_manager";
    let out = std::env::var("OUT_DIR").unwrap();
    let consolidate = extract(&format!("{dir}/mod.rs"), &["process_validations", "process_wit2_stakes_changes", "update_pools", "update_reputation", "current_committee_size_requirement", "last_superblock_signed_by_bootstrap"]);
    std::fs::write(format!("{out}/consolidate.rs"), consolidate).unwrap();
    std::fs::write(format!("{out}/mining.rs"), extract(&format!("{dir}/mining.rs"), &["build_block"])).unwrap();
}
