//! What the actors use of the bridge's own library file, which itself needs a real Ethereum client.
use quote::ToTokens;
fn main() {
    let file = "/repo/bridges/centralized-ethereum/src/lib.rs";
    println!("cargo:rerun-if-changed={file}");
    let mut out = String::new();
    for i in syn::parse_file(&std::fs::read_to_string(file).unwrap()).unwrap().items {
        if let syn::Item::Fn(f) = &i {
            if f.sig.ident == "handle_receipt" {
                out += &i.to_token_stream().to_string();
            }
        }
    }
    std::fs::write(format!("{}/lib_fns.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
