//! Stub validation (not a check): prints a source file without doc attributes
//! and without the `types` module, so that after rustfmt the generator's
//! output with the stand-in typify can be diffed with the repository's goldens.
use quote::ToTokens;
use syn::visit_mut::VisitMut;
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.retain(|x| !x.path().is_ident("doc"));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut f: syn::File = syn::parse_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    f.attrs.clear();
    Strip.visit_file_mut(&mut f);
    f.items.retain(|i| !matches!(i, syn::Item::Mod(m) if m.ident == "types"));
    println!("{}", f.to_token_stream());
}
