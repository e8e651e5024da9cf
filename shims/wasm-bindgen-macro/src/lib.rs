extern crate proc_macro;
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream { i }
