//! Stand-in for variant_count (not available offline): `#[derive(VariantCount)]` adds `const VARIANT_COUNT: usize`.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(VariantCount)]
pub fn variant_count(input: TokenStream) -> TokenStream {
	let mut name = None;
	let mut count = 0usize;
	let mut it = input.into_iter();
	while let Some(t) = it.next() {
		match t {
			TokenTree::Ident(i) if i.to_string() == "enum" => {
				if let Some(TokenTree::Ident(n)) = it.next() {
					name = Some(n.to_string());
				}
			},
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && name.is_some() => {
				let mut fresh = true;
				for t in g.stream() {
					match t {
						TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
						TokenTree::Ident(_) if fresh => {
							count += 1;
							fresh = false;
						},
						_ => {},
					}
				}
			},
			_ => {},
		}
	}
	format!("impl {} {{ pub const VARIANT_COUNT: usize = {}; }}", name.unwrap(), count).parse().unwrap()
}
