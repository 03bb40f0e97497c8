//! Stand-in for the `shank` derive macros (their git source is unreachable offline).
//! `ShankContext` generates the `accounts` module: one struct per variant whose
//! fields are the named accounts and a `context` constructor that, like shank's,
//! checks nothing but the number of accounts.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, ExprLit, Lit, Meta};

#[proc_macro_derive(ShankInstruction, attributes(account))]
pub fn shank_instruction(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(ShankContext, attributes(account))]
pub fn shank_context(i: TokenStream) -> TokenStream {
    let input = parse_macro_input!(i as DeriveInput);
    let Data::Enum(e) = input.data else { panic!("enum expected") };
    let mut out = Vec::new();
    for v in e.variants.iter() {
        let name = format_ident!("{}Accounts", v.ident);
        let mut fields: Vec<(usize, String)> = Vec::new();
        for a in v.attrs.iter().filter(|a| a.path().is_ident("account")) {
            let Meta::List(l) = &a.meta else { continue };
            let parts = l
                .parse_args_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .expect("account attribute");
            let mut idx = fields.len();
            let mut nm = String::new();
            for p in parts.iter() {
                match p {
                    Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => idx = n.base10_parse().unwrap(),
                    Expr::Assign(asg) => {
                        if let (Expr::Path(k), Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) =
                            (&*asg.left, &*asg.right)
                        {
                            if k.path.is_ident("name") {
                                nm = s.value();
                            }
                        }
                    },
                    _ => {},
                }
            }
            fields.push((idx, nm));
        }
        fields.sort();
        let n = fields.len();
        let ids: Vec<_> = fields.iter().map(|(_, f)| format_ident!("{}", f)).collect();
        let idx: Vec<usize> = fields.iter().map(|(i, _)| *i).collect();
        out.push(quote! {
            pub struct #name<'a> { #( pub #ids: &'a AccountInfo, )* }
            impl<'a> #name<'a> {
                pub fn context(accounts: &'a [AccountInfo])
                    -> Result<Context<'a, #name<'a>>, ProgramError> {
                    if accounts.len() < #n { return Err(ProgramError::NotEnoughAccountKeys); }
                    Ok(Context {
                        accounts: #name { #( #ids: &accounts[#idx], )* },
                        remaining_accounts: &accounts[#n..],
                    })
                }
            }
        });
    }
    quote! {
        pub mod accounts {
            use super::*;
            pub struct Context<'a, T> {
                pub accounts: T,
                pub remaining_accounts: &'a [AccountInfo],
            }
            #( #out )*
        }
    }
    .into()
}
