//! Stand-in used only in the checks' build: the ABI derives, which no property
//! here is about, expand to nothing.
use proc_macro::TokenStream;
#[proc_macro_derive(EthAbiCodec)]
pub fn codec(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(EthAbiType, attributes(ethevent))]
pub fn ty(_: TokenStream) -> TokenStream { TokenStream::new() }
