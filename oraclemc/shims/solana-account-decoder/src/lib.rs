pub use solana_account_decoder_client_types::*;
