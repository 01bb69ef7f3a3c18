pub use solana_program::program::{invoke, invoke_signed, invoke_signed_unchecked, invoke_unchecked};
