//! solana-client with the transport replaced by the explorer: the real RPC client over a sender whose every request
//! is answered by the environment, and a pubsub client whose notifications come from the environment.
pub mod client_error {
    pub use solana_rpc_client_api::client_error::{Error as ClientError, ErrorKind as ClientErrorKind, Result};
}
pub mod rpc_config {
    pub use solana_rpc_client_api::config::*;
}
pub mod rpc_custom_error {
    pub use solana_rpc_client_api::custom_error::*;
}
pub mod rpc_filter {
    pub use solana_rpc_client_api::filter::*;
}
pub mod rpc_request {
    pub use solana_rpc_client_api::request::*;
}
pub mod rpc_response {
    pub use solana_rpc_client_api::response::*;
}
pub mod rpc_sender {
    pub use solana_rpc_client::rpc_sender::*;
}

/// what the environment sees of a request
pub struct RpcCall {
    pub url: String,
    pub method: String,
    pub params: serde_json::Value,
}
/// and what it answers: a result, or an error
pub enum RpcAnswer {
    Ok(serde_json::Value),
    /// JSON-RPC error (code, message, data)
    Rpc(i64, String, Option<serde_json::Value>),
    /// transport failure
    Io(String),
}

pub mod nonblocking {
    pub mod rpc_client {
        use solana_commitment_config::CommitmentConfig;
        use solana_rpc_client::rpc_client::RpcClientConfig;
        use solana_rpc_client::rpc_sender::{RpcSender, RpcTransportStats};
        use solana_rpc_client_api::client_error::{Error as ClientError, ErrorKind, Result};
        use solana_rpc_client_api::request::{RpcError, RpcRequest, RpcResponseErrorData};
        use std::ops::Deref;
        use std::time::Duration;

        struct Sender(String);
        #[async_trait::async_trait]
        impl RpcSender for Sender {
            async fn send(&self, request: RpcRequest, params: serde_json::Value) -> Result<serde_json::Value> {
                let call =
                    crate::RpcCall { url: self.0.clone(), method: request.to_string(), params };
                let a = mcrt::op(Box::new(call)).await;
                match *a.downcast::<crate::RpcAnswer>().expect("answer") {
                    crate::RpcAnswer::Ok(v) => Ok(v),
                    crate::RpcAnswer::Rpc(code, message, data) => {
                        let data = match data {
                            Some(d) if code == -32002 => serde_json::from_value(d)
                                .map(RpcResponseErrorData::SendTransactionPreflightFailure)
                                .unwrap_or(RpcResponseErrorData::Empty),
                            _ => RpcResponseErrorData::Empty,
                        };
                        Err(RpcError::RpcResponseError { code, message, data }.into())
                    }
                    crate::RpcAnswer::Io(m) => Err(ClientError::new_with_request(
                        ErrorKind::Io(std::io::Error::other(m)),
                        request,
                    )),
                }
            }
            fn get_transport_stats(&self) -> RpcTransportStats {
                RpcTransportStats::default()
            }
            fn url(&self) -> String {
                self.0.clone()
            }
        }

        pub struct RpcClient(solana_rpc_client::nonblocking::rpc_client::RpcClient);
        impl Deref for RpcClient {
            type Target = solana_rpc_client::nonblocking::rpc_client::RpcClient;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl RpcClient {
            fn make(url: String, c: CommitmentConfig) -> Self {
                RpcClient(solana_rpc_client::nonblocking::rpc_client::RpcClient::new_sender(
                    Sender(url),
                    RpcClientConfig::with_commitment(c),
                ))
            }
            pub fn new(url: String) -> Self {
                Self::make(url, CommitmentConfig::default())
            }
            pub fn new_with_commitment(url: String, c: CommitmentConfig) -> Self {
                Self::make(url, c)
            }
            pub fn new_with_timeout(url: String, _t: Duration) -> Self {
                Self::make(url, CommitmentConfig::default())
            }
            pub fn new_with_timeout_and_commitment(url: String, _t: Duration, c: CommitmentConfig) -> Self {
                Self::make(url, c)
            }
        }
    }
}

pub mod pubsub_client {
    use crossbeam_channel::Receiver;
    use solana_rpc_client_api::config::RpcProgramAccountsConfig;
    use solana_rpc_client_api::response::{Response, RpcKeyedAccount};
    use solana_sdk::pubkey::Pubkey;
    use std::marker::PhantomData;

    /// what the environment sees of a subscription
    pub struct SubscribeCall {
        pub url: String,
        pub program: Pubkey,
        pub config: Option<RpcProgramAccountsConfig>,
    }
    pub struct SubscribeAnswer(pub Result<u64, String>);

    #[derive(Debug)]
    pub enum PubsubClientError {
        ConnectionError(String),
        ConnectionClosed(String),
    }
    impl std::fmt::Display for PubsubClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for PubsubClientError {}

    pub struct PubsubClientSubscription<T> {
        chan: u64,
        _p: PhantomData<fn() -> T>,
    }
    impl<T> PubsubClientSubscription<T> {
        pub fn send_unsubscribe(&self) -> Result<(), PubsubClientError> {
            mcrt::with(|rt| rt.chan_close(self.chan));
            Ok(())
        }
        pub fn shutdown(&mut self) -> std::thread::Result<()> {
            Ok(())
        }
    }
    pub type PubsubProgramClientSubscription = PubsubClientSubscription<Response<RpcKeyedAccount>>;
    pub type ProgramSubscription = (PubsubProgramClientSubscription, Receiver<Response<RpcKeyedAccount>>);

    pub struct PubsubClient {}
    impl PubsubClient {
        pub fn program_subscribe(
            url: &str,
            pubkey: &Pubkey,
            config: Option<RpcProgramAccountsConfig>,
        ) -> Result<ProgramSubscription, PubsubClientError> {
            let call = SubscribeCall { url: url.to_string(), program: *pubkey, config };
            let a = mcrt::op_blocking(Box::new(call));
            match a.downcast::<SubscribeAnswer>().expect("answer").0 {
                Ok(chan) => Ok((
                    PubsubClientSubscription { chan, _p: PhantomData },
                    crossbeam_channel::controlled(chan),
                )),
                Err(e) => Err(PubsubClientError::ConnectionError(e)),
            }
        }
    }
}
