//! The client's types, with a stream whose updates come from the environment.
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompressionEncoding {
    Gzip,
    Zstd,
}
#[derive(Debug, Clone, Default)]
pub struct ChannelOptions {
    pub connect_timeout_secs: Option<u64>,
    pub timeout_secs: Option<u64>,
    pub max_decoding_message_size: Option<usize>,
    pub max_encoding_message_size: Option<usize>,
    pub http2_keep_alive_interval_secs: Option<u64>,
    pub keep_alive_timeout_secs: Option<u64>,
    pub keep_alive_while_idle: Option<bool>,
    pub initial_stream_window_size: Option<u32>,
    pub initial_connection_window_size: Option<u32>,
    pub http2_adaptive_window: Option<bool>,
    pub tcp_nodelay: Option<bool>,
    pub tcp_keepalive_secs: Option<u64>,
    pub buffer_size: Option<usize>,
    pub accept_compression: Option<Vec<CompressionEncoding>>,
    pub send_compression: Option<CompressionEncoding>,
}
#[derive(Debug, Clone)]
pub struct LaserstreamConfig {
    pub api_key: String,
    pub endpoint: String,
    pub max_reconnect_attempts: Option<u32>,
    pub channel_options: ChannelOptions,
    pub replay: bool,
}
impl Default for LaserstreamConfig {
    fn default() -> Self {
        LaserstreamConfig {
            api_key: String::new(),
            endpoint: String::new(),
            max_reconnect_attempts: None,
            channel_options: ChannelOptions::default(),
            replay: true,
        }
    }
}
impl LaserstreamConfig {
    pub fn new(endpoint: String, api_key: String) -> Self {
        LaserstreamConfig { endpoint, api_key, ..Default::default() }
    }
    pub fn with_max_reconnect_attempts(mut self, n: u32) -> Self {
        self.max_reconnect_attempts = Some(n);
        self
    }
    pub fn with_replay(mut self, r: bool) -> Self {
        self.replay = r;
        self
    }
    pub fn with_channel_options(mut self, o: ChannelOptions) -> Self {
        self.channel_options = o;
        self
    }
}
#[derive(Debug)]
pub enum LaserstreamError {
    StreamEnded,
    ConnectionError(String),
    InvalidApiKeyFormat,
}
impl std::fmt::Display for LaserstreamError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for LaserstreamError {}

#[derive(Clone)]
pub struct StreamHandle(());
impl StreamHandle {
    pub async fn write(&self, _r: grpc::SubscribeRequest) -> Result<(), LaserstreamError> {
        Ok(())
    }
}

/// what the environment sees: it answers by putting updates into the channel
pub struct StreamCall {
    pub chan: u64,
    pub config: LaserstreamConfig,
    pub request: grpc::SubscribeRequest,
}
pub type Item = Result<grpc::SubscribeUpdate, LaserstreamError>;

pub struct UpdateStream {
    start: Option<(LaserstreamConfig, grpc::SubscribeRequest)>,
    chan: Option<u64>,
    gen: u64,
    op: Option<mcrt::OpFuture>,
}
impl futures_core::Stream for UpdateStream {
    type Item = Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        if let Some((config, request)) = self.start.take() {
            // connects on the first poll, as the real one does
            let chan = mcrt::with(|rt| rt.new_chan());
            self.chan = Some(chan);
            self.gen = mcrt::gen();
            let mut op = mcrt::op(Box::new(StreamCall { chan, config, request }));
            use std::future::Future;
            let _ = Pin::new(&mut op).poll(cx);
            self.op = Some(op);
        }
        match mcrt::chan_poll(self.chan.unwrap(), cx) {
            Poll::Ready(Some(m)) => Poll::Ready(Some(*m.downcast::<Item>().expect("message type"))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl Drop for UpdateStream {
    fn drop(&mut self) {
        if let Some(c) = self.chan {
            mcrt::chan_drop(self.gen, c)
        }
    }
}
pub fn subscribe(
    config: LaserstreamConfig,
    request: grpc::SubscribeRequest,
) -> (impl futures_core::Stream<Item = Item>, StreamHandle) {
    (UpdateStream { start: Some((config, request)), chan: None, gen: 0, op: None }, StreamHandle(()))
}

pub mod grpc {
    use std::collections::HashMap;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    #[repr(i32)]
    pub enum CommitmentLevel {
        Processed = 0,
        Confirmed = 1,
        Finalized = 2,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequest {
        pub accounts: HashMap<String, SubscribeRequestFilterAccounts>,
        pub slots: HashMap<String, SubscribeRequestFilterSlots>,
        pub transactions: HashMap<String, ()>,
        pub transactions_status: HashMap<String, ()>,
        pub blocks: HashMap<String, ()>,
        pub blocks_meta: HashMap<String, ()>,
        pub entry: HashMap<String, ()>,
        pub commitment: Option<i32>,
        pub accounts_data_slice: Vec<SubscribeRequestAccountsDataSlice>,
        pub ping: Option<SubscribeRequestPing>,
        pub from_slot: Option<u64>,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestPing {
        pub id: i32,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestFilterSlots {
        pub filter_by_commitment: Option<bool>,
        pub interslot_updates: Option<bool>,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestAccountsDataSlice {
        pub offset: u64,
        pub length: u64,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestFilterAccounts {
        pub account: Vec<String>,
        pub owner: Vec<String>,
        pub filters: Vec<SubscribeRequestFilterAccountsFilter>,
        pub nonempty_txn_signature: Option<bool>,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestFilterAccountsFilter {
        pub filter: Option<subscribe_request_filter_accounts_filter::Filter>,
    }
    pub mod subscribe_request_filter_accounts_filter {
        #[derive(Debug, Clone, PartialEq)]
        pub enum Filter {
            Memcmp(super::SubscribeRequestFilterAccountsFilterMemcmp),
            Datasize(u64),
            TokenAccountState(bool),
            Lamports(super::SubscribeRequestFilterAccountsFilterLamports),
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestFilterAccountsFilterLamports {}
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeRequestFilterAccountsFilterMemcmp {
        pub offset: u64,
        pub data: Option<subscribe_request_filter_accounts_filter_memcmp::Data>,
    }
    pub mod subscribe_request_filter_accounts_filter_memcmp {
        #[derive(Debug, Clone, PartialEq)]
        pub enum Data {
            Bytes(Vec<u8>),
            Base58(String),
            Base64(String),
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct Timestamp {
        pub seconds: i64,
        pub nanos: i32,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdate {
        pub filters: Vec<String>,
        pub created_at: Option<Timestamp>,
        pub update_oneof: Option<subscribe_update::UpdateOneof>,
    }
    pub mod subscribe_update {
        #[derive(Debug, Clone, PartialEq)]
        pub enum UpdateOneof {
            Account(super::SubscribeUpdateAccount),
            Slot(super::SubscribeUpdateSlot),
            Ping(super::SubscribeUpdatePing),
            Pong(super::SubscribeUpdatePong),
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdatePing {}
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdatePong {
        pub id: i32,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdateSlot {
        pub slot: u64,
        pub parent: Option<u64>,
        pub status: i32,
        pub dead_error: Option<String>,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdateAccount {
        pub account: Option<SubscribeUpdateAccountInfo>,
        pub slot: u64,
        pub is_startup: bool,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct SubscribeUpdateAccountInfo {
        pub pubkey: Vec<u8>,
        pub lamports: u64,
        pub owner: Vec<u8>,
        pub executable: bool,
        pub rent_epoch: u64,
        pub data: Vec<u8>,
        pub write_version: u64,
        pub txn_signature: Option<Vec<u8>>,
    }
}
