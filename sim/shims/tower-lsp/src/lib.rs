//! Stand-in for `tower-lsp` 0.20: the server trait, and a client whose messages go to the simulator
//! through a channel that holds one message (as the one to the transport does).
pub use async_trait::async_trait;
pub use lsp_types;
use lsp_types::notification::Notification;
use lsp_types::*;
use std::future::Future;
use std::sync::Arc;

pub mod jsonrpc {
    #[derive(Debug, Clone, PartialEq)]
    pub enum ErrorCode {
        ParseError,
        InvalidRequest,
        MethodNotFound,
        InvalidParams,
        InternalError,
        ServerError(i64),
        RequestCancelled,
        ContentModified,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Error {
        pub code: ErrorCode,
        pub message: std::borrow::Cow<'static, str>,
        pub data: Option<serde_json::Value>,
    }
    impl Error {
        pub fn new(code: ErrorCode) -> Self {
            Error { code, message: "".into(), data: None }
        }
        pub fn method_not_found() -> Self {
            Self::new(ErrorCode::MethodNotFound)
        }
        pub fn internal_error() -> Self {
            Self::new(ErrorCode::InternalError)
        }
        pub fn invalid_params(m: impl Into<std::borrow::Cow<'static, str>>) -> Self {
            Error { code: ErrorCode::InvalidParams, message: m.into(), data: None }
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
use jsonrpc::Result;

/// What reaches the editor.
#[derive(Debug, Clone)]
pub enum Sent {
    Log(MessageType, String),
    Show(MessageType, String),
    Notification(&'static str, serde_json::Value),
    Diagnostics(Url, Vec<Diagnostic>, Option<i32>),
}
#[derive(Clone)]
pub struct Client {
    tx: Arc<tokio::sync::mpsc::Sender<Sent>>,
}
impl std::fmt::Debug for Client {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Client")
    }
}
impl Client {
    /// For the simulator.
    pub fn sim(tx: tokio::sync::mpsc::Sender<Sent>) -> Self {
        Client { tx: Arc::new(tx) }
    }
    async fn put(&self, s: Sent) {
        let _ = self.tx.send(s).await;
    }
    pub async fn log_message<M: std::fmt::Display>(&self, typ: MessageType, m: M) {
        self.put(Sent::Log(typ, m.to_string())).await
    }
    pub async fn show_message<M: std::fmt::Display>(&self, typ: MessageType, m: M) {
        self.put(Sent::Show(typ, m.to_string())).await
    }
    pub async fn send_notification<N: Notification>(&self, p: N::Params) {
        self.put(Sent::Notification(N::METHOD, serde_json::to_value(p).unwrap_or_default())).await
    }
    pub async fn publish_diagnostics(&self, uri: Url, diags: Vec<Diagnostic>, version: Option<i32>) {
        self.put(Sent::Diagnostics(uri, diags, version)).await
    }
}

macro_rules! notifications {
    ($($f:ident($p:ty);)*) => { $(fn $f(&self, _: $p) -> impl Future<Output = ()> + Send { async {} })* };
}
macro_rules! requests {
    ($($f:ident($p:ty) -> $r:ty;)*) => {
        $(fn $f(&self, _: $p) -> impl Future<Output = Result<$r>> + Send { async { Err(jsonrpc::Error::method_not_found()) } })*
    };
}
pub trait LanguageServer: Send + Sync + 'static {
    fn initialize(&self, params: InitializeParams) -> impl Future<Output = Result<InitializeResult>> + Send;
    fn shutdown(&self) -> impl Future<Output = Result<()>> + Send;
    notifications! {
        initialized(InitializedParams);
        did_open(DidOpenTextDocumentParams);
        did_change(DidChangeTextDocumentParams);
        did_save(DidSaveTextDocumentParams);
        did_close(DidCloseTextDocumentParams);
        did_change_watched_files(DidChangeWatchedFilesParams);
    }
    requests! {
        goto_definition(GotoDefinitionParams) -> Option<GotoDefinitionResponse>;
        hover(HoverParams) -> Option<Hover>;
        completion(CompletionParams) -> Option<CompletionResponse>;
        formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>>;
        range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>>;
    }
}
