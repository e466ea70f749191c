use crate::jsonrpc::{self, Error, ErrorCode};
use crate::LanguageServer;
use lsp_types::notification::{Notification, PublishDiagnostics};
use lsp_types::request::*;
use lsp_types::*;
use serde::Serialize;
use serde_json::Value;
use std::fmt::Display;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// What the modelled client has seen from the server.
#[derive(Default, Debug)]
pub struct ClientState {
    pub diagnostics: Vec<PublishDiagnosticsParams>,
    pub notifications: Vec<(String, Value)>,
    pub requests: Vec<(String, Value)>,
    /// The client's answers to requests: `None` = no answer has arrived yet.
    pub answer: Option<jsonrpc::Result<Value>>,
    /// A slow client: messages arrive in order, but senders have to wait.
    pub slow: bool,
    /// How many messages the server handles at once.
    pub level: usize,
    /// Whether the server was connected to standard input and output.
    pub standard: bool,
}

/// Handle for communicating with the (modelled) language client.
#[derive(Clone, Debug)]
pub struct Client {
    pub(crate) state: Arc<Mutex<ClientState>>,
}

/// Waits as long as the client is slow. The message itself is already on its way, as with
/// tower-lsp's channel: a sender that finds it full has queued its message.
struct Flush(Arc<Mutex<ClientState>>);
impl Future for Flush {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if self.0.lock().unwrap().slow { Poll::Pending } else { Poll::Ready(()) }
    }
}
struct Answer(Arc<Mutex<ClientState>>);
impl Future for Answer {
    type Output = jsonrpc::Result<Value>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.lock().unwrap().answer.clone() {
            Some(a) => Poll::Ready(a),
            None => Poll::Pending,
        }
    }
}

impl Client {
    pub async fn register_capability(&self, registrations: Vec<Registration>) -> jsonrpc::Result<()> {
        self.send_request::<RegisterCapability>(RegistrationParams { registrations }).await
    }
    pub async fn unregister_capability(&self, unregisterations: Vec<Unregistration>) -> jsonrpc::Result<()> {
        self.send_request::<UnregisterCapability>(UnregistrationParams { unregisterations }).await
    }
    pub async fn show_message<M: Display>(&self, _typ: MessageType, _message: M) { Flush(self.state.clone()).await }
    pub async fn log_message<M: Display>(&self, _typ: MessageType, _message: M) { Flush(self.state.clone()).await }
    pub async fn telemetry_event<S: Serialize>(&self, _data: S) { Flush(self.state.clone()).await }
    pub async fn show_message_request<M: Display>(
        &self,
        typ: MessageType,
        message: M,
        actions: Option<Vec<MessageActionItem>>,
    ) -> jsonrpc::Result<Option<MessageActionItem>> {
        self.send_request::<ShowMessageRequest>(ShowMessageRequestParams { typ, message: message.to_string(), actions }).await
    }
    pub async fn show_document(&self, params: ShowDocumentParams) -> jsonrpc::Result<bool> {
        Ok(self.send_request::<ShowDocument>(params).await?.success)
    }
    pub async fn code_lens_refresh(&self) -> jsonrpc::Result<()> { self.send_request::<CodeLensRefresh>(()).await }
    pub async fn semantic_tokens_refresh(&self) -> jsonrpc::Result<()> { self.send_request::<SemanticTokensRefresh>(()).await }
    pub async fn inlay_hint_refresh(&self) -> jsonrpc::Result<()> { self.send_request::<InlayHintRefreshRequest>(()).await }
    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> jsonrpc::Result<Vec<Value>> {
        self.send_request::<WorkspaceConfiguration>(ConfigurationParams { items }).await
    }
    pub async fn workspace_folders(&self) -> jsonrpc::Result<Option<Vec<WorkspaceFolder>>> {
        self.send_request::<WorkspaceFoldersRequest>(()).await
    }
    pub async fn apply_edit(&self, edit: WorkspaceEdit) -> jsonrpc::Result<ApplyWorkspaceEditResponse> {
        self.send_request::<ApplyWorkspaceEdit>(ApplyWorkspaceEditParams { edit, label: None }).await
    }
    pub async fn publish_diagnostics(&self, uri: Url, diags: Vec<Diagnostic>, version: Option<i32>) {
        self.state.lock().unwrap().diagnostics.push(PublishDiagnosticsParams::new(uri, diags, version));
        Flush(self.state.clone()).await
    }
    pub async fn send_notification<N: Notification>(&self, params: N::Params) {
        let v = serde_json::to_value(params).unwrap_or(Value::Null);
        {
            let mut st = self.state.lock().unwrap();
            if N::METHOD == PublishDiagnostics::METHOD {
                if let Ok(p) = serde_json::from_value(v) {
                    st.diagnostics.push(p);
                }
            } else {
                st.notifications.push((N::METHOD.to_string(), v));
            }
        }
        Flush(self.state.clone()).await
    }
    pub async fn send_request<R: Request>(&self, params: R::Params) -> jsonrpc::Result<R::Result> {
        let v = serde_json::to_value(params).unwrap_or(Value::Null);
        self.state.lock().unwrap().requests.push((R::METHOD.to_string(), v));
        let answer = Answer(self.state.clone()).await?;
        serde_json::from_value(answer).map_err(|e| Error {
            code: ErrorCode::ParseError,
            message: e.to_string().into(),
            data: None,
        })
    }
}

pub struct ClientSocket(());
pub struct LspService<S> {
    inner: S,
    client: Client,
}
impl<S: LanguageServer> LspService<S> {
    pub fn new<F: FnOnce(Client) -> S>(init: F) -> (Self, ClientSocket) { LspService::build(init).finish() }
    pub fn build<F: FnOnce(Client) -> S>(init: F) -> LspServiceBuilder<S> {
        let client = Client { state: Default::default() };
        LspServiceBuilder { inner: init(client.clone()), client }
    }
    pub fn inner(&self) -> &S { &self.inner }
}
pub struct LspServiceBuilder<S> {
    inner: S,
    client: Client,
}
impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<F>(self, _name: &'static str, _callback: F) -> Self { self }
    pub fn finish(self) -> (LspService<S>, ClientSocket) {
        (LspService { inner: self.inner, client: self.client }, ClientSocket(()))
    }
}

pub struct Server<I, O> {
    _io: (I, O),
    level: usize,
}
impl<I, O> Server<I, O> {
    pub fn new(stdin: I, stdout: O, _socket: ClientSocket) -> Self { Server { _io: (stdin, stdout), level: 4 } }
    /// How many messages are handled at once; as in tower-lsp, 4 unless said otherwise.
    pub fn concurrency_level(mut self, max: usize) -> Self { self.level = max; self }
    pub async fn serve<S: LanguageServer>(self, service: LspService<S>) {
        {
            let mut c = service.client.state.lock().unwrap();
            c.level = self.level;
            c.standard = std::any::type_name::<I>().contains("Stdin") && std::any::type_name::<O>().contains("Stdout");
        }
        crate::harness::run(&service.inner, &service.client.state);
    }
}
