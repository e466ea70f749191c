//! The modelled editor: calls the handlers of the server under verification and
//! normalises what they answer.
#![allow(dead_code)]
use crate::client::ClientState;
use crate::jsonrpc;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::Value;
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// Runs a handler as far as it gets without the client.
pub fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    for _ in 0..4 {
        let r = poll1(f);
        if r.is_some() { return r; }
    }
    None
}
/// One poll of a handler: it runs to its next suspension.
pub fn poll1<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w = waker();
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}
/// Assertion codes shared by all properties.
pub const PENDING: u32 = 500;
/// Runs a handler that depends on nothing outside the server to its end.
pub fn now<F: Future + ?Sized>(mut f: Pin<Box<F>>) -> F::Output {
    for _ in 0..4 {
        if let Some(r) = poll(&mut f) {
            return r;
        }
    }
    hv::check(false, PENDING);
    std::process::abort()
}

/// line, character (start), line, character (end)
pub type R = (u32, u32, u32, u32);
pub type P = (u32, u32);
pub fn rng(r: &Range) -> R { (r.start.line, r.start.character, r.end.line, r.end.character) }
pub fn unrng(r: R) -> Range { Range { start: Position::new(r.0, r.1), end: Position::new(r.2, r.3) } }
pub fn url(s: &str) -> Url { Url::parse(s).unwrap() }

/// A navigation target.
#[derive(Clone, Debug, PartialEq)]
pub struct Link {
    pub uri: String,
    pub origin: Option<R>,
    pub target: R,
    pub selection: R,
}

pub struct Editor<'a, S> {
    pub s: &'a S,
    pub c: &'a Mutex<ClientState>,
    pub uri: Url,
}

fn tdi(u: &Url) -> TextDocumentIdentifier { TextDocumentIdentifier { uri: u.clone() } }
pub fn tdp(u: &Url, p: P) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: tdi(u), position: Position::new(p.0, p.1) }
}

impl<'a, S: LanguageServer> Editor<'a, S> {
    pub fn new(s: &'a S, c: &'a Mutex<ClientState>) -> Self { Editor { s, c, uri: url("file:///w/t.hir") } }
    pub fn at(&self, u: &str) -> Editor<'a, S> { Editor { s: self.s, c: self.c, uri: url(u) } }

    pub fn open(&self, text: &str) { self.open_v(text, 1) }
    pub fn open_v(&self, text: &str, version: i32) {
        hv::text(text);
        now(self.s.did_open(DidOpenTextDocumentParams {
            text_document: TextDocumentItem { uri: self.uri.clone(), language_id: "hir".into(), version, text: text.to_string() },
        }));
    }
    pub fn change(&self, texts: &[&str], version: i32) {
        for t in texts {
            hv::text(t);
        }
        now(self.s.did_change(DidChangeTextDocumentParams {
            text_document: VersionedTextDocumentIdentifier { uri: self.uri.clone(), version },
            content_changes: texts
                .iter()
                .map(|t| TextDocumentContentChangeEvent { range: None, range_length: None, text: t.to_string() })
                .collect(),
        }));
    }
    /// The diagnostics last published for the document, and how often any were published.
    pub fn published(&self) -> Vec<PublishDiagnosticsParams> {
        self.c.lock().unwrap().diagnostics.iter().filter(|d| d.uri.as_str() == self.uri.as_str()).cloned().collect()
    }
    pub fn diags(&self) -> Vec<Diagnostic> { self.published().pop().map(|d| d.diagnostics).unwrap_or_default() }

    fn links(&self, r: Option<GotoDefinitionResponse>) -> Option<Vec<Link>> {
        let loc = |l: Location| Link { uri: l.uri.to_string(), origin: None, target: rng(&l.range), selection: rng(&l.range) };
        Some(match r? {
            GotoDefinitionResponse::Scalar(l) => vec![loc(l)],
            GotoDefinitionResponse::Array(v) => v.into_iter().map(loc).collect(),
            GotoDefinitionResponse::Link(v) => v
                .into_iter()
                .map(|l| Link {
                    uri: l.target_uri.to_string(),
                    origin: l.origin_selection_range.as_ref().map(rng),
                    target: rng(&l.target_range),
                    selection: rng(&l.target_selection_range),
                })
                .collect(),
        })
    }
    pub fn definition(&self, p: P) -> Option<Vec<Link>> {
        let r = now(self.s.goto_definition(GotoDefinitionParams {
            text_document_position_params: tdp(&self.uri, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }));
        self.links(r.ok().flatten())
    }
    pub fn declaration(&self, p: P) -> Option<Vec<Link>> {
        let r = now(self.s.goto_declaration(GotoDefinitionParams {
            text_document_position_params: tdp(&self.uri, p),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }));
        self.links(r.ok().flatten())
    }
    pub fn references(&self, p: P, include_declaration: bool) -> Option<Vec<(String, R)>> {
        let r = now(self.s.references(ReferenceParams {
            text_document_position: tdp(&self.uri, p),
            context: ReferenceContext { include_declaration },
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }));
        r.ok().flatten().map(|v| v.into_iter().map(|l| (l.uri.to_string(), rng(&l.range))).collect())
    }
    pub fn semantic_tokens(&self) -> Option<Vec<SemanticToken>> {
        let r = now(self.s.semantic_tokens_full(SemanticTokensParams {
            text_document: tdi(&self.uri),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }));
        match r.ok().flatten()? {
            SemanticTokensResult::Tokens(t) => Some(t.data),
            SemanticTokensResult::Partial(t) => Some(t.data),
        }
    }
    pub fn symbols(&self) -> Option<Vec<DocumentSymbol>> {
        let r = now(self.s.document_symbol(DocumentSymbolParams {
            text_document: tdi(&self.uri),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }));
        match r.ok().flatten()? {
            DocumentSymbolResponse::Nested(v) => Some(v),
            DocumentSymbolResponse::Flat(_) => None,
        }
    }
    pub fn prepare_rename(&self, p: P) -> Option<R> {
        match now(self.s.prepare_rename(tdp(&self.uri, p))).ok().flatten()? {
            PrepareRenameResponse::Range(r) => Some(rng(&r)),
            PrepareRenameResponse::RangeWithPlaceholder { range, .. } => Some(rng(&range)),
            PrepareRenameResponse::DefaultBehavior { .. } => None,
        }
    }
    pub fn rename(&self, p: P, new_name: &str) -> jsonrpc::Result<Option<Vec<(R, String)>>> {
        let r = now(self.s.rename(RenameParams {
            text_document_position: tdp(&self.uri, p),
            new_name: new_name.to_string(),
            work_done_progress_params: Default::default(),
        }))?;
        Ok(r.map(|e| self.edits(&e)))
    }
    /// The edits of a workspace edit, all of which must be for this document.
    pub fn edits(&self, e: &WorkspaceEdit) -> Vec<(R, String)> {
        let mut out = vec![];
        if let Some(ch) = &e.changes {
            for (u, v) in ch {
                hv::check(u.as_str() == self.uri.as_str(), 501);
                out.extend(v.iter().map(|t| (rng(&t.range), t.new_text.clone())));
            }
        }
        if let Some(DocumentChanges::Edits(v)) = &e.document_changes {
            for d in v {
                hv::check(d.text_document.uri.as_str() == self.uri.as_str(), 501);
                for t in &d.edits {
                    match t {
                        OneOf::Left(t) => out.push((rng(&t.range), t.new_text.clone())),
                        OneOf::Right(t) => out.push((rng(&t.text_edit.range), t.text_edit.new_text.clone())),
                    }
                }
            }
        }
        out
    }
    pub fn code_actions(&self, r: R) -> jsonrpc::Result<Option<Vec<CodeAction>>> {
        let r = now(self.s.code_action(CodeActionParams {
            text_document: tdi(&self.uri),
            range: unrng(r),
            context: Default::default(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))?;
        Ok(r.map(|v| {
            v.into_iter()
                .filter_map(|a| match a {
                    CodeActionOrCommand::CodeAction(a) => Some(a),
                    CodeActionOrCommand::Command(_) => None,
                })
                .collect()
        }))
    }
    pub fn resolve(&self, a: CodeAction) -> jsonrpc::Result<CodeAction> { now(self.s.code_action_resolve(a)) }
    pub fn folding(&self) -> Option<Vec<FoldingRange>> {
        now(self.s.folding_range(FoldingRangeParams {
            text_document: tdi(&self.uri),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .ok()
        .flatten()
    }
    pub fn hints(&self) -> Option<Vec<InlayHint>> { self.hints_in((0, 0, u32::MAX, 0)) }
    pub fn hints_in(&self, r: R) -> Option<Vec<InlayHint>> {
        now(self.s.inlay_hint(InlayHintParams {
            text_document: tdi(&self.uri),
            range: unrng(r),
            work_done_progress_params: Default::default(),
        }))
        .ok()
        .flatten()
    }
    pub fn lenses(&self) -> Option<Vec<CodeLens>> {
        now(self.s.code_lens(CodeLensParams {
            text_document: tdi(&self.uri),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .ok()
        .flatten()
    }
    pub fn command(&self, command: &str, arguments: Vec<Value>) -> jsonrpc::Result<Option<Value>> {
        now(self.s.execute_command(ExecuteCommandParams {
            command: command.to_string(),
            arguments,
            work_done_progress_params: Default::default(),
        }))
    }
    /// Initialises the server for a client with the given code action capabilities.
    pub fn init_caps(&self, data: Option<bool>, resolve: Option<&[&str]>) -> jsonrpc::Result<InitializeResult> {
        let mut p = InitializeParams::default();
        p.capabilities.text_document = Some(TextDocumentClientCapabilities {
            code_action: Some(CodeActionClientCapabilities {
                data_support: data,
                resolve_support: resolve.map(|r| CodeActionCapabilityResolveSupport { properties: r.iter().map(|s| s.to_string()).collect() }),
                ..Default::default()
            }),
            ..Default::default()
        });
        now(self.s.initialize(p))
    }
    /// Initialises the server for a client with the given workspace folders.
    pub fn init(&self, lazy: bool, folders: &[&str]) -> jsonrpc::Result<InitializeResult> { self.init_root(lazy, folders, None) }
    /// The same for a client that also (or only) names a root.
    pub fn init_root(&self, lazy: bool, folders: &[&str], root: Option<&str>) -> jsonrpc::Result<InitializeResult> {
        let mut p = InitializeParams::default();
        p.root_uri = root.map(url);
        if !folders.is_empty() {
            p.workspace_folders = Some(folders.iter().map(|f| WorkspaceFolder { uri: url(f), name: "w".into() }).collect());
        }
        if lazy {
            p.capabilities.text_document = Some(TextDocumentClientCapabilities {
                code_action: Some(CodeActionClientCapabilities {
                    data_support: Some(true),
                    resolve_support: Some(CodeActionCapabilityResolveSupport { properties: vec!["edit".into()] }),
                    ..Default::default()
                }),
                ..Default::default()
            });
        }
        now(self.s.initialize(p))
    }
}
