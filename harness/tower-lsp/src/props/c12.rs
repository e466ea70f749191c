//! What the server announces is what it does, whatever the client is like.
use super::c17::text;
use crate::doc::*;
use crate::ed::*;
use crate::jsonrpc::ErrorCode;
use crate::oracle::*;
use crate::{hv, LanguageServer};
use lsp_types::*;
use serde_json::Value;

/// A client, as far as its capabilities are concerned.
fn client() -> InitializeParams {
    let mut p = InitializeParams::default();
    match hv::choose(4) {
        0 => {}
        1 => p.capabilities.text_document = Some(Default::default()),
        _ => {
            p.capabilities.text_document = Some(TextDocumentClientCapabilities {
                code_action: Some(CodeActionClientCapabilities {
                    data_support: Some(hv::flag()),
                    resolve_support: [None, Some(CodeActionCapabilityResolveSupport { properties: vec!["edit".into()] })][hv::choose(2)].clone(),
                    ..Default::default()
                }),
                ..Default::default()
            });
        }
    }
    match hv::choose(4) {
        0 => {}
        1 => p.capabilities.general = Some(GeneralClientCapabilities { position_encodings: Some(vec![PositionEncodingKind::UTF8]), ..Default::default() }),
        2 => p.capabilities.general = Some(GeneralClientCapabilities { position_encodings: Some(vec![PositionEncodingKind::UTF32, PositionEncodingKind::UTF16]), ..Default::default() }),
        _ => p.capabilities.offset_encoding = Some(vec!["utf-8".into(), "utf-16".into()]),
    }
    match hv::choose(4) {
        0 => {}
        1 => p.root_uri = Some(url("file:///w")),
        2 => p.workspace_folders = Some(vec![]),
        _ => p.workspace_folders = Some(vec![WorkspaceFolder { uri: url("file:///w"), name: "w".into() }]),
    }
    p.process_id = [None, Some(hv::u32())][hv::choose(2)];
    p
}
fn yes(x: &Option<OneOf<bool, impl Sized>>) -> bool { match x { Some(OneOf::Left(b)) => *b, Some(_) => true, None => false } }

pub fn run<S: LanguageServer>(e: &Editor<S>, h: u32) {
    let p = client();
    let general = p.capabilities.general.clone().and_then(|g| g.position_encodings).unwrap_or_default();
    let offsets = p.capabilities.offset_encoding.clone().unwrap_or_default();
    let r = now(e.s.initialize(p));
    hv::check(r.is_ok(), 1);
    let r = r.unwrap();
    let c = r.capabilities;
    now(e.s.initialized(InitializedParams {}));
    // whole texts, on open and on change
    let full = match &c.text_document_sync {
        Some(TextDocumentSyncCapability::Kind(k)) => *k == TextDocumentSyncKind::FULL,
        Some(TextDocumentSyncCapability::Options(o)) => o.open_close == Some(true) && o.change == Some(TextDocumentSyncKind::FULL),
        None => false,
    };
    hv::check(full, 2);
    // positions are those of UTF-16, or of what was agreed on
    let mut utf8 = false;
    match &c.position_encoding {
        None => {}
        Some(k) if *k == PositionEncodingKind::UTF16 => {}
        Some(k) => { hv::check(*k == PositionEncodingKind::UTF8 && general.contains(k), 3); utf8 = true; }
    }
    if let Some(k) = &r.offset_encoding {
        hv::check(k == "utf-16" || (k == "utf-8" && offsets.contains(k)), 4);
        if k == "utf-8" { utf8 = true; }
    }
    // what is there is announced
    hv::check(yes(&c.document_symbol_provider) && yes(&c.definition_provider) && yes(&c.references_provider), 5);
    hv::check(matches!(&c.declaration_provider, Some(DeclarationCapability::Simple(true)) | Some(DeclarationCapability::Options(_)) | Some(DeclarationCapability::RegistrationOptions(_))), 6);
    hv::check(matches!(&c.folding_range_provider, Some(FoldingRangeProviderCapability::Simple(true)) | Some(FoldingRangeProviderCapability::FoldingProvider(_)) | Some(FoldingRangeProviderCapability::Options(_))), 7);
    hv::check(yes(&c.inlay_hint_provider), 8);
    hv::check(c.code_lens_provider.is_some(), 9);
    hv::check(matches!(&c.rename_provider, Some(OneOf::Right(o)) if o.prepare_provider == Some(true)), 10);
    hv::check(matches!(&c.code_action_provider, Some(CodeActionProviderCapability::Simple(true)) | Some(CodeActionProviderCapability::Options(_))), 11);
    let legend = match &c.semantic_tokens_provider {
        Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => Some(o.clone()),
        Some(SemanticTokensServerCapabilities::SemanticTokensRegistrationOptions(o)) => Some(o.semantic_tokens_options.clone()),
        None => None,
    };
    hv::check(legend.as_ref().map_or(false, |o| match &o.full { Some(SemanticTokensFullOptions::Bool(b)) => *b, Some(_) => true, None => false }), 12);
    let legend = legend.unwrap().legend;
    let commands = c.execute_command_provider.as_ref().map(|o| o.commands.clone()).unwrap_or_default();
    // what is announced works
    let none = |c: &crate::jsonrpc::Error| c.code == ErrorCode::MethodNotFound;
    let missing = |x: bool| hv::check(!x, 13);
    let (d, p) = match h {
        0 => (text(1), (1, 12)),
        _ => (all_kinds(false), (0, 0)),
    };
    let mut d = d;
    d.resolve();
    e.open(&d.text);
    let tdpp = || tdp(&e.uri, p);
    let tdi = || TextDocumentIdentifier { uri: e.uri.clone() };
    macro_rules! there { ($announced:expr, $call:expr) => { if $announced { hv::reach(2); missing(now($call).err().map_or(false, |x| none(&x))); } } }
    macro_rules! wp { ($t:ident { $($f:ident : $v:expr),* }) => { $t { $($f: $v,)* work_done_progress_params: Default::default(), partial_result_params: Default::default() } } }
    there!(c.hover_provider.is_some(), e.s.hover(HoverParams { text_document_position_params: tdpp(), work_done_progress_params: Default::default() }));
    there!(c.completion_provider.is_some(), e.s.completion(CompletionParams { text_document_position: tdpp(), work_done_progress_params: Default::default(), partial_result_params: Default::default(), context: None }));
    there!(yes(&c.document_highlight_provider), e.s.document_highlight(wp!(DocumentHighlightParams { text_document_position_params: tdpp() })));
    there!(yes(&c.workspace_symbol_provider), e.s.symbol(wp!(WorkspaceSymbolParams { query: String::new() })));
    there!(c.selection_range_provider.is_some(), e.s.selection_range(wp!(SelectionRangeParams { text_document: tdi(), positions: vec![] })));
    there!(c.type_definition_provider.is_some(), e.s.goto_type_definition(wp!(GotoDefinitionParams { text_document_position_params: tdpp() })));
    there!(c.implementation_provider.is_some(), e.s.goto_implementation(wp!(GotoDefinitionParams { text_document_position_params: tdpp() })));
    there!(c.document_link_provider.is_some(), e.s.document_link(wp!(DocumentLinkParams { text_document: tdi() })));
    there!(c.color_provider.is_some(), e.s.document_color(wp!(DocumentColorParams { text_document: tdi() })));
    there!(c.code_lens_provider.as_ref().map_or(false, |o| o.resolve_provider == Some(true)), e.s.code_lens_resolve(CodeLens { range: Default::default(), command: None, data: None }));
    there!(yes(&c.document_formatting_provider), e.s.formatting(DocumentFormattingParams { text_document: tdi(), options: Default::default(), work_done_progress_params: Default::default() }));
    if let Some(OneOf::Right(InlayHintServerCapabilities::Options(o))) = &c.inlay_hint_provider {
        there!(o.resolve_provider == Some(true), e.s.inlay_hint_resolve(InlayHint { position: Default::default(), label: InlayHintLabel::String(String::new()), kind: None, text_edits: None, tooltip: None, padding_left: None, padding_right: None, data: None }));
    }
    // every command that a lens carries can be executed
    e.c.lock().unwrap().answer = Some(Ok(Value::Object(Default::default())));
    let l = e.lenses();
    hv::check(l.as_ref().map_or(false, |l| !l.is_empty()), 14);
    for l in l.unwrap_or_default() {
        hv::reach(1);
        let k = l.command.unwrap_or_default();
        hv::check(commands.contains(&k.command), 15);
        hv::check(e.command(&k.command, k.arguments.unwrap_or_default()).is_ok(), 16);
    }
    for k in &commands { missing(e.command(k, vec![]).err().map_or(false, |x| none(&x))); }
    // the legend knows every token
    for t in e.semantic_tokens().unwrap_or_default() {
        hv::check((t.token_type as usize) < legend.token_types.len(), 17);
        hv::check(t.token_modifiers_bitset >> legend.token_modifiers.len().min(31) == 0, 18);
    }
    let o = d.occ.iter().find(|o| o.role == Use).unwrap();
    if !utf8 { nav(e, &d, (o.r.0, o.r.1), hv::flag()); }
    let a = e.hints().map_or(false, |v| !v.is_empty());
    hv::check(a && e.folding().map_or(false, |v| !v.is_empty()) && e.symbols().map_or(false, |v| !v.is_empty()), 19);
    hv::check(now(e.s.shutdown()).is_ok(), 20);
}
