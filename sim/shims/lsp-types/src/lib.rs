//! Stand-in for `lsp-types` 0.94: the part of it the language server uses, with the same names.
#![allow(deprecated, non_upper_case_globals)]
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
pub use url::Url;

pub mod notification {
    use serde::{de::DeserializeOwned, Serialize};
    pub trait Notification {
        type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }
}

macro_rules! data {
    ($($(#[$m:meta])* $name:ident { $($f:ident: $t:ty),* $(,)? })*) => {
        $(#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        $(#[$m])*
        pub struct $name { $(pub $f: $t),* })*
    };
}
macro_rules! codes {
    ($($name:ident { $($c:ident = $v:expr),* $(,)? })*) => {
        $(#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct $name(i32);
        impl $name { $(pub const $c: $name = $name($v);)* })*
    };
}
codes! {
    DiagnosticSeverity { ERROR = 1, WARNING = 2, INFORMATION = 3, HINT = 4 }
    DiagnosticTag { UNNECESSARY = 1, DEPRECATED = 2 }
    MessageType { ERROR = 1, WARNING = 2, INFO = 3, LOG = 4 }
    TextDocumentSyncKind { NONE = 0, FULL = 1, INCREMENTAL = 2 }
    CompletionItemKind {
        TEXT = 1, METHOD = 2, FUNCTION = 3, CONSTRUCTOR = 4, FIELD = 5, VARIABLE = 6, CLASS = 7, INTERFACE = 8,
        MODULE = 9, PROPERTY = 10, UNIT = 11, VALUE = 12, ENUM = 13, KEYWORD = 14, SNIPPET = 15, COLOR = 16,
        FILE = 17, REFERENCE = 18, FOLDER = 19, ENUM_MEMBER = 20, CONSTANT = 21, STRUCT = 22, EVENT = 23,
        OPERATOR = 24, TYPE_PARAMETER = 25,
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Position { line, character }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range {
    pub fn new(start: Position, end: Position) -> Self {
        Range { start, end }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum NumberOrString {
    Number(i32),
    String(String),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> {
    Left(A),
    Right(B),
}
data! {
    Location { uri: Url, range: Range }
    LocationLink { origin_selection_range: Option<Range>, target_uri: Url, target_range: Range, target_selection_range: Range }
    CodeDescription { href: Url }
    DiagnosticRelatedInformation { location: Location, message: String }
    #[derive(Default)]
    Diagnostic {
        range: Range, severity: Option<DiagnosticSeverity>, code: Option<NumberOrString>, code_description: Option<CodeDescription>,
        source: Option<String>, message: String, related_information: Option<Vec<DiagnosticRelatedInformation>>,
        tags: Option<Vec<DiagnosticTag>>, data: Option<Value>,
    }
    TextDocumentItem { uri: Url, language_id: String, version: i32, text: String }
    TextDocumentIdentifier { uri: Url }
    VersionedTextDocumentIdentifier { uri: Url, version: i32 }
    TextDocumentContentChangeEvent { range: Option<Range>, range_length: Option<u32>, text: String }
    DidOpenTextDocumentParams { text_document: TextDocumentItem }
    DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
    DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, text: Option<String> }
    DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
    TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position }
    #[derive(Default)]
    WorkDoneProgressParams { work_done_token: Option<NumberOrString> }
    #[derive(Default)]
    PartialResultParams { partial_result_token: Option<NumberOrString> }
    GotoDefinitionParams { text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams }
    HoverParams { text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams }
    CompletionParams { text_document_position: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, context: Option<Value> }
    #[derive(Default)]
    FormattingOptions { tab_size: u32, insert_spaces: bool, properties: HashMap<String, Value>, trim_trailing_whitespace: Option<bool>, insert_final_newline: Option<bool>, trim_final_newlines: Option<bool> }
    DocumentFormattingParams { text_document: TextDocumentIdentifier, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams }
    DocumentRangeFormattingParams { text_document: TextDocumentIdentifier, range: Range, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams }
    TextEdit { range: Range, new_text: String }
    MarkupContent { kind: MarkupKind, value: String }
    Hover { contents: HoverContents, range: Option<Range> }
    #[derive(Default)]
    CompletionItem { label: String, kind: Option<CompletionItemKind>, detail: Option<String>, documentation: Option<Value>, insert_text: Option<String> }
    CompletionList { is_incomplete: bool, items: Vec<CompletionItem> }
    #[derive(Default)]
    CompletionOptions { resolve_provider: Option<bool>, trigger_characters: Option<Vec<String>> }
    #[derive(Default)]
    ServerInfo { name: String, version: Option<String> }
    #[derive(Default)]
    ServerCapabilities {
        text_document_sync: Option<TextDocumentSyncCapability>, completion_provider: Option<CompletionOptions>,
        hover_provider: Option<HoverProviderCapability>, definition_provider: Option<OneOf<bool, Value>>,
        document_formatting_provider: Option<OneOf<bool, Value>>, document_range_formatting_provider: Option<OneOf<bool, Value>>,
    }
    #[derive(Default)]
    InitializeResult { capabilities: ServerCapabilities, server_info: Option<ServerInfo> }
    #[derive(Default)]
    InitializeParams { process_id: Option<u32>, root_uri: Option<Url>, initialization_options: Option<Value> }
    InitializedParams {}
    FileEvent { uri: Url, typ: i32 }
    DidChangeWatchedFilesParams { changes: Vec<FileEvent> }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum MarkupKind {
    PlainText,
    Markdown,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverContents {
    Scalar(String),
    Array(Vec<String>),
    Markup(MarkupContent),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GotoDefinitionResponse {
    Scalar(Location),
    Array(Vec<Location>),
    Link(Vec<LocationLink>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse {
    Array(Vec<CompletionItem>),
    List(CompletionList),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSyncCapability {
    Kind(TextDocumentSyncKind),
    Options(Value),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverProviderCapability {
    Simple(bool),
    Options(Value),
}
