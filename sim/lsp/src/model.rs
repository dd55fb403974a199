//! What the server ought to know: texts, files, and answers computed from scratch.

use std::collections::{BTreeMap, HashMap};
use std::io::ErrorKind;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use ticc::{CompilationUnit, CompleteUnit, ImportError, ModuleResolver, Severity, TokenKind};
use ticc_syntax::{Pos, Span};
use url::Url;

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Text(Arc<str>),
    Fails(ErrorKind),
}

#[derive(Default)]
pub struct Disk {
    pub files: BTreeMap<PathBuf, Entry>,
    pub reads: BTreeMap<PathBuf, u32>,
    /// Reads since last asked about, for the trace.
    pub log: Vec<PathBuf>,
}

impl Disk {
    pub fn peek(&self, path: &Path) -> Result<Arc<str>, ErrorKind> {
        match self.files.get(path) {
            Some(Entry::Text(t)) => Ok(t.clone()),
            Some(Entry::Fails(k)) => Err(*k),
            None => Err(ErrorKind::NotFound),
        }
    }
}

/// A snapshot of everything a compilation can see.
pub struct View {
    pub open: BTreeMap<Url, Arc<str>>,
    pub disk: BTreeMap<PathBuf, Entry>,
}

impl View {
    pub fn get(&self, url: &Url) -> Result<Arc<str>, ErrorKind> {
        let this = plain(url);
        if let Some((_, t)) = self.open.iter().find(|(u, _)| plain(u) == this) {
            return Ok(t.clone());
        }
        if url.scheme() != "file" {
            return Err(ErrorKind::NotFound);
        }
        let path = url.to_file_path().map_err(|()| ErrorKind::NotFound)?;
        match self.disk.get(&path) {
            Some(Entry::Text(t)) => Ok(t.clone()),
            Some(Entry::Fails(k)) => Err(*k),
            None => Err(ErrorKind::NotFound),
        }
    }
}

/// The url with nothing encoded that need not be, which names the file.
pub fn plain(url: &Url) -> Url {
    match url.to_file_path() {
        Ok(path) => Url::from_file_path(path).unwrap(),
        Err(()) => url.clone(),
    }
}

/// The file meant by an import: names are paths from the directory of the importer.
pub fn resolve(at: &Url, name: &str) -> Option<Url> {
    let Ok(path) = at.to_file_path() else { return at.join(name).ok() };
    let mut parts: Vec<String> = path.to_str()?.split('/').filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect();
    parts.pop();
    for part in name.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            part => parts.push(part.to_owned()),
        }
    }
    Url::from_file_path(format!("/{}", parts.join("/"))).ok()
}

struct Fresh {
    at: Url,
    view: Arc<View>,
    /// None while being compiled.
    units: Arc<Mutex<HashMap<Url, Option<CompleteUnit>>>>,
}

impl ModuleResolver for Fresh {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let Some(url) = resolve(&self.at, name) else { return Err(ImportError::DoesNotExist) };
        match self.units.lock().unwrap().get(&url) {
            Some(None) => return Err(ImportError::ImportCycle),
            Some(Some(u)) => return Ok(u.clone()),
            None => {}
        }
        let text = match self.view.get(&url) {
            Ok(t) => t,
            Err(ErrorKind::NotFound) => return Err(ImportError::DoesNotExist),
            Err(k) => return Err(ImportError::Io(k.into())),
        };
        self.units.lock().unwrap().insert(url.clone(), None);
        let sub = Arc::new(Fresh { at: url.clone(), view: self.view.clone(), units: self.units.clone() });
        let unit = CompilationUnit::new(&text, Default::default(), sub).complete();
        self.units.lock().unwrap().insert(url, Some(unit.clone()));
        Ok(unit)
    }
}

/// Compiles a document from scratch.
pub fn fresh(view: &Arc<View>, url: &Url) -> CompilationUnit {
    let units = HashMap::from([(plain(url), None)]);
    let resolver = Arc::new(Fresh { at: plain(url), view: view.clone(), units: Arc::new(Mutex::new(units)) });
    CompilationUnit::new(&view.open[url], Default::default(), resolver)
}

pub type Point = (u32, u32);
pub type Range = (Point, Point);

/// Line and UTF-16 column of a byte offset.
pub fn point(text: &str, at: usize) -> Point {
    let before = &text[..at];
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map(|x| x + 1).unwrap_or(0);
    (line as u32, text[start..at].chars().map(|c| c.len_utf16() as u32).sum())
}

pub fn range(text: &str, s: Span) -> Range {
    (point(text, s.start().source_pos()), point(text, s.end().source_pos()))
}

/// Byte offset of a position; positions past the end of a line mean its end.
pub fn offset(text: &str, p: Point) -> usize {
    let mut start = 0;
    for _ in 0..p.0 {
        match text[start..].find('\n') {
            Some(n) => start += n + 1,
            None => return text.len(),
        }
    }
    let line = match text[start..].find('\n') {
        Some(n) => text[start..start + n].strip_suffix('\r').unwrap_or(&text[start..start + n]),
        None => &text[start..],
    };
    let mut column = 0;
    for (i, c) in line.char_indices() {
        column += c.len_utf16() as u32;
        if column > p.1 {
            return start + i;
        }
    }
    start + line.len()
}

/// (start, end, is error, message), sorted.
pub type Diagnostics = Vec<(Range, bool, String)>;

pub fn diagnostics(unit: &mut CompilationUnit, text: &str) -> Diagnostics {
    let mut out: Diagnostics =
        unit.diagnostics().map(|d| (range(text, d.span), d.severity == Severity::Error, d.message.clone())).collect();
    out.sort();
    out
}

pub fn kind_name(k: TokenKind) -> &'static str {
    match k {
        TokenKind::Keyword => "keyword",
        TokenKind::Type | TokenKind::Ctor => "type",
        TokenKind::Value => "variable",
        TokenKind::Function => "function",
        TokenKind::Operator => "operator",
        TokenKind::Punctuation => "punctuation",
        TokenKind::Number => "number",
        TokenKind::Comment => "comment",
        TokenKind::TypeVariable => "typeParameter",
        TokenKind::String => "string",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Null,
    Place(Range),
    Places(Vec<Range>),
    Hover(String, Option<Range>),
    Names(Vec<String>),
    /// line, column, length, kind
    Tokens(Vec<(u32, u32, u32, String)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Query {
    Definition,
    Declaration,
    References(bool),
    Hover,
    Completion,
    Tokens,
}

pub const QUERIES: [Query; 7] =
    [Query::Definition, Query::References(false), Query::References(true), Query::Hover, Query::Completion, Query::Tokens, Query::Declaration];

impl Query {
    pub fn method(self) -> &'static str {
        match self {
            Query::Definition => "textDocument/definition",
            Query::Declaration => "textDocument/declaration",
            Query::References(_) => "textDocument/references",
            Query::Hover => "textDocument/hover",
            Query::Completion => "textDocument/completion",
            Query::Tokens => "textDocument/semanticTokens/full",
        }
    }
}

pub fn answer(unit: &mut CompilationUnit, text: &str, q: Query, at: Point) -> Answer {
    let pos = Pos::new(offset(text, at) as u32);
    match q {
        Query::Definition | Query::Declaration => match unit.find_definition(pos) {
            Some(s) => Answer::Place(range(text, s)),
            None => Answer::Null,
        },
        Query::References(declaration) => match unit.find_references(pos) {
            Some(spans) => {
                let mut out: Vec<Range> = spans.into_iter().map(|s| range(text, s)).collect();
                if declaration {
                    out.extend(unit.find_definition(pos).map(|s| range(text, s)));
                }
                out.sort();
                Answer::Places(out)
            }
            None => Answer::Null,
        },
        Query::Hover => match unit.info(pos) {
            Some(i) => Answer::Hover(i.doc, Some(range(text, i.span))),
            None => Answer::Null,
        },
        Query::Completion => match unit.completions(pos) {
            Some(c) => {
                let mut names: Vec<String> = c.into_iter().map(|c| c.name).collect();
                names.sort();
                Answer::Names(names)
            }
            None => Answer::Null,
        },
        Query::Tokens => Answer::Tokens(
            unit.tokens()
                .map(|t| {
                    let (line, column) = point(text, t.span.start().source_pos());
                    let length = text[t.span.source_range()].encode_utf16().count() as u32;
                    (line, column, length, kind_name(t.kind).to_owned())
                })
                .collect(),
        ),
    }
}
