use crate::syntax::{package::{PackageSpec, PackageVersion}, Span};
use ecow::EcoVec;
pub use ecow::{eco_format, EcoString};
use std::fmt::{self, Display, Formatter};
use std::io;
use std::path::{Path, PathBuf};

pub type SourceResult<T> = Result<T, EcoVec<SourceDiagnostic>>;
pub type StrResult<T> = Result<T, EcoString>;
pub type HintedStrResult<T> = Result<T, HintedString>;
pub type FileResult<T> = Result<T, FileError>;
pub type PackageResult<T> = Result<T, PackageError>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct HintedString(EcoString);
impl From<EcoString> for HintedString {
    fn from(s: EcoString) -> Self {
        Self(s)
    }
}
impl HintedString {
    pub fn message(&self) -> &EcoString {
        &self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Warned<T> {
    pub output: T,
    pub warnings: EcoVec<SourceDiagnostic>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Severity {
    Error,
    Warning,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Tracepoint {
    Call(Option<EcoString>),
    Show(EcoString),
    Import,
}
impl Display for Tracepoint {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SourceDiagnostic {
    pub severity: Severity,
    pub span: Span,
    pub message: EcoString,
    pub trace: EcoVec<crate::syntax::Spanned<Tracepoint>>,
    pub hints: EcoVec<EcoString>,
}
impl SourceDiagnostic {
    pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Error, span, message: message.into(), trace: EcoVec::new(), hints: EcoVec::new() }
    }
    pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Warning, ..Self::error(span, message) }
    }
    pub fn hint(&mut self, hint: impl Into<EcoString>) {
        self.hints.push(hint.into());
    }
    pub fn with_hint(mut self, hint: impl Into<EcoString>) -> Self {
        self.hint(hint);
        self
    }
    pub fn with_hints(mut self, hints: impl IntoIterator<Item = EcoString>) -> Self {
        self.hints.extend(hints);
        self
    }
}

pub trait At<T> {
    fn at(self, span: Span) -> SourceResult<T>;
}
impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
    fn at(self, span: Span) -> SourceResult<T> {
        self.map_err(|m| ecow::eco_vec![SourceDiagnostic::error(span, m)])
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Package(PackageError),
    Other(Option<EcoString>),
}
impl FileError {
    pub fn from_io(err: io::Error, path: &Path) -> Self {
        match err.kind() {
            io::ErrorKind::NotFound => Self::NotFound(path.into()),
            io::ErrorKind::PermissionDenied => Self::AccessDenied,
            io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => Self::InvalidUtf8,
            _ => Self::Other(Some(eco_format!("{err}"))),
        }
    }
}
impl std::error::Error for FileError {}
impl Display for FileError {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self {
            Self::NotFound(path) => write!(f, "file not found (searched at {})", path.display()),
            Self::AccessDenied => f.pad("failed to load file (access denied)"),
            Self::IsDirectory => f.pad("failed to load file (is a directory)"),
            Self::NotSource => f.pad("not a typst source file"),
            Self::InvalidUtf8 => f.pad("file is not valid utf-8"),
            Self::Package(error) => error.fmt(f),
            Self::Other(Some(err)) => write!(f, "failed to load file ({err})"),
            Self::Other(None) => f.pad("failed to load file"),
        }
    }
}
impl From<std::str::Utf8Error> for FileError {
    fn from(_: std::str::Utf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<std::string::FromUtf8Error> for FileError {
    fn from(_: std::string::FromUtf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<PackageError> for FileError {
    fn from(e: PackageError) -> Self {
        Self::Package(e)
    }
}
impl From<FileError> for EcoString {
    fn from(e: FileError) -> Self {
        eco_format!("{e}")
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum PackageError {
    NotFound(PackageSpec),
    VersionNotFound(PackageSpec, PackageVersion),
    NetworkFailed(Option<EcoString>),
    MalformedArchive(Option<EcoString>),
    Other(Option<EcoString>),
}
impl std::error::Error for PackageError {}
impl Display for PackageError {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl From<PackageError> for EcoString {
    fn from(e: PackageError) -> Self {
        eco_format!("{e}")
    }
}
