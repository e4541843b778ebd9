use ecow::EcoString;
use std::fmt::{self, Debug, Display, Formatter};
use std::hash::{Hash, Hasher};
use std::ops::Range;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, LazyLock, RwLock};

pub mod package {
    use ecow::EcoString;
    use serde::{Deserialize, Serialize};
    use std::fmt::{self, Display, Formatter};
    use std::str::FromStr;

    #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
    pub struct PackageVersion {
        pub major: u32,
        pub minor: u32,
        pub patch: u32,
    }
    impl Display for PackageVersion {
        fn fmt(&self, f: &mut Formatter) -> fmt::Result {
            write!(f, "{}.{}.{}", self.major, self.minor, self.patch)
        }
    }
    impl FromStr for PackageVersion {
        type Err = EcoString;
        fn from_str(s: &str) -> Result<Self, EcoString> {
            let mut p = s.splitn(3, '.').map(|p| p.parse::<u32>().map_err(|_| EcoString::from("bad version")));
            let mut n = || p.next().unwrap_or(Err("bad version".into()));
            Ok(Self { major: n()?, minor: n()?, patch: n()? })
        }
    }
    #[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
    pub struct PackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
        pub version: PackageVersion,
    }
    impl PackageSpec {
        pub fn versionless(&self) -> VersionlessPackageSpec {
            VersionlessPackageSpec { namespace: self.namespace.clone(), name: self.name.clone() }
        }
    }
    impl FromStr for PackageSpec {
        type Err = EcoString;
        fn from_str(s: &str) -> Result<Self, EcoString> {
            let s = s.strip_prefix('@').ok_or("no @")?;
            let (ns, s) = s.split_once('/').ok_or("no name")?;
            let (name, v) = s.split_once(':').ok_or("no version")?;
            Ok(Self { namespace: ns.into(), name: name.into(), version: v.parse()? })
        }
    }
    impl Display for PackageSpec {
        fn fmt(&self, f: &mut Formatter) -> fmt::Result {
            write!(f, "@{}/{}:{}", self.namespace, self.name, self.version)
        }
    }
    #[derive(Debug, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
    pub struct VersionlessPackageSpec {
        pub namespace: EcoString,
        pub name: EcoString,
    }
    impl VersionlessPackageSpec {
        pub fn at(self, version: PackageVersion) -> PackageSpec {
            PackageSpec { namespace: self.namespace, name: self.name, version }
        }
    }
    impl Display for VersionlessPackageSpec {
        fn fmt(&self, f: &mut Formatter) -> fmt::Result {
            write!(f, "@{}/{}", self.namespace, self.name)
        }
    }
}
use package::PackageSpec;

/// As typst's: a path from a root that cannot be written so that it leads out of it, except by its first components.
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct VirtualPath(PathBuf);
impl VirtualPath {
    pub fn new(path: impl AsRef<Path>) -> Self {
        let mut out = Path::new(&Component::RootDir).to_path_buf();
        for c in path.as_ref().components() {
            match c {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => match out.components().next_back() {
                    Some(Component::Normal(_)) => {
                        out.pop();
                    }
                    _ => out.push(c),
                },
                Component::Normal(_) => out.push(c),
            }
        }
        Self(out)
    }
    pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
        path.strip_prefix(root).ok().map(Self::new)
    }
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        let len = root.as_os_str().len();
        let mut out = root.to_path_buf();
        for c in self.0.components() {
            match c {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => {
                    out.pop();
                    if out.as_os_str().len() < len {
                        return None;
                    }
                }
                Component::Normal(_) => out.push(c),
            }
        }
        Some(out)
    }
    pub fn join(&self, path: impl AsRef<Path>) -> Self {
        match self.0.parent() {
            Some(parent) => Self::new(parent.join(path)),
            None => Self::new(path),
        }
    }
    pub fn with_extension(&self, e: &str) -> Self {
        Self(self.0.with_extension(e))
    }
}
impl Debug for VirtualPath {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Display::fmt(&self.0.display(), f)
    }
}

type Pair = &'static (Option<PackageSpec>, VirtualPath);
static FILES: LazyLock<RwLock<Vec<Pair>>> = LazyLock::new(Default::default);
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct FileId(std::num::NonZeroU16);
impl FileId {
    pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
        let pair = (package, path);
        let mut files = FILES.write().unwrap();
        let at = files.iter().position(|p| **p == pair).unwrap_or_else(|| {
            files.push(Box::leak(Box::new(pair)));
            files.len() - 1
        });
        Self::from_raw(std::num::NonZeroU16::new(at as u16 + 1).unwrap())
    }
    pub fn new_fake(path: VirtualPath) -> Self {
        let mut files = FILES.write().unwrap();
        files.push(Box::leak(Box::new((None, path))));
        Self::from_raw(std::num::NonZeroU16::new(files.len() as u16).unwrap())
    }
    fn pair(self) -> Pair {
        FILES.read().unwrap()[self.0.get() as usize - 1]
    }
    pub fn package(&self) -> Option<&'static PackageSpec> {
        self.pair().0.as_ref()
    }
    pub fn vpath(&self) -> &'static VirtualPath {
        &self.pair().1
    }
    pub fn join(self, path: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().join(path))
    }
    pub fn with_extension(&self, e: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().with_extension(e))
    }
    pub const fn from_raw(v: std::num::NonZeroU16) -> Self {
        Self(v)
    }
    pub const fn into_raw(self) -> std::num::NonZeroU16 {
        self.0
    }
}
impl Debug for FileId {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self.package() {
            Some(p) => write!(f, "{p}{:?}", self.vpath()),
            None => write!(f, "{:?}", self.vpath()),
        }
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Span(Option<(FileId, u32, u32)>);
impl Span {
    pub const fn detached() -> Self {
        Self(None)
    }
    pub fn from_range(id: FileId, r: Range<usize>) -> Self {
        Self(Some((id, r.start as u32, r.end as u32)))
    }
    pub fn is_detached(self) -> bool {
        self.0.is_none()
    }
    pub fn id(self) -> Option<FileId> {
        Some(self.0?.0)
    }
    pub fn range(self) -> Option<Range<usize>> {
        self.0.map(|(_, a, b)| a as usize..b as usize)
    }
    pub fn or(self, other: Self) -> Self {
        Self(self.0.or(other.0))
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Spanned<T> {
    pub v: T,
    pub span: Span,
}
impl<T> Spanned<T> {
    pub fn new(v: T, span: Span) -> Self {
        Self { v, span }
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum Side {
    Before,
    After,
}

/// A source file. Lines end at `\n`, `\r\n` and the other line ends typst knows.
#[derive(Clone)]
pub struct Source(Arc<Inner>);
#[derive(Clone)]
struct Inner {
    id: FileId,
    text: String,
    root: SyntaxNode,
    /// Bytes and UTF-16 units before each line.
    lines: Vec<(usize, usize)>,
}
fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut out = vec![(0, 0)];
    let (mut b, mut u) = (0, 0);
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        b += c.len_utf8();
        u += c.len_utf16();
        if matches!(c, '\n' | '\x0B' | '\x0C' | '\u{85}' | '\u{2028}' | '\u{2029}') || c == '\r' && it.peek() != Some(&'\n') {
            out.push((b, u));
        }
    }
    out
}
impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        Self(Arc::new(Inner { id, lines: lines(&text), root: SyntaxNode::leaf(SyntaxKind::Text, &text), text }))
    }
    pub fn detached(text: impl Into<String>) -> Self {
        Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
    }
    pub fn id(&self) -> FileId {
        self.0.id
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn root(&self) -> &SyntaxNode {
        &self.0.root
    }
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        let old = self.text();
        let mut prefix = old.bytes().zip(new.bytes()).take_while(|(x, y)| x == y).count();
        if prefix == old.len() && prefix == new.len() {
            return 0..0;
        }
        while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
            prefix -= 1;
        }
        let mut suffix = old[prefix..].bytes().rev().zip(new[prefix..].bytes().rev()).take_while(|(x, y)| x == y).count();
        while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
            suffix -= 1;
        }
        let r = prefix..old.len() - suffix;
        self.edit(r, &new[prefix..new.len() - suffix])
    }
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        let inner = Arc::make_mut(&mut self.0);
        inner.text.replace_range(replace.clone(), with);
        inner.lines = lines(&inner.text);
        inner.root = SyntaxNode::leaf(SyntaxKind::Text, &inner.text);
        replace.start..replace.start + with.len()
    }
    pub fn len_bytes(&self) -> usize {
        self.0.text.len()
    }
    pub fn len_utf16(&self) -> usize {
        self.byte_to_utf16(self.len_bytes()).unwrap()
    }
    pub fn len_lines(&self) -> usize {
        self.0.lines.len()
    }
    pub fn byte_to_utf16(&self, byte: usize) -> Option<usize> {
        let line = self.0.lines[self.byte_to_line(byte)?];
        Some(line.1 + self.0.text.get(line.0..byte)?.encode_utf16().count())
    }
    pub fn byte_to_line(&self, byte: usize) -> Option<usize> {
        (byte <= self.0.text.len()).then(|| self.0.lines.partition_point(|l| l.0 <= byte) - 1)
    }
    pub fn byte_to_column(&self, byte: usize) -> Option<usize> {
        let start = self.line_to_byte(self.byte_to_line(byte)?)?;
        Some(self.0.text.get(start..byte)?.chars().count())
    }
    pub fn utf16_to_byte(&self, utf16: usize) -> Option<usize> {
        let line = self.0.lines[self.0.lines.partition_point(|l| l.1 <= utf16) - 1];
        let mut k = line.1;
        for (i, c) in self.0.text[line.0..].char_indices() {
            if k >= utf16 {
                return Some(line.0 + i);
            }
            k += c.len_utf16();
        }
        (k == utf16).then_some(self.0.text.len())
    }
    pub fn line_to_byte(&self, line: usize) -> Option<usize> {
        self.0.lines.get(line).map(|l| l.0)
    }
    pub fn line_to_range(&self, line: usize) -> Option<Range<usize>> {
        let start = self.line_to_byte(line)?;
        Some(start..self.line_to_byte(line + 1).unwrap_or(self.0.text.len()))
    }
    pub fn line_column_to_byte(&self, line: usize, column: usize) -> Option<usize> {
        let r = self.line_to_range(line)?;
        let text = self.get(r.clone())?;
        let mut chars = text.chars();
        for _ in 0..column {
            chars.next();
        }
        Some(r.start + (text.len() - chars.as_str().len()))
    }
    pub fn get(&self, r: Range<usize>) -> Option<&str> {
        self.text().get(r)
    }
    pub fn range(&self, span: Span) -> Option<Range<usize>> {
        span.range()
    }
    pub fn find(&self, _: Span) -> Option<LinkedNode<'_>> {
        None
    }
}
impl Debug for Source {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "Source({:?})", self.id())
    }
}
impl Hash for Source {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.id.hash(state);
        self.0.text.hash(state);
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        self.text()
    }
}

macro_rules! kinds {
    ($($k:ident)*) => {
        #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
        pub enum SyntaxKind { $($k),* }
    };
}
kinds!(End Error Shebang LineComment BlockComment Markup Text Space Linebreak Parbreak Escape Shorthand SmartQuote Strong Emph Raw RawLang RawDelim RawTrimmed
    Link Label Ref RefMarker Heading HeadingMarker ListItem ListMarker EnumItem EnumMarker TermItem TermMarker Equation Math MathText MathIdent MathShorthand
    MathAlignPoint MathDelimited MathAttach MathPrimes MathFrac MathRoot Hash LeftBrace RightBrace LeftBracket RightBracket LeftParen RightParen Comma
    Semicolon Colon Star Underscore Dollar Plus Minus Slash Hat Prime Dot Eq EqEq ExclEq Lt LtEq Gt GtEq PlusEq HyphEq StarEq SlashEq Dots Arrow Root Not
    And Or None Auto Let Set Show Context If Else For In While Break Continue Return Import Include As Code Ident Bool Int Float Numeric Str CodeBlock
    ContentBlock Parenthesized Array Dict Named Keyed Unary Binary FieldAccess FuncCall Args Spread Closure Params LetBinding SetRule ShowRule Contextual
    Conditional WhileLoop ForLoop ModuleImport ImportItems ImportItemPath RenamedImportItem ModuleInclude LoopBreak LoopContinue FuncReturn Destructuring
    DestructAssignment);
impl SyntaxKind {
    pub fn is_keyword(self) -> bool {
        false
    }
    pub fn is_trivia(self) -> bool {
        matches!(self, Self::Space | Self::Parbreak | Self::LineComment | Self::BlockComment)
    }
    pub fn is_error(self) -> bool {
        self == Self::Error
    }
}
#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SyntaxNode {
    kind: SyntaxKind,
    text: EcoString,
}
impl SyntaxNode {
    pub fn leaf(kind: SyntaxKind, text: impl Into<EcoString>) -> Self {
        Self { kind, text: text.into() }
    }
    pub fn kind(&self) -> SyntaxKind {
        self.kind
    }
    pub fn len(&self) -> usize {
        self.text.len()
    }
    pub fn is_empty(&self) -> bool {
        self.text.is_empty()
    }
    pub fn text(&self) -> &EcoString {
        &self.text
    }
    pub fn into_text(self) -> EcoString {
        self.text
    }
    pub fn span(&self) -> Span {
        Span::detached()
    }
    pub fn is<'a, T: ast::AstNode<'a>>(&'a self) -> bool {
        self.cast::<T>().is_some()
    }
    pub fn cast<'a, T: ast::AstNode<'a>>(&'a self) -> Option<T> {
        T::from_untyped(self)
    }
    pub fn children(&self) -> std::slice::Iter<'_, SyntaxNode> {
        [].iter()
    }
}
#[derive(Debug, Clone)]
pub struct LinkedNode<'a> {
    node: &'a SyntaxNode,
}
impl<'a> LinkedNode<'a> {
    pub fn new(node: &'a SyntaxNode) -> Self {
        Self { node }
    }
    pub fn get(&self) -> &'a SyntaxNode {
        self.node
    }
    pub fn index(&self) -> usize {
        0
    }
    pub fn offset(&self) -> usize {
        0
    }
    pub fn range(&self) -> Range<usize> {
        0..self.node.len()
    }
    pub fn children(&self) -> std::vec::IntoIter<LinkedNode<'a>> {
        vec![].into_iter()
    }
    pub fn find(&self, _: Span) -> Option<LinkedNode<'a>> {
        None
    }
    pub fn parent(&self) -> Option<&Self> {
        None
    }
    pub fn parent_kind(&self) -> Option<SyntaxKind> {
        None
    }
    pub fn prev_sibling(&self) -> Option<Self> {
        None
    }
    pub fn next_sibling(&self) -> Option<Self> {
        None
    }
    pub fn prev_leaf(&self) -> Option<Self> {
        None
    }
    pub fn next_leaf(&self) -> Option<Self> {
        None
    }
    pub fn leaf_at(&self, _: usize, _: Side) -> Option<Self> {
        None
    }
}
impl std::ops::Deref for LinkedNode<'_> {
    type Target = SyntaxNode;
    fn deref(&self) -> &SyntaxNode {
        self.node
    }
}
pub mod ast {
    use super::SyntaxNode;
    pub trait AstNode<'a>: Sized {
        fn from_untyped(node: &'a SyntaxNode) -> Option<Self>;
        fn to_untyped(self) -> &'a SyntaxNode;
    }
    macro_rules! nodes {
        ($($n:ident)*) => {$(
            #[derive(Debug, Copy, Clone)]
            pub struct $n<'a>(&'a SyntaxNode);
            impl<'a> AstNode<'a> for $n<'a> {
                fn from_untyped(_: &'a SyntaxNode) -> Option<Self> { None }
                fn to_untyped(self) -> &'a SyntaxNode { self.0 }
            }
        )*};
    }
    nodes!(Markup Expr Ident FuncCall Code Equation Math MathIdent Str Ref Label Array Dict Text Raw);
}
pub fn parse(text: &str) -> SyntaxNode {
    SyntaxNode::leaf(SyntaxKind::Markup, text)
}
pub fn parse_code(text: &str) -> SyntaxNode {
    SyntaxNode::leaf(SyntaxKind::Code, text)
}
