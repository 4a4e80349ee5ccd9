//! Stands in for the crate of this name, written to its documentation: arguments that are opened as they are
//! read from the command line, where `-` is standard input or output.

use std::ffi::{OsStr, OsString};
use std::fmt::{self, Display};
use std::fs::File;
use std::io::{self, BufReader, Read, Seek, SeekFrom, StdinLock, Stdout, StdoutLock, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    Other(String),
}
pub type Result<T> = std::result::Result<T, Error>;

impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Io(e) => e.fmt(f),
            Error::Other(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::Io(e)
    }
}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        match e {
            Error::Io(e) => e,
            Error::Other(s) => io::Error::other(s),
        }
    }
}

fn dir_error() -> Error {
    Error::Io(io::Error::from_raw_os_error(21))
}

/// A path, or one of the standard streams.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ClioPath {
    path: PathBuf,
    std: bool,
}

impl ClioPath {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        let s = s.as_ref();
        Ok(ClioPath { path: s.into(), std: s == "-" })
    }
    pub fn std() -> Self {
        ClioPath { path: "-".into(), std: true }
    }
    pub fn is_std(&self) -> bool {
        self.std
    }
    pub fn is_local(&self) -> bool {
        !self.std
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn open(self) -> Result<Input> {
        Input::open(self)
    }
    pub fn create(self) -> Result<Output> {
        Output::open(self)
    }
    pub fn read_all(self) -> Result<Vec<u8>> {
        let mut v = vec![];
        self.open()?.read_to_end(&mut v)?;
        Ok(v)
    }
}
impl Deref for ClioPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.path
    }
}
impl AsRef<Path> for ClioPath {
    fn as_ref(&self) -> &Path {
        &self.path
    }
}
impl Display for ClioPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.path)
    }
}

#[derive(Debug, Clone)]
enum Source {
    Std,
    File(Arc<File>),
}

/// What is to be read.
#[derive(Debug, Clone)]
pub struct Input {
    path: ClioPath,
    stream: Source,
}

impl Input {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        Self::open(ClioPath::new(s)?)
    }
    fn open(path: ClioPath) -> Result<Self> {
        let stream = if path.std {
            Source::Std
        } else {
            let f = File::open(&path.path)?;
            if f.metadata()?.is_dir() {
                return Err(dir_error());
            }
            Source::File(Arc::new(f))
        };
        Ok(Input { path, stream })
    }
    pub fn std() -> Self {
        Input { path: ClioPath::std(), stream: Source::Std }
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
    pub fn is_std(&self) -> bool {
        self.path.std
    }
    pub fn is_local(&self) -> bool {
        !self.path.std
    }
    pub fn is_tty(&self) -> bool {
        false
    }
    pub fn len(&self) -> Option<u64> {
        match &self.stream {
            Source::Std => None,
            Source::File(f) => f.metadata().ok().map(|m| m.len()),
        }
    }
    pub fn is_empty(&self) -> Option<bool> {
        self.len().map(|n| n == 0)
    }
    pub fn can_seek(&self) -> bool {
        matches!(self.stream, Source::File(_))
    }
    pub fn get_file(&mut self) -> Option<&File> {
        match &self.stream {
            Source::Std => None,
            Source::File(f) => Some(f),
        }
    }
    pub fn lock<'a>(&'a mut self) -> Box<dyn io::BufRead + 'a> {
        match &self.stream {
            Source::Std => Box::new(io::stdin().lock()) as Box<dyn io::BufRead>,
            Source::File(f) => Box::new(BufReader::new(&**f)),
        }
    }
}
impl Read for Input {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match &self.stream {
            Source::Std => io::stdin().read(buf),
            Source::File(f) => (&**f).read(buf),
        }
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        match &self.stream {
            Source::Std => {
                let mut l: StdinLock<'static> = io::stdin().lock();
                l.read_to_end(buf)
            }
            Source::File(f) => (&**f).read_to_end(buf),
        }
    }
}
impl Seek for Input {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match &self.stream {
            Source::Std => Err(io::Error::other("standard input cannot seek")),
            Source::File(f) => (&**f).seek(p),
        }
    }
}

#[derive(Debug, Clone)]
enum Sink {
    Std,
    File(Arc<File>),
}

/// What is to be written.
#[derive(Debug, Clone)]
pub struct Output {
    path: ClioPath,
    stream: Sink,
}

impl Output {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        Self::open(ClioPath::new(s)?)
    }
    fn open(path: ClioPath) -> Result<Self> {
        let stream = if path.std {
            Sink::Std
        } else {
            if path.path.is_dir() {
                return Err(dir_error());
            }
            Sink::File(Arc::new(File::options().write(true).create(true).truncate(true).open(&path.path)?))
        };
        Ok(Output { path, stream })
    }
    pub fn std() -> Self {
        Output { path: ClioPath::std(), stream: Sink::Std }
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
    pub fn is_std(&self) -> bool {
        self.path.std
    }
    pub fn is_local(&self) -> bool {
        !self.path.std
    }
    pub fn is_tty(&self) -> bool {
        false
    }
    pub fn can_seek(&self) -> bool {
        matches!(self.stream, Sink::File(_))
    }
    pub fn get_file(&mut self) -> Option<&File> {
        match &self.stream {
            Sink::Std => None,
            Sink::File(f) => Some(f),
        }
    }
    /// Everything written is on its way when this returns.
    pub fn finish(mut self) -> Result<()> {
        self.flush()?;
        Ok(())
    }
    pub fn lock<'a>(&'a mut self) -> Box<dyn Write + 'a> {
        match &self.stream {
            Sink::Std => {
                let s: Stdout = io::stdout();
                let l: StdoutLock<'static> = s.lock();
                Box::new(l)
            }
            Sink::File(f) => Box::new(&**f),
        }
    }
}
impl Write for Output {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match &self.stream {
            Sink::Std => io::stdout().write(buf),
            Sink::File(f) => (&**f).write(buf),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match &self.stream {
            Sink::Std => io::stdout().flush(),
            Sink::File(f) => (&**f).flush(),
        }
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        match &self.stream {
            Sink::Std => io::stdout().write_all(buf),
            Sink::File(f) => (&**f).write_all(buf),
        }
    }
}
impl Seek for Output {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match &self.stream {
            Sink::Std => Err(io::Error::other("standard output cannot seek")),
            Sink::File(f) => (&**f).seek(p),
        }
    }
}

/// A path that can be opened later.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InputPath(ClioPath);
impl InputPath {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        let p = ClioPath::new(s)?;
        if !p.std {
            if p.path.is_dir() {
                return Err(dir_error());
            }
            std::fs::metadata(&p.path)?;
        }
        Ok(InputPath(p))
    }
    pub fn open(self) -> Result<Input> {
        Input::open(self.0)
    }
    pub fn path(&self) -> &ClioPath {
        &self.0
    }
}
impl Deref for InputPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct OutputPath(ClioPath);
impl OutputPath {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Result<Self> {
        let p = ClioPath::new(s)?;
        if !p.std && p.path.is_dir() {
            return Err(dir_error());
        }
        Ok(OutputPath(p))
    }
    pub fn create(self) -> Result<Output> {
        Output::open(self.0)
    }
    pub fn path(&self) -> &ClioPath {
        &self.0
    }
}
impl Deref for OutputPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}

macro_rules! argument {
    ($t:ty, $p:ident) => {
        #[doc(hidden)]
        #[derive(Clone)]
        pub struct $p;
        impl clap::builder::TypedValueParser for $p {
            type Value = $t;
            fn parse_ref(&self, c: &clap::Command, a: Option<&clap::Arg>, v: &OsStr) -> std::result::Result<$t, clap::Error> {
                let f = |s: OsString| <$t>::new(s);
                clap::builder::OsStringValueParser::new().try_map(f).parse_ref(c, a, v)
            }
        }
        impl clap::builder::ValueParserFactory for $t {
            type Parser = $p;
            fn value_parser() -> $p {
                $p
            }
        }
        impl Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.path().fmt(f)
            }
        }
    };
}
argument!(Input, InputParser);
argument!(Output, OutputParser);
argument!(InputPath, InputPathParser);
argument!(OutputPath, OutputPathParser);
