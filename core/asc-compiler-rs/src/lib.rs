//! Stands in for the crate of this name, which runs `asc`: a compiler for the part of AssemblyScript
//! that generated libraries and analyses are written in. What it does not know it says so about, as
//! something else than an error in the program.

mod compile;
mod parse;

pub use compile::compile;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    /// Not something this compiler knows; says nothing about the program.
    Unsupported(String),
    /// Could not be read; may or may not be the fault of the program.
    Syntax(String),
    /// An error `asc` reports as well.
    Program(String),
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Unsupported(s) => write!(f, "UNSUPPORTED {s}"),
            Error::Syntax(s) => write!(f, "SYNTAX {s}"),
            Error::Program(s) => write!(f, "ERROR {s}"),
        }
    }
}

impl std::error::Error for Error {}

pub mod error {
    #[derive(Debug)]
    pub struct CompilerSetupError;
    impl std::fmt::Display for CompilerSetupError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("compiler setup")
        }
    }
    impl std::error::Error for CompilerSetupError {}
}

pub mod options {
    #[derive(Clone, Debug, Default)]
    pub struct CompilerOptions {
        pub source: String,
    }
    impl CompilerOptions {
        pub fn default_for(source: impl Into<String>) -> Self {
            CompilerOptions { source: source.into() }
        }
    }
}

pub mod compiler {
    #[derive(Clone, Debug)]
    pub struct Compiler;
    impl Compiler {
        pub fn new() -> Result<Self, super::error::CompilerSetupError> {
            Ok(Compiler)
        }
        pub fn compile(&self, o: &super::options::CompilerOptions) -> Result<Vec<u8>, super::Error> {
            super::compile(&o.source)
        }
    }
}
