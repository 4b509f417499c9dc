//! Stand-in for the diagnostics crate: a diagnostic is its code and its position; messages are dropped.
use chumsky::span::SimpleSpan;
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum DiagnosticCode {
    TypeMismatch,
    UnreachableCode,
    MissingReturn,
    BreakOutsideLoop,
    ContinueOutsideLoop,
}
#[derive(Copy, Clone, Debug)]
pub struct Diagnostic {
    pub code: DiagnosticCode,
    pub error: bool,
    pub at: usize,
}
pub trait DiagnosticSink: Send + Sync {
    fn push(&self, diagnostic: Diagnostic);
}
impl Diagnostic {
    pub fn error(code: DiagnosticCode, message: String) -> Self {
        std::mem::forget(message);
        Self { code, error: true, at: usize::MAX }
    }
    pub fn with_location(mut self, file_path: String, span: SimpleSpan<usize>) -> Self {
        std::mem::forget(file_path);
        self.at = span.start;
        self
    }
    pub fn with_related_span(self, file_path: String, _span: SimpleSpan<usize>, message: String) -> Self {
        std::mem::forget(file_path);
        std::mem::forget(message);
        self
    }
    pub fn unreachable_code(file_path: String, _statement_type: &str, span: SimpleSpan<usize>) -> Self {
        let mut d = Self::error(DiagnosticCode::UnreachableCode, String::new()).with_location(file_path, span);
        d.error = false;
        d
    }
    pub fn missing_return(file_path: String, _function_name: &str, span: SimpleSpan<usize>) -> Self {
        Self::error(DiagnosticCode::MissingReturn, String::new()).with_location(file_path, span)
    }
    pub fn break_outside_loop(file_path: String, span: SimpleSpan<usize>) -> Self {
        Self::error(DiagnosticCode::BreakOutsideLoop, String::new()).with_location(file_path, span)
    }
    pub fn continue_outside_loop(file_path: String, span: SimpleSpan<usize>) -> Self {
        Self::error(DiagnosticCode::ContinueOutsideLoop, String::new()).with_location(file_path, span)
    }
}
