//! miette without its terminal renderer: the handler the tool installs does nothing here.
pub use real::*;
pub struct MietteHandlerOpts;
impl MietteHandlerOpts {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { Self }
    pub fn build(self) -> real::DebugReportHandler { real::DebugReportHandler::new() }
}
pub fn set_hook(_: real::ErrorHook) -> Result<(), real::InstallError> { Ok(()) }
