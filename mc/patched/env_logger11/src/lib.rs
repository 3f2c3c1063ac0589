//! Stub of env_logger for the model checking build: logging is off.
pub use log;
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self {
        Builder
    }
    pub fn from_default_env() -> Self {
        Builder
    }
    pub fn from_env<E>(_e: E) -> Self {
        Builder
    }
    pub fn is_test(&mut self, _b: bool) -> &mut Self {
        self
    }
    pub fn filter_level(&mut self, _l: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn filter(&mut self, _m: Option<&str>, _l: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn parse_filters(&mut self, _f: &str) -> &mut Self {
        self
    }
    pub fn parse_default_env(&mut self) -> &mut Self {
        self
    }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}
pub fn builder() -> Builder {
    Builder
}
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    Ok(())
}
#[derive(Default)]
pub struct Env;
impl Env {
    pub fn new() -> Self {
        Env
    }
    pub fn default_filter_or(self, _s: &str) -> Self {
        self
    }
}
