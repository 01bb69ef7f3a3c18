pub fn init() {}
pub fn try_init() -> Result<(), std::convert::Infallible> {
    Ok(())
}
#[derive(Default)]
pub struct Env(());
impl Env {
    pub fn default() -> Self {
        Env(())
    }
    pub fn default_filter_or(self, _: &str) -> Self {
        self
    }
    pub fn filter_or(self, _: &str, _: &str) -> Self {
        self
    }
}
#[derive(Default)]
pub struct Builder(());
impl Builder {
    pub fn new() -> Self {
        Builder(())
    }
    pub fn from_default_env() -> Self {
        Builder(())
    }
    pub fn from_env(_: Env) -> Self {
        Builder(())
    }
    pub fn init(&mut self) {}
}
