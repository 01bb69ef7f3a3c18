pub mod dlp;
pub mod engine;
pub mod hang;
pub mod report;
pub mod rt;
pub mod scen;
pub mod spec;
pub mod world;
pub mod checks;
