//! Bounded exhaustive exploration of gfwx against reference models.
pub mod codec;
pub mod decide;
pub mod env;
pub mod fw;
pub mod gen;
pub mod guardmem;
pub mod oracle;
#[cfg(feature = "sched")]
pub mod sched;
#[cfg(feature = "race")]
pub mod race;
