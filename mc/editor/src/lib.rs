//! Checks of the editor services.

pub mod c15;
pub mod c16;
pub mod c17;
pub mod c19;
pub mod c23;
pub mod c25;
pub mod names;
pub mod texts;
