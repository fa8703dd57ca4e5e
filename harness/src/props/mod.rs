pub mod board;
pub mod game;
pub mod rules;
pub mod sgf;
pub mod total;
#[cfg(feature = "values")]
pub mod value;
