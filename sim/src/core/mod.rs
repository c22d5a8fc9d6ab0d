pub mod capworld;
pub mod catalog;
pub mod dcref;
pub mod effref;
pub mod engine;
pub mod faults;
pub mod fxworld;
pub mod prng;
pub mod seams;
pub mod market;
pub mod yieldworld;
pub mod util;
pub mod simworld;
pub mod stepworld;
