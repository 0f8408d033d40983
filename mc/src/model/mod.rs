pub mod mini;
pub mod val;
