#![allow(dead_code, unused_imports)]
pub mod api;
pub mod sim;
