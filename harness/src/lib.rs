#![allow(clippy::all, unused, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub mod bencode;
pub mod mc;
pub mod rt;
pub mod sys;
pub mod net;
pub mod peer;
pub mod vthread;
pub mod http;
pub mod krpc;
