//! A TLS 1.3 server model and a driver for the client's C interface.
pub mod der;
pub mod model;
pub mod muta;
pub mod plan;
pub mod remote;
pub mod server;
pub mod sess;
pub mod wire;
