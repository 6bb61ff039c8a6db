//! The real tokio with scripted sockets.
pub use real::*;

pub mod net {
    pub use crate::mock::{TcpListener, TcpStream};
    pub use real::net::*;
}

pub mod mock;
