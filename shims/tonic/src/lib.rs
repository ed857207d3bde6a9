//! Stand-in for the parts of tonic that Reveaal uses: requests, responses and statuses.
//! Nothing is sent over a network; the handlers are called directly.
pub use tonic_macros::async_trait;
use std::fmt;

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => {
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../shims/proto/", $package, ".rs"));
    };
}

#[derive(Debug)]
pub struct Request<T>(T);
impl<T> Request<T> {
    pub fn new(message: T) -> Self { Request(message) }
    pub fn into_inner(self) -> T { self.0 }
    pub fn get_ref(&self) -> &T { &self.0 }
    pub fn get_mut(&mut self) -> &mut T { &mut self.0 }
}
#[derive(Debug)]
pub struct Response<T>(T);
impl<T> Response<T> {
    pub fn new(message: T) -> Self { Response(message) }
    pub fn into_inner(self) -> T { self.0 }
    pub fn get_ref(&self) -> &T { &self.0 }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code { Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists,
    PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented,
    Internal, Unavailable, DataLoss, Unauthenticated }

#[derive(Debug, Clone)]
pub struct Status { code: Code, message: String }
macro_rules! ctor { ($($f:ident $c:ident)*) => { $(pub fn $f(m: impl Into<String>) -> Status { Status { code: Code::$c, message: m.into() } })* } }
impl Status {
    pub fn new(code: Code, m: impl Into<String>) -> Status { Status { code, message: m.into() } }
    ctor!(ok Ok cancelled Cancelled unknown Unknown invalid_argument InvalidArgument
        deadline_exceeded DeadlineExceeded not_found NotFound already_exists AlreadyExists
        permission_denied PermissionDenied resource_exhausted ResourceExhausted
        failed_precondition FailedPrecondition aborted Aborted out_of_range OutOfRange
        unimplemented Unimplemented internal Internal unavailable Unavailable
        data_loss DataLoss unauthenticated Unauthenticated);
    pub fn code(&self) -> Code { self.code }
    pub fn message(&self) -> &str { &self.message }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

pub mod transport {
    use std::{net::SocketAddr, time::Duration};
    #[derive(Default)]
    pub struct Server;
    pub struct Router;
    impl Server {
        pub fn builder() -> Self { Server }
        pub fn http2_keepalive_interval(self, _: Option<Duration>) -> Self { self }
        pub fn add_service<S>(&mut self, _: S) -> Router { Router }
    }
    impl Router {
        pub fn add_service<S>(self, _: S) -> Router { self }
        pub async fn serve(self, _: SocketAddr) -> Result<(), std::io::Error> {
            Err(std::io::Error::new(std::io::ErrorKind::Other, "no transport in this build"))
        }
    }
}
