//! Stand-in for the EDBM library (https://github.com/Ecdar/EDBM), which /repo uses and
//! which is not available offline.  Written from its interface as /repo uses it, with the
//! textbook semantics of DBMs and federations (finite unions of zones).
pub mod util;
pub mod zones;
