pub mod admit;
pub mod copies;
pub mod endure;
pub mod estim;
pub mod evl;
pub mod faults;
pub mod hashes;
pub mod isolate;
pub mod histories;
pub mod memory;
pub mod moments;
pub mod routes;
pub mod sparse;
