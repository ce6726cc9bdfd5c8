pub mod refcrypto;
pub mod reftls;
pub mod net;
pub mod report;
pub mod drive;
pub mod num;
pub mod seq;
pub mod schema;
