pub mod coll;
pub mod heap;
pub mod keys;
pub mod props;
