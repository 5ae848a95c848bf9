pub mod boost;
pub mod ens;
pub mod forge;
pub mod gen;
pub mod hand;
pub mod oracle;
pub mod replay;
pub mod rng;
pub mod run;
pub mod tree;
pub mod work;
