//! Stand-in used only in the symbolic build: protocol names these three types
//! in one async trait signature and never looks inside them.
pub mod rpc {
    pub mod ckb_indexer {
        #[derive(Clone, Debug)]
        pub struct SearchKey;
        #[derive(Clone, Debug)]
        pub struct Cell;
        #[derive(Clone, Debug)]
        pub enum Order { Desc, Asc }
        #[derive(Clone, Debug)]
        pub struct Pagination<T> { pub objects: Vec<T> }
    }
}
