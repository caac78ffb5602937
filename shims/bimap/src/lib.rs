pub use assoc::{BiMap, BiMap as BiHashMap};
