pub use assoc::{HashMap as StableHashMap, HashSet as StableHashSet};
