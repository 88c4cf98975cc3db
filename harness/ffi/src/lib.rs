#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
include!(concat!(env!("OUT_DIR"), "/lib.rs"));

/// Makes `message` the pending error.
pub fn set_error(message: String) {
    set_last_error(message)
}

pub fn clear_error() {
    take_last_error();
}
