mod choices;
mod client;
mod core;
pub mod editor;
mod ffi;
mod history;
mod menus;
#[cfg(feature = "hooks")]
mod model;
pub mod parts;
mod server;
mod session;
mod shown;
pub mod texts;
mod told;
mod views;

use crate::util::Prop;

pub fn all() -> &'static [Prop] {
    use std::sync::OnceLock;
    static ALL: OnceLock<Vec<Prop>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = Vec::new();
        v.extend(history::props());
        v.extend(client::props());
        v.extend(parts::props());
        v.extend(texts::props());
        v.extend(views::props());
        v.extend(editor::props());
        v.extend(server::props());
        v.extend(core::props());
        v.extend(menus::props());
        v.extend(ffi::props());
        v.extend(session::props());
        v.extend(shown::props());
        v.extend(told::props());
        v.extend(choices::props());
        v
    })
}
