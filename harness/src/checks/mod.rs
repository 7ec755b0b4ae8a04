use crate::fw::{Check, Tier};

#[cfg(feature = "client")]
pub mod client;
#[cfg(feature = "editor")]
pub mod editor;
pub mod ffi;
pub mod programs;
#[cfg(feature = "remote")]
pub mod remote;
#[cfg(feature = "server")]
pub mod server;
pub mod sessions;
#[cfg(feature = "table")]
pub mod table;
pub mod tui;

pub fn get(id: &str, tier: Tier) -> Option<Check> {
    crate::fw::set_tier(tier);
    Some(match id {
        #[cfg(feature = "table")]
        "C01" => table::c01(tier),
        #[cfg(feature = "table")]
        "C02" => table::c02(tier),
        #[cfg(feature = "table")]
        "C03" => table::c03(tier),
        #[cfg(feature = "editor")]
        "C04" => editor::c04(tier),
        #[cfg(feature = "editor")]
        "C05" => editor::c05(tier),
        #[cfg(feature = "editor")]
        "C06" => editor::c06(tier),
        #[cfg(feature = "editor")]
        "C07" => editor::c07(tier),
        #[cfg(feature = "editor")]
        "C08" => editor::c08(tier),
        #[cfg(feature = "editor")]
        "C09" => editor::c09(tier),
        #[cfg(feature = "editor")]
        "C10" => editor::c10(tier),
        #[cfg(feature = "server")]
        "C11" => server::c11(tier),
        "C12" => sessions::c12(tier),
        #[cfg(feature = "remote")]
        "C13" => remote::c13(tier),
        #[cfg(feature = "remote")]
        "C14" => remote::c14(tier),
        #[cfg(feature = "editor")]
        "C15" => editor::c15(tier),
        #[cfg(feature = "editor")]
        "C16" => editor::c16(tier),
        #[cfg(feature = "client")]
        "C17" => client::c17(tier),
        #[cfg(feature = "remote")]
        "C18" => remote::c18(tier),
        "C19" => programs::c19(tier),
        #[cfg(feature = "editor")]
        "C20" => editor::c20(tier),
        "C21" => ffi::c21(tier),
        "C22" => tui::c22(tier),
        #[cfg(feature = "remote")]
        "C23" => remote::c23(tier),
        #[cfg(feature = "editor")]
        "C24" => editor::c24(tier),
        _ => return None,
    })
}

/// Entry points run in helper processes.
pub fn helper(args: &[String]) {
    panic!("unknown helper {:?}", args);
}
