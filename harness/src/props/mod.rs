pub mod clarity;
pub mod codecs;
pub mod derive;
pub mod e2e;
pub mod limits;
pub mod rpc;
pub mod threads;
pub mod txs;
pub mod wallet;

use crate::engine::PropFn;

pub fn find(id: &str) -> Option<PropFn> {
    Some(match id {
        "C01" => clarity::c01,
        "C02" => clarity::c02,
        "C03" => limits::c03,
        "C04" => clarity::c04,
        "C05" => clarity::c05,
        "C06" => clarity::c06,
        "C07" => codecs::c07,
        "C08" => codecs::c08,
        "C09" => codecs::c09,
        "C10" => txs::c10,
        "C11" => txs::c11,
        "C12" => txs::c12,
        "C13" => txs::c13,
        "C14" => txs::c14,
        "C15" => txs::c15,
        "C16" => wallet::c16,
        "C17" => rpc::c17,
        "C18" => rpc::c18,
        "C19" => derive::c19,
        "C20" => threads::c20,
        "C21" => e2e::c21,
        "C22" => e2e::c22,
        _ => return None,
    })
}
