use crate::core::{Ctx, Spec};

mod accounts;
mod bookkeeping;
mod codec;
mod committee;
mod config;
mod crypto;
mod encode;
mod fresh;
mod gen;
mod keys;
mod merkle;
mod race;
mod small;
mod tool;
mod txrules;
mod vrf;

const D: Spec = Spec {
    id: "",
    run: |_: &mut Ctx| {},
    shards: 4,
    level: "exploration",
    as_mb: 8192,
    case_cpu: 120.0,
    wall: (600, 840),
};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C01", run: codec::c01, ..D },
        Spec { id: "C02", run: codec::c02, ..D },
        Spec { id: "C03", run: codec::c03, ..D },
        Spec { id: "C04", run: merkle::c04, ..D },
        Spec { id: "C05", run: merkle::c05, ..D },
        Spec { id: "C06", run: merkle::c06, ..D },
        Spec { id: "C07", run: merkle::c07, ..D },
        Spec { id: "C08", run: merkle::c08, ..D },
        Spec { id: "C09", run: crypto::c09, ..D },
        Spec { id: "C10", run: crypto::c10, ..D },
        Spec { id: "C11", run: crypto::c11, ..D },
        Spec { id: "C12", run: crypto::c12, ..D },
        Spec { id: "C13", run: crypto::c13, ..D },
        Spec { id: "C14", run: vrf::c14, ..D },
        Spec { id: "C15", run: committee::c15, ..D },
        Spec { id: "C16", run: committee::c16, ..D },
        Spec { id: "C17", run: encode::c17, ..D },
        Spec { id: "C18", run: encode::c18, ..D },
        Spec { id: "C19", run: txrules::c19, ..D },
        Spec { id: "C20", run: txrules::c20, ..D },
        Spec { id: "C21", run: txrules::c21, ..D },
        Spec { id: "C22", run: bookkeeping::c22, shards: 8, ..D },
        Spec { id: "C23", run: bookkeeping::c23, shards: 8, ..D },
        Spec { id: "C24", run: bookkeeping::c24, ..D },
        Spec { id: "C25", run: accounts::c25, ..D },
        Spec { id: "C26", run: bookkeeping::c26, ..D },
        Spec { id: "C32", run: accounts::c32, ..D },
        Spec { id: "C35", run: accounts::c35, shards: 1, ..D },
        Spec { id: "C36", run: accounts::c36, ..D },
        Spec { id: "C27", run: keys::c27, ..D },
        Spec { id: "C28", run: keys::c28, ..D },
        Spec { id: "C29", run: tool::c29, ..D },
        Spec { id: "C31", run: race::c31, shards: 5, as_mb: 0, case_cpu: 0.0, ..D },
        Spec { id: "C30", run: config::c30, ..D },
        Spec { id: "C34", run: config::c34, ..D },
        Spec { id: "C33", run: bookkeeping::c33, ..D },
        Spec { id: "C37", run: small::c37, ..D },
        Spec { id: "C38", run: fresh::c38, ..D },
    ]
}

pub use encode::record;

/// Helper processes started by workers.
pub fn sub(args: &[String]) -> i32 {
    match args[0].as_str() {
        "c31" => race::sub(&args[1..]),
        "c29-use" => tool::sub_use(&args[1..]),
        "c38" => fresh::sub(&args[1..]),
        "c27-drive" => keys::sub_drive(&args[1..]),
        "c27-restore" => keys::sub_restore(&args[1..]),
        "c27-entries" => keys::sub_entries(&args[1..]),
        "c27-hold" => keys::sub_hold(),
        _ => 2,
    }
}
