
#[cfg(feature = "map")]
pub fn map_prof(n: &str) -> crate::mapdrv::Prof {
    use crate::mapdrv::{BASE, Prof};
    match n {
        "m01" => Prof { name: "m01", ..BASE },
        "mf01" => Prof { name: "mf01", nops: 70, w: [70, 12, 10, 2, 1, 5, 1, 2, 8], fault: 0.12, fault_modes: &["crash", "err", "cancel", "rerr", "rcancel"], rejects: true, flog: true, ..BASE },
        "mf03" => Prof { name: "mf03", nops: 150, w: [80, 10, 8, 1, 0, 4, 2, 2, 4], flog: true, ..BASE },
        "m02" => Prof { name: "m02", nops: 60, w: [70, 5, 10, 1, 1, 0, 3, 2, 0], fault: 0.15, fault_modes: &["crash"], enum_crash: 0.25, crash_follow: 0.1, ..BASE },
        "m03" => Prof { name: "m03", nops: 50, w: [60, 15, 12, 1, 1, 4, 1, 3, 0], fault: 0.25, fault_modes: &["err", "cancel", "rerr", "rcancel"], enum_fault: 0.12, enum_reads: true, fault_keep: 0.3, ..BASE },
        "c01" => Prof { name: "c01", nops: 100, geos: &[0, 1], w: [60, 20, 10, 1, 2, 5, 2, 4, 2], fault: 0.12, fault_modes: &["err", "cancel", "crash"], lockstep: true, ..BASE },
        "m04" => Prof { name: "m04", nops: 60, keys: (1, 4), w: [50, 8, 35, 4, 0, 4, 2, 2, 0], fault: 0.15, fault_modes: &["crash", "err", "cancel"], enum_crash: 0.2, crash_follow: 0.15, enum_fault: 0.06, fault_keep: 0.3, ..BASE },
        "m05" => Prof { name: "m05", nops: 60, w: [55, 2, 10, 1, 1, 30, 2, 2, 0], fault: 0.12, fault_modes: &["crash", "err", "cancel", "rerr", "rcancel"], enum_crash: 0.04, crash_follow: 0.3, enum_fault: 0.06, enum_reads: true, fault_keep: 0.3, ..BASE },
        "m06" => Prof { name: "m06", nops: 150, keys: (1, 8), w: [85, 6, 4, 1, 0, 0, 1, 1, 3], ..BASE },
        "r01" => Prof { name: "r01", nops: 80, w: [60, 10, 15, 2, 1, 6, 2, 2, 0], fault: 0.55, fault_modes: &["crash", "crash", "err", "cancel", "rerr", "rcancel"], enum_crash: 0.08, crash_follow: 0.4, ..BASE },
        "e01" => Prof { name: "e01", nops: 120, w: [50, 10, 6, 1, 0, 4, 2, 2, 40], rejects: true, ..BASE },
        // long ranges
        "m01x" => Prof { name: "m01x", geos: &[0, 1], nops: 60, keys: (1, 9), many: true, ..BASE },
        "m02x" => Prof { name: "m02x", geos: &[0, 1], nops: 50, many: true, w: [70, 5, 10, 1, 0, 6, 3, 2, 0], fault: 0.3, fault_modes: &["crash", "err", "cancel"], ..BASE },
        "c01x" => Prof { name: "c01x", geos: &[0, 1], nops: 40, many: true, w: [60, 20, 10, 1, 0, 5, 2, 4, 2], fault: 0.12, fault_modes: &["err", "cancel", "crash"], lockstep: true, ..BASE },
        _ => panic!("unknown profile {n}"),
    }
}

#[cfg(feature = "queue")]
pub fn queue_prof(n: &str) -> crate::queuedrv::Prof {
    use crate::queuedrv::{BASE, Prof};
    match n {
        "q01" => Prof { name: "q01", ..BASE },
        "qf01" => Prof { name: "qf01", nops: 80, w: [40, 10, 25, 3, 2, 8, 2, 2, 1, 2, 2, 4], fault: 0.12, fault_modes: &["crash", "err", "cancel", "rerr", "rcancel"], rejects: true, flog: true, ..BASE },
        "qf03" => Prof { name: "qf03", nops: 150, w: [45, 15, 30, 4, 2, 6, 1, 1, 0, 2, 2, 2], flog: true, ..BASE },
        "q02" => Prof { name: "q02", nops: 60, w: [40, 12, 30, 2, 1, 8, 0, 0, 1, 2, 1, 0], fault: 0.15, fault_modes: &["crash"], enum_crash: 0.25, crash_follow: 0.1, ..BASE },
        "q03" => Prof { name: "q03", nops: 50, w: [40, 10, 30, 6, 3, 8, 1, 1, 1, 1, 2, 0], fault: 0.25, fault_modes: &["err", "cancel", "rerr", "rcancel"], enum_fault: 0.12, enum_reads: true, fault_keep: 0.3, ..BASE },
        "q04" => Prof { name: "q04", nops: 150, w: [40, 40, 12, 2, 2, 6, 0, 0, 0, 2, 2, 2], ..BASE },
        "q05" => Prof { name: "q05", nops: 120, w: [50, 8, 6, 4, 4, 25, 0, 0, 0, 2, 2, 0], ..BASE },
        "q06" => Prof { name: "q06", nops: 120, w: [40, 10, 25, 2, 1, 5, 20, 4, 1, 2, 2, 0], probe: 1.0, ..BASE },
        "q06f" => Prof { name: "q06f", nops: 100, w: [40, 10, 25, 2, 1, 5, 20, 4, 1, 2, 2, 0], fault: 0.15, fault_modes: &["crash", "err", "cancel"], probe: 1.0, ..BASE },
        "q07f" => Prof { name: "q07f", nops: 120, w: [50, 8, 35, 2, 1, 3, 1, 1, 0, 2, 2, 0], fifo: true, fault: 0.2, fault_modes: &["crash", "err", "cancel"], ..BASE },
        "q07" => Prof { name: "q07", nops: 200, w: [50, 8, 35, 2, 1, 3, 1, 1, 0, 2, 2, 0], fifo: true, ..BASE },
        "qc01" => Prof { name: "qc01", nops: 100, geos: &[0, 1], w: [40, 10, 30, 6, 4, 8, 2, 2, 1, 2, 5, 1], fault: 0.12, fault_modes: &["err", "cancel", "crash"], lockstep: true, ..BASE },
        "qr01" => Prof { name: "qr01", nops: 80, w: [40, 12, 30, 4, 2, 8, 1, 1, 1, 2, 2, 0], fault: 0.55, fault_modes: &["crash", "crash", "err", "cancel", "rerr", "rcancel"], enum_crash: 0.08, crash_follow: 0.4, ..BASE },
        "qe01" => Prof { name: "qe01", nops: 120, w: [40, 8, 20, 4, 2, 4, 0, 0, 0, 2, 2, 40], rejects: true, ..BASE },
        // long ranges
        "q01x" => Prof { name: "q01x", geos: &[0, 1], nops: 80, many: true, w: [40, 10, 35, 5, 3, 5, 2, 1, 0, 2, 2, 0], ..BASE },
        "q07x" => Prof { name: "q07x", geos: &[0, 1], nops: 80, many: true, fifo: true, w: [50, 8, 35, 2, 1, 3, 1, 1, 0, 2, 2, 0], ..BASE },
        "q02x" => Prof { name: "q02x", geos: &[0, 1], nops: 50, many: true, w: [40, 10, 35, 5, 3, 8, 1, 1, 0, 2, 2, 0], fault: 0.3, fault_modes: &["crash", "err", "cancel"], ..BASE },
        "qc01x" => Prof { name: "qc01x", geos: &[0, 1], nops: 40, many: true, w: [40, 10, 35, 6, 4, 8, 2, 2, 0, 2, 5, 1], fault: 0.12, fault_modes: &["err", "cancel", "crash"], lockstep: true, ..BASE },
        _ => panic!("unknown profile {n}"),
    }
}
