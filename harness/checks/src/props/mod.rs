use mc::Scenario;

mod c01_monitor;
mod c02_link;
mod c03_exit;
mod c04_mailbox;
mod c05_names;
mod c06_alias;
mod c07_spawn;
mod c08_timer;
mod c10_call;
mod c11_server;
mod c12_stop;
mod c13_restart;
mod c14_strategy;
mod c15_intensity;
mod c16_manage;
mod c17_shutdown;
mod c18_auto;
mod c19_registry;
mod c20_regend;
mod c21_app;
mod c22_ring;
mod c23_sem;
mod c24_task;
mod c27_sends;
mod c28_remote;
mod c29_nodes;
mod c25_wire;
mod c26_handshake;
mod c30_ids;
mod c31_websocket;
mod crowd;
mod c32_info;
mod c33_console;

pub fn ids() -> Vec<&'static str> {
    TABLE.iter().map(|e| e.0).collect()
}

type Entry = (&'static str, fn() -> Vec<Scenario>, &'static str, &'static [&'static str]);

const BASE: &[&str] = &[];

static TABLE: &[Entry] = &[
    ("C01", c01_monitor::scenarios, "model_checking", BASE),
    ("C02", c02_link::scenarios, "model_checking", BASE),
    ("C03", c03_exit::scenarios, "model_checking", BASE),
    ("C04", c04_mailbox::scenarios, "model_checking", BASE),
    ("C05", c05_names::scenarios, "model_checking", BASE),
    ("C06", c06_alias::scenarios, "model_checking", BASE),
    ("C08", c08_timer::scenarios, "model_checking", BASE),
    ("C07", c07_spawn::scenarios, "model_checking", BASE),
    ("C10", c10_call::scenarios, "model_checking", BASE),
    ("C11", c11_server::scenarios, "model_checking", BASE),
    ("C12", c12_stop::scenarios, "model_checking", BASE),
    ("C13", c13_restart::scenarios, "model_checking", BASE),
    ("C14", c14_strategy::scenarios, "model_checking", BASE),
    ("C15", c15_intensity::scenarios, "model_checking", BASE),
    ("C16", c16_manage::scenarios, "model_checking", BASE),
    ("C17", c17_shutdown::scenarios, "model_checking", BASE),
    ("C18", c18_auto::scenarios, "model_checking", BASE),
    ("C19", c19_registry::scenarios, "model_checking", BASE),
    ("C20", c20_regend::scenarios, "model_checking", BASE),
    ("C21", c21_app::scenarios, "model_checking", BASE),
    ("C22", c22_ring::scenarios, "model_checking", BASE),
    ("C23", c23_sem::scenarios, "model_checking", BASE),
    ("C24", c24_task::scenarios, "model_checking", BASE),
    ("C27", c27_sends::scenarios, "model_checking", BASE),
    ("C28", c28_remote::scenarios, "model_checking", BASE),
    ("C29", c29_nodes::scenarios, "model_checking", BASE),
    ("C25", c25_wire::scenarios, "model_checking", BASE),
    ("C26", c26_handshake::scenarios, "model_checking", BASE),
    ("C30", c30_ids::scenarios, "model_checking", BASE),
    ("C31", c31_websocket::scenarios, "model_checking", BASE),
    ("C32", c32_info::scenarios, "model_checking", BASE),
    ("C33", c33_console::scenarios, "model_checking", BASE),
];

fn entry(p: &str) -> &'static Entry {
    TABLE.iter().find(|e| e.0 == p).expect("property")
}

pub fn scenarios(p: &str) -> Vec<Scenario> {
    let mut v = (entry(p).1)();
    v.extend(crowd::scenarios(p));
    v
}

pub fn level(p: &str) -> &'static str {
    entry(p).2
}

pub fn assumptions(p: &str) -> Vec<String> {
    let mut v: Vec<String> = [
        "tasks interleave at operations on shared objects (map shard locks, channels, atomics, timers, sockets); code between two of them runs atomically, under sequential consistency",
        "the map, channel, lazy-cell and runtime dependencies are replaced by scheduler-aware versions with the same interface contract",
        "states are compared by a 64-bit history fingerprint",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend(entry(p).3.iter().map(|s| s.to_string()));
    v
}
