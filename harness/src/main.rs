#![allow(clippy::all)]
mod access;
mod block;
mod cols;
mod dsn;
mod forms;
mod hosts;
mod insert;
mod names;
mod pool;
mod probe;
mod proto;
mod resp;
mod server;
mod retry;
mod session;
mod socks;
mod timeout;
mod ty;
mod util;
mod wire;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VERIF_SHOW_PANICS").is_err() { std::panic::set_hook(Box::new(|i| { if i.to_string().contains("no port to listen") { eprintln!("no port to listen on") } })); }
    match a[1].as_str() {
        "probe" => probe::main(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        "session" => session::main(&a[2], &a[3]),
        "pool" => pool::main(&a[2], &a[3], a.get(4).map(|s| s.as_str())),
        "race" => pool::races(&a[2], &a[3], a[4].parse().unwrap(), a.get(5).map(|s| s.as_str())),
        "decode" => cols::decode(&a[2], &a[3]),
        "encode" => cols::encode(&a[2], &a[3]),
        "dsn" => dsn::run(&a[2], &a[3]),
        "names" => names::run(&a[2], &a[3]),
        "whole" => resp::whole(&a[2], &a[3]),
        "damage" => resp::damage(&a[2], &a[3]),
        "frames" => resp::frames(&a[2], &a[3]),
        "framesent" => resp::framesent(&a[2], &a[3]),
        "proto" => proto::run(&a[2], &a[3]),
        "insert" => insert::run(&a[2], &a[3]),
        "forms" => forms::run(&a[2], &a[3]),
        "access" => access::run(&a[2], &a[3]),
        "block" => block::run(&a[2], &a[3], &a[4]),
        "timeout" => timeout::run(&a[2], &a[3]),
        "retry" => retry::main(&a[2], &a[3]),
        "hosts" => hosts::main(&a[2], &a[3]),
        c => panic!("unknown command {c}"),
    }
}
