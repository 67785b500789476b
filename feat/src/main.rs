//! Runs scripts, one per line of standard input; its answers are lines that begin with `@`.

#[path = "../../harness/src/entropy.rs"]
#[allow(dead_code)]
mod entropy;
mod proto;

use std::io::BufRead;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let _ = pkstl::Seed32::random();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let Ok(s) = serde_json::from_str::<proto::Script>(&line) else {
            println!("@null");
            continue;
        };
        println!("@{}", serde_json::to_string(&proto::run(&s)).expect("json"));
    }
}
