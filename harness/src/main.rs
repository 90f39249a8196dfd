//! Drives the real library and records sessions for CurvesTrace.tla.
//!
//!   harness gen    --profile ID --seed S --sessions N --out F     random sessions
//!   harness replay --profile ID --scripts F --out F               behaviours of the model
mod exec;
mod gen;
mod json;
mod rng;

use exec::{Machine, CURRENT};
use json::*;
use std::io::Write;
use std::time::Duration;

/// Seconds after which a call of the library counts as not returning
const LIMIT: Duration = Duration::from_secs(30);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |k: &str| -> Option<String> {
        args.iter().position(|a| a == &format!("--{k}")).and_then(|i| args.get(i + 1)).cloned()
    };
    let out = arg("out").expect("--out");
    let profile = arg("profile").expect("--profile");
    if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let hang = format!("{out}.hang");
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let c = CURRENT.lock().unwrap();
        if let Some((t, o)) = c.as_ref() {
            if t.elapsed() > LIMIT {
                let _ = std::fs::write(&hang, format!("{o}\n"));
                std::process::exit(3);
            }
        }
    });
    let mut w = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    match args[1].as_str() {
        "gen" => {
            let seed: u64 = arg("seed").map_or(1, |s| s.parse().unwrap());
            let n: usize = arg("sessions").map_or(100, |s| s.parse().unwrap());
            for i in 0..n {
                let mut m = Machine::default();
                let r = rng::Rng::new(seed, &profile, i as u64);
                gen::session(&profile, &mut m, &r);
                writeln!(w, "{}", A(std::mem::take(&mut m.log))).unwrap();
            }
        }
        "replay" => {
            let f = std::fs::read_to_string(arg("scripts").expect("--scripts")).unwrap();
            for l in f.lines().filter(|l| !l.is_empty()) {
                let mut m = Machine::default();
                for o in parse(l).arr() {
                    if o.at("op").str() == "twin" {
                        gen::twin(&mut m, o);
                    } else if o.at("op").str() == "pair" {
                        let l = |k: &str| o.at(k).arr().to_vec();
                        gen::pair(&mut m, l("A"), l("B"), l("order").iter().map(|x| x.us()).collect(), o.get("PA").is_some());
                    } else {
                        m.run(o.clone());
                    }
                }
                gen::finish(&profile, &mut m);
                writeln!(w, "{}", A(std::mem::take(&mut m.log))).unwrap();
            }
        }
        "alone" => {
            let t = std::io::read_to_string(std::io::stdin()).unwrap();
            let mut m = Machine::default();
            for o in parse(&t).arr() {
                m.run(o.clone());
            }
            for e in &m.log {
                println!("{e}");
            }
        }
        x => panic!("unknown mode {x}"),
    }
}
use J::A;
