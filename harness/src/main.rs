//! `gsv <scenario> --inst I --seed N --n N --out FILE [--threads K] [--sizes 1x2,3x4] [key=value ...]`
//!
//! Drives the library and records one NDJSON event per call; the TLA+ trace specifications decide
//! whether the recorded behaviour is one the specification allows.
mod inst;
mod model;
mod scen_alg;
mod scen_core;
mod scen_eq;
mod scen_hist;
mod scen_ill;
mod scen_memo;
mod scen_wire;
mod clear;
mod compare;
mod toy;

use serde_json::Value;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Ctx {
    pub seed: u64,
    pub n: u64,
    pub args: HashMap<String, String>,
    w: BufWriter<File>,
    pub count: u64,
}
impl Ctx {
    pub fn emit(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.count += 1;
    }
    pub fn arg(&self, k: &str, d: u64) -> u64 {
        self.args.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
    pub fn sarg(&self, k: &str, d: &str) -> String {
        self.args.get(k).cloned().unwrap_or(d.to_string())
    }
    pub fn sizes(&self) -> Vec<(usize, usize)> {
        match self.args.get("sizes") {
            None => vec![],
            Some(s) => s
                .split(',')
                .map(|p| {
                    let (a, b) = p.split_once('x').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect(),
        }
    }
}

fn run<E: scen_wire::Wire>(scen: &str, c: &mut Ctx) {
    match scen {
        "complete" => scen_core::complete::<E>(c),
        "verdict" => scen_core::verdict::<E>(c),
        "near" => scen_core::near::<E>(c),
        "exhaust" => scen_core::exhaust::<E>(c),
        "commit" => scen_core::commit::<E>(c),
        "crs" => scen_core::crs::<E>(c),
        "keyentropy" => scen_core::keyentropy::<E>(c),
        "crsbig" => scen_core::crsbig::<E>(c),
        "leak" => scen_core::leak::<E>(c),
        "wi" => scen_core::wi::<E>(c),
        "illverify" => scen_ill::illverify::<E>(c),
        "illprove" => scen_ill::illprove::<E>(c),
        "compare" => compare::compare::<E>(c),
        "hist" => scen_hist::hist::<E>(c),
        "fresh" => scen_core::fresh::<E>(c),
        "freshbig" => scen_core::freshbig::<E>(c),
        "memo" => scen_memo::memo::<E>(c),
        "wire" => scen_wire::wire::<E>(c),
        "hostile" => scen_wire::hostile::<E>(c),
        "arteq" => scen_eq::arteq::<E>(c),
        "group" => scen_alg::group::<E>(c),
        "maps" => scen_alg::maps::<E>(c),
        "matrix" => scen_alg::matrix::<E>(c),
        "forced" => scen_alg::forced::<E>(c),
        "sched" => scen_alg::sched::<E>(c),
        s => {
            eprintln!("unknown scenario {s}");
            std::process::exit(3)
        }
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let scen = a.remove(0);
    let mut args = HashMap::new();
    let mut it = a.into_iter();
    while let Some(k) = it.next() {
        if let Some(k) = k.strip_prefix("--") {
            args.insert(k.to_string(), it.next().expect("value"));
        } else if let Some((k, v)) = k.split_once('=') {
            args.insert(k.to_string(), v.to_string());
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let out = args.get("out").cloned().expect("--out");
    let mut c = Ctx {
        seed: args.get("seed").map(|x| x.parse().unwrap()).unwrap_or(1),
        n: args.get("n").map(|x| x.parse().unwrap()).unwrap_or(1),
        w: BufWriter::new(File::create(&out).expect("out file")),
        args,
        count: 0,
    };
    let threads = c.arg("threads", 1) as usize;
    let inst = c.sarg("inst", "toy10007");
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(threads)
        .stack_size(16 << 20)
        .build()
        .unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        pool.install(|| match inst.as_str() {
            "toy3" => run::<toy::Toy3>(&scen, &mut c),
            "toy5" => run::<toy::Toy5>(&scen, &mut c),
            "toy7c" => run::<toy::Toy7c>(&scen, &mut c),
            "toy10007" => run::<toy::Toy10007>(&scen, &mut c),
            "clear" => run::<clear::Clear>(&scen, &mut c),
            "bls" => run::<ark_bls12_381::Bls12_381>(&scen, &mut c),
            s => panic!("instance {s}"),
        })
    }));
    c.w.flush().unwrap();
    match r {
        Ok(()) => println!("DONE {}", c.count),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("HARNESS-PANIC {} after {} events", m, c.count);
            std::process::exit(4)
        }
    }
}
