//! Exhaustive bounded exploration of laby's run-time behaviour. One module per property; see
//! /verif/DESIGN.md.
#![allow(dead_code)]
mod kit;

macro_rules! props {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $feat)] mod $m;)*
        fn lookup(p: &str) -> Option<fn(&mut kit::run::Ctx)> {
            $(#[cfg(feature = $feat)] if p == $feat { return Some($m::run); })*
            let _ = p;
            None
        }
    };
}

props!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09,
       "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = kit::run::Opts {
        prop: a[1].to_lowercase(),
        thorough: false,
        profile: "release".into(),
        backend: None,
        dir: ".".into(),
        workers: 8,
        only: None,
        stall_s: 120,
    };
    for kv in &a[2..] {
        let (k, v) = kv.split_once('=').expect("key=value");
        match k {
            "tier" => o.thorough = v == "thorough",
            "profile" => o.profile = v.into(),
            "backend" => o.backend = Some(v.into()),
            "dir" => o.dir = v.into(),
            "workers" => o.workers = v.parse().unwrap(),
            "only" => o.only = Some(v.parse().unwrap()),
            "stall" => o.stall_s = v.parse().unwrap(),
            _ => panic!("unknown option {k}"),
        }
    }
    let Some(f) = lookup(&o.prop) else {
        eprintln!("property {} is not compiled in", o.prop);
        std::process::exit(2);
    };
    if o.prop != "c04" && o.prop != "c03" {
        kit::alloc::init_pool(); // its many mappings make forking slower
    }
    std::process::exit(kit::run::run(&o, f));
}
