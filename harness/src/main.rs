mod gen;
mod hook;
mod lib_build;
mod model;
#[cfg(feature = "astd")]
mod p_astd;
mod p_conf;
mod p_data;
mod p_insert;
mod p_hist;
mod p_mem;
mod p_proto;
mod p_read;
#[cfg(feature = "tls")]
mod p_tls;
mod run;
mod server;
mod wire;

#[global_allocator]
static ALLOC: run::Alloc = run::Alloc;

fn main() {
    #[allow(unused_mut)]
    let mut props: Vec<&'static run::Prop> = vec![&p_data::C01, &p_data::C04, &p_insert::C02, &p_insert::C03, &p_insert::C09, &p_read::C05, &p_read::C06, &p_read::C22, &p_proto::C07, &p_proto::C08, &p_proto::C12, &p_proto::C13, &p_proto::C14, &p_conf::C15, &p_conf::C16, &p_mem::C17, &p_mem::C18, &p_mem::C19, &p_mem::C23, &p_hist::C10, &p_hist::C11, &p_hist::C20, &p_hist::C21];
    #[cfg(feature = "tls")]
    {
        p_tls::prepare();
        props.push(&p_tls::C24);
    }
    #[cfg(feature = "astd")]
    props.push(&p_astd::C25);
    run::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let dir = opt("--dir").unwrap_or_else(|| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
        }
        Some("corpus") => p_proto::corpus(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("replay") => std::process::exit(run::replay(&props, &a[2])),
        Some("survey") => {
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(0.2);
            let only = opt("--only");
            for p in props.iter().filter(|p| a[2] == "all" || p.id == a[2]) {
                run::survey(p, seed, only.as_deref(), scale);
            }
        }
        Some("one") => match props.iter().find(|p| p.id == a[2]) {
            Some(p) => std::process::exit(run::one(p, &a[3], a[4].parse().unwrap(), a[5].parse().unwrap())),
            None => run::harness_error("no such property"),
        },
        Some("run") => {
            if let Ok(s) = std::env::var("VH_SLOTS") {
                run::open_slots(&s);
            }
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let only = opt("--only");
            match props.iter().find(|p| p.id == a[2]) {
                Some(p) if !a.iter().any(|x| x == "--child") => {
                    std::process::exit(run::supervise(p, &a[1..], seed, &tier, &dir))
                }
                Some(p) => std::process::exit(run::run_prop(p, &tier, seed, &dir, only.as_deref(), scale)),
                None => run::harness_error("no such property"),
            }
        }
        _ => run::harness_error("usage: vh run <property> [--tier quick|thorough] [--seed N] | replay <file> | list"),
    }
}
