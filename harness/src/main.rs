#![allow(dead_code)]
mod fw;
mod gn;
mod ring;
mod bx;
mod c01;
mod c03;
mod c04;
mod c05;
mod c07;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;

use fw::*;

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    v.extend(c01::kinds());
    v.extend(c03::kinds());
    v.extend(c04::kinds());
    v.extend(c05::kinds());
    v.extend(c07::kinds());
    v.extend(c11::kinds());
    v.extend(c12::kinds());
    v.extend(c13::kinds());
    v.extend(c14::kinds());
    v.extend(c15::kinds());
    v.extend(c16::kinds());
    v.extend(c17::kinds());
    v.extend(c18::kinds());
    v.extend(c19::kinds());
    v.extend(c20::kinds());
    v.extend(c21::kinds());
    v.extend(c22::kinds());
    v
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let thorough = get("--tier", "quick") == "thorough";
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(kinds(), Opts {
            prop: a[2].clone(),
            thorough,
            seed,
            budget: get("--budget", "30").parse().unwrap(),
            out: get("--out", "/dev/stdout"),
            cur: get("--cur", ""),
            threads: get("--threads", "8").parse().unwrap(),
            case_limit: get("--case-limit", "60").parse().unwrap(),
        }),
        Some("replay") => {
            let (k, idx) = (&a[2], a[3].parse().unwrap());
            let ks = kinds();
            let k = ks.iter().find(|x| x.name == k).expect("kind");
            let (r, d, _, _) = run_case(k, idx, seed, thorough);
            println!("case: {d}");
            match r {
                Ok(()) => { println!("ok"); 0 }
                Err(m) => { println!("FAILS: {m}"); 1 }
            }
        }
        _ => { for k in kinds() { println!("{} {} {} {}", k.prop, k.name, k.quick, k.thorough); } 0 }
    };
    std::process::exit(code);
}
