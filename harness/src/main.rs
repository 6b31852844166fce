mod c_conf;
mod c_dyn;
mod c_edge;
mod c_energy;
mod c_init;
mod c_mc;
mod c_ref;
mod c_spin;
mod model;
mod util;

use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "REF" {
        return c_ref::reference(&args[2..]);
    }
    let seed: u64 = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = args.get(3).map(|x| x == "thorough").unwrap_or(false);
    install_hook();
    let mut m = Mon::new(seed, thorough);
    let f: fn(&mut Mon) = match prop.as_str() {
        "C01" => c_spin::c01,
        "C02" => c_spin::c02,
        "C03" => c_init::c03,
        "C04" => c_init::c04,
        "C05" => c_energy::c05,
        "C06" => c_energy::c06,
        "C07" => c_energy::c07,
        "C08" => c_dyn::c08,
        "C09" => c_dyn::c09,
        "C10" => c_dyn::c10,
        "C11" => c_mc::c11,
        "C12" => c_mc::c12,
        "C13" => c_mc::c13,
        "C14" => c_edge::c14,
        "C15" => c_edge::c15,
        "C16" => c_edge::c16,
        "C17" => c_conf::c17,
        "C20" => c_conf::c20,
        "C26" => c_conf::c26,
        "C25" => c_energy::c25,
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(3);
        }
    };
    guarded(&mut m, &prop, 0, f);
    let list = |v: &[String]| v.join(", ");
    println!(
        "{{\"evaluations\": {}, \"distinct\": {}, \"violations\": {}, \"errors\": [{}],",
        m.evals,
        m.distinct.len(),
        m.nviol,
        list(&m.errors.iter().map(|x| js(x)).collect::<Vec<_>>())
    );
    println!("\"samples\": [{}],", list(&m.samples.iter().map(|x| js(x)).collect::<Vec<_>>()));
    println!(
        "\"counts\": {{{}}},",
        list(&m.count.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>())
    );
    println!(
        "\"margins\": {{{}}},",
        list(&m.max.iter().map(|(k, v)| format!("{}: {}", js(k), j(*v))).collect::<Vec<_>>())
    );
    println!(
        "\"found\": [{}]}}",
        list(&m.viols.iter().map(|(k, v)| format!("{{\"what\": {}, \"detail\": {}}}", js(k), v)).collect::<Vec<_>>())
    );
}
