mod util;
mod term;
mod obs;
mod sets;
mod lang;
mod strs;
mod autom;
mod misc;
mod intern;

use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 7 {
        eprintln!("usage: vharness PROP TIER SEED SHARD NSHARDS OUT");
        std::process::exit(2);
    }
    let (prop, tier) = (a[1].clone(), a[2].clone());
    let seed: u64 = a[3].parse().unwrap();
    let shard: usize = a[4].parse().unwrap();
    let nshards: usize = a[5].parse().unwrap();
    let path = a[6].clone();
    // deep terms: run in a thread with a large stack
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = Ctx::new(&prop, &tier, seed, shard, nshards, &path);
            match prop.as_str() {
                "C01" => lang::c01(&mut c),
                "C02" => lang::c02(&mut c),
                "C03" => lang::c03(&mut c),
                "C04" => autom::c04(&mut c),
                "C05" => lang::c05(&mut c),
                "C06" => strs::c06(&mut c),
                "C07" => intern::c07(&mut c),
                "C08" => strs::c08(&mut c),
                "C09" => strs::c09(&mut c),
                "C10" => lang::c10(&mut c),
                "C11" => sets::c11(&mut c),
                "C12" => sets::c12(&mut c),
                "C13" => autom::c13(&mut c),
                "C14" => autom::c14(&mut c),
                "C15" => misc::c15(&mut c),
                "C16" => lang::c16(&mut c),
                "C17" => strs::c17(&mut c),
                "C18" => lang::c18(&mut c),
                "C19" => lang::c19(&mut c),
                "C20" => sets::c20(&mut c),
                _ => {
                    eprintln!("unknown property {prop}");
                    std::process::exit(2);
                }
            }
            use std::io::Write;
            c.out.flush().unwrap();
            println!("{{\"events\":{},\"calls\":{}}}", c.events, c.calls);
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness panicked outside of a guarded call");
        std::process::exit(4);
    }
}
