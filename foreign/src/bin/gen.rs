//! Runs on the host. `gen seeds BASE FIRST COUNT MAX FILE`: that many scenarios, complete; their texts and what they contain
//! on standard output. `gen text FILE`: the scenarios on standard input, complete.
use foreign::{gen, rng, steps::OPS, wire, Scenario};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let mut out = Vec::new();
    let file = match a[1].as_str() {
        "seeds" => {
            for i in 0..num(4) {
                let seed = rng::mix(num(2) ^ rng::mix(num(3) + i));
                let sc = gen::scenario(seed, true, num(5) as usize);
                wire::write(&mut out, &sc);
                println!("{}", sc.text());
            }
            &a[6]
        }
        "text" => {
            for l in std::io::stdin().lines() {
                wire::write(&mut out, &Scenario::parse(&l.unwrap()).expect("a scenario"));
            }
            &a[2]
        }
        "ops" => return OPS.iter().for_each(|o| println!("{}", o.1)),
        _ => panic!(),
    };
    std::fs::write(file, out).unwrap();
}
