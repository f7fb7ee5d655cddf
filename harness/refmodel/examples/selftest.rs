use refmodel::{gen::*, parse::P, rng::Rng, tree::*};
fn main() {
    let n: u64 = std::env::args().nth(1).map_or(20000, |s| s.parse().unwrap());
    let seed: u64 = std::env::args().nth(2).map_or(1, |s| s.parse().unwrap());
    let mut bad = 0;
    let mut bytes = 0;
    for i in 0..n {
        let mut r = Rng::of(&[seed, i]);
        let mut p = Prof::base();
        if i % 3 == 0 { p.heredoc = 60; p.redir = 30 }
        if i % 5 == 0 { p.parts = [10, 6, 6, 6, 8, 8, 6, 13, 14, 14]; }
        let c = case(&mut r, &p);
        bytes += c.text.len();
        let mut m = P::of_str(&c.text);
        let mut got = vec![];
        let res = loop {
            match m.complete_command() {
                Ok(Ok(c)) => got.push(normed(c)),
                Ok(Err(t)) => break Ok(t),
                Err(e) => break Err(e),
            }
        };
        let want = normed(c.cmds.clone());
        if res != Ok(c.trail.clone()) || got != want {
            bad += 1;
            if bad <= 40 && c.text.len() < 400 {
                println!("---- case {}\n", i);
                for (i,l) in c.text.split('\n').enumerate() { println!("{}| {}", i+1, l) }
                if let Err(e) = &res { println!("error {:?}", e) } else if res != Ok(c.trail.clone()) { println!("trail {:?} want {:?}", res, c.trail) }
                for (k, w) in want.iter().enumerate() {
                    if got.get(k) != Some(w) { println!("want {:?}\ngot  {:?}", w, got.get(k)); break }
                }
            }
        }
    }
    println!("{} bad of {}, {} bytes", bad, n, bytes);
}
