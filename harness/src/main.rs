//! Concrete replay harness: drives the real crate in /repo. Never part of a proof.
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c15")]
mod c15;
mod util;

use util::Ctx;

pub type Case = (&'static str, &'static str, fn(&mut Ctx));

fn all() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v: Vec<Case> = Vec::new();
    #[cfg(feature = "c01")]
    v.extend(c01::cases());
    #[cfg(feature = "c02")]
    v.extend(c02::cases());
    #[cfg(feature = "c03")]
    v.extend(c03::cases());
    #[cfg(feature = "c04")]
    v.extend(c04::cases());
    #[cfg(feature = "c05")]
    v.extend(c05::cases());
    #[cfg(feature = "c08")]
    v.extend(c08::cases());
    #[cfg(feature = "c10")]
    v.extend(c10::cases());
    #[cfg(feature = "c11")]
    v.extend(c11::cases());
    #[cfg(feature = "c13")]
    v.extend(c13::cases());
    #[cfg(feature = "c15")]
    v.extend(c15::cases());
    v
}

#[crossmist::main]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (p, n, _) in all() {
                if args.get(2).map_or(true, |x| x == p) {
                    println!("{p} {n}");
                }
            }
        }
        #[cfg(feature = "c11")]
        Some("dump") => c11::dump(),
        Some("run") => {
            let (prop, name) = (&args[2], &args[3]);
            let seed: u64 = args.get(4).map_or(1, |s| s.parse().unwrap());
            let thorough = args.get(5).map_or(false, |s| s == "thorough");
            let (_, _, f) = all()
                .into_iter()
                .find(|(p, n, _)| p == prop && n == name)
                .expect("no such case");
            // Forget whatever this process inherited
            for fd in util::fds() {
                if fd > 2 {
                    unsafe { libc::close(fd); }
                }
            }
            let mut ctx = Ctx::new(seed, thorough);
            f(&mut ctx);
            println!("RESULT evaluations={} distinct={} sample={}", ctx.evals, ctx.distinct(), ctx.sample());
        }
        _ => {
            eprintln!("usage: h list [Cxx] | h run Cxx case [seed] [tier]");
            std::process::exit(2);
        }
    }
}
