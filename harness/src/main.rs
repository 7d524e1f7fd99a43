mod case;
#[cfg(not(feature = "sanitizer"))]
mod child;
#[cfg(not(feature = "sanitizer"))]
mod full;
mod html;
#[cfg(not(feature = "sanitizer"))]
mod mem;
mod page;
#[cfg(not(feature = "sanitizer"))]
mod props;
mod query;
#[cfg(not(feature = "sanitizer"))]
mod refhtml;
mod remote;
mod rng;
mod work;
mod xmlm;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.is_empty() {
        eprintln!("usage: soupmon worker|case|list|plain ...");
        std::process::exit(3);
    }
    #[cfg(not(feature = "sanitizer"))]
    let code = full::main(a);
    #[cfg(feature = "sanitizer")]
    let code = match a[1].as_str() {
        "hammer" => remote::hammer(&a[2..]),
        "threads" => remote::threads(&a[2..]),
        "digest" => remote::digest(&a[2..]),
        "history" => remote::history(&a[2..]),
        _ => 3,
    };
    std::process::exit(code);
}
