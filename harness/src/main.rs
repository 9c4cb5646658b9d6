//! vh PROP SEED FIRST COUNT SECONDS DICT PROGRESS: runs cases of one property against the real crate and
//! compares with the reference implementations. Prints FAIL case=N and the details, or DONE cases=N.
mod props;
mod refs;
mod rng;
mod samples;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "deep" { // nested optionals, for the known finding of C04
        let n: usize = a[2].parse().unwrap();
        let mut b = vec![10u8; n]; b.push(9);
        let r = stacks_rs::clarity::decode_clarity_type(&b).is_ok();
        println!("deep {n} decoded={r}");
        std::process::exit(0);
    }
    let f: fn(&mut rng::Rng) -> props::R = match a[1].as_str() {
        "C01" => props::c01, "C02" => props::c02, "C03" => props::c03, "C04" => props::c04, "C05" => props::c05, "C06" => props::c06, "C07" => props::c07, "C08" => props::c08, "C09" => props::c09,
        "C10" => props::c10, "C11" => props::c11, "C12" => props::c12, "C13" => props::c13, "C14" => props::c14, "C15" => props::c15, "C16" => props::c16, "C17" => props::c17, "C18" => props::c18, "C19" => props::c19, "C20" => props::c20, "C21" => props::c21, "C22" => props::c22, _ => std::process::exit(3),
    };
    let seed: u64 = a[2].parse().unwrap(); let first: u64 = a[3].parse().unwrap(); let count: u64 = a[4].parse().unwrap(); let secs: f64 = a[5].parse().unwrap();
    let mut d = rng::Dict::default();
    if let Ok(t) = std::fs::read_to_string(&a[6]) { for l in t.lines() { if let Some(n) = l.strip_prefix("i ") { if let Ok(n) = n.parse() { d.ints.push(n); } } else if let Some(s) = l.strip_prefix("s ") { d.texts.push(s.to_string()); } } }
    let d = std::rc::Rc::new(d);
    std::panic::set_hook(Box::new(|_| {}));
    use std::os::unix::fs::FileExt;
    let prog = std::fs::File::create(&a[7]).unwrap();
    let t0 = std::time::Instant::now();
    // a large stack, so that only unreasonable recursion overflows it
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn({ let seedd = (); let _ = seedd; let ints = d.ints.clone(); let texts = d.texts.clone(); move || {
        let d = std::rc::Rc::new(rng::Dict { ints, texts });
        let mut done = 0;
        for case in first..first + count {
            if t0.elapsed().as_secs_f64() > secs { break; }
            let _ = prog.write_at(&case.to_le_bytes(), 0);
            let mut r = rng::Rng::new(seed, case, d.clone());
            // some cases repeat the same steps, slightly changed: what an earlier call left behind must not show
            let runs = if r.fresh() % 4 == 0 { 4 } else { 1 };
            let res = match catch_unwind(AssertUnwindSafe(|| { for k in 0..runs { if k > 0 { r.again(); } f(&mut r).map_err(|e| if k > 0 { format!("{e}\n(repetition {k} of the case)") } else { e })?; } Ok(()) })) { Ok(x) => x, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
            done += 1;
            if let Err(e) = res { println!("FAIL case={case}\n{e}"); std::process::exit(1); }
        }
        println!("DONE cases={done}");
    } }).unwrap();
    h.join().unwrap();
}
