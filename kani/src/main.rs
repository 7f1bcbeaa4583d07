//! kreplay <harness> <v,v,..;v,v,..;...> : runs the harness body natively on the recorded values.
//! Prints VIOLATED, HELD or UNUSABLE.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals: Vec<Vec<u8>> = a.get(2).filter(|s| *s != "valid").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.split(',').map(|y| y.trim().parse().unwrap()).collect()).collect()).unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rec = kh::Rec { vals, at: 0, broken: false };
    let name = a[1].clone();
    if a.get(2).map(|s| s.as_str()) == Some("valid") {
        let ok = std::panic::catch_unwind(|| kh::bodies::valid(&name)).unwrap_or(false);
        println!("{}", if ok { "VALID" } else { "VACUOUS" });
        return;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kh::native(&name, &mut rec)));
    let rejecting = kh::rejecting(&name);
    let out = match r {
        _ if rec.broken => "UNUSABLE",
        Ok(None) => "UNUSABLE",
        Ok(Some((true, _))) => "VIOLATED it was accepted",
        Ok(Some((false, true))) => "HELD",
        Ok(Some((false, false))) => "VIOLATED wrong result",
        Err(_) if rejecting => "HELD",
        Err(_) => "VIOLATED it panicked",
    };
    println!("{out}");
}
