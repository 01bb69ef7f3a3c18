use std::time::{Duration, Instant};
use svm::checks;
use svm::report::{Report, SetupFail};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier) = (a[1].clone(), a.get(2).cloned().unwrap_or("quick".into()));
    svm::rt::install();
    let mut r = Report::new(&prop, &tier);
    let (p2, t2) = (prop.clone(), tier.clone());
    let out = r.handle();
    svm::hang::watch(move |props, what, ixs| {
        let mut r = Report::with_handle(&p2, &t2, out.try_clone().unwrap());
        let viol = svm::engine::viol(props, "does-not-terminate", format!("a valid {what} never ends"));
        r.found.push(svm::engine::Found { viol, scenario: "any".into(), path: vec![ixs] });
        if !props.contains(&p2.as_str()) {
            eprintln!("a run of the program ({what}) does not end; this is not judged by {p2}, which cannot be explored");
            std::process::exit(2);
        }
        std::process::exit(r.finish());
    });
    let budget = if tier == "thorough" { 800 } else { 120 };
    let deadline = Instant::now() + Duration::from_secs(budget);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::run(&prop, &mut r, deadline)));
    if let Err(e) = res {
        match e.downcast::<SetupFail>() {
            Ok(f) => {
                eprintln!("set-up failed: {}", f.0.msg);
                if !f.0.props.iter().any(|p| *p == prop) {
                    eprintln!("this is not a violation of {prop}, but the property cannot be explored");
                    std::process::exit(2);
                }
                r.found.push(svm::engine::Found { viol: f.0, scenario: "set-up".into(), path: vec![] });
            }
            Err(_) => std::process::exit(3),
        }
    }
    std::process::exit(r.finish());
}
