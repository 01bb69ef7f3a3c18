//! A program run that does not come to an end would be cut by the compute budget on chain: the transaction fails there.
//! Here a native run cannot be cut, so a watchdog ends the whole exploration with the verdict that failing deserves.
use solana_program::instruction::Instruction;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const LIMIT: Duration = Duration::from_secs(40);
struct Run {
    start: Instant,
    /// properties broken by this transaction failing
    props: Vec<&'static str>,
    what: String,
    ixs: Vec<Instruction>,
}
type Slot = Arc<Mutex<Option<Run>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
thread_local!(static MINE: Slot = {
    let s = Slot::default();
    SLOTS.lock().unwrap().push(s.clone());
    s
});

pub fn guard<T>(props: &[&'static str], what: &str, ixs: &[Instruction], f: impl FnOnce() -> T) -> T {
    MINE.with(|m| *m.lock().unwrap() = Some(Run { start: Instant::now(), props: props.to_vec(), what: what.to_string(), ixs: ixs.to_vec() }));
    let r = f();
    MINE.with(|m| *m.lock().unwrap() = None);
    r
}

/// `verdict(props, what, detail)` is called once when a run exceeds the limit; it does not return.
pub fn watch(verdict: impl Fn(&[&'static str], &str, String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let slots = SLOTS.lock().unwrap();
        let mut late = vec![];
        for s in slots.iter() {
            if let Some(r) = &*s.lock().unwrap() {
                if r.start.elapsed() > LIMIT {
                    late.push((r.props.clone(), r.what.clone(), format!("{:?}", r.ixs)));
                }
            }
        }
        if !late.is_empty() {
            let mut props: Vec<&'static str> = late.iter().flat_map(|l| l.0.clone()).collect();
            props.sort();
            props.dedup();
            verdict(&props, &late[0].1, late[0].2.clone());
        }
    });
}
