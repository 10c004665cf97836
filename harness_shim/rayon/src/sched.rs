//! A controlled scheduler: when PVH_SCHED=<seed> is set, every place where rayon would decide whether to split a
//! job, in what order to run its halves and when to look for other work takes its decision from a seeded stream
//! instead. Every decision is one that an unmodified rayon may take as well, so that whatever a program does under
//! this scheduler it may do under the real one. Unset, rayon behaves as always.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::Duration;

static SEED: OnceLock<Option<u64>> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn seed() -> Option<u64> {
    *SEED.get_or_init(|| std::env::var("PVH_SCHED").ok().and_then(|s| s.parse().ok()))
}

/// The next decision, in 0..n; None when no schedule was asked for.
fn pick(n: u64) -> Option<u64> {
    let s = seed()?;
    let mut z = s
        .wrapping_mul(0xD1342543DE82EF95)
        .wrapping_add(NEXT.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    Some((z ^ (z >> 31)) % n)
}

/// Split this job? The seed's low bits choose a style: always as small as possible, hardly ever, or at random.
pub(crate) fn split(default: bool) -> bool {
    let style = match seed() {
        None => return default,
        Some(s) => s % 4,
    };
    match style {
        0 => true,
        1 => pick(8) == Some(0),
        2 => pick(2) == Some(0),
        _ => pick(4) != Some(0),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub(crate) enum Order {
    Join,
    LeftFirst,
    RightFirst,
}

/// How to run the two halves: as rayon would, or one after the other on this thread in either order.
pub(crate) fn order() -> Order {
    match pick(8) {
        None => Order::Join,
        Some(0..=3) => Order::Join,
        Some(4) => Order::LeftFirst,
        _ => Order::RightFirst,
    }
}

/// A moment in which other threads may run, or in which this thread runs a job it finds.
pub(crate) fn pause() {
    match pick(16) {
        None => {}
        Some(0) => std::thread::sleep(Duration::from_micros(300)),
        Some(1) => std::thread::sleep(Duration::from_micros(40)),
        Some(2) => std::thread::yield_now(),
        Some(3..=5) => {
            let _ = rayon_core::yield_now();
        }
        _ => {}
    }
}
