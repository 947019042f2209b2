// Self-test of the explorer: known faults must be found, correct programs must pass.
use mc::explore::*;

fn sc(name: &str, pool: usize, preempt: u32, devs: u32, base: u32, f: fn() -> String, want: &'static str) -> Scenario {
    Scenario {
        name: name.into(),
        what: name.into(),
        pool,
        preempt,
        devs,
        base,
        clients: 0,
        memory: true,
        run: Box::new(move || Ok(f())),
        reference: Box::new(move || Ok(want.to_string())),
    }
}
macro_rules! s {
    ($v:ident, $f:ident, $pool:expr, $p:expr, $d:expr, $base:expr, $want:expr, $bad:expr) => {
        $v.push((sc(concat!(stringify!($f), "-w", stringify!($pool), "b", stringify!($base)), $pool, $p, $d, $base, || format!("{:?}", probe::$f()), $want), $bad))
    };
}
fn main() {
    let mut v = vec![];
    s!(v, plain_counter, 2, 2, 3, 0, "2", true);
    s!(v, atomic_counter, 2, 2, 4, 0, "2", false);
    s!(v, split_counter, 2, 2, 3, 0, "2", true);
    s!(v, locked_counter, 2, 2, 4, 0, "2", false);
    s!(v, lock_order, 2, 2, 3, 0, "0", true);
    s!(v, lock_across_join, 4, 2, 4, 0, "0", true);
    s!(v, first_wins, 2, 2, 3, 0, "0", true);
    s!(v, borrowed_across_join, 3, 3, 5, 0, "0", true);
    s!(v, spin_for_sibling, 1, 1, 1, 0, "0", true);
    s!(v, completion_order, 2, 2, 3, 0, "[0, 1, 2]", true);
    s!(v, heap_race, 2, 2, 3, 0, "2", true);
    s!(v, ordered_sum, 3, 2, 3, 0, "55", false);
    s!(v, plain_counter, 2, 0, 1, 1, "2", true);
    s!(v, plain_counter, 2, 0, 1, 2, "2", true);
    s!(v, locked_counter, 2, 0, 2, 1, "2", false);
    s!(v, lock_order, 2, 0, 2, 1, "0", true);
    s!(v, lock_order, 2, 0, 2, 7, "0", true);
    s!(v, borrowed_across_join, 3, 0, 2, 1, "0", true);
    s!(v, borrowed_across_join, 3, 0, 3, 2, "0", true);
    s!(v, lock_across_join, 4, 0, 2, 20, "0", true);
    s!(v, completion_order, 3, 0, 1, 1, "[0, 1, 2]", true);
    selftest(v)
}
