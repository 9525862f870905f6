//! S01: the workload of the sanitizer runs.  The verdict is the sanitizer's
//! (or the process's death); a panic is fine here.

use crate::ops;
use crate::rt::*;
use crate::when;

fn go(cx: &mut Ctx, hostile: bool) -> Res {
    let v = ops::event(&mut cx.rng, hostile);
    cx.checks += 1;
    cx.calls += 1;
    if v.panicked {
        cx.panics_seen += 1;
    }
    cx.tag(v.op);
    let d = if cfg!(miri) { format!("{}{}", v.op, cx.rng.u64()) } else { format!("{}: {}", v.op, v.input) };
    cx.key(&d);
    cx.sample(|| format!("{} -> {}", d, v.result));
    Ok(())
}
fn proper(cx: &mut Ctx) -> Res {
    go(cx, false)
}
fn hostile(cx: &mut Ctx) -> Res {
    go(cx, true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S01",
        rule: "random calls to every public operation, half of them outside its contract (indices beyond the end, shapes that do not fit, malformed polynomials, division by zero, overflow), executed under AddressSanitizer and Miri. Distinct = distinct (operation, operands).",
        streams: when!("S01", vec![random("within the contract", 1, proper), random("outside the contract", 1, hostile)]),
        quick: 400_000,
        min_distinct: 1,
    }]
}
