//! Linearizability of a recorded history against a small sequential model (Wing and Gong's
//! search with Lowe's memoisation).
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Ev<O> {
    pub inv: u64,
    /// u64::MAX: never returned; such an operation may or may not have taken effect
    pub resp: u64,
    pub op: O,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Yes,
    No,
    /// more states than the budget allows: undecided
    Gave,
}

/// Is there an order of the operations that respects real time and the model?
/// `step` returns every state the model may reach by this operation with its recorded result.
pub fn linearizable<S: Clone + Ord, O>(
    init: &S,
    h: &[Ev<O>],
    step: &dyn Fn(&S, &O) -> Vec<S>,
    budget: usize,
) -> Verdict {
    assert!(h.len() <= 128);
    let done: u128 = h.iter().enumerate().filter(|x| x.1.resp != u64::MAX).fold(0, |m, x| m | 1 << x.0);
    let mut seen: BTreeSet<(u128, S)> = BTreeSet::new();
    let mut stack: Vec<(u128, S)> = vec![(0, init.clone())];
    while let Some((mask, st)) = stack.pop() {
        if mask & done == done {
            return Verdict::Yes;
        }
        if seen.len() > budget {
            return Verdict::Gave;
        }
        // an operation may come next unless another open one returned before it was called
        let first = h.iter().enumerate().filter(|x| mask >> x.0 & 1 == 0).map(|x| x.1.resp).min().unwrap();
        for (i, e) in h.iter().enumerate().rev() {
            if mask >> i & 1 == 1 || e.inv > first {
                continue;
            }
            for s in step(&st, &e.op) {
                let k = (mask | 1 << i, s);
                if seen.insert(k.clone()) {
                    stack.push(k);
                }
            }
        }
    }
    Verdict::No
}

#[cfg(test)]
mod tests {
    use super::*;
    #[derive(Clone)]
    enum R {
        W(u32),
        R(u32),
    }
    fn step(s: &u32, o: &R) -> Vec<u32> {
        match o {
            R::W(x) => vec![*x],
            R::R(x) => if x == s { vec![*s] } else { vec![] },
        }
    }
    #[test]
    fn register() {
        let e = |inv, resp, op| Ev { inv, resp, op };
        let ok = [e(1, 4, R::W(1)), e(2, 3, R::R(0)), e(5, 6, R::R(1))];
        assert_eq!(linearizable(&0, &ok, &step, 1000), Verdict::Yes);
        let bad = [e(1, 2, R::W(1)), e(3, 4, R::R(0))];
        assert_eq!(linearizable(&0, &bad, &step, 1000), Verdict::No);
        let pend = [e(1, u64::MAX, R::W(1)), e(3, 4, R::R(0)), e(5, 6, R::R(1))];
        assert_eq!(linearizable(&0, &pend, &step, 1000), Verdict::Yes);
        let back = [e(1, u64::MAX, R::W(1)), e(3, 4, R::R(1)), e(5, 6, R::R(0))];
        assert_eq!(linearizable(&0, &back, &step, 1000), Verdict::No);
    }
}
