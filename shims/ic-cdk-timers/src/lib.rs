//! Simulated timers: same API as ic-cdk-timers 0.7; the checker decides when each due task runs.
//! As in the real library every task runs as a message of its own, so a trap in one task neither undoes
//! another task nor cancels an interval; a one-shot task that traps is gone.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TimerId(u64);

enum Func {
    Once(Option<Box<dyn FnOnce()>>),
    Interval(Option<Box<dyn FnMut()>>, u64),
}
struct Task {
    due: u64,
    func: Func,
}
#[derive(Default)]
struct Timers {
    next: u64,
    tasks: BTreeMap<u64, Task>,
}
thread_local! {
    static TIMERS: RefCell<Timers> = RefCell::default();
}
fn now() -> u64 {
    ic0::with_host(|h| h.now_ns)
}
fn add(due: u64, func: Func) -> TimerId {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        let id = t.next;
        t.next += 1;
        t.tasks.insert(id, Task { due, func });
        TimerId(id)
    })
}
pub fn set_timer(delay: Duration, func: impl FnOnce() + 'static) -> TimerId {
    add(
        now().saturating_add(delay.as_nanos() as u64),
        Func::Once(Some(Box::new(func))),
    )
}
pub fn set_timer_interval(interval: Duration, func: impl FnMut() + 'static) -> TimerId {
    let n = interval.as_nanos() as u64;
    add(now().saturating_add(n), Func::Interval(Some(Box::new(func)), n))
}
pub fn clear_timer(id: TimerId) {
    TIMERS.with(|t| t.borrow_mut().tasks.remove(&id.0));
}

/// Checker side.
pub mod sim {
    use super::*;
    /// (id, due time, is_interval) of every armed timer.
    pub fn armed() -> Vec<(u64, u64, bool)> {
        TIMERS.with(|t| {
            t.borrow()
                .tasks
                .iter()
                .map(|(id, t)| (*id, t.due, matches!(t.func, Func::Interval(..))))
                .collect()
        })
    }
    fn take(id: u64) -> Option<Func> {
        TIMERS.with(|t| {
            let mut t = t.borrow_mut();
            let task = t.tasks.get_mut(&id)?;
            match &mut task.func {
                Func::Once(f) => {
                    let f = f.take();
                    t.tasks.remove(&id);
                    Some(Func::Once(f))
                }
                Func::Interval(f, n) => {
                    task.due = now() + *n;
                    Some(Func::Interval(f.take(), *n))
                }
            }
        })
    }
    /// Runs the task's function as (part of) the current message.
    pub fn fire(id: u64) {
        match take(id) {
            Some(Func::Once(Some(f))) => f(),
            Some(Func::Interval(Some(mut f), _)) => {
                f();
                TIMERS.with(|t| {
                    if let Some(t) = t.borrow_mut().tasks.get_mut(&id) {
                        if let Func::Interval(slot, _) = &mut t.func {
                            *slot = Some(f)
                        }
                    }
                })
            }
            _ => {}
        }
    }
    /// The bookkeeping of a task whose message trapped: nothing ran.
    pub fn fire_trapped(id: u64) {
        if let Some(Func::Interval(f, _)) = take(id) {
            TIMERS.with(|t| {
                if let Some(t) = t.borrow_mut().tasks.get_mut(&id) {
                    if let Func::Interval(slot, _) = &mut t.func {
                        *slot = f
                    }
                }
            })
        }
    }
    pub fn clear_all() {
        TIMERS.with(|t| *t.borrow_mut() = Timers::default())
    }
}
