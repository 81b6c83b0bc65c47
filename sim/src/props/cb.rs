//! User code that the library calls back: it counts calls, yields to other simulated threads, or
//! crashes, as the simulator decides.

use std::cell::RefCell;

use linesweeper::topology::WindingNumber;

/// What's being called.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call {
    Single,
    Add,
    AddAssign,
    Default,
    Clone,
    Eq,
    Predicate,
    Event,
    Iterator,
}

pub const CALLS: [&str; 9] = [
    "crash_in_single",
    "crash_in_add",
    "crash_in_add_assign",
    "crash_in_default",
    "crash_in_clone",
    "crash_in_eq",
    "crash_in_predicate",
    "crash_in_event_callback",
    "crash_in_iterator",
];

type Hook = Box<dyn FnMut(Call)>;

thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// User code was called.
pub fn called(c: Call) {
    HOOK.with(|h| {
        if let Ok(mut h) = h.try_borrow_mut() {
            if let Some(f) = &mut *h {
                f(c);
            }
        }
    });
}

pub struct CallGuard(Option<Hook>);

impl Drop for CallGuard {
    fn drop(&mut self) {
        let prev = self.0.take();
        HOOK.with(|h| *h.borrow_mut() = prev);
    }
}

/// From now on, on this thread, calls `f` for each call, until the guard gets dropped.
pub fn on_calls(f: impl FnMut(Call) + 'static) -> CallGuard {
    CallGuard(HOOK.with(|h| h.borrow_mut().replace(Box::new(f))))
}

/// Winding numbers with respect to two sets. Deliberately neither `Copy` nor small.
#[derive(Debug)]
pub struct Wn {
    pub a: i32,
    pub b: i32,
    #[allow(dead_code)]
    ballast: Box<[u8; 3]>,
}

impl Wn {
    fn new(a: i32, b: i32) -> Self {
        Wn {
            a,
            b,
            ballast: Box::new([1, 2, 3]),
        }
    }
}

impl Default for Wn {
    fn default() -> Self {
        called(Call::Default);
        Wn::new(0, 0)
    }
}

impl Clone for Wn {
    fn clone(&self) -> Self {
        called(Call::Clone);
        Wn::new(self.a, self.b)
    }
}

impl PartialEq for Wn {
    fn eq(&self, other: &Self) -> bool {
        called(Call::Eq);
        (self.a, self.b) == (other.a, other.b)
    }
}

impl Eq for Wn {}

impl std::ops::Add for Wn {
    type Output = Wn;
    fn add(self, rhs: Wn) -> Wn {
        called(Call::Add);
        Wn::new(self.a + rhs.a, self.b + rhs.b)
    }
}

impl std::ops::AddAssign for Wn {
    fn add_assign(&mut self, rhs: Wn) {
        called(Call::AddAssign);
        self.a += rhs.a;
        self.b += rhs.b;
    }
}

impl WindingNumber for Wn {
    type Tag = bool;
    fn single(tag: bool, positive: bool) -> Self {
        called(Call::Single);
        let n = if positive { 1 } else { -1 };
        if tag {
            Wn::new(n, 0)
        } else {
            Wn::new(0, n)
        }
    }
}
