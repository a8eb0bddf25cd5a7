//! Controlled replacements: every operation is a scheduling point of the explorer.

use crate::sched;

pub fn is_available() -> bool {
    sched::point("is_available");
    sched::available()
}

pub mod thread {
    use crate::sched;
    pub fn yield_now() {
        sched::point("yield");
    }
    pub fn spin_loop() {
        sched::point("spin");
    }
}

pub mod sync {
    pub mod atomic {
        use crate::sched;
        use std::cell::Cell;
        pub use std::sync::atomic::Ordering;

        pub fn fence(_: Ordering) {
            sched::point("fence");
        }

        macro_rules! atomic {
            ($name:ident, $t:ty) => {
                /// Sequentially consistent: there is one variable, and every schedule is tried.
                pub struct $name {
                    init: $t,
                    v: Cell<(u64, $t)>,
                }
                // only the thread that holds the scheduler's turn touches it
                unsafe impl Sync for $name {}
                impl $name {
                    pub const fn new(init: $t) -> Self {
                        $name { init, v: Cell::new((0, init)) }
                    }
                    fn get(&self) -> $t {
                        let e = sched::epoch();
                        if self.v.get().0 != e {
                            self.v.set((e, self.init));
                        }
                        self.v.get().1
                    }
                    fn put(&self, x: $t) {
                        self.v.set((sched::epoch(), x));
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        sched::point("load");
                        self.get()
                    }
                    pub fn store(&self, x: $t, _: Ordering) {
                        sched::point("store");
                        self.put(x);
                    }
                    pub fn swap(&self, x: $t, _: Ordering) -> $t {
                        sched::point("swap");
                        let o = self.get();
                        self.put(x);
                        o
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        sched::point("compare_exchange");
                        let o = self.get();
                        if o == a {
                            self.put(b);
                            Ok(o)
                        } else {
                            Err(o)
                        }
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, x, y)
                    }
                    pub fn fetch_update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        sched::point("fetch_update");
                        let o = self.get();
                        match f(o) {
                            Some(x) => {
                                self.put(x);
                                Ok(o)
                            }
                            None => Err(o),
                        }
                    }
                }
            };
        }
        macro_rules! arith {
            ($($name:ident $t:ty)*) => {$(
                atomic!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_add");
                        let o = self.get();
                        self.put(o.wrapping_add(x));
                        o
                    }
                    pub fn fetch_sub(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_sub");
                        let o = self.get();
                        self.put(o.wrapping_sub(x));
                        o
                    }
                    pub fn fetch_or(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_or");
                        let o = self.get();
                        self.put(o | x);
                        o
                    }
                    pub fn fetch_and(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_and");
                        let o = self.get();
                        self.put(o & x);
                        o
                    }
                    pub fn fetch_max(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_max");
                        let o = self.get();
                        self.put(o.max(x));
                        o
                    }
                    pub fn fetch_min(&self, x: $t, _: Ordering) -> $t {
                        sched::point("fetch_min");
                        let o = self.get();
                        self.put(o.min(x));
                        o
                    }
                }
            )*};
        }
        arith!(AtomicUsize usize AtomicIsize isize AtomicU8 u8 AtomicI8 i8 AtomicU16 u16 AtomicU32 u32 AtomicI32 i32 AtomicU64 u64);
        atomic!(AtomicBool, bool);
    }

    use crate::sched;
    use std::cell::Cell;

    /// 0 fresh, 1 running, 2 done
    pub struct Once {
        v: Cell<(u64, u8)>,
    }
    unsafe impl Sync for Once {}
    impl Once {
        pub const fn new() -> Once {
            Once { v: Cell::new((0, 0)) }
        }
        fn get(&self) -> u8 {
            let e = sched::epoch();
            if self.v.get().0 != e {
                self.v.set((e, 0));
            }
            self.v.get().1
        }
        fn put(&self, x: u8) {
            self.v.set((sched::epoch(), x));
        }
        pub fn call_once(&self, f: impl FnOnce()) {
            sched::point("once");
            loop {
                match self.get() {
                    2 => return,
                    0 => {
                        self.put(1);
                        struct Reset<'a>(&'a Once);
                        impl Drop for Reset<'_> {
                            fn drop(&mut self) {
                                if std::thread::panicking() {
                                    self.0.put(2);
                                    sched::wake(self.0 as *const Once as usize);
                                }
                            }
                        }
                        let g = Reset(self);
                        f();
                        std::mem::forget(g);
                        sched::point("once done");
                        self.put(2);
                        sched::wake(self as *const Once as usize);
                        return;
                    }
                    _ => sched::block(self as *const Once as usize),
                }
            }
        }
        pub fn call_once_force(&self, f: impl FnOnce(())) {
            self.call_once(|| f(()))
        }
        pub fn is_completed(&self) -> bool {
            sched::point("once is_completed");
            self.get() == 2
        }
    }

    pub struct OnceLock<T> {
        once: Once,
        v: Cell<Option<T>>,
    }
    unsafe impl<T> Sync for OnceLock<T> {}
    impl<T: Copy> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { once: Once::new(), v: Cell::new(None) }
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            self.once.call_once(|| self.v.set(Some(f())));
            unsafe { (*self.v.as_ptr()).as_ref().unwrap() }
        }
        pub fn get(&self) -> Option<&T> {
            if self.once.is_completed() {
                unsafe { (*self.v.as_ptr()).as_ref() }
            } else {
                None
            }
        }
        pub fn set(&self, x: T) -> Result<(), T> {
            let mut y = Some(x);
            self.once.call_once(|| self.v.set(y.take()));
            match y {
                None => Ok(()),
                Some(x) => Err(x),
            }
        }
    }
}
