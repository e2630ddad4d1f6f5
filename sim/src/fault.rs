//! Fault seams: the allocator, the user conversions, and the panics they raise. All decisions are
//! taken by a plan the simulator installs for one operation; nothing here is random.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Plan {
    /// Panic in the k-th conversion call (1-based) of the operation; 0: never.
    pub conv_at: u32,
    /// Refuse the k-th allocation (1-based) of the operation; 0: never.
    pub alloc_at: u32,
    /// Refuse every allocation of the operation.
    pub alloc_all: bool,
    /// The sink accepts this many bytes; u32::MAX: unlimited.
    pub sink: u32,
    /// The sink refuses the k-th write call (1-based); 0: never.
    pub sink_call: u32,
}
pub const NO_PLAN: Plan = Plan { conv_at: 0, alloc_at: 0, alloc_all: false, sink: u32::MAX, sink_call: 0 };

struct Tl {
    armed: Cell<bool>,
    plan: Cell<Plan>,
    convs: Cell<u32>,
    allocs: Cell<u32>,
    refused: Cell<u32>,
    sink_calls: Cell<u32>,
    live: Cell<i64>,
    panicked: Cell<bool>,
}
thread_local! {
    static TL: Tl = const {
        Tl {
            armed: Cell::new(false),
            plan: Cell::new(NO_PLAN),
            convs: Cell::new(0),
            allocs: Cell::new(0),
            refused: Cell::new(0),
            sink_calls: Cell::new(0),
            live: Cell::new(0),
            panicked: Cell::new(false),
        }
    };
}

/// Payload of an injected panic.
pub struct Injected;
/// Message used by conversions that must stay const.
pub const MARK: &str = "VSIM-INJECTED";

#[derive(Clone, Copy, Default)]
pub struct Counts {
    pub convs: u32,
    pub allocs: u32,
    pub refused: u32,
    pub sink_calls: u32,
}

pub fn begin(p: Plan) {
    TL.with(|t| {
        t.armed.set(false);
        t.plan.set(p);
        t.convs.set(0);
        t.allocs.set(0);
        t.refused.set(0);
        t.sink_calls.set(0);
        t.panicked.set(false);
    });
}
pub fn end() -> Counts {
    TL.with(|t| {
        t.armed.set(false);
        t.plan.set(NO_PLAN);
        Counts { convs: t.convs.get(), allocs: t.allocs.get(), refused: t.refused.get(), sink_calls: t.sink_calls.get() }
    })
}
#[inline]
pub fn arm() {
    TL.with(|t| t.armed.set(true));
}
#[inline]
pub fn disarm() {
    TL.with(|t| t.armed.set(false));
}
/// Net number of allocations alive on this thread.
pub fn live() -> i64 {
    TL.with(|t| t.live.get())
}
pub fn sink_plan() -> (u32, u32) {
    TL.with(|t| {
        t.sink_calls.set(t.sink_calls.get() + 1);
        (t.plan.get().sink, if t.plan.get().sink_call == t.sink_calls.get() { 1 } else { 0 })
    })
}

/// Called by the user conversions of fault-capable custom types.
pub fn tick() {
    let fire = TL.with(|t| {
        if !t.armed.get() {
            return false;
        }
        t.convs.set(t.convs.get() + 1);
        t.plan.get().conv_at == t.convs.get()
    });
    if fire {
        disarm();
        std::panic::panic_any(Injected);
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit() {
            return core::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        count(p);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit() {
            return core::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        count(p);
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !admit() {
            return core::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = TL.try_with(|t| t.live.set(t.live.get() - 1));
        unsafe { System.dealloc(p, l) }
    }
}
fn count(p: *mut u8) {
    if !p.is_null() {
        let _ = TL.try_with(|t| t.live.set(t.live.get() + 1));
    }
}
fn admit() -> bool {
    TL.try_with(|t| {
        if !t.armed.get() {
            return true;
        }
        t.allocs.set(t.allocs.get() + 1);
        let p = t.plan.get();
        let ok = !(p.alloc_all || p.alloc_at == t.allocs.get());
        if !ok {
            t.refused.set(t.refused.get() + 1);
        }
        ok
    })
    .unwrap_or(true)
}

/// Installs the panic hook and the out-of-memory hook.
pub fn install() {
    std::panic::set_hook(Box::new(|_| {
        disarm();
        TL.with(|t| t.panicked.set(true));
    }));
    std::alloc::set_alloc_error_hook(|_| {
        disarm();
        std::panic::panic_any(Injected);
    });
}
