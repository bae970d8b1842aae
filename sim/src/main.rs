mod algs;
mod coef;
mod drive;
mod gen;
mod model;
mod ops;
mod props;
mod trace;
mod world;

use simrt::{alloc, life, sys};
use std::cell::RefCell;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Addresses must not differ from process to process.
fn fixed_layout(args: &[String]) {
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let cur = sys::personality(0xffffffff);
        if cur < 0 || cur as u64 & NO_RANDOMIZE != 0 || std::env::var("TCSIM_EXEC").is_ok() {
            return;
        }
        if sys::personality(cur as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
        std::env::set_var("TCSIM_EXEC", "1");
        let Ok(exe) = std::ffi::CString::new("/proc/self/exe") else { return };
        let argv: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap()).collect();
        let mut ptrs: Vec<*const i8> = argv.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        sys::execv(exe.as_ptr(), ptrs.as_ptr());
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    fixed_layout(&args);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
    alloc::reserve();
    life::init();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => props::Tier::Thorough,
                _ => props::Tier::Quick,
            };
            match props.iter().find(|p| Some(p.id) == args.get(2).map(|s| s.as_str())) {
                Some(p) => drive::check(p, seed, tier),
                None => 2,
            }
        }
        Some("replay") => drive::replay(&props, &args[2]),
        Some("gen") => {
            let p = props.iter().find(|p| p.id == args[2]).unwrap();
            let page = simrt::shared::new_shared();
            let n = |i: usize| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(0);
            match drive::make(p, n(3), props::Tier::Quick, n(4), page, n(5), &mut None) {
                Ok((t, _)) | Err((t, _)) => print!("{}", t.text()),
            }
            0
        }
        _ => {
            eprintln!("usage: tcsim check ID | replay FILE | gen ID SEED RUN SUB");
            2
        }
    };
    std::process::exit(code);
}
