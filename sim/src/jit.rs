//! Compiles programs with the repository's compiler and runs the machine code
//! in-process, against a run-time library backed by the simulated device.

use std::collections::BTreeMap;
use std::ffi::{c_char, CStr};

use hugr::Hugr;
use selene_hugr_qis_compiler as qis;
use tket::hugr::llvm::inkwell;

use crate::dev::Run;
use crate::device::{Dev, DevCfg, End, NO_QUBIT};
use crate::qsim::Gate;

extern "C" {
    fn sim_guarded(f: usize, arg: i64, ret: *mut i64) -> i32;
    fn sim_leave() -> !;
}

/// Run-time calls after which a run counts as not ending.
const MAX_CALLS: u64 = 200_000;

struct Block {
    map: usize,
    len: usize,
    size: usize,
    freed: bool,
}

#[derive(Default)]
struct Heap {
    blocks: BTreeMap<usize, Block>,
    allocs: u64,
    frees: u64,
}

struct Rt {
    dev: Dev,
    heap: Heap,
    end: End,
    setup: Option<u64>,
    teardown: bool,
    calls: u64,
    tc: u64,
    left_heap: usize,
    gpu_error_taken: bool,
    stopping: bool,
    gpu_text: Option<std::ffi::CString>,
}

static mut RT: Option<Box<Rt>> = None;

#[allow(static_mut_refs)]
fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().expect("run-time library used outside a run") }
}

/// Every entry point passes here: counts the call, leaves the program if a
/// monitor fired.
fn enter() -> &'static mut Rt {
    let r = rt();
    r.calls += 1;
    if r.calls > MAX_CALLS {
        r.dev.bad("runaway", format!("more than {MAX_CALLS} run-time calls"));
    }
    if let (Some(k), false) = (r.dev.gpu_failed, r.gpu_error_taken) {
        r.dev.bad("gpu-ignored", format!("{k} failed in the GPU library, but the program went on"));
    }
    if r.gpu_error_taken && !r.stopping {
        r.dev.bad("gpu-ignored", "the program went on after asking for the error of the GPU library");
    }
    if r.setup.is_none() || r.teardown {
        r.dev.bad("outside-shot", "run-time call before setup or after teardown");
    }
    leave_if_bad();
    rt()
}

fn leave_if_bad() {
    if !rt().dev.viol.is_empty() {
        rt().end = End::Aborted;
        unsafe { sim_leave() }
    }
}

fn text(p: *const c_char, len: usize) -> String {
    let b = unsafe { std::slice::from_raw_parts(p as *const u8, len) };
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => {
            rt().dev.bad("text", format!("text is not UTF-8: {b:?}"));
            String::new()
        }
    }
}

/// A length-prefixed string.
fn prefixed(p: *const c_char) -> String {
    let n = unsafe { *(p as *const u8) } as usize;
    text(unsafe { p.add(1) }, n)
}

extern "C" fn rt_setup(tc: u64) {
    let r = rt();
    if r.setup.is_some() {
        r.dev.bad("outside-shot", "setup called twice");
    }
    r.setup = Some(tc);
}
extern "C" fn rt_teardown() -> u64 {
    let r = enter();
    r.teardown = true;
    r.tc + 1
}
extern "C" fn rt_qalloc() -> u64 {
    let r = enter();
    let x = r.dev.qalloc().unwrap_or(NO_QUBIT);
    leave_if_bad();
    x
}
extern "C" fn rt_qfree(q: u64) {
    enter().dev.qfree(q);
    leave_if_bad();
}
extern "C" fn rt_rz(q: u64, t: f64) {
    use std::f64::consts::PI;
    enter().dev.gate1(q, "Rz", Gate::Rz(t / PI), vec![t]);
    leave_if_bad();
}
extern "C" fn rt_rxy(q: u64, t: f64, p: f64) {
    use std::f64::consts::PI;
    enter().dev.gate1(q, "PhasedX", Gate::PhasedX(t / PI, p / PI), vec![t, p]);
    leave_if_bad();
}
extern "C" fn rt_rzz(p: u64, q: u64, t: f64) {
    use std::f64::consts::PI;
    enter().dev.gate2(p, q, "ZZPhase", Gate::ZZPhase(t / PI), vec![t]);
    leave_if_bad();
}
extern "C" fn rt_measure(q: u64) -> bool {
    let m = enter().dev.measure(q);
    leave_if_bad();
    m == 1
}
extern "C" fn rt_lazy_measure(q: u64) -> u64 {
    let d = &mut enter().dev;
    let m = d.measure(q);
    let f = d.new_future(m as u64, true);
    leave_if_bad();
    f
}
extern "C" fn rt_lazy_measure_leaked(q: u64) -> u64 {
    let d = &mut enter().dev;
    let m = d.measure_leaked(q);
    let f = d.new_future(m as u64, false);
    leave_if_bad();
    f
}
extern "C" fn rt_reset(q: u64) {
    enter().dev.reset(q);
    leave_if_bad();
}
extern "C" fn rt_read_future_bool(f: u64) -> bool {
    let v = enter().dev.read_future(f, true);
    leave_if_bad();
    v == 1
}
extern "C" fn rt_read_future_uint(f: u64) -> u64 {
    let v = enter().dev.read_future(f, false);
    leave_if_bad();
    v
}
extern "C" fn rt_inc_future(f: u64) {
    enter().dev.inc_future(f);
    leave_if_bad();
}
extern "C" fn rt_dec_future(f: u64) {
    enter().dev.dec_future(f);
    leave_if_bad();
}

// The heap: every block ends at a page nobody may touch; released blocks
// become such pages themselves.

const PAGE: usize = 4096;
const FILL: u8 = 0xA5;

extern "C" fn rt_heap_alloc(size: u64) -> usize {
    let r = enter();
    if size > 1 << 24 {
        r.dev.bad("heap-size", format!("request for {size} bytes"));
    }
    leave_if_bad();
    let r = rt();
    r.heap.allocs += 1;
    let size = size as usize;
    let body = size.div_ceil(PAGE) * PAGE;
    let len = body + 2 * PAGE;
    unsafe {
        let map = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
        if body > 0 {
            libc::mprotect((map + PAGE) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE);
            std::ptr::write_bytes((map + PAGE) as *mut u8, FILL, body);
        }
        let p = (map + PAGE + body - size) & !7;
        r.heap.blocks.insert(p, Block { map, len, size, freed: false });
        p
    }
}

extern "C" fn rt_heap_free(p: usize) {
    let r = enter();
    let mut err = None;
    match r.heap.blocks.get_mut(&p) {
        None => err = Some(("heap-bad-free", format!("release of an address that was never handed out ({:#x} into a block)", p & 0xfff))),
        Some(b) if b.freed => err = Some(("heap-double-free", format!("second release of a block of {} bytes", b.size))),
        Some(b) => unsafe {
            r.heap.frees += 1;
            b.freed = true;
            let lo = b.map + PAGE;
            let hi = b.map + b.len - PAGE;
            let outside = (lo..p).chain(p + b.size..hi).any(|a| *(a as *const u8) != FILL);
            if outside {
                err = Some(("heap-overrun", format!("bytes around a block of {} bytes were overwritten", b.size)));
            }
            libc::mprotect(b.map as *mut _, b.len, libc::PROT_NONE);
        },
    }
    if let Some((c, m)) = err {
        r.dev.bad(c, m);
    }
    leave_if_bad();
}

fn result(kind: &'static str, prefix: &str, tag: *const c_char, len: u64, bits: Vec<u64>) {
    let t = text(unsafe { tag.add(1) }, len as usize);
    let r = rt();
    if unsafe { *(tag as *const u8) } as u64 != len {
        r.dev.bad("result-tag", format!("tag {t:?} is said to have {len} bytes"));
    }
    match t.strip_prefix(prefix) {
        Some(t) => {
            let t = t.to_string();
            r.dev.result(kind, &t, bits)
        }
        None => r.dev.bad("result-tag", format!("tag {t:?} does not start with {prefix:?}")),
    }
}

extern "C" fn rt_print_bool(t: *const c_char, n: u64, v: u8) {
    enter();
    result("USER:BOOL", "USER:BOOL:", t, n, vec![(v & 1) as u64]);
    leave_if_bad();
}
extern "C" fn rt_print_int(t: *const c_char, n: u64, v: u64) {
    enter();
    result("USER:INT", "USER:INT:", t, n, vec![v]);
    leave_if_bad();
}
extern "C" fn rt_print_uint(t: *const c_char, n: u64, v: u64) {
    enter();
    result("USER:UINT", "USER:INT:", t, n, vec![v]);
    leave_if_bad();
}
extern "C" fn rt_print_float(t: *const c_char, n: u64, v: f64) {
    enter();
    result("USER:FLOAT", "USER:FLOAT:", t, n, vec![v.to_bits()]);
    leave_if_bad();
}

#[repr(C, packed)]
struct Arr1d {
    x: u32,
    y: u32,
    data: *const u8,
    mask: *const u8,
}

fn array(a: *const Arr1d, width: usize) -> Vec<u64> {
    let a = unsafe { std::ptr::read_unaligned(a) };
    let (x, y, data, mask) = (a.x as usize, a.y, a.data, a.mask);
    if y != 1 {
        rt().dev.bad("result-array", format!("array result with {y} rows"));
    }
    let mut v = vec![];
    for i in 0..x {
        unsafe {
            if *mask.add(i) & 1 != 0 {
                rt().dev.bad("result-array", format!("element {i} of an array result is masked out"));
            }
            v.push(match width {
                1 => (*data.add(i) & 1) as u64,
                _ => std::ptr::read_unaligned(data.add(8 * i) as *const u64),
            });
        }
    }
    v
}

extern "C" fn rt_print_bool_arr(t: *const c_char, n: u64, a: *const Arr1d) {
    enter();
    result("USER:BOOLARR", "USER:BOOLARR:", t, n, array(a, 1));
    leave_if_bad();
}
extern "C" fn rt_print_int_arr(t: *const c_char, n: u64, a: *const Arr1d) {
    enter();
    result("USER:INTARR", "USER:INTARR:", t, n, array(a, 8));
    leave_if_bad();
}
extern "C" fn rt_print_uint_arr(t: *const c_char, n: u64, a: *const Arr1d) {
    enter();
    result("USER:UINTARR", "USER:INTARR:", t, n, array(a, 8));
    leave_if_bad();
}
extern "C" fn rt_print_float_arr(t: *const c_char, n: u64, a: *const Arr1d) {
    enter();
    result("USER:FLOATARR", "USER:FLOATARR:", t, n, array(a, 8));
    leave_if_bad();
}
extern "C" fn rt_print_state_result(t: *const c_char, n: u64, a: *const Arr1d) {
    enter();
    let tag = text(unsafe { t.add(1) }, n as usize);
    let ids = array(a, 8);
    match tag.strip_prefix("USER:STATE:") {
        Some(s) => rt().dev.state_result(s, &ids),
        None => rt().dev.bad("result-tag", format!("tag {tag:?} does not start with \"USER:STATE:\"")),
    }
    drop((tag, ids));
    leave_if_bad();
}

extern "C" fn rt_panic(code: u32, msg: *const c_char) -> ! {
    enter();
    {
        let m = prefixed(msg);
        let r = rt();
        match m.strip_prefix("EXIT:INT:") {
            None => r.dev.bad("stop-message", format!("message {m:?} does not start with \"EXIT:INT:\"")),
            Some(m) => r.end = if code > 1000 { End::Stop(false, code - 1000, m.into()) } else { End::Stop(true, code, m.into()) },
        }
    }
    leave_if_bad();
    unsafe { sim_leave() }
}
extern "C" fn rt_panic_str(code: u32, msg: *const c_char) -> ! {
    rt().stopping = true;
    enter();
    if rt().gpu_error_taken && code != 70002 {
        rt().dev.bad("gpu-error", format!("GPU error reported with code {code}"));
    }
    leave_if_bad();
    {
        let m = unsafe { CStr::from_ptr(msg) }.to_string_lossy().into_owned();
        rt().end = End::Stop(false, code, m);
    }
    unsafe { sim_leave() }
}

extern "C" fn rt_random_seed(s: u64) {
    enter().dev.random_seed(s);
}
extern "C" fn rt_random_int() -> u32 {
    enter().dev.random_int()
}
extern "C" fn rt_random_float() -> f64 {
    enter().dev.random_float()
}
extern "C" fn rt_random_rng(n: u32) -> u32 {
    enter().dev.random_bounded(n)
}
extern "C" fn rt_random_advance(n: u64) {
    enter().dev.random_advance(n);
}
extern "C" fn rt_get_current_shot() -> u64 {
    enter().dev.cfg.shot
}

extern "C" fn rt_gpu_validate_api(a: u64, b: u64, c: u64) -> u8 {
    let r = enter().dev.gpu_validate([a, b, c]);
    leave_if_bad();
    r.is_ok() as u8
}
extern "C" fn rt_gpu_init(index: u64, out: *mut u64) -> u8 {
    let r = enter().dev.gpu_init(index);
    leave_if_bad();
    unsafe { *out = r.unwrap_or(0xDEAD) };
    r.is_ok() as u8
}
extern "C" fn rt_gpu_discard(h: u64) -> u8 {
    let r = enter().dev.gpu_discard(h);
    leave_if_bad();
    r.is_ok() as u8
}
extern "C" fn rt_gpu_get_function_id(name: *const c_char, out: *mut u64) -> u8 {
    enter();
    let r = {
        let n = unsafe { CStr::from_ptr(name) }.to_string_lossy().into_owned();
        rt().dev.gpu_function(&n)
    };
    leave_if_bad();
    unsafe { *out = r.unwrap_or(0xDEAD) };
    r.is_ok() as u8
}
extern "C" fn rt_gpu_call(h: u64, f: u64, size: u64, blob: *const u8, sig: *const c_char) -> u8 {
    enter();
    let r = {
        let sig = unsafe { CStr::from_ptr(sig) }.to_string_lossy().into_owned();
        let mut b = unsafe { std::slice::from_raw_parts(blob, size as usize) };
        let mut args = vec![];
        for c in sig.split(':').next().unwrap_or("").chars() {
            let w = if c == 'b' { 1 } else { 8 };
            if b.len() < w {
                rt().dev.bad("gpu-arguments", format!("{size} bytes of arguments for {sig:?}"));
                break;
            }
            let mut x = [0; 8];
            x[..w].copy_from_slice(&b[..w]);
            args.push(u64::from_le_bytes(x));
            b = &b[w..];
        }
        if !b.is_empty() && rt().dev.viol.is_empty() {
            rt().dev.bad("gpu-arguments", format!("{size} bytes of arguments for {sig:?}"));
        }
        let d = &mut rt().dev;
        let name = match GPU_NAMES.with(|g| g.borrow().get(&f).cloned()).or_else(|| d.gpu_names.get(&f).cloned()) {
            Some(n) => n,
            None => format!("#{f}"),
        };
        d.gpu_call(h, &name, &sig, &args)
    };
    leave_if_bad();
    r.is_ok() as u8
}
extern "C" fn rt_gpu_get_result(h: u64, len: u64, out: *mut u8) -> u8 {
    let r = enter().dev.gpu_result(h);
    if len != 8 {
        rt().dev.bad("gpu-result", format!("result of {len} bytes asked for"));
    }
    leave_if_bad();
    unsafe { std::ptr::copy_nonoverlapping(r.unwrap_or(0xDEAD_DEAD_DEAD).to_le_bytes().as_ptr(), out, 8) };
    r.is_ok() as u8
}
extern "C" fn rt_gpu_get_error() -> *const c_char {
    let r = rt();
    r.gpu_error_taken = true;
    r.gpu_text = r.dev.gpu_error().map(|s| std::ffi::CString::new(s).unwrap());
    r.gpu_text.as_ref().map_or(std::ptr::null(), |s| s.as_ptr())
}

thread_local! {
    /// Functions looked up by earlier shots of the same program.
    static GPU_NAMES: std::cell::RefCell<BTreeMap<u64, String>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

fn symbols() -> Vec<(&'static str, usize)> {
    vec![
        ("setup", rt_setup as *const () as usize),
        ("teardown", rt_teardown as *const () as usize),
        ("___qalloc", rt_qalloc as *const () as usize),
        ("___qfree", rt_qfree as *const () as usize),
        ("___rz", rt_rz as *const () as usize),
        ("___rxy", rt_rxy as *const () as usize),
        ("___rzz", rt_rzz as *const () as usize),
        ("___measure", rt_measure as *const () as usize),
        ("___lazy_measure", rt_lazy_measure as *const () as usize),
        ("___lazy_measure_leaked", rt_lazy_measure_leaked as *const () as usize),
        ("___reset", rt_reset as *const () as usize),
        ("___read_future_bool", rt_read_future_bool as *const () as usize),
        ("___read_future_uint", rt_read_future_uint as *const () as usize),
        ("___inc_future_refcount", rt_inc_future as *const () as usize),
        ("___dec_future_refcount", rt_dec_future as *const () as usize),
        ("heap_alloc", rt_heap_alloc as *const () as usize),
        ("heap_free", rt_heap_free as *const () as usize),
        ("print_bool", rt_print_bool as *const () as usize),
        ("print_int", rt_print_int as *const () as usize),
        ("print_uint", rt_print_uint as *const () as usize),
        ("print_float", rt_print_float as *const () as usize),
        ("print_bool_arr", rt_print_bool_arr as *const () as usize),
        ("print_int_arr", rt_print_int_arr as *const () as usize),
        ("print_uint_arr", rt_print_uint_arr as *const () as usize),
        ("print_float_arr", rt_print_float_arr as *const () as usize),
        ("print_state_result", rt_print_state_result as *const () as usize),
        ("panic", rt_panic as *const () as usize),
        ("panic_str", rt_panic_str as *const () as usize),
        ("random_seed", rt_random_seed as *const () as usize),
        ("random_int", rt_random_int as *const () as usize),
        ("random_float", rt_random_float as *const () as usize),
        ("random_rng", rt_random_rng as *const () as usize),
        ("random_advance", rt_random_advance as *const () as usize),
        ("gpu_validate_api", rt_gpu_validate_api as *const () as usize),
        ("gpu_init", rt_gpu_init as *const () as usize),
        ("gpu_discard", rt_gpu_discard as *const () as usize),
        ("gpu_get_function_id", rt_gpu_get_function_id as *const () as usize),
        ("gpu_call", rt_gpu_call as *const () as usize),
        ("gpu_get_result", rt_gpu_get_result as *const () as usize),
        ("gpu_get_error", rt_gpu_get_error as *const () as usize),
        ("get_current_shot", rt_get_current_shot as *const () as usize),
    ]
}

pub struct Compiled {
    entry: usize,
    /// The lowered program the machine code was made from.
    pub lowered: &'static Hugr,
    pub ir: String,
}

pub enum Failed {
    /// The compiler refused the program.
    Refused(String),
    /// The generated module is not one the device could load.
    Bad(String),
}

fn opt_level(o: u32) -> inkwell::OptimizationLevel {
    use inkwell::OptimizationLevel::*;
    [None, Less, Default, Aggressive][o as usize & 3]
}

/// Compiles a program; panics of the compiler propagate.
pub fn compile(h: Hugr, opt: u32) -> Result<Compiled, Failed> {
    let level = opt_level(opt);
    let tm = qis::get_native_target_machine(level).map_err(|e| Failed::Refused(format!("{e:#}")))?;
    let ctx: &'static inkwell::context::Context = Box::leak(Box::new(inkwell::context::Context::create()));
    let h: *mut Hugr = Box::into_raw(Box::new(h));
    let module = qis::verif_compile("sim", &tm, level, ctx, unsafe { &mut *h }).map_err(|e| Failed::Refused(format!("{e:#}")))?;
    let ir = if std::env::var_os("DUMP").is_some() { module.print_to_string().to_string() } else { String::new() };
    let mut g = module.get_first_global();
    while let Some(x) = g {
        if x.is_thread_local() {
            x.set_thread_local(false);
        }
        g = x.get_next_global();
    }
    let engine = module.create_jit_execution_engine(level).map_err(|e| Failed::Bad(e.to_string()))?;
    let sy: BTreeMap<&str, usize> = symbols().into_iter().collect();
    let mut f = module.get_first_function();
    while let Some(x) = f {
        let name = x.get_name().to_string_lossy().into_owned();
        if x.count_basic_blocks() == 0 && !name.starts_with("llvm.") {
            match sy.get(name.as_str()) {
                Some(a) => engine.add_global_mapping(&x, *a),
                None if ["pow", "powf", "fmod", "floor", "ceil", "round", "memcpy", "memset", "memmove", "memcmp", "bcmp"].contains(&name.as_str()) => {}
                None => return Err(Failed::Bad(format!("the module needs `{name}`, which the run-time library does not have"))),
            }
        }
        f = x.get_next_function();
    }
    let entry = engine.get_function_address("qmain").map_err(|e| Failed::Bad(e.to_string()))?;
    std::mem::forget(engine);
    std::mem::forget(module);
    Ok(Compiled { entry, lowered: unsafe { &*h }, ir })
}

/// The module's LLVM text.
pub fn llvm_text(mut h: Hugr, opt: u32) -> Result<String, String> {
    let level = opt_level(opt);
    let tm = qis::get_native_target_machine(level).map_err(|e| format!("{e:#}"))?;
    let ctx = inkwell::context::Context::create();
    let module = qis::verif_compile("sim", &tm, level, &ctx, &mut h).map_err(|e| format!("{e:#}"))?;
    Ok(module.print_to_string().to_string())
}

pub struct Shot {
    pub run: Run,
    pub heap_allocs: u64,
    pub heap_left: usize,
    pub calls: u64,
}

/// Runs one shot.
#[allow(static_mut_refs)]
pub fn shot(c: &Compiled, cfg: DevCfg) -> Shot {
    let tc = 4242;
    unsafe {
        RT = Some(Box::new(Rt {
            dev: Dev::new(cfg),
            heap: Heap::default(),
            end: End::Normal,
            setup: None,
            teardown: false,
            calls: 0,
            tc,
            left_heap: 0,
            gpu_error_taken: false,
            stopping: false,
            gpu_text: None,
        }));
        let mut ret = 0;
        crate::runner::phase("compiled code");
        let left = sim_guarded(c.entry, tc as i64, &mut ret);
        crate::runner::phase("");
        let mut r = RT.take().unwrap();
        if left == 0 {
            if r.setup != Some(tc) {
                r.dev.bad("outside-shot", format!("setup called with {:?} for {tc}", r.setup));
            }
            if !r.teardown {
                r.dev.bad("outside-shot", "teardown was not called");
            } else if ret as u64 != tc + 1 {
                r.dev.bad("outside-shot", format!("returned {ret}, not what teardown returned"));
            }
            r.dev.check_end();
        }
        GPU_NAMES.with(|g| g.borrow_mut().extend(r.dev.gpu_names.clone()));
        r.left_heap = r.heap.blocks.values().filter(|b| !b.freed).count();
        let amp = r.dev.amplitude();
        let s = Shot { heap_allocs: r.heap.allocs, heap_left: r.left_heap, calls: r.calls, run: Run { end: r.end.clone(), dev: r.dev, amp } };
        for b in r.heap.blocks.values() {
            libc::munmap(b.map as *mut _, b.len);
        }
        s
    }
}
