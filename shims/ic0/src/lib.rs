//! Simulated Internet Computer system API.
//!
//! Same functions as the real `ic0` crate, with pointer-sized arguments widened to `isize`, implemented
//! over a thread-local `Host`.  The checker owns the `Host`: it fills in the message context before it
//! runs a message and collects outgoing calls and the reply afterwards.
#![allow(clippy::missing_safety_doc)]

use std::cell::RefCell;
use std::collections::BTreeMap;

const CHUNK: u64 = 4096;

/// Sparse stable memory; survives upgrades.
#[derive(Default, Clone)]
pub struct Stable {
    pub pages: u64,
    /// Number of writes so far.
    pub writes: u64,
    chunks: BTreeMap<u64, Box<[u8]>>,
}

impl Stable {
    pub fn read(&self, mut off: u64, dst: &mut [u8]) {
        assert!(off + dst.len() as u64 <= self.pages * 65536, "stable read out of bounds");
        let mut done = 0;
        while done < dst.len() {
            let (c, o) = (off / CHUNK, (off % CHUNK) as usize);
            let n = (CHUNK as usize - o).min(dst.len() - done);
            match self.chunks.get(&c) {
                Some(b) => dst[done..done + n].copy_from_slice(&b[o..o + n]),
                None => dst[done..done + n].fill(0),
            }
            done += n;
            off += n as u64;
        }
    }
    pub fn write(&mut self, mut off: u64, src: &[u8]) {
        assert!(off + src.len() as u64 <= self.pages * 65536, "stable write out of bounds");
        self.writes += 1;
        let mut done = 0;
        while done < src.len() {
            let (c, o) = (off / CHUNK, (off % CHUNK) as usize);
            let n = (CHUNK as usize - o).min(src.len() - done);
            let b = self
                .chunks
                .entry(c)
                .or_insert_with(|| vec![0u8; CHUNK as usize].into_boxed_slice());
            b[o..o + n].copy_from_slice(&src[done..done + n]);
            done += n;
            off += n as u64;
        }
    }
    pub fn grow(&mut self, n: u64) -> i64 {
        let old = self.pages;
        self.pages += n;
        old as i64
    }
}

/// One outgoing inter-canister call.
#[derive(Clone, Debug)]
pub struct OutCall {
    pub callee: Vec<u8>,
    pub method: String,
    pub args: Vec<u8>,
    pub cycles: u128,
    pub reply_fun: isize,
    pub reply_env: isize,
    pub cleanup_fun: isize,
    pub cleanup_env: isize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reply {
    Reply(Vec<u8>),
    Reject(String),
}

/// The context of the message being executed.
#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub caller: Vec<u8>,
    pub method: String,
    pub arg: Vec<u8>,
    pub reject_code: i32,
    pub reject_msg: String,
    pub reply_buf: Vec<u8>,
    pub reply: Option<Reply>,
    pub already_replied: bool,
}

pub struct Host {
    pub now_ns: u64,
    pub self_id: Vec<u8>,
    pub balance: u128,
    pub msg: Msg,
    pub building: Option<OutCall>,
    pub outbox: Vec<OutCall>,
    pub stable: Stable,
    pub instructions: u64,
    pub verbose: bool,
    pub prints: Vec<String>,
    /// Set by a checker that wants traps delivered to it instead of as a Rust panic.
    pub on_trap: Option<fn(&str) -> !>,
}

impl Default for Host {
    fn default() -> Self {
        Host {
            now_ns: 1_700_000_000_000_000_000,
            self_id: vec![0, 0, 0, 0, 0, 0, 0, 7, 1, 1],
            balance: u128::MAX / 2,
            msg: Msg::default(),
            building: None,
            outbox: vec![],
            stable: Stable::default(),
            instructions: 0,
            verbose: false,
            prints: vec![],
            on_trap: None,
        }
    }
}

thread_local! {
    pub static HOST: RefCell<Host> = RefCell::new(Host::default());
}

pub fn with_host<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}

unsafe fn slice<'a>(src: isize, size: isize) -> &'a [u8] {
    if size == 0 {
        return &[];
    }
    std::slice::from_raw_parts(src as *const u8, size as usize)
}
unsafe fn copy(data: &[u8], dst: isize, off: isize, size: isize) {
    if size == 0 {
        return;
    }
    let out = std::slice::from_raw_parts_mut(dst as *mut u8, size as usize);
    out.copy_from_slice(&data[off as usize..(off + size) as usize]);
}

pub unsafe fn msg_arg_data_size() -> isize {
    with_host(|h| h.msg.arg.len() as isize)
}
pub unsafe fn msg_arg_data_copy(dst: isize, off: isize, size: isize) {
    with_host(|h| copy(&h.msg.arg, dst, off, size))
}
pub unsafe fn msg_caller_size() -> isize {
    with_host(|h| h.msg.caller.len() as isize)
}
pub unsafe fn msg_caller_copy(dst: isize, off: isize, size: isize) {
    with_host(|h| copy(&h.msg.caller, dst, off, size))
}
pub unsafe fn msg_reject_code() -> i32 {
    with_host(|h| h.msg.reject_code)
}
pub unsafe fn msg_reject_msg_size() -> isize {
    with_host(|h| h.msg.reject_msg.len() as isize)
}
pub unsafe fn msg_reject_msg_copy(dst: isize, off: isize, size: isize) {
    with_host(|h| copy(h.msg.reject_msg.as_bytes(), dst, off, size))
}
pub unsafe fn msg_reply_data_append(src: isize, size: isize) {
    let b = slice(src, size);
    with_host(|h| h.msg.reply_buf.extend_from_slice(b))
}
fn check_not_replied() {
    if with_host(|h| h.msg.already_replied || h.msg.reply.is_some()) {
        do_trap("msg_reply: the call was already replied to");
    }
}
pub unsafe fn msg_reply() {
    check_not_replied();
    with_host(|h| {
        let b = std::mem::take(&mut h.msg.reply_buf);
        h.msg.reply = Some(Reply::Reply(b));
    })
}
pub unsafe fn msg_reject(src: isize, size: isize) {
    check_not_replied();
    let s = String::from_utf8_lossy(slice(src, size)).to_string();
    with_host(|h| h.msg.reply = Some(Reply::Reject(s)))
}
pub unsafe fn msg_cycles_available() -> i64 {
    0
}
pub unsafe fn msg_cycles_available128(dst: isize) {
    *(dst as *mut u128) = 0;
}
pub unsafe fn msg_cycles_refunded() -> i64 {
    0
}
pub unsafe fn msg_cycles_refunded128(dst: isize) {
    *(dst as *mut u128) = 0;
}
pub unsafe fn msg_cycles_accept(_max: i64) -> i64 {
    0
}
pub unsafe fn msg_cycles_accept128(_h: i64, _l: i64, dst: isize) {
    *(dst as *mut u128) = 0;
}
pub unsafe fn cycles_burn128(_h: i64, _l: i64, dst: isize) {
    *(dst as *mut u128) = 0;
}
pub unsafe fn canister_self_size() -> isize {
    with_host(|h| h.self_id.len() as isize)
}
pub unsafe fn canister_self_copy(dst: isize, off: isize, size: isize) {
    with_host(|h| copy(&h.self_id, dst, off, size))
}
pub unsafe fn canister_cycle_balance() -> i64 {
    with_host(|h| h.balance.min(i64::MAX as u128) as i64)
}
pub unsafe fn canister_cycle_balance128(dst: isize) {
    *(dst as *mut u128) = with_host(|h| h.balance);
}
pub unsafe fn canister_status() -> i32 {
    1
}
pub unsafe fn canister_version() -> i64 {
    1
}
pub unsafe fn msg_method_name_size() -> isize {
    with_host(|h| h.msg.method.len() as isize)
}
pub unsafe fn msg_method_name_copy(dst: isize, off: isize, size: isize) {
    with_host(|h| copy(h.msg.method.as_bytes(), dst, off, size))
}
pub unsafe fn accept_message() {}
#[allow(clippy::too_many_arguments)]
pub unsafe fn call_new(
    callee_src: isize,
    callee_size: isize,
    name_src: isize,
    name_size: isize,
    reply_fun: isize,
    reply_env: isize,
    _reject_fun: isize,
    _reject_env: isize,
) {
    let callee = slice(callee_src, callee_size).to_vec();
    let method = String::from_utf8_lossy(slice(name_src, name_size)).to_string();
    with_host(|h| {
        h.building = Some(OutCall {
            callee,
            method,
            args: vec![],
            cycles: 0,
            reply_fun,
            reply_env,
            cleanup_fun: -1,
            cleanup_env: -1,
        })
    })
}
pub unsafe fn call_on_cleanup(fun: isize, env: isize) {
    with_host(|h| {
        let b = h.building.as_mut().expect("call_on_cleanup without call_new");
        b.cleanup_fun = fun;
        b.cleanup_env = env;
    })
}
pub unsafe fn call_data_append(src: isize, size: isize) {
    let b = slice(src, size);
    with_host(|h| {
        h.building
            .as_mut()
            .expect("call_data_append without call_new")
            .args
            .extend_from_slice(b)
    })
}
pub unsafe fn call_cycles_add128(high: i64, low: i64) {
    let amount = ((high as u64 as u128) << 64) | (low as u64 as u128);
    if with_host(|h| amount > h.balance) {
        do_trap("call_cycles_add: insufficient cycles balance");
    }
    with_host(|h| {
        h.building
            .as_mut()
            .expect("call_cycles_add without call_new")
            .cycles += amount;
    })
}
pub unsafe fn call_perform() -> i32 {
    with_host(|h| {
        let c = h.building.take().expect("call_perform without call_new");
        h.outbox.push(c);
        0
    })
}
pub unsafe fn stable64_size() -> i64 {
    with_host(|h| h.stable.pages as i64)
}
pub unsafe fn stable64_grow(n: i64) -> i64 {
    with_host(|h| h.stable.grow(n as u64))
}
pub unsafe fn stable64_write(off: i64, src: i64, size: i64) {
    let b = slice(src as isize, size as isize);
    with_host(|h| h.stable.write(off as u64, b))
}
pub unsafe fn stable64_read(dst: i64, off: i64, size: i64) {
    if size == 0 {
        return;
    }
    let out = std::slice::from_raw_parts_mut(dst as *mut u8, size as usize);
    with_host(|h| h.stable.read(off as u64, out))
}
pub unsafe fn certified_data_set(_src: isize, _size: isize) {}
pub unsafe fn data_certificate_present() -> i32 {
    0
}
pub unsafe fn data_certificate_size() -> isize {
    0
}
pub unsafe fn data_certificate_copy(_dst: isize, _off: isize, _size: isize) {}
pub unsafe fn time() -> i64 {
    with_host(|h| h.now_ns as i64)
}
pub unsafe fn global_timer_set(_t: i64) -> i64 {
    0
}
pub unsafe fn performance_counter(_ty: isize) -> i64 {
    with_host(|h| {
        h.instructions += 1;
        h.instructions as i64
    })
}
pub unsafe fn is_controller(_src: isize, _size: isize) -> i32 {
    0
}
pub unsafe fn in_replicated_execution() -> i32 {
    1
}
pub unsafe fn debug_print(src: isize, size: isize) {
    let s = String::from_utf8_lossy(slice(src, size)).to_string();
    with_host(|h| {
        if h.verbose {
            std::eprintln!("    [canister] {s}");
        }
    })
}
pub unsafe fn trap(src: isize, size: isize) {
    let s = String::from_utf8_lossy(slice(src, size)).to_string();
    do_trap(&s)
}
pub fn do_trap(msg: &str) -> ! {
    match with_host(|h| h.on_trap) {
        Some(f) => f(msg),
        None => panic!("canister trapped: {msg}"),
    }
}
