//! Native execution of one harness on concrete inputs, one request per line on stdin:
//! `<harness> <base address modulo 4096> <length> <hex of a prefix, rest zero> <a> <b>`
use std::io::{BufRead, Write};
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    fn open(path: *const u8, flags: i32) -> i32;
}
fn main() {
    // what the code under test prints (Debug) goes nowhere
    let mut out: std::fs::File = unsafe {
        let f = dup(1);
        dup2(open(b"/dev/null\0".as_ptr(), 1), 1);
        std::os::fd::FromRawFd::from_raw_fd(f)
    };
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() != 6 {
            eprintln!("bad request");
            std::process::exit(3);
        }
        let f = harness::reg::ALL.iter().find(|x| x.0 == w[0]).expect("unknown harness").1;
        let base: usize = w[1].parse().unwrap();
        let n: usize = w[2].parse().unwrap();
        let hex = if w[3] == "-" { "" } else { w[3] };
        let a: u64 = w[4].parse().unwrap();
        let b: u64 = w[5].parse().unwrap();
        // PROT_READ|WRITE, PRIVATE|ANONYMOUS|NORESERVE
        let total = n + 8192;
        let m = unsafe { mmap(std::ptr::null_mut(), total, 3, 0x4022, -1, 0) };
        if m as isize == -1 {
            writeln!(out, "NOMEM").unwrap();
            continue;
        }
        let buf = unsafe { std::slice::from_raw_parts_mut(m.add(base), n) };
        for k in 0..hex.len() / 2 {
            buf[k] = u8::from_str_radix(&hex[2 * k..2 * k + 2], 16).unwrap();
        }
        let d = f(buf, a, b);
        unsafe { munmap(m, total) };
        writeln!(out, "RET {}", d).unwrap();
    }
}
