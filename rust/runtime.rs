// Native side of a harness binary: runs entries on concrete bytes.
// stdin: lines "<index> <hex input> <output length>"; stdout: "<index> <hex output>".
pub type Entry = unsafe extern "C" fn(*const u8, *mut u8);

fn vp_hex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len() / 2);
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    let mut i = 0;
    while i + 1 < b.len() {
        v.push(d(b[i]) * 16 + d(b[i + 1]));
        i += 2;
    }
    v
}

fn main() {
    use std::io::{BufRead, Write};
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        if p.len() != 3 { continue; }
        let idx: usize = p[0].parse().unwrap();
        // exact-size heap buffers, as in the encoded run
        let inp = vp_hex(p[1]).into_boxed_slice();
        let n: usize = p[2].parse().unwrap();
        let mut out = vec![0u8; n].into_boxed_slice();
        unsafe { (VP_TABLE[idx])(inp.as_ptr(), out.as_mut_ptr()); }
        let mut s = format!("{} ", idx);
        for b in out.iter() { s.push_str(&format!("{:02x}", b)); }
        println!("{}", s);
        std::io::stdout().flush().unwrap();
    }
}
