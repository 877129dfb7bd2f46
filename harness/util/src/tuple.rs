//! k-element sublists in lexicographic order of positions
use symrt::*;
use util::*;

harnesses! {
fn tuples() {
    let n = pick(param(0) as usize + 1);
    let k = pick(param(0) as usize + 2);
    let v: Vec<u8> = (0..n).map(|_| bits(8) as u8).collect();
    let mut it = v.tuple_iter(k);
    if k > n { check(it.next() == None, "no tuple longer than the list"); cover("too long"); return; }
    let mut c: Vec<usize> = (0..k).collect();
    let mut count = 0u64;
    loop {
        let t = it.next();
        check(t.is_some(), "one tuple for every selection");
        let t = t.unwrap();
        check(t.len() == k, "tuple length");
        let mut ok = true;
        for i in 0..k { ok &= std::ptr::eq(t[i], &v[c[i]]); }
        check(ok, "tuples come in lexicographic order of positions");
        count += 1;
        // next selection of positions
        let mut i = k;
        while i > 0 && c[i - 1] == n - k + i - 1 { i -= 1; }
        if i == 0 { break }
        c[i - 1] += 1;
        for j in i..k { c[j] = c[j - 1] + 1; }
    }
    check(it.next() == None, "nothing after the last selection");
    check(it.next() == None, "the iterator stays exhausted");
    observe(count);
    cover("end");
}
}
