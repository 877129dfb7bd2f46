//! bit pools against the history of operations that produced them
use symrt::*;
use util::*;

/// the reference set: the history itself, asked index by index
struct Hist(Vec<(usize, bool)>);
impl Hist {
    fn has(&self, j: usize) -> bool {
        let mut m = false;
        for &(i, a) in &self.0 { m = (i == j) & a | (i != j) & m; }
        m
    }
    /// operation k is the last one on its index, and it was an addition
    fn live(&self, k: usize) -> bool {
        let mut last = self.0[k].1;
        for l in k + 1..self.0.len() { last &= self.0[l].0 != self.0[k].0; }
        last
    }
    fn count(&self) -> usize { let mut c = 0; for k in 0..self.0.len() { c += self.live(k) as usize; } c }
}
fn build(len: usize, n: usize, ops: bool) -> (BinaryPool, Hist) {
    let mut p = BinaryPool::new(len);
    let mut h = Hist(vec![]);
    for _ in 0..n { step(&mut p, &mut h, len, ops); }
    (p, h)
}
fn step(p: &mut BinaryPool, h: &mut Hist, len: usize, ops: bool) {
    let i = idx(len);
    let add = !ops || choose();
    if add { p.add(i); } else { p.remove(i); }
    h.0.push((i, add));
}
fn agree(p: &BinaryPool, h: &Hist, len: usize) {
    let j = idx(len);
    check(p.contains(j) == h.has(j), "membership follows the history");
    check(p.n_elements() == h.count(), "count of distinct members");
    check(p.len() == len, "length");
}

harnesses! {
fn pool_ops() {
    let len = param(0) as usize;
    let (p, h) = build(len, param(1) as usize, true);
    agree(&p, &h, len);
    observe(p.n_elements() as u64);
    cover("end");
}
fn pool_resize() {
    let (len, more) = (param(0) as usize, param(1) as usize);
    let (mut p, mut h) = build(len, param(2) as usize, true);
    let new = len + pick(more + 1);
    p.resize(new);
    check(p.len() == new, "length after growing");
    agree(&p, &h, new);
    step(&mut p, &mut h, new, true);
    agree(&p, &h, new);
    // shrinking is refused silently
    let small = pick(4).min(new);
    p.resize(small);
    agree(&p, &h, new);
    // a pool that was grown and one created at the final size are the same set
    let mut q = BinaryPool::new(new);
    for k in 0..h.0.len() { let (i, a) = h.0[k]; if a { q.add(i) } else { q.remove(i) } }
    check(p == q, "growing a pool equals creating it larger");
    cover("end");
}
fn pool_from() {
    let len = param(0) as usize;
    let n = pick(param(1) as usize + 1);
    let v: Vec<usize> = (0..n).map(|_| idx(len)).collect();
    let h = Hist(v.iter().map(|&i| (i, true)).collect());
    let p = BinaryPool::from(len, v);
    agree(&p, &h, len);
    if n >= 2 { cover("several"); }
    cover("end");
}
fn pool_bounds() {
    let len = param(0) as usize;
    let (mut p, h) = build(len, 1, false);
    let j = bits(64) as usize;
    assume(j >= len);
    // the pool may have been grown up to its length
    if choose() { p = { let mut q = BinaryPool::new(len / 2); for &(i, _) in &h.0 { if i < len / 2 { q.add(i); } } q.resize(len); q }; }
    match pick(4) {
        0 => { cover("add"); must_panic("add out of range", || p.add(j)) }
        1 => { cover("remove"); must_panic("remove out of range", || p.remove(j)) }
        2 => { cover("contains"); must_panic("contains out of range", || p.contains(j)) }
        _ => { cover("from"); assume(j < 1 << 40); must_panic("from out of range", || BinaryPool::from(len, vec![h.0[0].0, j])) }
    }
}
fn pool_algebra() {
    let len = param(0) as usize;
    let n = param(1) as usize;
    let (p, g) = build(len, n, param(2) == 1);
    let (q, h) = build(len, n, param(2) == 1);
    let j = idx(len);
    let (r, t) = (p.clone(), q.clone());
    match pick(2) {
        0 => {
            let u = p.union(q);
            check(u.contains(j) == (g.has(j) | h.has(j)), "membership in the union");
            check(u.len() == len, "length of the union");
            check(r.is_subset_of(&u) && t.is_subset_of(&u), "the union contains both");
            cover("union");
        }
        _ => {
            let u = p.intersection(q);
            check(u.contains(j) == (g.has(j) & h.has(j)), "membership in the intersection");
            check(u.len() == len, "length of the intersection");
            check(u.is_subset_of(&r) && u.is_subset_of(&t), "the intersection is contained in both");
            cover("intersection");
        }
    }
    cover("end");
}
/// sizes of unions and intersections; membership around the word boundaries is symbolic
fn pool_sizes() {
    let len = param(0) as usize;
    let probes: Vec<usize> = [0, 63, 64, 65, 127, 128, 191, 192, len - 1].iter().cloned().filter(|&i| i < len).take(param(1) as usize).collect();
    let (mut p, mut q) = (BinaryPool::new(len), BinaryPool::new(len));
    let (mut x, mut y) = (0, 0);
    let full = choose();
    if full { p.fill(); }
    for &i in &probes {
        let (a, b) = (choose(), choose());
        if full { if !a { p.remove(i); } } else if a { p.add(i); }
        if b { q.add(i); }
        x += (a || b) as usize; y += (a && b) as usize;
    }
    let rest = if full { len - probes.len() } else { 0 };
    let u = p.clone().union(q.clone());
    let v = p.clone().intersection(q.clone());
    check(u.n_elements() == x + rest, "size of the union");
    check(v.n_elements() == y, "size of the intersection");
    check(u.is_full() == (x + rest == len), "full");
    check(u.iter().count() == x + rest && v.iter().count() == y, "sizes agree with the members");
    check((u == v) == (x + rest == y), "union and intersection coincide only for equal sets");
    cover("end");
}
fn pool_algebra_len() {
    let a = pick(param(0) as usize);
    let b = pick(param(0) as usize);
    assume(a != b);
    let (p, q) = (BinaryPool::new(a), BinaryPool::new(b));
    match pick(3) {
        0 => { cover("union"); must_panic("union of different lengths", || p.union(q)) }
        1 => { cover("intersection"); must_panic("intersection of different lengths", || p.intersection(q)) }
        _ => { cover("subset"); must_panic("subset of different lengths", || p.is_subset_of(&q)) }
    }
}
/// iteration: members ascending, each once; membership is symbolic on indices around the word boundaries
fn pool_iter() {
    let len = param(0) as usize;
    let all = param(1) == 1;
    let mut p = BinaryPool::new(len);
    if all { p.fill(); check(p.is_full() && p.n_elements() == len, "fill"); }
    let probes: Vec<usize> = if len <= 8 { (0..len).collect() } else { [0, 1, 31, 62, 63, 64, 65, 126, 127, 128, len - 2, len - 1].iter().cloned().filter(|&i| i < len).collect() };
    let mut want: Vec<bool> = vec![all; len];
    for &i in &probes {
        if choose() { if all { p.remove(i); } else { p.add(i); } want[i] = !all; }
    }
    let mut it = p.iter();
    let mut n = 0;
    for i in 0..len { if want[i] { n += 1; check(it.next() == Some(i), "members in increasing order"); } }
    check(it.next() == None && it.next() == None, "iteration ends");
    check(p.n_elements() == n, "count");
    check(p.is_full() == (n == len), "full exactly when every index is a member");
    cover("end");
}
/// a set does not depend on how it was reached
fn pool_equality() {
    let len = param(0) as usize;
    let n = param(1) as usize;
    let (p, g) = build(len, n, true);
    let (q, h) = build(len, n, true);
    let mut same = true;
    let mut sub = true;
    for &(i, _) in g.0.iter().chain(&h.0) { same &= g.has(i) == h.has(i); sub &= !g.has(i) | h.has(i); }
    check((p == q) == same, "equality is equality of members");
    check(p.is_subset_of(&q) == sub, "subset");
    if same { cover("equal"); }
    cover("end");
}
fn pool_fill() {
    let len = param(0) as usize;
    let (p, _) = build(len, param(1) as usize, true);
    let mut r = p.clone();
    r.fill();
    check(r.is_full() && r.n_elements() == len, "fill");
    check(r.contains(idx(len)), "fill reaches every index");
    let full = BinaryPool::from(len, (0..len).collect());
    check(r == full, "filling equals adding every index");
    check(r.is_subset_of(&full) && full.is_subset_of(&r), "filled pools contain each other");
    check(r.clone().union(p.clone()) == full && r.clone().union(p.clone()).n_elements() == len, "union with everything");
    check(r.clone().intersection(p.clone()) == p && p.clone().intersection(r.clone()).n_elements() == p.n_elements(), "intersection with everything");
    check(p.is_subset_of(&r), "subset of everything");
    check(p.n_elements() == len || !p.is_full(), "full only with every member");
    r.remove(idx(len));
    check(!r.is_full(), "not full without a member");
    cover("end");
}
fn labels() {
    let nl = param(0) as usize;
    let n = param(1) as usize;
    // distinct labels in any order
    let l: Vec<u16> = (0..nl).map(|_| bits(16) as u16).collect();
    for i in 0..nl { for j in 0..i { assume(l[i] != l[j]); } }
    let mut s = LabeledSet::new(l.clone());
    let mut want = vec![false; nl];
    for _ in 0..n {
        let i = pick(nl);
        if choose() { s.add(l[i]); want[i] = true; } else { s.remove(l[i]); want[i] = false; }
    }
    let mut c = 0;
    let mut it = s.iter();
    for i in 0..nl { if want[i] { c += 1; check(it.next() == Some(&l[i]), "members in registration order"); } }
    check(it.next() == None, "iteration ends");
    check(s.n_elements() == c, "count");
    let mut t = LabeledSet::new(l.clone());
    for i in 0..nl { if want[i] { t.add(l[i]); } }
    check(s == t, "a set does not depend on how it was reached");
    drop(it);
    cover("end");
    let x = bits(16) as u16;
    let mut known = false;
    for &y in &l { known |= y == x; }
    assume(!known);
    if choose() { must_panic("adding an unregistered label", || s.add(x)) } else { must_panic("removing an unregistered label", || s.remove(x)) }
}
}
