//! permutations against the bijections they stand for
use symrt::*;
use alg::non_commutative::*;
use alg::non_commutative::permutation::*;

/// one path per bijection of 0..n
fn bijection(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|k| { let i = pick(n - k); left.remove(i) }).collect()
}
fn cycles_of(f: &[usize], l: &[usize]) -> Vec<Cycle> {
    let mut seen = vec![false; f.len()];
    let mut out = vec![];
    for i in 0..f.len() {
        if seen[i] { continue }
        let mut c = vec![];
        let mut j = i;
        while !seen[j] { seen[j] = true; c.push(l[j]); j = f[j]; }
        out.push(Cycle::from(c));
    }
    out
}
fn perm(f: &[usize], l: &[usize]) -> Permutation { Permutation::from_disjoint_cycles(cycles_of(f, l)) }
/// any bijection of 0..n, left symbolic
fn sym_bijection(n: usize) -> Vec<usize> {
    let f: Vec<usize> = (0..n).map(|_| idx(n)).collect();
    let mut ok = true;
    for i in 0..n { for j in 0..i { ok &= f[i] != f[j]; } }
    assume(ok);
    f
}
fn compose(f: &[usize], g: &[usize]) -> Vec<usize> { g.iter().map(|&i| f[i]).collect() }
fn inv(f: &[usize]) -> Vec<usize> { let mut o = vec![0; f.len()]; for i in 0..f.len() { o[f[i]] = i; } o }
fn order(f: &[usize]) -> usize { let mut k = 1; let mut g = f.to_vec(); while (0..g.len()).any(|i| g[i] != i) { g = compose(f, &g); k += 1; } k }
/// distinct labels: symbolic when `sym`, else 0..n
fn labels(n: usize, sym: bool) -> Vec<usize> {
    if !sym { return (0..n).collect() }
    let l: Vec<usize> = (0..n).map(|_| bits(64) as usize).collect();
    for i in 0..n { for j in 0..i { assume(l[i] != l[j]); } }
    l
}
fn maps(p: &Permutation, f: &[usize], l: &[usize], what: &str) {
    for i in 0..f.len() { check(p.map(l[i]) == l[f[i]], what); }
}

harnesses! {
fn perm_laws() {
    let n = param(0) as usize;
    let l = labels(n, param(1) == 1);
    let f = bijection(n);
    let p = perm(&f, &l);
    maps(&p, &f, &l, "a permutation built from cycles maps along them");
    let other = bits(64) as usize;
    let mut known = false;
    for &x in &l { known |= x == other; }
    check(known || p.map(other) == other, "other elements are fixed");
    let q = p.clone().inverse();
    maps(&q, &inv(&f), &l, "inverse");
    check(q.clone() * p.clone() == Permutation::identity() && p.clone() * q.clone() == Permutation::identity(), "inverse cancels");
    let gens = p.clone().in_terms_of_gens();
    let id = p == Permutation::identity();
    for g in &gens { check(id || g.unfixed_indeces_iter().count() == 2, "generators are transpositions"); }
    let back: Permutation = gens.into_iter().product();
    check(back == p, "the product of the generators in order");
    check(p.clone() * Permutation::identity() == p && Permutation::identity() * p.clone() == p, "identity");
    check(id == (0..n).all(|i| f[i] == i), "identity exactly when nothing moves");
    // unfixed indices: each moved element once
    let u: Vec<usize> = p.unfixed_indeces_iter().collect();
    check(u.len() == (0..n).filter(|&i| f[i] != i).count(), "number of moved elements");
    for i in 0..n { if f[i] != i { let mut c = 0; for &x in &u { c += (x == l[i]) as usize; } check(c == 1, "moved elements are listed once"); } }
    if !id { cover("moves"); }
    cover("end");
}
fn perm_product() {
    let n = param(0) as usize;
    let l = labels(n, param(1) == 1);
    let (f, g) = (bijection(n), bijection(n));
    let (p, q) = (perm(&f, &l), perm(&g, &l));
    let h = compose(&f, &g);
    let r = p.clone() * q.clone();
    maps(&r, &h, &l, "product applies the right factor first");
    check(r == perm(&h, &l), "products are in canonical form");
    check((p == q) == (f == g), "equality is equality of maps");
    check(r.clone().inverse() == q.clone().inverse() * p.clone().inverse(), "inverse of a product");
    let s: Permutation = vec![p.clone(), q.clone()].into_iter().product();
    check(s == q * p, "a product over a sequence applies the first element first");
    cover("end");
}
/// two cycles on arbitrary elements, possibly overlapping
fn perm_two_cycles() {
    let (a, b, bound) = (param(0) as usize, param(1) as usize, param(2));
    let el = |n: usize| -> Vec<usize> {
        let v: Vec<usize> = (0..n).map(|_| if bound > 0 { idx(bound as usize) } else { bits(64) as usize }).collect();
        let mut ok = true;
        for i in 0..n { for j in 0..i { ok &= v[i] != v[j]; } }
        assume(ok);
        v
    };
    let (v, w) = (el(a), el(b));
    let go = |c: &[usize], i: usize| { let mut r = i; for k in 0..c.len() { if c[k] == i { r = c[(k + 1) % c.len()]; } } r };
    let (p, q) = (Permutation::from_cycle(Cycle::from(v.clone())), Permutation::from_cycle(Cycle::from(w.clone())));
    let r = p.clone() * q.clone();
    let i = bits(64) as usize;
    check(p.map(i) == go(&v, i), "a cycle moves each element to the next");
    check(r.map(i) == go(&v, go(&w, i)), "product applies the right factor first");
    let e = r.clone() * r.inverse();
    check(e == Permutation::identity(), "inverse cancels");
    cover("end");
}
fn perm_assoc() {
    let n = param(0) as usize;
    let l: Vec<usize> = (0..n).collect();
    let (f, g, h) = (bijection(n), bijection(n), bijection(n));
    let (p, q, r) = (perm(&f, &l), perm(&g, &l), perm(&h, &l));
    check((p.clone() * q.clone()) * r.clone() == p * (q * r), "associativity");
    cover("end");
}
fn perm_power() {
    let n = param(0) as usize;
    let k = param(1);
    let l = labels(n, false);
    let f = bijection(n);
    let p = perm(&f, &l);
    let e = pick(2 * k as usize + 1) as i64 - k;
    let mut w: Vec<usize> = (0..n).collect();
    let step = if e >= 0 { f.clone() } else { inv(&f) };
    for _ in 0..e.abs() { w = compose(&step, &w); }
    check((p.clone() ^ e) == perm(&w, &l), "power");
    if e < 0 { cover("negative"); }
    cover("end");
}
fn cycles() {
    // the same cycle written from any starting point, at symbolic labels; repeated elements are refused
    let n = param(0) as usize;
    let v: Vec<usize> = (0..n).map(|_| bits(64) as usize).collect();
    let mut dup = false;
    for i in 0..n { for j in 0..i { dup |= v[i] == v[j]; } }
    if dup { cover("repeated"); must_panic("repeated element in a cycle", || Cycle::from(v.clone())) }
    let c = Cycle::from(v.clone());
    let k = pick(n);
    let w: Vec<usize> = (0..n).map(|i| v[(i + k) % n]).collect();
    check(c == Cycle::from(w), "rotations of a cycle are the same cycle");
    let p = Permutation::from_cycle(c.clone());
    for i in 0..n { check(p.map(v[i]) == v[(i + 1) % n], "a cycle sends each element to the next"); }
    check(p == Permutation::from_disjoint_cycles(vec![c]), "one cycle");
    cover("end");
}
/// transpositions of arbitrary labels, as many as the parameter says
fn cycles_overlap() {
    let k = param(0) as usize;
    let v: Vec<(usize, usize)> = (0..k).map(|_| (bits(64) as usize, bits(64) as usize)).collect();
    for &(a, b) in &v { assume(a != b); }
    let c: Vec<Cycle> = v.iter().map(|&(a, b)| Cycle::from(vec![a, b])).collect();
    let mut dup = false;
    for i in 0..k { for j in 0..i { dup |= (v[i].0 == v[j].0) | (v[i].0 == v[j].1) | (v[i].1 == v[j].0) | (v[i].1 == v[j].1); } }
    if dup { cover("overlap"); let c = c.clone(); must_panic("overlapping cycles", move || Permutation::from_disjoint_cycles(c)) }
    let p = Permutation::from_disjoint_cycles(c.clone());
    let mut r = c; r.reverse();
    check(p == Permutation::from_disjoint_cycles(r.clone()), "the order of disjoint cycles does not matter");
    r.rotate_left(1);
    check(p == Permutation::from_disjoint_cycles(r), "the order of disjoint cycles does not matter");
    for &(a, b) in &v { check((p.map(a) == b) & (p.map(b) == a), "every cycle acts"); }
    cover("end");
}
fn block_swap() {
    let n = param(0) as usize;
    let (a, b, c, d) = (pick(n + 1), pick(n + 1), pick(n + 1), pick(n + 1));
    let (r1, r2) = (a..b, c..d);
    let v: Vec<u16> = (0..n).map(|_| bits(16) as u16).collect();
    let mut want = v.clone();
    if !(a >= b || c >= d) {
        if !(b <= c || d <= a) { cover("overlap"); let (r1, r2) = (r1.clone(), r2.clone()); must_panic("overlapping blocks", move || Permutation::swap(r1, r2)) }
        let (a, b, c, d) = if b <= c { (a, b, c, d) } else { (c, d, a, b) };
        want = v[..a].iter().chain(&v[c..d]).chain(&v[b..c]).chain(&v[a..b]).chain(&v[d..]).cloned().collect();
        if b < c && b - a != d - c { cover("gap"); }
    } else { cover("empty"); }
    let p = Permutation::swap(r1, r2);
    let w = v.clone() << p.clone();
    check(w == want, "two blocks change places and everything between them keeps its order");
    for i in 0..n { check(w[p.map(i)] == v[i], "the action moves the entry at i to the image of i"); }
    let mut x = v.clone();
    x <<= p.clone();
    check(x == w, "assigning action");
    check((w << p.inverse()) == v, "the inverse undoes the action");
    cover("end");
}
fn action() {
    let n = param(0) as usize;
    let l: Vec<usize> = (0..n).collect();
    let f = bijection(n);
    let g = bijection(n);
    let (p, q) = (perm(&f, &l), perm(&g, &l));
    let v: Vec<u16> = (0..n).map(|_| bits(16) as u16).collect();
    let w = v.clone() << p.clone();
    for i in 0..n { check(w[f[i]] == v[i], "the action moves the entry at i to the image of i"); }
    check((w << q.clone()) == (v.clone() << (q * p)), "acting twice is acting by the product");
    check((v.clone() << Permutation::identity()) == v, "identity acts trivially");
    let k = pick(n);
    let c = Permutation::cyclic_from(0..k + 1);
    for i in 0..n { check(c.map(i) == if i < k { i + 1 } else if i == k { 0 } else { i }, "cyclic shift of a range"); }
    cover("end");
}
fn const_perm() {
    const N: usize = 5;
    let (f, g) = (sym_bijection(N), sym_bijection(N));
    let arr = |v: &[usize]| { let mut a = [0; N]; a.copy_from_slice(v); ConstPermutation::from(a) };
    let (p, q) = (arr(&f), arr(&g));
    check(p * q == arr(&compose(&f, &g)), "product applies the right factor first");
    let mut r = p; r *= q;
    check(r == p * q, "assigning product");
    check(p.inverse() == arr(&inv(&f)) && p.inverse_of_gen() == p.inverse(), "inverse");
    check(p.inverse() * p == ConstPermutation::identity() && p * p.inverse() == ConstPermutation::identity(), "inverse cancels");
    check(p.order() == order(&f), "order");
    let s: ConstPermutation<N> = vec![p, q].into_iter().product();
    check(s == q * p, "a product over a sequence applies the first element first");
    check((p == q) == (f == g), "equality");
    cover("end");
}
fn vec_perm() {
    let (f, g) = (sym_bijection(4), sym_bijection(3));
    let fa = [f[0], f[1], f[2], f[3]];
    let p = VecPermutation::from(fa);
    let q = VecPermutation::from([g[0], g[1], g[2]]);
    let mut ge = g.clone(); ge.push(3);
    let flip = choose();
    let (x, y, w) = if flip { (q.clone(), p.clone(), compose(&ge, &f)) } else { (p.clone(), q.clone(), compose(&f, &ge)) };
    let r = x.clone() * y.clone();
    let i = bits(64) as usize;
    let far = i >= 4;
    check(!far || (r.eval(i) == i && p.eval(i) == i), "indices beyond the stored length are fixed");
    for i in 0..4 { check(r.eval(i) == w[i] && p.eval(i) == f[i] && q.eval(i) == ge[i], "product applies the right factor first"); }
    let mut z = x.clone(); z *= y.clone();
    check(z == r, "assigning product");
    let pi = p.clone().inverse();
    for i in 0..4 { check(pi.eval(f[i]) == i, "inverse"); }
    let e = p.clone().inverse_of_gen() * p.clone();
    for i in 0..4 { check(e.eval(i) == i, "inverse cancels"); }
    check(p.clone().order() == order(&f) && q.clone().order() == order(&g) && r.order() == order(&w), "order");
    check(VecPermutation::identity().order() == 1, "order of the identity");
    check(VecPermutation::from(ConstPermutation::from(fa)) == p, "conversion");
    let s: VecPermutation = vec![p.clone(), q.clone()].into_iter().product();
    let t = compose(&ge, &f);
    for i in 0..4 { check(s.eval(i) == t[i], "a product over a sequence applies the first element first"); }
    cover("end");
}
}
