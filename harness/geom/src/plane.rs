//! circumcircles and triangulations of points of the plane
use alg::lin_alg::ConstVector;
use geom::*;
use symrt::*;

type P = [f64; 2];
fn v(p: P) -> ConstVector<f64, 2> { ConstVector::from(p) }
fn point() -> P { [real(), real()] }
fn orient(a: P, b: P, c: P) -> f64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
/// positive inside, for a triangle oriented counterclockwise
fn incircle(a: P, b: P, c: P, p: P) -> f64 {
    let s = |q: P| { let (x, y) = (q[0] - p[0], q[1] - p[1]); (x, y, x * x + y * y) };
    let (a, b, c) = (s(a), s(b), s(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0)
}
harnesses! {
fn circumcircle() {
    let (a, b, c, p) = (point(), point(), point(), point());
    let o = orient(a, b, c);
    assume(o != 0.0);
    let inside = Triangle::new([v(a), v(b), v(c)]).circum_circle_contains(v(p));
    let d = incircle(a, b, c, p) * o;
    check(inside == (d > 0.0), "strictly inside the circle through the three vertices");
    if inside { cover("inside") } else { cover("outside") }
}
fn triangulation() {
    let n = param(0) as usize;
    let p: Vec<P> = (0..n).map(|_| point()).collect();
    let (t, i) = delaunay_triangulation(&p.iter().map(|&p| v(p)).collect::<Vec<_>>());
    check(t.len() == i.len(), "triangles and their indices");
    for (t, i) in t.iter().zip(&i) {
        check(i[0] < i[1] && i[1] < i[2] && i[2] < n, "sorted indices");
        check(*t == Triangle::new([v(p[i[0]]), v(p[i[1]]), v(p[i[2]])]), "vertices");
        let (a, b, c) = (p[i[0]], p[i[1]], p[i[2]]);
        let o = orient(a, b, c);
        check(o != 0.0, "not degenerate");
        for &q in &p { check(!(incircle(a, b, c, q) * o > 0.0), "no point inside of the circumcircle"); }
    }
    if i.is_empty() { cover("empty") } else { cover("triangles") }
}
}
