//! Has a partial operation an answer for these arguments?  Decided from the arguments, in f64 (exactly
//! for integers), with a wide margin on the side of "perhaps not".
use crate::ctx::*;
use crate::sc::*;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_transform::*;

fn num<S: Sc>(s: S) -> f64 {
    if S::KIND.is_float() {
        f64::from_bits(s.word())
    } else {
        s.word() as i64 as f64
    }
}
/// The weight of the transformed point is surely not zero.
fn surely<S: Sc>(terms: &[(S, S)]) -> bool {
    if !S::KIND.is_float() {
        let mut w = 0u32;
        for (a, b) in terms {
            w = w.wrapping_add((a.word() as u32).wrapping_mul(b.word() as u32));
        }
        return w != 0;
    }
    let (mut w, mut m) = (0.0, 0.0);
    for (a, b) in terms {
        let t = num(*a) * num(*b);
        w += t;
        m += t.abs();
    }
    w.is_finite() && w.abs() > 1e-3 * m && w.abs() > 1e-30 && m < 1e30
}
fn surely2<S: Sc>(m: &Matrix3x3<S>, p: &Point2<S>) -> bool {
    surely(&[(m[0][2], p[0]), (m[1][2], p[1]), (m[2][2], S::one())])
}
fn surely3<S: Sc>(m: &Matrix4x4<S>, p: &Point3<S>) -> bool {
    surely(&[(m[0][3], p[0]), (m[1][3], p[1]), (m[2][3], p[2]), (m[3][3], S::one())])
}
fn away<S: Sc>(q: &Quaternion<S>) -> bool {
    let a: Vec<f64> = (0..4).map(|i| num(q[i])).collect();
    let n = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
    if !a.iter().all(|x| x.is_finite() && x.abs() < 1e15) || n < 1e-15 {
        return false;
    }
    // the arctangent has its pole where the quaternion equals its own direction
    a[0].abs() > 1e-3 || (n - 1.0).abs() > 1e-3
}
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "guard Transform<S, 2, 3> point", 0, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => surely2(a.matrix(), &b));
    op!(v, "guard Transform<S, 3, 4> point", 0, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => surely3(a.matrix(), &b));
}
pub fn reg_fl<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "guard Transform<S, 2, 3> inverse point", 0, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => match a.try_inverse() { Some(t) => surely2(t.matrix(), &b), None => true });
    op!(v, "guard Transform<S, 3, 4> inverse point", 0, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => match a.try_inverse() { Some(t) => surely3(t.matrix(), &b), None => true });
    op!(v, "guard Quaternion<S>::atan", 0, (ref a: Quaternion<S>) => away(&a));
}
pub fn reg_int<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "guard SimdScalarOrd::clamp", 0, (ref a: S, ref b: S, ref c: S) => { let _ = a; (b.word() as i64) <= (c.word() as i64) });
}
/// The guard of a catalogue entry, if it has one.
pub fn name_of(op: &Op) -> Option<String> {
    let n = op.name.trim_start_matches('&');
    let g = if n.starts_with("Transform<S, ") && n.contains("inverse_apply_point") {
        format!("guard {} inverse point", &n[..15 + 3])
    } else if n.starts_with("Transform<S, ") && n.contains("oint") {
        format!("guard {} point", &n[..15 + 3])
    } else if n == "Quaternion<S>::atan" || n == "SimdScalarOrd::clamp" {
        format!("guard {n}")
    } else {
        return None;
    };
    Some(format!("{}:{}", op.sk.name(), g))
}
