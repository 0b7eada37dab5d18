//! Named coordinates, swizzles and tuple views (written by tools/gen_views.py).
use crate::hist::*;
use cglinalg_core::*;

pub fn vector1<E: El>(d: &mut Def<Vector1<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 1 { _ => &mut v.x } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 1] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E,) = v.as_mut(); *match p.xi(0) as usize % 1 { _ => &mut t.0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 1] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E,) = v.as_ref(); val(&[t.0]) }, |m, _| Want::Val(words(m)));
    d.edit("as_mut::<S>() =", 0, |v, p| { let t: &mut E = v.as_mut(); *t = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
    d.read("as_ref::<S>()", 0, |v, _| { let t: &E = v.as_ref(); val(&[*t]) }, |m, _| Want::Val(words(m)));
    d.edit("= Vector1::new", 0, |v, p| { *v = Vector1::new(p.w[0]); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= Vector1::from(tuple)", 0, |v, p| { *v = Vector1::from((p.w[0],)); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= Vector1::from(&tuple)", 0, |v, p| { *v = Vector1::from(&(p.w[0],)); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= *<&Vector1>::from(&tuple)", 0, |v, p| { let t = (p.w[0],); let r: &Vector1<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "x"))));
}
pub fn vector2<E: El>(d: &mut Def<Vector2<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 2 { 0 => &mut v.x, _ => &mut v.y } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 2] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x, v.y]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E) = v.as_mut(); *match p.xi(0) as usize % 2 { 0 => &mut t.0, _ => &mut t.1 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 2] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E) = v.as_ref(); val(&[t.0, t.1]) }, |m, _| Want::Val(words(m)));
    d.edit("= Vector2::new", 0, |v, p| { *v = Vector2::new(p.w[0], p.w[1]); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= Vector2::from(tuple)", 0, |v, p| { *v = Vector2::from((p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= Vector2::from(&tuple)", 0, |v, p| { *v = Vector2::from(&(p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= *<&Vector2>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1]); let r: &Vector2<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); o.extend_from_slice(v.xx().as_slice()); o.extend_from_slice(v.xy().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "xxxxy"))));
    d.read("swizzles y..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.y().as_slice()); o.extend_from_slice(v.yx().as_slice()); o.extend_from_slice(v.yy().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "yyxyy"))));
}
pub fn vector3<E: El>(d: &mut Def<Vector3<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 3 { 0 => &mut v.x, 1 => &mut v.y, _ => &mut v.z } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 3] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x, v.y, v.z]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E, E) = v.as_mut(); *match p.xi(0) as usize % 3 { 0 => &mut t.0, 1 => &mut t.1, _ => &mut t.2 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 3] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E, E) = v.as_ref(); val(&[t.0, t.1, t.2]) }, |m, _| Want::Val(words(m)));
    d.edit("= Vector3::new", 0, |v, p| { *v = Vector3::new(p.w[0], p.w[1], p.w[2]); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= Vector3::from(tuple)", 0, |v, p| { *v = Vector3::from((p.w[0], p.w[1], p.w[2])); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= Vector3::from(&tuple)", 0, |v, p| { *v = Vector3::from(&(p.w[0], p.w[1], p.w[2])); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= *<&Vector3>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1], p.w[2]); let r: &Vector3<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); o.extend_from_slice(v.xx().as_slice()); o.extend_from_slice(v.xy().as_slice()); o.extend_from_slice(v.xz().as_slice()); o.extend_from_slice(v.xxx().as_slice()); o.extend_from_slice(v.xxy().as_slice()); o.extend_from_slice(v.xxz().as_slice()); o.extend_from_slice(v.xyx().as_slice()); o.extend_from_slice(v.xyy().as_slice()); o.extend_from_slice(v.xyz().as_slice()); o.extend_from_slice(v.xzx().as_slice()); o.extend_from_slice(v.xzy().as_slice()); o.extend_from_slice(v.xzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "xxxxyxzxxxxxyxxzxyxxyyxyzxzxxzyxzz"))));
    d.read("swizzles y..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.y().as_slice()); o.extend_from_slice(v.yx().as_slice()); o.extend_from_slice(v.yy().as_slice()); o.extend_from_slice(v.yz().as_slice()); o.extend_from_slice(v.yxx().as_slice()); o.extend_from_slice(v.yxy().as_slice()); o.extend_from_slice(v.yxz().as_slice()); o.extend_from_slice(v.yyx().as_slice()); o.extend_from_slice(v.yyy().as_slice()); o.extend_from_slice(v.yyz().as_slice()); o.extend_from_slice(v.yzx().as_slice()); o.extend_from_slice(v.yzy().as_slice()); o.extend_from_slice(v.yzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "yyxyyyzyxxyxyyxzyyxyyyyyzyzxyzyyzz"))));
    d.read("swizzles z..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.z().as_slice()); o.extend_from_slice(v.zx().as_slice()); o.extend_from_slice(v.zy().as_slice()); o.extend_from_slice(v.zz().as_slice()); o.extend_from_slice(v.zxx().as_slice()); o.extend_from_slice(v.zxy().as_slice()); o.extend_from_slice(v.zxz().as_slice()); o.extend_from_slice(v.zyx().as_slice()); o.extend_from_slice(v.zyy().as_slice()); o.extend_from_slice(v.zyz().as_slice()); o.extend_from_slice(v.zzx().as_slice()); o.extend_from_slice(v.zzy().as_slice()); o.extend_from_slice(v.zzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "zzxzyzzzxxzxyzxzzyxzyyzyzzzxzzyzzz"))));
}
pub fn vector4<E: El>(d: &mut Def<Vector4<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 4 { 0 => &mut v.x, 1 => &mut v.y, 2 => &mut v.z, _ => &mut v.w } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 4] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x, v.y, v.z, v.w]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E, E, E) = v.as_mut(); *match p.xi(0) as usize % 4 { 0 => &mut t.0, 1 => &mut t.1, 2 => &mut t.2, _ => &mut t.3 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 4] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E, E, E) = v.as_ref(); val(&[t.0, t.1, t.2, t.3]) }, |m, _| Want::Val(words(m)));
    d.edit("= Vector4::new", 0, |v, p| { *v = Vector4::new(p.w[0], p.w[1], p.w[2], p.w[3]); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= Vector4::from(tuple)", 0, |v, p| { *v = Vector4::from((p.w[0], p.w[1], p.w[2], p.w[3])); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= Vector4::from(&tuple)", 0, |v, p| { *v = Vector4::from(&(p.w[0], p.w[1], p.w[2], p.w[3])); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= *<&Vector4>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1], p.w[2], p.w[3]); let r: &Vector4<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); o.extend_from_slice(v.xx().as_slice()); o.extend_from_slice(v.xy().as_slice()); o.extend_from_slice(v.xz().as_slice()); o.extend_from_slice(v.xw().as_slice()); o.extend_from_slice(v.xxx().as_slice()); o.extend_from_slice(v.xxy().as_slice()); o.extend_from_slice(v.xxz().as_slice()); o.extend_from_slice(v.xxw().as_slice()); o.extend_from_slice(v.xyx().as_slice()); o.extend_from_slice(v.xyy().as_slice()); o.extend_from_slice(v.xyz().as_slice()); o.extend_from_slice(v.xyw().as_slice()); o.extend_from_slice(v.xzx().as_slice()); o.extend_from_slice(v.xzy().as_slice()); o.extend_from_slice(v.xzz().as_slice()); o.extend_from_slice(v.xzw().as_slice()); o.extend_from_slice(v.xwx().as_slice()); o.extend_from_slice(v.xwy().as_slice()); o.extend_from_slice(v.xwz().as_slice()); o.extend_from_slice(v.xww().as_slice()); o.extend_from_slice(v.xxxx().as_slice()); o.extend_from_slice(v.xxxy().as_slice()); o.extend_from_slice(v.xxxz().as_slice()); o.extend_from_slice(v.xxxw().as_slice()); o.extend_from_slice(v.xxyx().as_slice()); o.extend_from_slice(v.xxyy().as_slice()); o.extend_from_slice(v.xxyz().as_slice()); o.extend_from_slice(v.xxyw().as_slice()); o.extend_from_slice(v.xxzx().as_slice()); o.extend_from_slice(v.xxzy().as_slice()); o.extend_from_slice(v.xxzz().as_slice()); o.extend_from_slice(v.xxzw().as_slice()); o.extend_from_slice(v.xxwx().as_slice()); o.extend_from_slice(v.xxwy().as_slice()); o.extend_from_slice(v.xxwz().as_slice()); o.extend_from_slice(v.xxww().as_slice()); o.extend_from_slice(v.xyxx().as_slice()); o.extend_from_slice(v.xyxy().as_slice()); o.extend_from_slice(v.xyxz().as_slice()); o.extend_from_slice(v.xyxw().as_slice()); o.extend_from_slice(v.xyyx().as_slice()); o.extend_from_slice(v.xyyy().as_slice()); o.extend_from_slice(v.xyyz().as_slice()); o.extend_from_slice(v.xyyw().as_slice()); o.extend_from_slice(v.xyzx().as_slice()); o.extend_from_slice(v.xyzy().as_slice()); o.extend_from_slice(v.xyzz().as_slice()); o.extend_from_slice(v.xyzw().as_slice()); o.extend_from_slice(v.xywx().as_slice()); o.extend_from_slice(v.xywy().as_slice()); o.extend_from_slice(v.xywz().as_slice()); o.extend_from_slice(v.xyww().as_slice()); o.extend_from_slice(v.xzxx().as_slice()); o.extend_from_slice(v.xzxy().as_slice()); o.extend_from_slice(v.xzxz().as_slice()); o.extend_from_slice(v.xzxw().as_slice()); o.extend_from_slice(v.xzyx().as_slice()); o.extend_from_slice(v.xzyy().as_slice()); o.extend_from_slice(v.xzyz().as_slice()); o.extend_from_slice(v.xzyw().as_slice()); o.extend_from_slice(v.xzzx().as_slice()); o.extend_from_slice(v.xzzy().as_slice()); o.extend_from_slice(v.xzzz().as_slice()); o.extend_from_slice(v.xzzw().as_slice()); o.extend_from_slice(v.xzwx().as_slice()); o.extend_from_slice(v.xzwy().as_slice()); o.extend_from_slice(v.xzwz().as_slice()); o.extend_from_slice(v.xzww().as_slice()); o.extend_from_slice(v.xwxx().as_slice()); o.extend_from_slice(v.xwxy().as_slice()); o.extend_from_slice(v.xwxz().as_slice()); o.extend_from_slice(v.xwxw().as_slice()); o.extend_from_slice(v.xwyx().as_slice()); o.extend_from_slice(v.xwyy().as_slice()); o.extend_from_slice(v.xwyz().as_slice()); o.extend_from_slice(v.xwyw().as_slice()); o.extend_from_slice(v.xwzx().as_slice()); o.extend_from_slice(v.xwzy().as_slice()); o.extend_from_slice(v.xwzz().as_slice()); o.extend_from_slice(v.xwzw().as_slice()); o.extend_from_slice(v.xwwx().as_slice()); o.extend_from_slice(v.xwwy().as_slice()); o.extend_from_slice(v.xwwz().as_slice()); o.extend_from_slice(v.xwww().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "xxxxyxzxwxxxxxyxxzxxwxyxxyyxyzxywxzxxzyxzzxzwxwxxwyxwzxwwxxxxxxxyxxxzxxxwxxyxxxyyxxyzxxywxxzxxxzyxxzzxxzwxxwxxxwyxxwzxxwwxyxxxyxyxyxzxyxwxyyxxyyyxyyzxyywxyzxxyzyxyzzxyzwxywxxywyxywzxywwxzxxxzxyxzxzxzxwxzyxxzyyxzyzxzywxzzxxzzyxzzzxzzwxzwxxzwyxzwzxzwwxwxxxwxyxwxzxwxwxwyxxwyyxwyzxwywxwzxxwzyxwzzxwzwxwwxxwwyxwwzxwww"))));
    d.read("swizzles y..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.y().as_slice()); o.extend_from_slice(v.yx().as_slice()); o.extend_from_slice(v.yy().as_slice()); o.extend_from_slice(v.yz().as_slice()); o.extend_from_slice(v.yw().as_slice()); o.extend_from_slice(v.yxx().as_slice()); o.extend_from_slice(v.yxy().as_slice()); o.extend_from_slice(v.yxz().as_slice()); o.extend_from_slice(v.yxw().as_slice()); o.extend_from_slice(v.yyx().as_slice()); o.extend_from_slice(v.yyy().as_slice()); o.extend_from_slice(v.yyz().as_slice()); o.extend_from_slice(v.yyw().as_slice()); o.extend_from_slice(v.yzx().as_slice()); o.extend_from_slice(v.yzy().as_slice()); o.extend_from_slice(v.yzz().as_slice()); o.extend_from_slice(v.yzw().as_slice()); o.extend_from_slice(v.ywx().as_slice()); o.extend_from_slice(v.ywy().as_slice()); o.extend_from_slice(v.ywz().as_slice()); o.extend_from_slice(v.yww().as_slice()); o.extend_from_slice(v.yxxx().as_slice()); o.extend_from_slice(v.yxxy().as_slice()); o.extend_from_slice(v.yxxz().as_slice()); o.extend_from_slice(v.yxxw().as_slice()); o.extend_from_slice(v.yxyx().as_slice()); o.extend_from_slice(v.yxyy().as_slice()); o.extend_from_slice(v.yxyz().as_slice()); o.extend_from_slice(v.yxyw().as_slice()); o.extend_from_slice(v.yxzx().as_slice()); o.extend_from_slice(v.yxzy().as_slice()); o.extend_from_slice(v.yxzz().as_slice()); o.extend_from_slice(v.yxzw().as_slice()); o.extend_from_slice(v.yxwx().as_slice()); o.extend_from_slice(v.yxwy().as_slice()); o.extend_from_slice(v.yxwz().as_slice()); o.extend_from_slice(v.yxww().as_slice()); o.extend_from_slice(v.yyxx().as_slice()); o.extend_from_slice(v.yyxy().as_slice()); o.extend_from_slice(v.yyxz().as_slice()); o.extend_from_slice(v.yyxw().as_slice()); o.extend_from_slice(v.yyyx().as_slice()); o.extend_from_slice(v.yyyy().as_slice()); o.extend_from_slice(v.yyyz().as_slice()); o.extend_from_slice(v.yyyw().as_slice()); o.extend_from_slice(v.yyzx().as_slice()); o.extend_from_slice(v.yyzy().as_slice()); o.extend_from_slice(v.yyzz().as_slice()); o.extend_from_slice(v.yyzw().as_slice()); o.extend_from_slice(v.yywx().as_slice()); o.extend_from_slice(v.yywy().as_slice()); o.extend_from_slice(v.yywz().as_slice()); o.extend_from_slice(v.yyww().as_slice()); o.extend_from_slice(v.yzxx().as_slice()); o.extend_from_slice(v.yzxy().as_slice()); o.extend_from_slice(v.yzxz().as_slice()); o.extend_from_slice(v.yzxw().as_slice()); o.extend_from_slice(v.yzyx().as_slice()); o.extend_from_slice(v.yzyy().as_slice()); o.extend_from_slice(v.yzyz().as_slice()); o.extend_from_slice(v.yzyw().as_slice()); o.extend_from_slice(v.yzzx().as_slice()); o.extend_from_slice(v.yzzy().as_slice()); o.extend_from_slice(v.yzzz().as_slice()); o.extend_from_slice(v.yzzw().as_slice()); o.extend_from_slice(v.yzwx().as_slice()); o.extend_from_slice(v.yzwy().as_slice()); o.extend_from_slice(v.yzwz().as_slice()); o.extend_from_slice(v.yzww().as_slice()); o.extend_from_slice(v.ywxx().as_slice()); o.extend_from_slice(v.ywxy().as_slice()); o.extend_from_slice(v.ywxz().as_slice()); o.extend_from_slice(v.ywxw().as_slice()); o.extend_from_slice(v.ywyx().as_slice()); o.extend_from_slice(v.ywyy().as_slice()); o.extend_from_slice(v.ywyz().as_slice()); o.extend_from_slice(v.ywyw().as_slice()); o.extend_from_slice(v.ywzx().as_slice()); o.extend_from_slice(v.ywzy().as_slice()); o.extend_from_slice(v.ywzz().as_slice()); o.extend_from_slice(v.ywzw().as_slice()); o.extend_from_slice(v.ywwx().as_slice()); o.extend_from_slice(v.ywwy().as_slice()); o.extend_from_slice(v.ywwz().as_slice()); o.extend_from_slice(v.ywww().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "yyxyyyzywyxxyxyyxzyxwyyxyyyyyzyywyzxyzyyzzyzwywxywyywzywwyxxxyxxyyxxzyxxwyxyxyxyyyxyzyxywyxzxyxzyyxzzyxzwyxwxyxwyyxwzyxwwyyxxyyxyyyxzyyxwyyyxyyyyyyyzyyywyyzxyyzyyyzzyyzwyywxyywyyywzyywwyzxxyzxyyzxzyzxwyzyxyzyyyzyzyzywyzzxyzzyyzzzyzzwyzwxyzwyyzwzyzwwywxxywxyywxzywxwywyxywyyywyzywywywzxywzyywzzywzwywwxywwyywwzywww"))));
    d.read("swizzles z..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.z().as_slice()); o.extend_from_slice(v.zx().as_slice()); o.extend_from_slice(v.zy().as_slice()); o.extend_from_slice(v.zz().as_slice()); o.extend_from_slice(v.zw().as_slice()); o.extend_from_slice(v.zxx().as_slice()); o.extend_from_slice(v.zxy().as_slice()); o.extend_from_slice(v.zxz().as_slice()); o.extend_from_slice(v.zxw().as_slice()); o.extend_from_slice(v.zyx().as_slice()); o.extend_from_slice(v.zyy().as_slice()); o.extend_from_slice(v.zyz().as_slice()); o.extend_from_slice(v.zyw().as_slice()); o.extend_from_slice(v.zzx().as_slice()); o.extend_from_slice(v.zzy().as_slice()); o.extend_from_slice(v.zzz().as_slice()); o.extend_from_slice(v.zzw().as_slice()); o.extend_from_slice(v.zwx().as_slice()); o.extend_from_slice(v.zwy().as_slice()); o.extend_from_slice(v.zwz().as_slice()); o.extend_from_slice(v.zww().as_slice()); o.extend_from_slice(v.zxxx().as_slice()); o.extend_from_slice(v.zxxy().as_slice()); o.extend_from_slice(v.zxxz().as_slice()); o.extend_from_slice(v.zxxw().as_slice()); o.extend_from_slice(v.zxyx().as_slice()); o.extend_from_slice(v.zxyy().as_slice()); o.extend_from_slice(v.zxyz().as_slice()); o.extend_from_slice(v.zxyw().as_slice()); o.extend_from_slice(v.zxzx().as_slice()); o.extend_from_slice(v.zxzy().as_slice()); o.extend_from_slice(v.zxzz().as_slice()); o.extend_from_slice(v.zxzw().as_slice()); o.extend_from_slice(v.zxwx().as_slice()); o.extend_from_slice(v.zxwy().as_slice()); o.extend_from_slice(v.zxwz().as_slice()); o.extend_from_slice(v.zxww().as_slice()); o.extend_from_slice(v.zyxx().as_slice()); o.extend_from_slice(v.zyxy().as_slice()); o.extend_from_slice(v.zyxz().as_slice()); o.extend_from_slice(v.zyxw().as_slice()); o.extend_from_slice(v.zyyx().as_slice()); o.extend_from_slice(v.zyyy().as_slice()); o.extend_from_slice(v.zyyz().as_slice()); o.extend_from_slice(v.zyyw().as_slice()); o.extend_from_slice(v.zyzx().as_slice()); o.extend_from_slice(v.zyzy().as_slice()); o.extend_from_slice(v.zyzz().as_slice()); o.extend_from_slice(v.zyzw().as_slice()); o.extend_from_slice(v.zywx().as_slice()); o.extend_from_slice(v.zywy().as_slice()); o.extend_from_slice(v.zywz().as_slice()); o.extend_from_slice(v.zyww().as_slice()); o.extend_from_slice(v.zzxx().as_slice()); o.extend_from_slice(v.zzxy().as_slice()); o.extend_from_slice(v.zzxz().as_slice()); o.extend_from_slice(v.zzxw().as_slice()); o.extend_from_slice(v.zzyx().as_slice()); o.extend_from_slice(v.zzyy().as_slice()); o.extend_from_slice(v.zzyz().as_slice()); o.extend_from_slice(v.zzyw().as_slice()); o.extend_from_slice(v.zzzx().as_slice()); o.extend_from_slice(v.zzzy().as_slice()); o.extend_from_slice(v.zzzz().as_slice()); o.extend_from_slice(v.zzzw().as_slice()); o.extend_from_slice(v.zzwx().as_slice()); o.extend_from_slice(v.zzwy().as_slice()); o.extend_from_slice(v.zzwz().as_slice()); o.extend_from_slice(v.zzww().as_slice()); o.extend_from_slice(v.zwxx().as_slice()); o.extend_from_slice(v.zwxy().as_slice()); o.extend_from_slice(v.zwxz().as_slice()); o.extend_from_slice(v.zwxw().as_slice()); o.extend_from_slice(v.zwyx().as_slice()); o.extend_from_slice(v.zwyy().as_slice()); o.extend_from_slice(v.zwyz().as_slice()); o.extend_from_slice(v.zwyw().as_slice()); o.extend_from_slice(v.zwzx().as_slice()); o.extend_from_slice(v.zwzy().as_slice()); o.extend_from_slice(v.zwzz().as_slice()); o.extend_from_slice(v.zwzw().as_slice()); o.extend_from_slice(v.zwwx().as_slice()); o.extend_from_slice(v.zwwy().as_slice()); o.extend_from_slice(v.zwwz().as_slice()); o.extend_from_slice(v.zwww().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "zzxzyzzzwzxxzxyzxzzxwzyxzyyzyzzywzzxzzyzzzzzwzwxzwyzwzzwwzxxxzxxyzxxzzxxwzxyxzxyyzxyzzxywzxzxzxzyzxzzzxzwzxwxzxwyzxwzzxwwzyxxzyxyzyxzzyxwzyyxzyyyzyyzzyywzyzxzyzyzyzzzyzwzywxzywyzywzzywwzzxxzzxyzzxzzzxwzzyxzzyyzzyzzzywzzzxzzzyzzzzzzzwzzwxzzwyzzwzzzwwzwxxzwxyzwxzzwxwzwyxzwyyzwyzzwywzwzxzwzyzwzzzwzwzwwxzwwyzwwzzwww"))));
    d.read("swizzles w..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.w().as_slice()); o.extend_from_slice(v.wx().as_slice()); o.extend_from_slice(v.wy().as_slice()); o.extend_from_slice(v.wz().as_slice()); o.extend_from_slice(v.ww().as_slice()); o.extend_from_slice(v.wxx().as_slice()); o.extend_from_slice(v.wxy().as_slice()); o.extend_from_slice(v.wxz().as_slice()); o.extend_from_slice(v.wxw().as_slice()); o.extend_from_slice(v.wyx().as_slice()); o.extend_from_slice(v.wyy().as_slice()); o.extend_from_slice(v.wyz().as_slice()); o.extend_from_slice(v.wyw().as_slice()); o.extend_from_slice(v.wzx().as_slice()); o.extend_from_slice(v.wzy().as_slice()); o.extend_from_slice(v.wzz().as_slice()); o.extend_from_slice(v.wzw().as_slice()); o.extend_from_slice(v.wwx().as_slice()); o.extend_from_slice(v.wwy().as_slice()); o.extend_from_slice(v.wwz().as_slice()); o.extend_from_slice(v.www().as_slice()); o.extend_from_slice(v.wxxx().as_slice()); o.extend_from_slice(v.wxxy().as_slice()); o.extend_from_slice(v.wxxz().as_slice()); o.extend_from_slice(v.wxxw().as_slice()); o.extend_from_slice(v.wxyx().as_slice()); o.extend_from_slice(v.wxyy().as_slice()); o.extend_from_slice(v.wxyz().as_slice()); o.extend_from_slice(v.wxyw().as_slice()); o.extend_from_slice(v.wxzx().as_slice()); o.extend_from_slice(v.wxzy().as_slice()); o.extend_from_slice(v.wxzz().as_slice()); o.extend_from_slice(v.wxzw().as_slice()); o.extend_from_slice(v.wxwx().as_slice()); o.extend_from_slice(v.wxwy().as_slice()); o.extend_from_slice(v.wxwz().as_slice()); o.extend_from_slice(v.wxww().as_slice()); o.extend_from_slice(v.wyxx().as_slice()); o.extend_from_slice(v.wyxy().as_slice()); o.extend_from_slice(v.wyxz().as_slice()); o.extend_from_slice(v.wyxw().as_slice()); o.extend_from_slice(v.wyyx().as_slice()); o.extend_from_slice(v.wyyy().as_slice()); o.extend_from_slice(v.wyyz().as_slice()); o.extend_from_slice(v.wyyw().as_slice()); o.extend_from_slice(v.wyzx().as_slice()); o.extend_from_slice(v.wyzy().as_slice()); o.extend_from_slice(v.wyzz().as_slice()); o.extend_from_slice(v.wyzw().as_slice()); o.extend_from_slice(v.wywx().as_slice()); o.extend_from_slice(v.wywy().as_slice()); o.extend_from_slice(v.wywz().as_slice()); o.extend_from_slice(v.wyww().as_slice()); o.extend_from_slice(v.wzxx().as_slice()); o.extend_from_slice(v.wzxy().as_slice()); o.extend_from_slice(v.wzxz().as_slice()); o.extend_from_slice(v.wzxw().as_slice()); o.extend_from_slice(v.wzyx().as_slice()); o.extend_from_slice(v.wzyy().as_slice()); o.extend_from_slice(v.wzyz().as_slice()); o.extend_from_slice(v.wzyw().as_slice()); o.extend_from_slice(v.wzzx().as_slice()); o.extend_from_slice(v.wzzy().as_slice()); o.extend_from_slice(v.wzzz().as_slice()); o.extend_from_slice(v.wzzw().as_slice()); o.extend_from_slice(v.wzwx().as_slice()); o.extend_from_slice(v.wzwy().as_slice()); o.extend_from_slice(v.wzwz().as_slice()); o.extend_from_slice(v.wzww().as_slice()); o.extend_from_slice(v.wwxx().as_slice()); o.extend_from_slice(v.wwxy().as_slice()); o.extend_from_slice(v.wwxz().as_slice()); o.extend_from_slice(v.wwxw().as_slice()); o.extend_from_slice(v.wwyx().as_slice()); o.extend_from_slice(v.wwyy().as_slice()); o.extend_from_slice(v.wwyz().as_slice()); o.extend_from_slice(v.wwyw().as_slice()); o.extend_from_slice(v.wwzx().as_slice()); o.extend_from_slice(v.wwzy().as_slice()); o.extend_from_slice(v.wwzz().as_slice()); o.extend_from_slice(v.wwzw().as_slice()); o.extend_from_slice(v.wwwx().as_slice()); o.extend_from_slice(v.wwwy().as_slice()); o.extend_from_slice(v.wwwz().as_slice()); o.extend_from_slice(v.wwww().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "wwxwywzwwwxxwxywxzwxwwyxwyywyzwywwzxwzywzzwzwwwxwwywwzwwwwxxxwxxywxxzwxxwwxyxwxyywxyzwxywwxzxwxzywxzzwxzwwxwxwxwywxwzwxwwwyxxwyxywyxzwyxwwyyxwyyywyyzwyywwyzxwyzywyzzwyzwwywxwywywywzwywwwzxxwzxywzxzwzxwwzyxwzyywzyzwzywwzzxwzzywzzzwzzwwzwxwzwywzwzwzwwwwxxwwxywwxzwwxwwwyxwwyywwyzwwywwwzxwwzywwzzwwzwwwwxwwwywwwzwwww"))));
}
pub fn point1<E: El>(d: &mut Def<Point1<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 1 { _ => &mut v.x } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 1] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E,) = v.as_mut(); *match p.xi(0) as usize % 1 { _ => &mut t.0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 1] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E,) = v.as_ref(); val(&[t.0]) }, |m, _| Want::Val(words(m)));
    d.edit("as_mut::<S>() =", 0, |v, p| { let t: &mut E = v.as_mut(); *t = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
    d.read("as_ref::<S>()", 0, |v, _| { let t: &E = v.as_ref(); val(&[*t]) }, |m, _| Want::Val(words(m)));
    d.edit("= Point1::new", 0, |v, p| { *v = Point1::new(p.w[0]); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= Point1::from(tuple)", 0, |v, p| { *v = Point1::from((p.w[0],)); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= Point1::from(&tuple)", 0, |v, p| { *v = Point1::from(&(p.w[0],)); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= *<&Point1>::from(&tuple)", 0, |v, p| { let t = (p.w[0],); let r: &Point1<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "x"))));
}
pub fn point2<E: El>(d: &mut Def<Point2<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 2 { 0 => &mut v.x, _ => &mut v.y } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 2] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x, v.y]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E) = v.as_mut(); *match p.xi(0) as usize % 2 { 0 => &mut t.0, _ => &mut t.1 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 2] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E) = v.as_ref(); val(&[t.0, t.1]) }, |m, _| Want::Val(words(m)));
    d.edit("= Point2::new", 0, |v, p| { *v = Point2::new(p.w[0], p.w[1]); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= Point2::from(tuple)", 0, |v, p| { *v = Point2::from((p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= Point2::from(&tuple)", 0, |v, p| { *v = Point2::from(&(p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= *<&Point2>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1]); let r: &Point2<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); o.extend_from_slice(v.xx().as_slice()); o.extend_from_slice(v.xy().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "xxxxy"))));
    d.read("swizzles y..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.y().as_slice()); o.extend_from_slice(v.yx().as_slice()); o.extend_from_slice(v.yy().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "yyxyy"))));
}
pub fn point3<E: El>(d: &mut Def<Point3<E>, E>) {
    d.edit("named coordinate =", 0, |v, p| { *match p.xi(0) as usize % 3 { 0 => &mut v.x, 1 => &mut v.y, _ => &mut v.z } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 3] = p.s(); Want::Done });
    d.read("named coordinates", 0, |v, _| val(&[v.x, v.y, v.z]), |m, _| Want::Val(words(m)));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E, E) = v.as_mut(); *match p.xi(0) as usize % 3 { 0 => &mut t.0, 1 => &mut t.1, _ => &mut t.2 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 3] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E, E) = v.as_ref(); val(&[t.0, t.1, t.2]) }, |m, _| Want::Val(words(m)));
    d.edit("= Point3::new", 0, |v, p| { *v = Point3::new(p.w[0], p.w[1], p.w[2]); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= Point3::from(tuple)", 0, |v, p| { *v = Point3::from((p.w[0], p.w[1], p.w[2])); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= Point3::from(&tuple)", 0, |v, p| { *v = Point3::from(&(p.w[0], p.w[1], p.w[2])); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= *<&Point3>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1], p.w[2]); let r: &Point3<E> = From::from(&t); *v = *r; Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.read("swizzles x..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.x().as_slice()); o.extend_from_slice(v.xx().as_slice()); o.extend_from_slice(v.xy().as_slice()); o.extend_from_slice(v.xz().as_slice()); o.extend_from_slice(v.xxx().as_slice()); o.extend_from_slice(v.xxy().as_slice()); o.extend_from_slice(v.xxz().as_slice()); o.extend_from_slice(v.xyx().as_slice()); o.extend_from_slice(v.xyy().as_slice()); o.extend_from_slice(v.xyz().as_slice()); o.extend_from_slice(v.xzx().as_slice()); o.extend_from_slice(v.xzy().as_slice()); o.extend_from_slice(v.xzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "xxxxyxzxxxxxyxxzxyxxyyxyzxzxxzyxzz"))));
    d.read("swizzles y..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.y().as_slice()); o.extend_from_slice(v.yx().as_slice()); o.extend_from_slice(v.yy().as_slice()); o.extend_from_slice(v.yz().as_slice()); o.extend_from_slice(v.yxx().as_slice()); o.extend_from_slice(v.yxy().as_slice()); o.extend_from_slice(v.yxz().as_slice()); o.extend_from_slice(v.yyx().as_slice()); o.extend_from_slice(v.yyy().as_slice()); o.extend_from_slice(v.yyz().as_slice()); o.extend_from_slice(v.yzx().as_slice()); o.extend_from_slice(v.yzy().as_slice()); o.extend_from_slice(v.yzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "yyxyyyzyxxyxyyxzyyxyyyyyzyzxyzyyzz"))));
    d.read("swizzles z..", 0, |v, _| { let mut o = vec![]; o.extend_from_slice(v.z().as_slice()); o.extend_from_slice(v.zx().as_slice()); o.extend_from_slice(v.zy().as_slice()); o.extend_from_slice(v.zz().as_slice()); o.extend_from_slice(v.zxx().as_slice()); o.extend_from_slice(v.zxy().as_slice()); o.extend_from_slice(v.zxz().as_slice()); o.extend_from_slice(v.zyx().as_slice()); o.extend_from_slice(v.zyy().as_slice()); o.extend_from_slice(v.zyz().as_slice()); o.extend_from_slice(v.zzx().as_slice()); o.extend_from_slice(v.zzy().as_slice()); o.extend_from_slice(v.zzz().as_slice()); val(&o) }, |m, _| Want::Val(words(&swizzled(m, "zzxzyzzzxxzxyzxzzyxzyyzyzzzxzzyzzz"))));
}
pub fn matrix1x1<E: El>(d: &mut Def<Matrix1x1<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 1 { _ => &mut v.c0r0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 1] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x1::new", 0, |v, p| { *v = Matrix1x1::new(p.w[0]); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("as_mut::<[S; 1]>()[i] =", 1, |v, p| { let t: &mut [E; 1] = v.as_mut(); t[p.ix(0, 1)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 1); if i >= 1 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 1]>()", 0, |v, _| { let t: &[E; 1] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x1::from([S; 1])", 0, |v, p| { *v = Matrix1x1::from(p.arr::<1>()); Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
    d.edit("= *<&Matrix1x1>::from(&[S; 1])", 0, |v, p| { let t = p.arr::<1>(); let q: &Matrix1x1<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(1); Want::Done });
}
pub fn matrix2x2<E: El>(d: &mut Def<Matrix2x2<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 4 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c1r0, _ => &mut v.c1r1 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 4] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c1r0, v.c1r1]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x2::new", 0, |v, p| { *v = Matrix2x2::new(p.w[0], p.w[1], p.w[2], p.w[3]); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("as_mut::<[S; 4]>()[i] =", 1, |v, p| { let t: &mut [E; 4] = v.as_mut(); t[p.ix(0, 4)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 4); if i >= 4 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 4]>()", 0, |v, _| { let t: &[E; 4] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x2::from([S; 4])", 0, |v, p| { *v = Matrix2x2::from(p.arr::<4>()); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= *<&Matrix2x2>::from(&[S; 4])", 0, |v, p| { let t = p.arr::<4>(); let q: &Matrix2x2<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
}
pub fn matrix3x3<E: El>(d: &mut Def<Matrix3x3<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 9 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c1r0, 4 => &mut v.c1r1, 5 => &mut v.c1r2, 6 => &mut v.c2r0, 7 => &mut v.c2r1, _ => &mut v.c2r2 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 9] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c1r0, v.c1r1, v.c1r2, v.c2r0, v.c2r1, v.c2r2]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x3::new", 0, |v, p| { *v = Matrix3x3::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7], p.w[8]); Got::Done }, |m, p| { *m = p.vals(9); Want::Done });
    d.edit("as_mut::<[S; 9]>()[i] =", 1, |v, p| { let t: &mut [E; 9] = v.as_mut(); t[p.ix(0, 9)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 9); if i >= 9 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 9]>()", 0, |v, _| { let t: &[E; 9] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x3::from([S; 9])", 0, |v, p| { *v = Matrix3x3::from(p.arr::<9>()); Got::Done }, |m, p| { *m = p.vals(9); Want::Done });
    d.edit("= *<&Matrix3x3>::from(&[S; 9])", 0, |v, p| { let t = p.arr::<9>(); let q: &Matrix3x3<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(9); Want::Done });
}
pub fn matrix4x4<E: El>(d: &mut Def<Matrix4x4<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 16 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c0r3, 4 => &mut v.c1r0, 5 => &mut v.c1r1, 6 => &mut v.c1r2, 7 => &mut v.c1r3, 8 => &mut v.c2r0, 9 => &mut v.c2r1, 10 => &mut v.c2r2, 11 => &mut v.c2r3, 12 => &mut v.c3r0, 13 => &mut v.c3r1, 14 => &mut v.c3r2, _ => &mut v.c3r3 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 16] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c0r3, v.c1r0, v.c1r1, v.c1r2, v.c1r3, v.c2r0, v.c2r1, v.c2r2, v.c2r3, v.c3r0, v.c3r1, v.c3r2, v.c3r3]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x4::new", 0, |v, p| { *v = Matrix4x4::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7], p.w[8], p.w[9], p.w[10], p.w[11], p.w[12], p.w[13], p.w[14], p.w[15]); Got::Done }, |m, p| { *m = p.vals(16); Want::Done });
    d.edit("as_mut::<[S; 16]>()[i] =", 1, |v, p| { let t: &mut [E; 16] = v.as_mut(); t[p.ix(0, 16)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 16); if i >= 16 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 16]>()", 0, |v, _| { let t: &[E; 16] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x4::from([S; 16])", 0, |v, p| { *v = Matrix4x4::from(p.arr::<16>()); Got::Done }, |m, p| { *m = p.vals(16); Want::Done });
    d.edit("= *<&Matrix4x4>::from(&[S; 16])", 0, |v, p| { let t = p.arr::<16>(); let q: &Matrix4x4<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(16); Want::Done });
}
pub fn matrix1x2<E: El>(d: &mut Def<Matrix1x2<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 2 { 0 => &mut v.c0r0, _ => &mut v.c1r0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 2] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c1r0]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x2::new", 0, |v, p| { *v = Matrix1x2::new(p.w[0], p.w[1]); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("as_mut::<[S; 2]>()[i] =", 1, |v, p| { let t: &mut [E; 2] = v.as_mut(); t[p.ix(0, 2)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 2); if i >= 2 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 2]>()", 0, |v, _| { let t: &[E; 2] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x2::from([S; 2])", 0, |v, p| { *v = Matrix1x2::from(p.arr::<2>()); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= *<&Matrix1x2>::from(&[S; 2])", 0, |v, p| { let t = p.arr::<2>(); let q: &Matrix1x2<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
}
pub fn matrix1x3<E: El>(d: &mut Def<Matrix1x3<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 3 { 0 => &mut v.c0r0, 1 => &mut v.c1r0, _ => &mut v.c2r0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 3] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c1r0, v.c2r0]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x3::new", 0, |v, p| { *v = Matrix1x3::new(p.w[0], p.w[1], p.w[2]); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("as_mut::<[S; 3]>()[i] =", 1, |v, p| { let t: &mut [E; 3] = v.as_mut(); t[p.ix(0, 3)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 3); if i >= 3 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 3]>()", 0, |v, _| { let t: &[E; 3] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x3::from([S; 3])", 0, |v, p| { *v = Matrix1x3::from(p.arr::<3>()); Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
    d.edit("= *<&Matrix1x3>::from(&[S; 3])", 0, |v, p| { let t = p.arr::<3>(); let q: &Matrix1x3<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(3); Want::Done });
}
pub fn matrix1x4<E: El>(d: &mut Def<Matrix1x4<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 4 { 0 => &mut v.c0r0, 1 => &mut v.c1r0, 2 => &mut v.c2r0, _ => &mut v.c3r0 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 4] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c1r0, v.c2r0, v.c3r0]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x4::new", 0, |v, p| { *v = Matrix1x4::new(p.w[0], p.w[1], p.w[2], p.w[3]); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("as_mut::<[S; 4]>()[i] =", 1, |v, p| { let t: &mut [E; 4] = v.as_mut(); t[p.ix(0, 4)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 4); if i >= 4 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 4]>()", 0, |v, _| { let t: &[E; 4] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix1x4::from([S; 4])", 0, |v, p| { *v = Matrix1x4::from(p.arr::<4>()); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= *<&Matrix1x4>::from(&[S; 4])", 0, |v, p| { let t = p.arr::<4>(); let q: &Matrix1x4<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
}
pub fn matrix2x3<E: El>(d: &mut Def<Matrix2x3<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 6 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c1r0, 3 => &mut v.c1r1, 4 => &mut v.c2r0, _ => &mut v.c2r1 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 6] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c1r0, v.c1r1, v.c2r0, v.c2r1]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x3::new", 0, |v, p| { *v = Matrix2x3::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5]); Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
    d.edit("as_mut::<[S; 6]>()[i] =", 1, |v, p| { let t: &mut [E; 6] = v.as_mut(); t[p.ix(0, 6)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 6); if i >= 6 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 6]>()", 0, |v, _| { let t: &[E; 6] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x3::from([S; 6])", 0, |v, p| { *v = Matrix2x3::from(p.arr::<6>()); Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
    d.edit("= *<&Matrix2x3>::from(&[S; 6])", 0, |v, p| { let t = p.arr::<6>(); let q: &Matrix2x3<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
}
pub fn matrix2x4<E: El>(d: &mut Def<Matrix2x4<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 8 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c1r0, 3 => &mut v.c1r1, 4 => &mut v.c2r0, 5 => &mut v.c2r1, 6 => &mut v.c3r0, _ => &mut v.c3r1 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 8] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c1r0, v.c1r1, v.c2r0, v.c2r1, v.c3r0, v.c3r1]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x4::new", 0, |v, p| { *v = Matrix2x4::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7]); Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
    d.edit("as_mut::<[S; 8]>()[i] =", 1, |v, p| { let t: &mut [E; 8] = v.as_mut(); t[p.ix(0, 8)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 8); if i >= 8 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 8]>()", 0, |v, _| { let t: &[E; 8] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix2x4::from([S; 8])", 0, |v, p| { *v = Matrix2x4::from(p.arr::<8>()); Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
    d.edit("= *<&Matrix2x4>::from(&[S; 8])", 0, |v, p| { let t = p.arr::<8>(); let q: &Matrix2x4<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
}
pub fn matrix3x2<E: El>(d: &mut Def<Matrix3x2<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 6 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c1r0, 4 => &mut v.c1r1, _ => &mut v.c1r2 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 6] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c1r0, v.c1r1, v.c1r2]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x2::new", 0, |v, p| { *v = Matrix3x2::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5]); Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
    d.edit("as_mut::<[S; 6]>()[i] =", 1, |v, p| { let t: &mut [E; 6] = v.as_mut(); t[p.ix(0, 6)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 6); if i >= 6 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 6]>()", 0, |v, _| { let t: &[E; 6] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x2::from([S; 6])", 0, |v, p| { *v = Matrix3x2::from(p.arr::<6>()); Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
    d.edit("= *<&Matrix3x2>::from(&[S; 6])", 0, |v, p| { let t = p.arr::<6>(); let q: &Matrix3x2<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(6); Want::Done });
}
pub fn matrix3x4<E: El>(d: &mut Def<Matrix3x4<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 12 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c1r0, 4 => &mut v.c1r1, 5 => &mut v.c1r2, 6 => &mut v.c2r0, 7 => &mut v.c2r1, 8 => &mut v.c2r2, 9 => &mut v.c3r0, 10 => &mut v.c3r1, _ => &mut v.c3r2 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 12] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c1r0, v.c1r1, v.c1r2, v.c2r0, v.c2r1, v.c2r2, v.c3r0, v.c3r1, v.c3r2]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x4::new", 0, |v, p| { *v = Matrix3x4::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7], p.w[8], p.w[9], p.w[10], p.w[11]); Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
    d.edit("as_mut::<[S; 12]>()[i] =", 1, |v, p| { let t: &mut [E; 12] = v.as_mut(); t[p.ix(0, 12)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 12); if i >= 12 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 12]>()", 0, |v, _| { let t: &[E; 12] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix3x4::from([S; 12])", 0, |v, p| { *v = Matrix3x4::from(p.arr::<12>()); Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
    d.edit("= *<&Matrix3x4>::from(&[S; 12])", 0, |v, p| { let t = p.arr::<12>(); let q: &Matrix3x4<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
}
pub fn matrix4x2<E: El>(d: &mut Def<Matrix4x2<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 8 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c0r3, 4 => &mut v.c1r0, 5 => &mut v.c1r1, 6 => &mut v.c1r2, _ => &mut v.c1r3 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 8] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c0r3, v.c1r0, v.c1r1, v.c1r2, v.c1r3]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x2::new", 0, |v, p| { *v = Matrix4x2::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7]); Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
    d.edit("as_mut::<[S; 8]>()[i] =", 1, |v, p| { let t: &mut [E; 8] = v.as_mut(); t[p.ix(0, 8)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 8); if i >= 8 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 8]>()", 0, |v, _| { let t: &[E; 8] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x2::from([S; 8])", 0, |v, p| { *v = Matrix4x2::from(p.arr::<8>()); Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
    d.edit("= *<&Matrix4x2>::from(&[S; 8])", 0, |v, p| { let t = p.arr::<8>(); let q: &Matrix4x2<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(8); Want::Done });
}
pub fn matrix4x3<E: El>(d: &mut Def<Matrix4x3<E>, E>) {
    d.edit("named element =", 0, |v, p| { *match p.xi(0) as usize % 12 { 0 => &mut v.c0r0, 1 => &mut v.c0r1, 2 => &mut v.c0r2, 3 => &mut v.c0r3, 4 => &mut v.c1r0, 5 => &mut v.c1r1, 6 => &mut v.c1r2, 7 => &mut v.c1r3, 8 => &mut v.c2r0, 9 => &mut v.c2r1, 10 => &mut v.c2r2, _ => &mut v.c2r3 } = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 12] = p.s(); Want::Done });
    d.read("named elements", 0, |v, _| val(&[v.c0r0, v.c0r1, v.c0r2, v.c0r3, v.c1r0, v.c1r1, v.c1r2, v.c1r3, v.c2r0, v.c2r1, v.c2r2, v.c2r3]), |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x3::new", 0, |v, p| { *v = Matrix4x3::new(p.w[0], p.w[1], p.w[2], p.w[3], p.w[4], p.w[5], p.w[6], p.w[7], p.w[8], p.w[9], p.w[10], p.w[11]); Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
    d.edit("as_mut::<[S; 12]>()[i] =", 1, |v, p| { let t: &mut [E; 12] = v.as_mut(); t[p.ix(0, 12)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 12); if i >= 12 { return Want::Panic; } m[i] = p.s(); Want::Done });
    d.read("as_ref::<[S; 12]>()", 0, |v, _| { let t: &[E; 12] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    d.edit("= Matrix4x3::from([S; 12])", 0, |v, p| { *v = Matrix4x3::from(p.arr::<12>()); Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
    d.edit("= *<&Matrix4x3>::from(&[S; 12])", 0, |v, p| { let t = p.arr::<12>(); let q: &Matrix4x3<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(12); Want::Done });
}
