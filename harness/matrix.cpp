#include "common.hpp"
// C06, C07: Vector3, Matrix3
OP(mat_mul) { both(o, Matrix3::mul(mat(a, 0), mat(a, 9)), mat(a, 0).mul(mat(a, 9))); }
OP(mat_apply)
{
    both(o, Matrix3::apply(mat(a, 0), vec(a, 9)), mat(a, 0).apply(vec(a, 9)));
    both(o, Tristimulus::apply(tri(a, 9), mat(a, 0)), tri(a, 9).apply(mat(a, 0)));
}
OP(mat_apply2)
{
    put(o, mat(a, 0).apply(mat(a, 9).apply(vec(a, 18))));
    put(o, mat(a, 0).mul(mat(a, 9)).apply(vec(a, 18)));
}
OP(mat_det) { both(o, Matrix3::det(mat(a, 0)), mat(a, 0).det()); }
OP(mat_detmul) { put(o, mat(a, 0).mul(mat(a, 9)).det()); }
OP(mat_trans) { both(o, Matrix3::transpose(mat(a, 0)), mat(a, 0).transpose()); }
OP(mat_transmul) { put(o, mat(a, 9).transpose().mul(mat(a, 0).transpose())); }
OP(mat_add) { both(o, Matrix3::add(mat(a, 0), mat(a, 9)), mat(a, 0).add(mat(a, 9))); }
OP(mat_scale) { both(o, Matrix3::mul(mat(a, 0), (float)a[9]), mat(a, 0).mul((float)a[9])); }
OP(mat_div) { both(o, Matrix3::div(mat(a, 0), (float)a[9]), mat(a, 0).div((float)a[9])); }
OP(mat_diag) { both(o, Matrix3::diag(vec(a, 0)), Gamut::diag(vec(a, 0))); }
OP(mat_rowcol)
{
    const Matrix3 m = mat(a, 0);
    for (int i = 0; i < 3; i++) put(o, m.row(i));
    for (int i = 0; i < 3; i++) put(o, m.col(i));
    float f[9];
    for (int i = 0; i < 9; i++) f[i] = (float)a[i];
    put(o, Matrix3::fromArray(f));
    for (auto x : m) put(o, x);
    put(o, (float)m.size());
}
OP(vec_dot) { both(o, Vector3::dot(vec(a, 0), vec(a, 3)), vec(a, 0).dot(vec(a, 3))); }
OP(vec_get)
{
    const Vector3 v = vec(a, 0);
    put(o, v);
    put(o, v.x());
    put(o, v.y());
    put(o, v.z());
    for (auto x : v) put(o, x);
    put(o, (float)v.size());
    put(o, Matrix3());
}
static void invgroup(Out &o, const Matrix3 &m, const Matrix3 &i)
{
    put(o, i);
    put(o, m.mul(i));
    put(o, i.mul(m));
}
OP(mat_inv)
{
    const Matrix3 m = mat(a, 0);
    invgroup(o, m, Matrix3::invert(m));
    invgroup(o, m, m.invert());
}
OP(mat_xtalk)
{
    const float   r = (float)a[0];
    const Matrix3 c = Matrix3::crosstalk(r), i = Matrix3::crosstalkInvert(r);
    put(o, c);
    put(o, i);
    put(o, c.mul(i));
    put(o, i.mul(c));
}
