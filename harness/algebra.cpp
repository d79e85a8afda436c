// Driver for spec/Algebra.tla: vectors, matrices and quaternions.
#include "hx.hpp"
#include <math_physics/math/matrix_vector.hpp>
#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/s2e_math.hpp>
#include <math_physics/math/vector.hpp>
using hx::Js;
using namespace s2e::math;
typedef Vector<3> V;
static Quaternion q(0, 0, 0, 1); static const double kDeg = M_PI / 180;
template <size_t N> static Vector<N> vec(const Js& a) { Vector<N> v; for (size_t i = 0; i < N; i++) v[i] = (double)a.a[i].i; return v; }
template <size_t N> static Matrix<N, N> mat(const Js& a) { Matrix<N, N> m; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) m[i][j] = (double)a.a[i].a[j].i; return m; }
template <size_t N> static Js js(const Vector<N>& v, double k = 1) { Js a = Js::arr(); for (size_t i = 0; i < N; i++) a.push(hx::rnd(v[i] * k)); return a; }
template <size_t N> static Js js(const Matrix<N, N>& m, double k = 1) { Js a = Js::arr(); for (size_t i = 0; i < N; i++) { Js b = Js::arr(); for (size_t j = 0; j < N; j++) b.push(hx::rnd(m[i][j] * k)); a.push(b); } return a; }
static Js js(const Quaternion& p, double k) { Js a = Js::arr(); for (int i = 0; i < 4; i++) a.push(hx::rnd(p[i] * k)); return a; }
static Js state() {
  Js r = Js::obj(), m = Js::arr(); Matrix<3, 3> d = q.ConvertToDcm();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.push(hx::rnd(d[i][j] * 1e3));
  r["q"] = js(q, 1e4); r["m"] = m; r["d"] = js(Quaternion::ConvertFromDcm(d), 1e4); r["eq"] = js(Quaternion::ConvertFromEuler(q.ConvertToEuler()), 1e4); return r;
}
template <size_t N> static Js matrix(const Js& e) {
  Js r = Js::obj(); Matrix<N, N> a = mat<N>(e.at("a")), b = mat<N>(e.at("b")); Vector<N> v = vec<N>(e.at("v"));
  r["p"] = js<N>(a * b); r["s"] = js<N>(a + b); r["d"] = js<N>(a - b); r["t"] = js<N>(a.Transpose()); r["tr"] = hx::rnd(a.CalcTrace()); r["v"] = js<N>(a * v);
  Matrix<N, N> c = a; c += b; c -= b; c *= 2; c /= 2; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (c[i][j] != a[i][j]) r["tr"] = "assignment";
  Matrix<N, N> f(2.5), o = MakeIdentityMatrix<N>(); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (f[i][j] != 2.5 || o[i][j] != (i == j)) r["tr"] = "fill";
  return r;
}
template <size_t N> static Js inverse(const Js& e) {
  Js r = Js::obj(); Matrix<N, N> a = mat<N>(e.at("a")), m = CalcInverseMatrix(a); r["m"] = js<N>(m, 1e5);
  size_t index[N]; Matrix<N, N> lu = a; LuDecomposition(lu, index); Vector<N> x = vec<N>(e.at("v")); SolveLinearSystemWithLu(lu, index, x); r["x"] = js<N>(x, 1e5); return r;
}
int main(int argc, char** argv) {
  return hx::run(argc, argv, [](const Js& e) {
    const std::string& op = e.str("op"); Js r = Js::obj();
    auto quat = [&] { auto x = e.ints("q"); Quaternion p(x[0], x[1], x[2], x[3]); p.Normalize(); return p; };
    if (op == "reset") q = Quaternion(0, 0, 0, 1);
    else if (op == "set") { q = quat(); r = state(); }
    else if (op == "mul") { q = q * quat(); r = state(); }
    else if (op == "conj") { q = q.Conjugate(); r = state(); }
    else if (op == "axis") { q = Quaternion(vec<3>(e.at("v")).CalcNormalizedVector(), e.num("a") * kDeg); r = state(); }
    else if (op == "conv") { V v = vec<3>(e.at("v")); r["f"] = js<3>(q.FrameConversion(v), 1e3); r["b"] = js<3>(q.InverseFrameConversion(v), 1e3); r["m"] = js<3>(q.ConvertToDcm() * v, 1e3); }
    else if (op == "euler") { Quaternion p = Quaternion::ConvertFromEuler(kDeg * 1e-3 * vec<3>(e.at("a"))); r["f"] = js<3>(p.FrameConversion(vec<3>(e.at("v"))), 1e4); r["e"] = js<3>(p.ConvertToEuler(), 1e3 / kDeg); }
    else if (op == "rot") { double a = e.num("a") * 1e-3 * kDeg; V v = vec<3>(e.at("v")); r["x"] = js<3>(MakeRotationMatrixX<3, double>(a) * v, 1e4); r["y"] = js<3>(MakeRotationMatrixY<3, double>(a) * v, 1e4); r["z"] = js<3>(MakeRotationMatrixZ<3, double>(a) * v, 1e4); }
    else if (op == "axis2") { Quaternion p(vec<3>(e.at("u")).CalcNormalizedVector(), e.num("a") * 1e-3 * kDeg); r["f"] = js<3>(p.FrameConversion(vec<3>(e.at("v"))), 1e3); }
    else if (op == "turn") {
      V a = vec<3>(e.at("a")), b = vec<3>(e.at("b")), ua = a.CalcNormalizedVector(), ub = b.CalcNormalizedVector(); Quaternion p(a, b); V x; for (int i = 0; i < 3; i++) x[i] = p[i];
      r["f"] = js<3>(p.InverseFrameConversion(ua), 1e4); r["n"] = hx::rnd(((Vector<4>)p).CalcNorm() * 1e4); r["pa"] = hx::rnd(InnerProduct(x, ua) * 1e4); r["pb"] = hx::rnd(InnerProduct(x, ub) * 1e4); r["w"] = hx::rnd(p[3] * 1e4);
    } else if (op == "vec") {
      V v = vec<3>(e.at("v")), o = v.CalcNorm() > 0 ? GenerateOrthogonalUnitVector(v) : V(0.0), p = ConvertFrameOrthogonal2Polar(v); Js a = Js::arr(); a.push(hx::rnd(p[0] * 1e4)); a.push(hx::rnd(p[1] / kDeg * 1e3)); a.push(hx::rnd(p[2] / kDeg * 1e3));
      r["n"] = hx::rnd(v.CalcNorm() * 1e4); r["u"] = js<3>(v.CalcNormalizedVector(), 1e4); r["dot"] = hx::rnd(InnerProduct(o, v) * 1e4); r["on"] = hx::rnd(o.CalcNorm() * 1e4); r["p"] = a;
    } else if (op == "pair") {
      V a = vec<3>(e.at("a")), b = vec<3>(e.at("b")), c = a, d = a, k = a, n = a; double s = e.num("n"); c += b; d -= b; k *= s; n /= s;
      auto same = [&](const V& x, const V& y) { return (x - y).CalcNorm() < 1e-12 ? x : V(NAN); };
      r["dot"] = hx::rnd(InnerProduct(a, b)); r["x"] = js<3>(OuterProduct(a, b)); r["s"] = js<3>(same(a + b, c)); r["d"] = js<3>(same(a - b, d)); r["k"] = js<3>(same(s * a, k)); r["m"] = js<3>(-a); r["q"] = js<3>(n, 1e3); r["ang"] = hx::rnd(CalcAngleTwoVectors_rad(a, b) / kDeg * 1e3);
    } else if (op == "mat") { size_t n = e.at("a").a.size(); r = n == 2 ? matrix<2>(e) : n == 3 ? matrix<3>(e) : matrix<4>(e); }
    else if (op == "inv") { size_t n = e.at("a").a.size(); r = n == 2 ? inverse<2>(e) : n == 3 ? inverse<3>(e) : inverse<4>(e); }
    else r["a"] = hx::rnd(WrapTo2Pi(e.num("a") * 1e-3 * kDeg) / kDeg * 1e3);
    return r;
  });
}
