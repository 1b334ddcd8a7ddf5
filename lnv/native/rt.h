// Run-time of the native replay driver: reads a request (function key + arguments), calls the
// real LNLib function compiled from /repo's current sources, prints the result as a literal.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <csignal>
#include "AllLN.h"

using namespace LNLib;

struct In {
    std::istringstream s;
    std::string peek_;
    bool has = false;
    std::string tok() { if (has) { has = false; return peek_; } std::string t; s >> t; return t; }
    bool dflt() { if (!has) { s >> peek_; has = true; } if (peek_ == "_") { has = false; return true; } return false; }
};
typedef std::string Out;

template <class T, class E = void> struct C;
template <> struct C<double> {
    static double rd(In& i) { if (i.dflt()) return 0.0; std::string t = i.tok(); return strtod(t.c_str(), nullptr); }
    static void wr(Out& o, double v) { char b[64]; if (std::isnan(v)) { o += "nan"; return; } if (std::isinf(v)) { o += v < 0 ? "-inf" : "inf"; return; } snprintf(b, 64, "%.17g", v); o += b; if (!strpbrk(b, ".en")) o += ".0"; }
};
template <class T> struct C<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T rd(In& i) { if (i.dflt()) return 0; return (T)strtoll(i.tok().c_str(), nullptr, 10); }
    static void wr(Out& o, T v) { o += std::to_string((long long)v); }
};
template <> struct C<bool> {
    static bool rd(In& i) { if (i.dflt()) return false; return i.tok() == "1"; }
    static void wr(Out& o, bool v) { o += v ? "True" : "False"; }
};
template <class T> struct C<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static T rd(In& i) { return (T)strtoll(i.tok().c_str(), nullptr, 10); }
    static void wr(Out& o, T v) { o += std::to_string((long long)v); }
};
template <class T> struct C<std::vector<T>> {
    static std::vector<T> rd(In& i) { std::vector<T> v; if (i.dflt()) return v; int n = atoi(i.tok().c_str()); for (int k = 0; k < n; k++) v.push_back(C<T>::rd(i)); return v; }
    static void wr(Out& o, const std::vector<T>& v) { o += "["; for (const auto& x : v) { C<T>::wr(o, x); o += ","; } o += "]"; }
};
template <class K, class V> struct C<std::map<K, V>> {
    static std::map<K, V> rd(In& i) { std::map<K, V> m; if (i.dflt()) return m; int n = atoi(i.tok().c_str()); for (int k = 0; k < n; k++) { K a = C<K>::rd(i); m[a] = C<V>::rd(i); } return m; }
    static void wr(Out& o, const std::map<K, V>& m) { o += "["; for (auto& x : m) { o += "("; C<K>::wr(o, x.first); o += ","; C<V>::wr(o, x.second); o += "),"; } o += "]"; }
};
template <> struct C<XYZ> {
    static XYZ rd(In& i) { if (i.dflt()) return XYZ(); double a = C<double>::rd(i), b = C<double>::rd(i), c = C<double>::rd(i); return XYZ(a, b, c); }
    static void wr(Out& o, const XYZ& v) { o += "("; C<double>::wr(o, v.GetX()); o += ","; C<double>::wr(o, v.GetY()); o += ","; C<double>::wr(o, v.GetZ()); o += ")"; }
};
template <> struct C<XYZW> {
    static XYZW rd(In& i) { if (i.dflt()) return XYZW(); double a = C<double>::rd(i), b = C<double>::rd(i), c = C<double>::rd(i), d = C<double>::rd(i); return XYZW(a, b, c, d); }
    static void wr(Out& o, const XYZW& v) { o += "("; C<double>::wr(o, v.GetWX()); o += ","; C<double>::wr(o, v.GetWY()); o += ","; C<double>::wr(o, v.GetWZ()); o += ","; C<double>::wr(o, v.GetW()); o += ")"; }
};
template <> struct C<UV> {
    static UV rd(In& i) { if (i.dflt()) return UV(); double a = C<double>::rd(i), b = C<double>::rd(i); return UV(a, b); }
    static void wr(Out& o, const UV& v) { o += "("; C<double>::wr(o, v.GetU()); o += ","; C<double>::wr(o, v.GetV()); o += ")"; }
};
template <> struct C<UVW> {
    static UVW rd(In& i) { if (i.dflt()) return UVW(); double a = C<double>::rd(i), b = C<double>::rd(i), c = C<double>::rd(i); return UVW(a, b, c); }
    static void wr(Out& o, const UVW& v) { o += "("; C<double>::wr(o, v.GetU()); o += ","; C<double>::wr(o, v.GetV()); o += ","; C<double>::wr(o, v.GetW()); o += ")"; }
};
template <> struct C<Matrix4d> {
    static Matrix4d rd(In& i) { Matrix4d m; if (i.dflt()) return m; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m.SetElement(r, c, C<double>::rd(i)); return m; }
    static void wr(Out& o, const Matrix4d& m) { o += "("; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) { C<double>::wr(o, m.GetElement(r, c)); o += ","; } o += ")"; }
};
#define F1(n) o += "'" #n "':"; C<decltype(v.n)>::wr(o, v.n); o += ",";
#define R1(n) v.n = C<decltype(v.n)>::rd(i);
template <class T> struct C<LN_BezierCurve<T>> {
    static LN_BezierCurve<T> rd(In& i) { LN_BezierCurve<T> v; if (i.dflt()) return v; R1(Degree) R1(ControlPoints) return v; }
    static void wr(Out& o, const LN_BezierCurve<T>& v) { o += "{"; F1(Degree) F1(ControlPoints) o += "}"; }
};
template <class T> struct C<LN_BsplineCurve<T>> {
    static LN_BsplineCurve<T> rd(In& i) { LN_BsplineCurve<T> v; if (i.dflt()) return v; R1(Degree) R1(KnotVector) R1(ControlPoints) return v; }
    static void wr(Out& o, const LN_BsplineCurve<T>& v) { o += "{"; F1(Degree) F1(KnotVector) F1(ControlPoints) o += "}"; }
};
template <class T> struct C<LN_BezierSurface<T>> {
    static LN_BezierSurface<T> rd(In& i) { LN_BezierSurface<T> v; v.DegreeU = v.DegreeV = 0; if (i.dflt()) return v; R1(DegreeU) R1(DegreeV) R1(ControlPoints) return v; }
    static void wr(Out& o, const LN_BezierSurface<T>& v) { o += "{"; F1(DegreeU) F1(DegreeV) F1(ControlPoints) o += "}"; }
};
template <class T> struct C<LN_BsplineSurface<T>> {
    static LN_BsplineSurface<T> rd(In& i) { LN_BsplineSurface<T> v; v.DegreeU = v.DegreeV = 0; if (i.dflt()) return v; R1(DegreeU) R1(DegreeV) R1(KnotVectorU) R1(KnotVectorV) R1(ControlPoints) return v; }
    static void wr(Out& o, const LN_BsplineSurface<T>& v) { o += "{"; F1(DegreeU) F1(DegreeV) F1(KnotVectorU) F1(KnotVectorV) F1(ControlPoints) o += "}"; }
};
template <class T> struct C<LN_BsplineVolume<T>> {
    static LN_BsplineVolume<T> rd(In& i) { LN_BsplineVolume<T> v; v.DegreeU = v.DegreeV = v.DegreeW = 0; if (i.dflt()) return v; R1(DegreeU) R1(DegreeV) R1(DegreeW) R1(KnotVectorU) R1(KnotVectorV) R1(KnotVectorW) R1(ControlPoints) return v; }
    static void wr(Out& o, const LN_BsplineVolume<T>& v) { o += "{"; F1(DegreeU) F1(DegreeV) F1(DegreeW) F1(KnotVectorU) F1(KnotVectorV) F1(KnotVectorW) F1(ControlPoints) o += "}"; }
};
template <> struct C<LN_Mesh> {
    static LN_Mesh rd(In& i) { LN_Mesh v; i.tok(); return v; }
    static void wr(Out& o, const LN_Mesh& v) { o += "{"; F1(Vertices) F1(Faces) F1(UVs) F1(UVIndices) F1(Normals) F1(NormalIndices) o += "}"; }
};
template <> struct C<LN_ArcInfo> {
    static LN_ArcInfo rd(In& i) { LN_ArcInfo v; i.tok(); return v; }
    static void wr(Out& o, const LN_ArcInfo& v) { o += "{"; F1(Radius) F1(Center) F1(IsCircle) o += "}"; }
};
template <> struct C<LN_BoundingBox3d> {
    static LN_BoundingBox3d rd(In& i) { LN_BoundingBox3d v; if (i.dflt()) return v; R1(MinPoint) R1(MaxPoint) return v; }
    static void wr(Out& o, const LN_BoundingBox3d& v) { o += "{"; F1(MinPoint) F1(MaxPoint) o += "}"; }
};
template <> struct C<LN_OrientedBoundingBox3d> {
    static LN_OrientedBoundingBox3d rd(In& i) { LN_OrientedBoundingBox3d v; i.tok(); return v; }
    static void wr(Out& o, const LN_OrientedBoundingBox3d& v) { o += "{"; F1(Center) o += "'Axes':["; for (int k = 0; k < 3; k++) { C<XYZ>::wr(o, v.Axes[k]); o += ","; } o += "],'HalfExtents':["; for (int k = 0; k < 3; k++) { C<double>::wr(o, v.HalfExtents[k]); o += ","; } o += "]}"; }
};

// one parameter: storage, how to pass it, whether it is an output
template <class P> struct Par {          // by value / const ref
    typedef typename std::remove_cv<typename std::remove_reference<P>::type>::type V;
    V v;
    explicit Par(In& i) : v(C<V>::rd(i)) {}
    P get() { return v; }
    void out(Out& o) {
        if (std::is_lvalue_reference<P>::value && !std::is_const<typename std::remove_reference<P>::type>::value) { C<V>::wr(o, v); o += ","; }
    }
};
template <> struct Par<double*> {
    double v[64];
    explicit Par(In& i) { i.tok(); for (auto& x : v) x = std::nan(""); }
    double* get() { return v; }
    void out(Out& o) { o += "["; for (int k = 0; k < 16; k++) { C<double>::wr(o, v[k]); o += ","; } o += "],"; }
};
template <class X, int N> struct ParA {
    X v[8][N];
    explicit ParA(In& i) { i.tok(); }
    X (*get())[N] { return v; }
    void out(Out& o) { o += "["; for (int k = 0; k < 2; k++) { o += "["; for (int j = 0; j < N; j++) { C<X>::wr(o, v[k][j]); o += ","; } o += "],"; } o += "],"; }
};
template <int N> struct Par<double (*)[N]> : ParA<double, N> { using ParA<double, N>::ParA; };
template <int N> struct Par<XYZ (*)[N]> : ParA<XYZ, N> { using ParA<XYZ, N>::ParA; };
template <int N> struct Par<XYZW (*)[N]> : ParA<XYZW, N> { using ParA<XYZW, N>::ParA; };

template <class R> struct RetW { template <class F> static void go(Out& o, F f) { typename std::remove_cv<typename std::remove_reference<R>::type>::type r = f(); C<decltype(r)>::wr(o, r); } };
template <> struct RetW<void> { template <class F> static void go(Out& o, F f) { f(); o += "None"; } };

extern std::map<std::string, std::function<void(In&, Out&)>> REG;

template <class... P, size_t... I> void outs(std::tuple<P...>& t, Out& o, std::index_sequence<I...>) { int d[] = {0, (std::get<I>(t).out(o), 0)...}; (void)d; }

template <class R, class... A> void reg(const char* key, R (*f)(A...)) {
    REG[key] = [f](In& i, Out& o) {
        std::tuple<Par<A>...> t{Par<A>(i)...};
        o += "(";
        std::apply([&](auto&... p) { RetW<R>::go(o, [&]() -> R { return f(p.get()...); }); }, t);
        o += ",[";
        outs(t, o, std::index_sequence_for<A...>{});
        o += "],None)";
    };
}
template <class T, class R, class... A> void regm(const char* key, R (T::*f)(A...) const) {
    REG[key] = [f](In& i, Out& o) {
        T self = C<T>::rd(i);
        std::tuple<Par<A>...> t{Par<A>(i)...};
        o += "(";
        std::apply([&](auto&... p) { RetW<R>::go(o, [&]() -> R { return (self.*f)(p.get()...); }); }, t);
        o += ",[";
        outs(t, o, std::index_sequence_for<A...>{});
        o += "],"; C<T>::wr(o, self); o += ")";
    };
}
template <class T, class R, class... A> void regm(const char* key, R (T::*f)(A...)) {
    REG[key] = [f](In& i, Out& o) {
        T self = C<T>::rd(i);
        std::tuple<Par<A>...> t{Par<A>(i)...};
        o += "(";
        std::apply([&](auto&... p) { RetW<R>::go(o, [&]() -> R { return (self.*f)(p.get()...); }); }, t);
        o += ",[";
        outs(t, o, std::index_sequence_for<A...>{});
        o += "],"; C<T>::wr(o, self); o += ")";
    };
}
