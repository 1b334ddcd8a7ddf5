"""helper: seed(id, prop, file, old, new, demo_body, needs, breaks)"""
import os, json, sys
H = r'''// independent reference evaluation used by the demonstrations
#include <vector>
#include <cmath>
#include <cstdio>
#include <random>
#include <algorithm>
#include "LNLibDefinitions.h"
#include "LNLibExceptions.h"
#include "LNObject.h"
#include "LNEnums.h"
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "UVW.h"
#include "Matrix4d.h"
#include "MathUtils.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
using namespace LNLib;
static std::mt19937 gen(7);
inline double rnd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(gen); }
inline double N(const std::vector<double>& t, int i, int p, double u) {
    if (p == 0) { if (t[i] <= u && u < t[i + 1]) return 1; 
        // right end
        if (u == t.back() && t[i] < t[i + 1] && t[i + 1] == t.back()) return 1; return 0; }
    double s = 0;
    if (t[i + p] != t[i]) s += (u - t[i]) / (t[i + p] - t[i]) * N(t, i, p - 1, u);
    if (t[i + p + 1] != t[i + 1]) s += (t[i + p + 1] - u) / (t[i + p + 1] - t[i + 1]) * N(t, i + 1, p - 1, u);
    return s;
}
inline double dN(const std::vector<double>& t, int i, int p, double u, int d) {
    if (d == 0) return N(t, i, p, u);
    if (p == 0) return 0;
    double s = 0;
    if (t[i + p] != t[i]) s += p / (t[i + p] - t[i]) * dN(t, i, p - 1, u, d - 1);
    if (t[i + p + 1] != t[i + 1]) s -= p / (t[i + p + 1] - t[i + 1]) * dN(t, i + 1, p - 1, u, d - 1);
    return s;
}
inline void H4(const LN_NurbsCurve& c, double u, double h[4]) {
    for (int k = 0; k < 4; k++) h[k] = 0;
    for (size_t i = 0; i < c.ControlPoints.size(); i++) { double b = N(c.KnotVector, i, c.Degree, u); for (int k = 0; k < 4; k++) h[k] += b * c.ControlPoints[i][k]; }
}
inline XYZ P(const LN_NurbsCurve& c, double u) { double h[4]; H4(c, u, h); return XYZ(h[0] / h[3], h[1] / h[3], h[2] / h[3]); }
inline XYZ P(const LN_NurbsSurface& s, double u, double v) {
    double h[4] = {0, 0, 0, 0};
    for (size_t i = 0; i < s.ControlPoints.size(); i++) for (size_t j = 0; j < s.ControlPoints[i].size(); j++) {
        double b = N(s.KnotVectorU, i, s.DegreeU, u) * N(s.KnotVectorV, j, s.DegreeV, v);
        for (int k = 0; k < 4; k++) h[k] += b * s.ControlPoints[i][j][k];
    }
    return XYZ(h[0] / h[3], h[1] / h[3], h[2] / h[3]);
}
inline XYZW W() { return XYZW(XYZ(rnd(-3, 3), rnd(-3, 3), rnd(-3, 3)), rnd(0.5, 2)); }
inline LN_NurbsCurve curve(int p, std::vector<double> t) { LN_NurbsCurve c; c.Degree = p; c.KnotVector = t; for (size_t i = 0; i + p + 1 < t.size(); i++) c.ControlPoints.push_back(W()); return c; }
inline LN_NurbsSurface surface(int p, std::vector<double> s, int q, std::vector<double> t) {
    LN_NurbsSurface f; f.DegreeU = p; f.DegreeV = q; f.KnotVectorU = s; f.KnotVectorV = t;
    for (size_t i = 0; i + p + 1 < s.size(); i++) { std::vector<XYZW> r; for (size_t j = 0; j + q + 1 < t.size(); j++) r.push_back(W()); f.ControlPoints.push_back(r); }
    return f;
}
inline void need(bool b, const char* what) { if (!b) { std::printf("FAILED: %s\n", what); std::exit(1); } }
inline void near(double a, double b, const char* what) { if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)))) { std::printf("FAILED: %s: %.12g, expected %.12g\n", what, a, b); std::exit(1); } }
inline void near(const XYZ& a, const XYZ& b, const char* what) { for (int k = 0; k < 3; k++) near(a[k], b[k], what); }
inline bool wf(const LN_NurbsCurve& c) { return c.KnotVector.size() == c.ControlPoints.size() + c.Degree + 1; }
inline void same(const LN_NurbsCurve& a, const LN_NurbsCurve& b, const char* what) {
    need(wf(b), what);
    double lo = a.KnotVector[a.Degree], hi = a.KnotVector[a.ControlPoints.size()];
    for (int i = 0; i < 50; i++) { double u = lo + (hi - lo) * (i + 0.37) / 50; near(P(b, u), P(a, u), what); }
}
inline void same(const LN_NurbsSurface& a, const LN_NurbsSurface& b, const char* what) {
    need(b.KnotVectorU.size() == b.ControlPoints.size() + b.DegreeU + 1, what);
    for (auto& r : b.ControlPoints) need(b.KnotVectorV.size() == r.size() + b.DegreeV + 1, what);
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) {
        double u = a.KnotVectorU.front() + (a.KnotVectorU.back() - a.KnotVectorU.front()) * (i + 0.37) / 12;
        double v = a.KnotVectorV.front() + (a.KnotVectorV.back() - a.KnotVectorV.front()) * (j + 0.41) / 12;
        near(P(b, u, v), P(a, u, v), what);
    }
}
'''
SH = r'''#!/bin/bash
# cwd: /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I src/LNLib/include -I "$D" "$D/demo.cpp" -o "$T/demo" -L _build/RelWithDebInfo -lLNLib -Wl,-rpath,"$PWD/_build/RelWithDebInfo" || exit 3
timeout 60 "$T/demo"
'''
def seed(id, prop, file, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/ref.h', 'w').write(H)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include "ref.h"\n' + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    src = ''
    if isinstance(file, str): file = [(file, edits)]
    for f, es in file:
        src += '''
f=%r; raw=open(f,'rb').read(); crlf=b'\\r\\n' in raw
s=raw.decode('utf-8','surrogateescape').replace('\\r\\n','\\n')
for a,b in %r:
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
open(f,'wb').write((s.replace('\\n','\\r\\n') if crlf else s).encode('utf-8','surrogateescape'))
''' % ('/repo/' + f, es)
    open(d + '/edit.py', 'w').write(src)
