// Call sequences over LNLib's octree, box and integrator interfaces (raw pointers, function objects) packed into value functions,
// so that contracts can state what a client of that interface observes.  No algorithm of its own.
#pragma once
#include <vector>
#include "XYZ.h"
#include "Octree.h"
#include "OctreeCollector.h"
#include "LNObject.h"
#include "NurbsSurface.h"
#include "Integrator.h"
#include "Voronoi.h"

namespace LNLib {
class LnvPoly : public IntegrationFunction {
public:
    std::vector<double> c;
    double operator()(double t, void*) override { double r = 0; for (int i = (int)c.size() - 1; i >= 0; i--) r = r * t + c[i]; return r; }
};
class LnvPoly2 : public BinaryIntegrationFunction {
public:
    std::vector<std::vector<double>> c;
    double operator()(double u, double v, void*) const override {
        double r = 0;
        for (int i = (int)c.size() - 1; i >= 0; i--) { double q = 0; for (int j = (int)c[i].size() - 1; j >= 0; j--) q = q * v + c[i][j]; r = r * u + q; }
        return r;
    }
};
class LnvGlue {
public:
    static bool OctInside(const XYZ& q, double r, const XYZ& c, double e) { std::vector<int> none; Octant o(c, e, none, true); return Inside(q, r, &o); }
    static bool OctOverlaps(const XYZ& q, double r, const XYZ& c, double e) { std::vector<int> none; Octant o(c, e, none, true); return Overlaps(q, r, &o); }
    static bool OctContains(const XYZ& q, double r, const XYZ& c, double e) { std::vector<int> none; Octant o(c, e, none, true); return Contains(q, r, &o); }
    static int RadiusSearch(const std::vector<XYZ>& db, int leafSize, double minExtent, double radius, const XYZ& q) {
        Octant* root = OctreeConstruction(db, leafSize, minExtent);
        RadiusNnResultSet set(radius);
        OctreeRadiusSearch(root, db, set, q);
        int n = set.Size();
        delete root;
        return n;
    }
    static int RadiusSearchFast(const std::vector<XYZ>& db, int leafSize, double minExtent, double radius, const XYZ& q) {
        Octant* root = OctreeConstruction(db, leafSize, minExtent);
        RadiusNnResultSet set(radius);
        OctreeRadiusSearchFast(root, db, set, q);
        int n = set.Size();
        delete root;
        return n;
    }
    static double KnnSearch(const std::vector<XYZ>& db, int leafSize, double minExtent, int k, const XYZ& q, int& size, bool& full) {
        Octant* root = OctreeConstruction(db, leafSize, minExtent);
        KnnResultSet set(k);
        OctreeKnnSearch(root, db, set, q);
        size = set.Size();
        full = set.Full();
        double d = set.WorstDist();
        delete root;
        return d;
    }
    static double KnnSet(int k, const std::vector<double>& dist, int& size, bool& full) {
        KnnResultSet set(k);
        for (int i = 0; i < (int)dist.size(); i++) set.AddPoint(dist[i], i);
        size = set.Size();
        full = set.Full();
        return set.WorstDist();
    }
    static int RadiusSet(double radius, const std::vector<double>& dist, double& worst) {
        RadiusNnResultSet set(radius);
        for (int i = 0; i < (int)dist.size(); i++) set.AddPoint(dist[i], i);
        worst = set.WorstDist();
        return set.Size();
    }
    static void DumpNode(Octant* node, int parent, std::vector<XYZ>& centers, std::vector<double>& extents, std::vector<int>& parents, std::vector<bool>& leaf, std::vector<std::vector<int>>& points) {
        if (node == nullptr) return;
        int me = (int)centers.size();
        centers.push_back(node->Center);
        extents.push_back(node->Extent);
        parents.push_back(parent);
        leaf.push_back(node->IsLeaf);
        points.push_back(node->PointIndices);
        for (int i = 0; i < (int)node->Children.size(); i++) DumpNode(node->Children[i], me, centers, extents, parents, leaf, points);
    }
    static void OctreeDump(const std::vector<XYZ>& db, int leafSize, double minExtent, std::vector<XYZ>& centers, std::vector<double>& extents, std::vector<int>& parents, std::vector<bool>& leaf, std::vector<std::vector<int>>& points) {
        Octant* root = OctreeConstruction(db, leafSize, minExtent);
        DumpNode(root, -1, centers, extents, parents, leaf, points);
        delete root;
    }
    static double SimpsonPoly(const std::vector<double>& c, double a, double b) { LnvPoly f; f.c = c; return Integrator::Simpson(f, nullptr, a, b); }
    static double SimpsonPoly2(const std::vector<std::vector<double>>& c, double u0, double u1, double v0, double v1) { LnvPoly2 f; f.c = c; return Integrator::Simpson(f, nullptr, u0, u1, v0, v1); }
    static double ClenshawPoly(const std::vector<double>& c, double a, double b, bool second) {
        LnvPoly f;
        f.c = c;
        std::vector<double> series = Integrator::ChebyshevSeries();
        return second ? Integrator::ClenshawCurtisQuadrature2(f, nullptr, a, b, series) : Integrator::ClenshawCurtisQuadrature(f, nullptr, a, b, series);
    }
    static std::vector<double> ClenshawTwice(const std::vector<double>& c, const std::vector<double>& d, double a, double b) {
        LnvPoly f, g;
        f.c = c;
        g.c = d;
        std::vector<double> series = Integrator::ChebyshevSeries();
        double x = Integrator::ClenshawCurtisQuadrature(f, nullptr, a, b, series);
        double y = Integrator::ClenshawCurtisQuadrature(g, nullptr, a, b, series);
        return { x, y };
    }
    static std::vector<double> GaussNodes() { return Integrator::GaussLegendreAbscissae; }
    static std::vector<double> GaussWeights() { return Integrator::GaussLegendreWeights; }
    static std::vector<XYZ> Box(const LN_NurbsSurface& surface) {
        LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(surface);
        return { b.MinPoint, b.MaxPoint };
    }
    static bool BoxesMeet(const XYZ& a0, const XYZ& a1, const XYZ& b0, const XYZ& b1) {
        LN_BoundingBox3d a, b;
        a.MinPoint = a0;
        a.MaxPoint = a1;
        b.MinPoint = b0;
        b.MaxPoint = b1;
        return a.Intersects(b);
    }
#ifndef LNV_NO_PRIVATE
    static void VorReady(VoronoiDiagramGenerator& g) {
        g.nsites = 12;
        g.xmin = g.ymin = -1;
        g.xmax = g.ymax = 1;
        g.geominit();
        g.freeinit(&g.sfl, sizeof(Site));
        g.total_alloc = 0;
    }
    static Site VorSite(const XYZ& p, int k) {
        Site s;
        s.coord.x = p.GetX();
        s.coord.y = p.GetY();
        s.sitenbr = k;
        s.refcnt = 0;
        s.overallRefcnt = 0;
        return s;
    }
    static double VorDist(const XYZ& p, const XYZ& q) {
        VoronoiDiagramGenerator g;
        Site s = VorSite(p, 0), t = VorSite(q, 1);
        return g.dist(&s, &t);
    }
    static void VorBisect(const XYZ& p, const XYZ& q, double& a, double& b, double& c) {
        VoronoiDiagramGenerator g;
        VorReady(g);
        Site s = VorSite(p, 0), t = VorSite(q, 1);
        Edge* e = g.bisect(&s, &t);
        a = e->a;
        b = e->b;
        c = e->c;
    }
    static bool VorMeet(const XYZ& p, const XYZ& q, const XYZ& r, const XYZ& t, int pm0, int pm1, double& x, double& y) {
        VoronoiDiagramGenerator g;
        VorReady(g);
        Site s0 = VorSite(p, 0), s1 = VorSite(q, 1), s2 = VorSite(r, 2), s3 = VorSite(t, 3);
        Halfedge h0, h1;
        h0.ELedge = g.bisect(&s0, &s1);
        h0.ELpm = pm0;
        h1.ELedge = g.bisect(&s2, &s3);
        h1.ELpm = pm1;
        Site* v = g.intersect(&h0, &h1);
        if (v == nullptr) return false;
        x = v->coord.x;
        y = v->coord.y;
        return true;
    }
    static bool VorRight(const XYZ& bottom, const XYZ& top, int pm, const XYZ& p) {
        VoronoiDiagramGenerator g;
        VorReady(g);
        Site s0 = VorSite(bottom, 0), s1 = VorSite(top, 1);
        Halfedge h;
        h.ELedge = g.bisect(&s0, &s1);
        h.ELpm = pm;
        PointVDG z;
        z.x = p.GetX();
        z.y = p.GetY();
        return g.right_of(&h, &z) != 0;
    }
    static int VorClip(const XYZ& p, const XYZ& q, int have, const XYZ& e0, const XYZ& e1, const XYZ& lo, const XYZ& hi, double& x1, double& y1, double& x2, double& y2) {
        VoronoiDiagramGenerator g;
        VorReady(g);
        g.borderMinX = lo.GetX();
        g.borderMinY = lo.GetY();
        g.borderMaxX = hi.GetX();
        g.borderMaxY = hi.GetY();
        g.minDistanceBetweenSites = 0;
        Site s = VorSite(p, 0), t = VorSite(q, 1), v0 = VorSite(e0, 2), v1 = VorSite(e1, 3);
        Edge* e = g.bisect(&s, &t);
        if (have & 1) e->ep[0] = &v0;
        if (have & 2) e->ep[1] = &v1;
        g.clip_line(e);
        GraphEdge* k = g.allEdges;
        if (k == nullptr) return 0;
        x1 = k->x1;
        y1 = k->y1;
        x2 = k->x2;
        y2 = k->y2;
        return k->next == nullptr ? 1 : 2;
    }
#endif
    static void Voronoi(const std::vector<std::vector<XYZ>>& runs, const XYZ& lo, const XYZ& hi, double minDist, bool reset, std::vector<std::vector<int>>& triangles, std::vector<XYZ>& edges, std::vector<XYZ>& delaunay) {
        VoronoiDiagramGenerator g;
        g.setGenerateVoronoi(true);
        g.setGenerateDelaunay(true);
        for (int r = 0; r < (int)runs.size(); r++) {
            std::vector<float> x, y;
            for (int i = 0; i < (int)runs[r].size(); i++) { x.push_back((float)runs[r][i].GetX()); y.push_back((float)runs[r][i].GetY()); }
            if (r > 0 && reset) g.reset();
            g.generateVoronoi(x.data(), y.data(), (int)x.size(), (float)lo.GetX(), (float)hi.GetX(), (float)lo.GetY(), (float)hi.GetY(), (float)minDist, true);
        }
        triangles = g.getTriangles();
        float a, b, c, d;
        g.resetIterator();
        while (g.getNext(a, b, c, d)) { edges.push_back(XYZ(a, b, 0)); edges.push_back(XYZ(c, d, 0)); }
        g.resetDelaunayEdgesIterator();
        while (g.getNextDelaunay(a, b, c, d)) { delaunay.push_back(XYZ(a, b, 0)); delaunay.push_back(XYZ(c, d, 0)); }
    }
    static std::vector<XYZ> OrientedBox(const LN_NurbsSurface& surface) {
        LN_OrientedBoundingBox3d b = NurbsSurface::GetOrientedBoundingBox(surface);
        return { b.Center, b.Axes[0], b.Axes[1], b.Axes[2], XYZ(b.HalfExtents[0], b.HalfExtents[1], b.HalfExtents[2]) };
    }
};
}
