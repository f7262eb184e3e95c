"""What the demonstrations of the planted bugs share; copied into each demo.cpp."""
PRE = r'''
#include <cstdio>
#include <cmath>
#include <vector>
#include <algorithm>
#include <sstream>
#include <functional>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "sensors.hpp"
using namespace lmb;
typedef GM<4> D; typedef SILMB<D> Tracker; typedef PositionSensor<Tracker::Target> Sensor; typedef Sensor::Report Report; typedef Sensor::Scan Scan;
typedef CV<Tracker::Target> Cv; typedef NM<Tracker::Target> Nm;
static const cf::LL O(58, 15);
static cf::LL at(double n, double e) { return cf::ne2ll(cf::NE(n, e), O); }
static Eigen::Matrix2d cov(double a, double b = 0, double c = -1) { Eigen::Matrix2d P; P << a, b, b, c < 0 ? a : c; return P; }
static Report z(double n, double e, double p = 1, double k = 1) { return Report(at(n, e), cov(p), k); }
static Tracker::Target* add(Tracker& t, double n, double e, double r = .5, double p = 1, double vn = 0, double ve = 0) {
    Eigen::Vector4d x; x << at(n, e), vn, ve; Eigen::Matrix4d P = Eigen::Matrix4d::Identity(); P(0, 0) = P(1, 1) = p;
    return t.targettree.new_target(r, D(&t.params, x, P));
}
static Sensor sensor(double pD = .9, double lambdaB = 1) { Sensor s; s.pD_ = pD; s.lambdaB = lambdaB; return s; }
static int bad = 0;
#define CHECK(c, ...) do { if (!(c)) { printf("line %d: %s: ", __LINE__, #c); printf("" __VA_ARGS__); printf("\n"); bad = 1; } } while (0)
static bool near(double a, double b, double tol = 1e-6) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
'''
