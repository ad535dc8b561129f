// Coordinate arithmetic: tolerant comparison, rounding, extrema, overlap, gaps, rotation, comparators.
#include "doc.h"
#include <algorithm>
#include "utils/MathUtils.h"
#include "utils/PdfElementsUtils.h"
#include "utils/Comparators.h"
using namespace ppp::utils::math; using namespace ppp::utils::elements; using namespace ppp::utils::comparators;
static const double TOL = ppp::config::DEFAULT_DOUBLE_EQUAL_TOLERANCE;

// --- every finite IEEE double -----------------------------------------------------------------
extern "C" void h_tol_ieee() {
  double a = sym_double("a"), b = sym_double("b"), t = sym_double("tol");
  sym_assume(std::isfinite(a)); sym_assume(std::isfinite(b)); sym_assume(t >= 0); sym_assume(std::isfinite(t));
  int dflt = sym_choice(2, "default tolerance");
  bool eq, lg, sm, ge, le;
  if (dflt) { eq = equal(a, b); lg = larger(a, b); sm = smaller(a, b); ge = equalOrLarger(a, b); le = equalOrSmaller(a, b); t = TOL; }
  else { eq = equal(a, b, t); lg = larger(a, b, t); sm = smaller(a, b, t); ge = equalOrLarger(a, b, t); le = equalOrSmaller(a, b, t); }
  sym_assert(ge == !sm, "equalOrLarger is exactly the negation of smaller");
  sym_assert(le == !lg, "equalOrSmaller is exactly the negation of larger");
  sym_assert(!(a == b) | eq, "equal is reflexive");
  sym_reach(dflt ? "default" : "given");
}
extern "C" void h_between_ieee() {
  double d = sym_double("d"), lo = sym_double("lo"), up = sym_double("up"), t = sym_double("tol");
  sym_assume(std::isfinite(d)); sym_assume(std::isfinite(lo)); sym_assume(std::isfinite(up)); sym_assume(t >= 0); sym_assume(std::isfinite(t));
  sym_assert(between(d, lo, up, t) == (equalOrLarger(d, lo, t) & equalOrSmaller(d, up, t)), "between means not below the lower and not above the upper bound");
  sym_reach("done");
}
extern "C" void h_minmax_ieee() {
  double v[4]; for (double& x : v) { x = sym_double("v"); sym_assume(!std::isnan(x)); }
  int n = 2 + sym_choice(3, "n");
  double mn = n == 2 ? minimum(v[0], v[1]) : n == 3 ? minimum(v[0], v[1], v[2]) : minimum(v[0], v[1], v[2], v[3]);
  double mx = n == 2 ? maximum(v[0], v[1]) : n == 3 ? maximum(v[0], v[1], v[2]) : maximum(v[0], v[1], v[2], v[3]);
  bool in = false, inx = false;
  for (int i = 0; i < n; i++) { sym_assert(mn <= v[i], "minimum is not larger than any argument"); sym_assert(mx >= v[i], "maximum is not smaller than any argument"); in = in | (mn == v[i]); inx = inx | (mx == v[i]); }
  sym_assert(in, "minimum is one of the arguments"); sym_assert(inx, "maximum is one of the arguments"); sym_reach(n == 2 ? "2" : n == 3 ? "3" : "4");
}
// --- coordinates on a grid --------------------------------------------------------------------
extern "C" void h_tol_grid() {
  double a = sym_grid(-400000, 400000, 1. / 256, "a"), b = sym_grid(-400000, 400000, 1. / 256, "b"), t = sym_choice(2, "zero tol") ? sym_grid(0, 25600, 1. / 256, "t") : 0.0;
  bool eq = equal(a, b, t), lg = larger(a, b, t), sm = smaller(a, b, t);
  sym_assert((int)eq + lg + sm == 1, "exactly one of equal, larger, smaller holds");
  sym_assert(lg == smaller(b, a, t), "a larger than b exactly if b smaller than a");
  sym_assert(eq == (std::fabs(a - b) <= t), "equal means at most the tolerance apart");
  sym_assert(lg == (a > b + t), "larger means greater by more than the tolerance"); sym_assert(sm == (a < b - t), "smaller means less by more than the tolerance");
  double c = sym_grid(-400000, 400000, 1. / 256, "c");
  sym_assert(!(lg & larger(b, c, t)) | larger(a, c, t), "larger is transitive"); sym_assert(!(sm & smaller(b, c, t)) | smaller(a, c, t), "smaller is transitive");
  sym_reach("done");
}
extern "C" void h_tol_default() {  // the tolerance a caller gets when none is given
  double a = sym_grid(-400000, 400000, 1. / 256, "a"), b = sym_grid(-400000, 400000, 1. / 256, "b");
  sym_assert(equal(a, b) == (a == b), "without a tolerance, coordinates that differ by 1/256 or more are unequal");
  sym_assert(larger(a, b) == (a > b), "without a tolerance, larger orders coordinates 1/256 apart"); sym_assert(smaller(a, b) == (a < b), "without a tolerance, smaller orders coordinates 1/256 apart");
  sym_assert(equalOrLarger(a, b) == (a >= b) && equalOrSmaller(a, b) == (a <= b), "without a tolerance, the weak comparisons order coordinates 1/256 apart");
  double e = sym_choice(2, "sign") ? 0.00005 : -0.00005;
  sym_assert(equal(a, a + e), "without a tolerance, values 0.00005 apart are equal"); sym_assert(!larger(a, a + e) & !smaller(a, a + e), "without a tolerance, values 0.00005 apart are not ordered");
  sym_reach("done");
}
extern "C" void h_round() {
  int n = sym_choice(4, "decimals"); double d = sym_grid(-64000, 64000, 1. / 64, "d");
  double p = n == 0 ? 1 : n == 1 ? 10 : n == 2 ? 100 : 1000, h = 0.5 / p, r = ppp::utils::math::round(d, n);
  sym_assert(r - d <= h + 1e-9 && d - r <= h + 1e-9, "a rounded value is at most half a unit of the last kept decimal away");
  sym_assert((d < 0) | (r >= d - h + h / 64), "positive ties are rounded up"); sym_assert((d > 0) | (r <= d + h - h / 64), "negative ties are rounded down");
  double e = sym_grid(-64000, 64000, 1. / 64, "e"); double q = ppp::utils::math::round(e, n);
  sym_assume(d <= e); sym_assert(r <= q, "rounding keeps the order");
  sym_reach(n == 0 ? "0" : n == 1 ? "1" : n == 2 ? "2" : "3"); sym_observe_d(r);
}
extern "C" void h_round_idem() {
  int n = sym_choice(4, "decimals"); double p = n == 0 ? 1 : n == 1 ? 10 : n == 2 ? 100 : 1000;
  double k = sym_grid(-900000, 900000, 1, "k"), v = k / p;
  sym_assert(ppp::utils::math::round(v, n) == v, "a value that has at most n decimals is kept"); 
  double d = sym_grid(-64000, 64000, 1. / 64, "d"); double r = ppp::utils::math::round(d, n);
  sym_assert(ppp::utils::math::round(r, n) == r, "rounding twice changes nothing"); sym_reach("done");
}
static PdfShape* shapeAt(const Box& b, int rot = 0) { auto* s = new PdfShape(); place(s, 1, b, rot); return s; }
extern "C" void h_overlap() {
  int m = sym_param(0); double s1 = sym_grid(-m, m, 0.25, "s1"), e1 = sym_grid(-m, m, 0.25, "e1"), s2 = sym_grid(-m, m, 0.25, "s2"), e2 = sym_grid(-m, m, 0.25, "e2");
  auto r = computeOverlapRatios(s1, e1, s2, e2);
  double lo1 = s1 < e1 ? s1 : e1, hi1 = s1 < e1 ? e1 : s1, lo2 = s2 < e2 ? s2 : e2, hi2 = s2 < e2 ? e2 : s2;
  double lo = lo1 > lo2 ? lo1 : lo2, hi = hi1 < hi2 ? hi1 : hi2, ov = hi > lo ? hi - lo : 0, l1 = hi1 - lo1, l2 = hi2 - lo2;
  sym_assert(r.first >= 0 && r.first <= 1 && r.second >= 0 && r.second <= 1, "overlap ratios lie between 0 and 1");
  sym_assert((r.first > 0) == (ov > 0) && (r.second > 0) == (ov > 0), "an overlap ratio is positive exactly if the intervals share more than a point");
  sym_assert((r.first == 1) == (l1 > 0 && lo2 <= lo1 && hi2 >= hi1), "the first ratio is 1 exactly if the first interval is covered");
  sym_assert((r.second == 1) == (l2 > 0 && lo1 <= lo2 && hi1 >= hi2), "the second ratio is 1 exactly if the second interval is covered");
  sym_assert((r.first >= 0.5) == (l1 > 0 && 2 * ov >= l1), "the first ratio is the covered share of the first interval"); sym_assert((r.second >= 0.5) == (l2 > 0 && 2 * ov >= l2), "the second ratio is the covered share of the second interval");
  sym_assert((r.first > 0.75) == (l1 > 0 && 4 * ov > 3 * l1), "the first ratio is the covered share of the first interval (3/4)"); sym_assert((r.second > 0.75) == (l2 > 0 && 4 * ov > 3 * l2), "the second ratio is the covered share of the second interval (3/4)");
  sym_reach(ov > 0 ? "overlap" : "disjoint");
}
extern "C" void h_overlap_sym() {
  int m = sym_param(0); double s1 = sym_grid(-m, m, 0.25, "s1"), e1 = sym_grid(-m, m, 0.25, "e1"), s2 = sym_grid(-m, m, 0.25, "s2"), e2 = sym_grid(-m, m, 0.25, "e2");
  auto r = computeOverlapRatios(s1, e1, s2, e2), q = computeOverlapRatios(s2, e2, s1, e1), f = computeOverlapRatios(e1, s1, s2, e2), g = computeOverlapRatios(s1, e1, e2, s2);
  sym_assert(r.first == q.second && r.second == q.first, "swapping the intervals swaps the ratios");
  sym_assert(r.first == f.first && r.second == f.second && r.first == g.first && r.second == g.second, "the order of an interval's end points does not matter"); sym_reach("done");
}
extern "C" void h_overlap_elem() {
  Box x = symBox(-40, 40, 0.5, 0, "x"), y = symBox(-40, 40, 0.5, 0, "y"); PdfShape *a = shapeAt(x), *b = shapeAt(y);
  auto rx = computeXOverlapRatios(a, b), ry = computeYOverlapRatios(a, b); auto ex = computeOverlapRatios(x.l, x.r, y.l, y.r), ey = computeOverlapRatios(x.u, x.d, y.u, y.d);
  sym_assert(rx.first == ex.first && rx.second == ex.second, "the horizontal overlap ratios are those of the left-right intervals");
  sym_assert(ry.first == ey.first && ry.second == ey.second, "the vertical overlap ratios are those of the upper-lower intervals");
  double mx = computeMaxXOverlapRatio(a, b), my = computeMaxYOverlapRatio(a, b);
  sym_assert(mx == (ex.first > ex.second ? ex.first : ex.second), "the maximum horizontal ratio is the larger one"); sym_assert(my == (ey.first > ey.second ? ey.first : ey.second), "the maximum vertical ratio is the larger one"); sym_reach("done");
}
extern "C" void h_gaps() {
  int rot = sym_choice(4, "rotation"); Box x = symBox(-4000, 4000, 1. / 16, 0, "x"), y = symBox(-4000, 4000, 1. / 16, 0, "y"); PdfShape *a = shapeAt(x, rot), *b = shapeAt(y, rot);
  double h = computeHorizontalGap(a, b), v = computeVerticalGap(a, b), sg = rot < 2 ? 1 : -1;
  if (x.l < y.l) sym_assert(h == sg * (y.l - x.r), "the horizontal gap runs from the leftmost element's right to the other's left side"); else sym_assert(h == sg * (x.l - y.r), "the horizontal gap runs from the leftmost element's right to the other's left side");
  if (x.u < y.u) sym_assert(v == sg * (y.u - x.d), "the vertical gap runs from the upper element's lower to the other's upper side"); else sym_assert(v == sg * (x.u - y.d), "the vertical gap runs from the upper element's lower to the other's upper side");
  if (x.l != y.l) sym_assert(computeHorizontalGap(b, a) == h, "the horizontal gap does not depend on the argument order");
  if (x.u != y.u) sym_assert(computeVerticalGap(b, a) == v, "the vertical gap does not depend on the argument order");
  sym_reach("done"); sym_observe_d(h); sym_observe_d(v);
}
extern "C" void h_equals() {
  Box x = symBox(-4000, 4000, 1. / 16, 0, "x"), y = symBox(-4000, 4000, 1. / 16, 0, "y"); double t = sym_grid(0, 800, 1. / 16, "tol"); PdfShape *a = shapeAt(x), *b = shapeAt(y);
  sym_assert(computeHasEqualLeftX(a, b, t) == (std::fabs(x.l - y.l) <= t), "computeHasEqualLeftX compares the left sides"); sym_assert(computeHasEqualRightX(a, b, t) == (std::fabs(x.r - y.r) <= t), "computeHasEqualRightX compares the right sides");
  sym_assert(computeHasEqualUpperY(a, b, t) == (std::fabs(x.u - y.u) <= t), "computeHasEqualUpperY compares the upper sides"); sym_assert(computeHasEqualLowerY(a, b, t) == (std::fabs(x.d - y.d) <= t), "computeHasEqualLowerY compares the lower sides");
  sym_assert(computeLeftXOffset(a, b) == x.l - y.l, "computeLeftXOffset is the difference of the left sides"); sym_assert(computeRightXOffset(a, b) == x.r - y.r, "computeRightXOffset is the difference of the right sides");
  PdfCharacter c, d; c.fontName = symStringOver(0, 2, "ab", "f"); d.fontName = symStringOver(0, 2, "ab", "f"); c.fontSize = sym_grid(0, 400, 0.125, "fs"); d.fontSize = sym_grid(0, 400, 0.125, "fs");
  sym_assert(computeHasEqualFont(&c, &d) == (c.fontName == d.fontName), "computeHasEqualFont compares the font names"); sym_assert(computeHasEqualFontSize(&c, &d, t) == (std::fabs(c.fontSize - d.fontSize) <= t), "computeHasEqualFontSize compares the font sizes"); sym_reach("done");
}
// the page is seen so that the element appears upright: a quarter turn maps left->upper, upper->right, right->lower, lower->left
extern "C" void h_rotation() {
  Box b = symBox(-8000, 8000, 1. / 32, 0, "b"); int rot = sym_choice(4, "rotation"); PdfPosition p; p.leftX = b.l; p.upperY = b.u; p.rightX = b.r; p.lowerY = b.d; p.rotation = rot;
  double side[4] = {b.l, b.u, b.r, b.d};
  sym_assert(p.getRotLeftX() == side[rot], "getRotLeftX is the side that is left in the rotated view"); sym_assert(p.getRotUpperY() == side[(rot + 1) % 4], "getRotUpperY is the side that is up in the rotated view");
  sym_assert(p.getRotRightX() == side[(rot + 2) % 4], "getRotRightX is the side that is right in the rotated view"); sym_assert(p.getRotLowerY() == side[(rot + 3) % 4], "getRotLowerY is the side that is low in the rotated view");
  sym_assert(p.getWidth() == b.r - b.l, "getWidth is right minus left"); sym_assert(p.getHeight() == b.d - b.u, "getHeight is lower minus upper");
  sym_assert(p.getRotWidth() == (rot % 2 ? b.d - b.u : b.r - b.l), "getRotWidth is the extent along the reading direction"); sym_assert(p.getRotHeight() == (rot % 2 ? b.r - b.l : b.d - b.u), "getRotHeight is the extent across the reading direction");
  sym_assert(p.getRotWidth() >= 0 && p.getRotHeight() >= 0, "rotated extents are not negative"); sym_reach(rot == 0 ? "r0" : rot == 1 ? "r1" : rot == 2 ? "r2" : "r3");
}
template <class C> static void orderChecks(const PdfElement* a, const PdfElement* b, const PdfElement* c, double ka, double kb, double kc, bool asc) {
  C less;
  sym_assert(!less(a, a), "a comparator is irreflexive");
  sym_assert(less(a, b) == (asc ? ka < kb : ka > kb), "a comparator orders by its coordinate");
  sym_assert(!(less(a, b) & less(b, c)) | less(a, c), "a comparator is transitive");
  bool iab = !less(a, b) & !less(b, a), ibc = !less(b, c) & !less(c, b), iac = !less(a, c) & !less(c, a);
  sym_assert(!(iab & ibc) | iac, "incomparability is transitive");
}
extern "C" void h_comparators() {
  int rot[3]; Box q[3]; PdfShape* e[3]; double key[3];
  for (int i = 0; i < 3; i++) { rot[i] = sym_choice(4, "rotation"); q[i] = symBox(-8000, 8000, 1. / 16, 0, "b"); e[i] = shapeAt(q[i], rot[i]); e[i]->pos->pageNum = sym_int(1, 3, "page"); e[i]->pos->wMode = sym_int(0, 1, "wmode"); e[i]->rank = sym_int(-1, 5, "rank"); }
  int which = sym_choice(7, "comparator"); auto side = [&](int i, int k) { double s[4] = {q[i].l, q[i].u, q[i].r, q[i].d}; return s[(k + rot[i]) % 4]; };
  for (int i = 0; i < 3; i++) key[i] = which == 0 ? q[i].l : which == 1 ? q[i].r : which == 2 ? q[i].u : which <= 4 ? side(i, 0) : side(i, 3);
  #define OC(C, asc) orderChecks<C>(e[0], e[1], e[2], key[0], key[1], key[2], asc)
  switch (which) { case 0: OC(LeftXAscComparator, true); sym_reach("leftX"); break; case 1: OC(RightXDescComparator, false); sym_reach("rightX"); break; case 2: OC(UpperYAscComparator, true); sym_reach("upperY"); break;
    case 3: OC(RotLeftXAscComparator, true); sym_reach("rotLeftX"); break; case 4: OC(RotLeftXDescComparator, false); sym_reach("rotLeftXDesc"); break; case 5: OC(RotLowerYAscComparator, true); sym_reach("rotLowerY"); break; default: OC(RotLowerYDescComparator, false); sym_reach("rotLowerYDesc"); }
}
// sorting with the comparators yields an ordered permutation
extern "C" void h_sort() {
  int n = sym_param(0); std::vector<PdfElement*> v, o; for (int i = 0; i < n; i++) { Box b; b.l = sym_grid(-4000, 4000, 1. / 16, "l"); b.r = b.l + 3; b.u = sym_grid(-4000, 4000, 1. / 16, "u"); b.d = b.u + 2; v.push_back(shapeAt(b)); }
  o = v; int which = sym_choice(3, "comparator");
  if (which == 0) std::sort(v.begin(), v.end(), LeftXAscComparator()); else if (which == 1) std::sort(v.begin(), v.end(), RightXDescComparator()); else std::stable_sort(v.begin(), v.end(), UpperYAscComparator());
  for (PdfElement* e : o) { int k = 0; for (PdfElement* f : v) k += e == f; sym_assert(k == 1, "sorting keeps every element exactly once"); }
  for (int i = 0; i + 1 < n; i++) sym_assert(which == 0 ? v[i]->pos->leftX <= v[i + 1]->pos->leftX : which == 1 ? v[i]->pos->rightX >= v[i + 1]->pos->rightX : v[i]->pos->upperY <= v[i + 1]->pos->upperY, "sorting orders the elements"); sym_reach(which == 0 ? "0" : which == 1 ? "1" : "2");
}
