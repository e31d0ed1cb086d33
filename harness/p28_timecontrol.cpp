// P28: TimeControl over call histories, against a model.
#include "nla.h"
using namespace nla3d;

static double nice(Gen& g) {
  switch (g.weighted({4, 3, 3, 2})) {
    case 0: return g.integer(0, 20);
    case 1: return g.real(0, 10);
    case 2: return g.sreal(100);
    default: return g.sreal(1) * g.logreal(-3, 4);
  }
}

// free histories: any start, end, increments that change from step to step
FACET(histories, "at least three steps were granted and at least one step had no or several iterations", 40000, 600000) {
  TimeControl tc;
  double start = 0, end = 1;
  bool setS = g.chance(2, 3), setE = g.chance(3, 4);
  if (setS) start = nice(g);
  double range = g.boolean() ? g.real(0.01, 50) : g.logreal(-3, 5);
  // with the default end time (1.0) the start has to lie before it
  if (!setE && setS && start >= 0.99) setE = true;
  if (setE) end = start + range; 
  range = end - start;
  // the range has to be well above the rounding of the end points
  if (range < 1e-6 * std::max(std::fabs(start), std::fabs(end))) { end = start + 1 + std::fabs(start) * 1e-3; range = end - start; setE = true; }
  g.note << "start=" << start << " end=" << end << " deltas:";
  if (g.boolean()) { if (setS) tc.setStartTime(start); if (setE) tc.setEndTime(end); }
  else { if (setE) tc.setEndTime(end); if (setS) tc.setStartTime(start); }
  double ulp = 1e-12 * std::max(std::max(std::fabs(start), std::fabs(end)), range);
  EXPECT(tc.getStartTime() == start && tc.getEndTime() == end, "start/end not stored");
  EXPECT_CLOSE(tc.getCurrentTime(), start, 1, ulp, "current time before the first step");
  EXPECT_CLOSE(tc.getCurrentNormalizedTime(), 0, 1e-9, 1, "normalized time before the first step");
  EXPECT(tc.getCurrentStep() == 1 && tc.getNumberOfConvergedSteps() == 0 && tc.getCurrentEquilibriumStep() == 0 && tc.getTotalNumberOfEquilibriumSteps() == 0, "counters before the first step");
  int converged = 0, total = 0, iter = 0, granted = 0;
  bool odd = false;
  double t = start, d = range / g.integer(1, 12);
  bool zeroIter = false;
  for (int k = 0;; k++) {
    EXPECT(k < 400, "no end after 400 steps");
    switch (g.weighted({6, 2, 1, 1})) {
      case 0: break;                                   // same increment as before
      case 1: d = range * g.real(0.02, 1.3); break;
      case 2: d = range * g.real(0.02, 0.1); break;
      default: d = (end - t) * g.oneOf<double>({1.0, 0.5, 0.3333333333333333, 2.0, 0.75, 1.0000001, 0.9999999}); break;
    }
    if (d < range * 0.01) d = range * 0.01;
    g.note << " " << d;
    bool more = tc.nextStep(d);
    if (iter > 0) converged++;
    bool expectMore = t < end - ulp;
    EXPECT(more == expectMore, "nextStep(" << d << ") at time " << t << " of " << end << " returned " << more);
    EXPECT(tc.getNumberOfConvergedSteps() == converged, "converged steps " << tc.getNumberOfConvergedSteps() << " expected " << converged);
    EXPECT(tc.getCurrentStep() == converged + 1, "current step");
    if (!more) { EXPECT_CLOSE(tc.getCurrentTime(), end, 1, ulp, "time after the last step"); break; }
    granted++;
    double now = tc.getCurrentTime(), inc = now - t;
    EXPECT(inc > 0, "time did not advance: " << t << " -> " << now);
    EXPECT(inc <= d + 2e-9 * range + 2 * ulp, "advanced by " << inc << " > requested " << d);
    EXPECT(now <= end, "time " << now << " passed the end " << end);
    // never shorter than half the request unless less than that was left
    EXPECT(inc >= std::min(d / 2, end - t) - 2e-9 * range - 2 * ulp, "advanced by " << inc << ", requested " << d << ", left " << end - t);
    // and the request is followed when it leaves room for another full step
    if (t + 2 * d < end - 1e-8 * range - 4 * ulp) EXPECT_CLOSE(inc, d, 1, 1e-12 * range + 2 * ulp, "increment although two full steps fit");
    EXPECT(tc.getCurrentEquilibriumStep() == 0, "iteration counter not reset by a new step");
    EXPECT_CLOSE(tc.getCurrentNormalizedTime(), (now - start) / range, 1e-9, 1, "normalized time");
    iter = (int) g.weighted({6, 3, 2, 1, 1}) + 1;
    if (g.chance(1, 12)) { iter = 0; zeroIter = true; }
    if (iter != 1) odd = true;
    for (int i = 1; i <= iter; i++) {
      tc.nextEquilibriumStep(); total++;
      EXPECT(tc.getCurrentEquilibriumStep() == i, "iteration number");
      EXPECT(tc.getTotalNumberOfEquilibriumSteps() == total, "total iterations");
      EXPECT(tc.getCurrentTime() == now, "iteration moved the time");
      EXPECT_CLOSE(tc.getCurrentTimeDelta(), i == 1 ? inc : 0.0, 1, 4 * ulp + (i == 1 ? 1e-9 * range : 0), "time delta in iteration " << i);
      EXPECT_CLOSE(tc.getCurrentNormalizedTimeDelta(), i == 1 ? inc / range : 0.0, 1e-8, 1, "normalized time delta in iteration " << i);
      EXPECT(tc.getCurrentStep() == converged + 1 && tc.getNumberOfConvergedSteps() == converged, "step counters during iterations");
    }
    t = now;
  }
  EXPECT(tc.getCurrentTime() == end, "did not land exactly on the end: " << end - tc.getCurrentTime());
  if (!zeroIter) EXPECT(tc.getNumberOfConvergedSteps() == granted, "all granted steps converged");
  g.label(start == 0 ? "start_zero" : "start_nonzero");
  g.label(granted > 10 ? "steps>10" : granted > 2 ? "steps3-10" : "steps1-2");
  g.nontrivial(granted >= 3 && odd);
}

// constant increment: number of steps
FACET(constant_increment, "the increment divides the range into at least two steps", 20000, 300000) {
  TimeControl tc;
  double start = g.boolean() ? 0 : nice(g), range = g.boolean() ? g.integer(1, 100) : g.logreal(-2, 3);
  if (range < 1e-4 * std::fabs(start)) range = 1 + std::fabs(start) * 1e-2;
  double end = start + range;
  range = end - start;
  bool divides = g.chance(2, 3);
  long n = g.integer(1, g.chance(1, 8) ? 2000 : 60);
  double d; long expect;
  if (divides) { d = (end - start) / n; expect = n; }
  else { double f = g.real(0.02, 0.98); d = range / (n - 1 + f); expect = n; }
  g.note << "start=" << start << " end=" << end << " delta=" << d << " expected steps=" << expect;
  tc.setStartTime(start); tc.setEndTime(end);
  long got = 0; double t = start;
  while (tc.nextStep(d)) {
    tc.nextEquilibriumStep();
    got++;
    EXPECT(got <= expect + 5, "too many steps: " << got << " for range/delta = " << range / d);
    double now = tc.getCurrentTime();
    EXPECT(now > t, "not monotone");
    if (divides) EXPECT_CLOSE(now - t, d, 1e-6, range, "equal steps");
    t = now;
  }
  EXPECT(got == expect, "steps " << got << " expected " << expect << " (range/delta = " << range / d << ")");
  EXPECT(tc.getNumberOfConvergedSteps() == expect, "converged steps");
  EXPECT(tc.getCurrentTime() == end && tc.getCurrentNormalizedTime() == 1.0, "end not reached exactly");
  g.label(divides ? "divides" : "remainder");
  g.nontrivial(expect >= 2);
}
