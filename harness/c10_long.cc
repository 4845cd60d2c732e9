// C10: an accumulator that has seen more samples than a 32-bit counter holds.
// Built without instrumentation: 2^31 samples.
#include <cstdint>

#include <aslam/common/statistics/accumulator.h>

#include "pbt.h"

PBT_PROP(accumulator_long_history, "always", 1, 1, false, 1, true, 400) {
  s.nontrivial();
  statistics::Accumulator<double, double, 4> a;  // not instantiated elsewhere
  const int64_t n = (1ll << 31) + 100;
  for (int64_t k = 0; k < n; ++k) a.Add(static_cast<double>(k & 7));
  PBT_EQ(static_cast<int64_t>(a.total_samples()), n, "count");
  PBT_EQ(a.GetSamples().size(), size_t(4), "retained samples");
  PBT_CHECK(a.RollingMean() == 1.5, "rolling mean " << a.RollingMean());
}
