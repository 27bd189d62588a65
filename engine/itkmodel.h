// Shared by the harnesses of itktf: a test with a free body, and running it.
#ifndef VERIF_ITKMODEL_H
#define VERIF_ITKMODEL_H
#include "model.h"
#include "itktf/itktfRegression.h"

namespace model {
class ItkTest : public itk::Regression {
public:
  std::function<int(ItkTest &)> body;
  bool ran = false, done = false;
  std::vector<std::string> seen;
  using itk::Regression::MeasurementInsightFileImage;
  using itk::Regression::MeasurementInsightImage;
  using itk::Regression::MeasurementInsightSize;
  using itk::Regression::MeasurementInsightIndex;
  using itk::Regression::MeasurementInsightRegion;
  using itk::Regression::MeasurementInsightPoint;
  using itk::Regression::MeasurementInsightVector;
  using itk::Regression::MeasurementInsightFixedArray;
  using itk::Regression::MeasurementInsightMatrix;
  using itk::Regression::MeasurementNumericInteger;
  using itk::Regression::MeasurementTextString;
  using itk::Regression::GetCompareMode;
protected:
  int Test(int argc, char *argv[]) { ran = true; for (int i = 0; i < argc; ++i) seen.push_back(argv[i]); int r = body ? body(*this) : 0; done = true; return r; }
};
static inline Result runItk(itk::Regression &t, const std::vector<std::string> &argv) {
  Args a(argv); Result r; Capture c;
  r.ret = t.Main(a.n, &a.p[0]);
  r.out = c.out.str(); r.err = c.err.str(); return r;
}
struct Chdir { // working directory while alive
  std::string old; bool ok;
  Chdir(const std::string &d) { char b[8192]; old = getcwd(b, sizeof b) ? b : "/"; ok = !chdir(d.c_str()); }
  ~Chdir() { if (chdir(old.c_str())) {} }
};
} // namespace model
#endif
