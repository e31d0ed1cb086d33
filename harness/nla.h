// Common harness prologue: the library's headers, logging silenced (FATAL keeps aborting).
#pragma once
#include "pbt.h"
#include "sys.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "FEReaders.h"
#include "VtkProcessor.h"
#include "ReactionProcessor.h"
#include "elements/ElementFactory.h"
#include "elements/TRUSS3.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/TRIANGLE4.h"
#include "elements/QUADTH.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include "materials/MaterialFactory.h"
#include "materials/materials_hyperelastic.h"
#include "math/SparseMatrix.h"
#include "math/BlockSparseMatrix.h"
#include "math/EquationSolver.h"
#include <Eigen/Dense>

using pbt::Gen;

inline void quietLogs() {
  el::Configurations c;
  c.setToDefault();
  c.setGlobally(el::ConfigurationType::ToFile, "false");
  c.setGlobally(el::ConfigurationType::ToStandardOutput, "false");
  c.setGlobally(el::ConfigurationType::Enabled, "false");
  // LOG(FATAL) and CHECK abort only while FATAL is enabled
  c.set(el::Level::Fatal, el::ConfigurationType::Enabled, "true");
  c.set(el::Level::Fatal, el::ConfigurationType::ToStandardOutput, "true");
  el::Loggers::setDefaultConfigurations(c, true);
  el::Loggers::reconfigureAllLoggers(c);
}

// counts the errors (and worse) reported through the log while it lives
struct ErrorLog {
  static int& n() { static int k = 0; return k; }
  struct Sink : el::LogDispatchCallback { void handle(const el::LogDispatchData* d) { if (d->dispatchAction() == el::base::DispatchAction::NormalLog && (d->logMessage()->level() == el::Level::Error || d->logMessage()->level() == el::Level::Fatal)) n()++; } };
  static void level(const char* on) {
    el::Configurations c = *el::Loggers::getLogger("default")->configurations();
    c.set(el::Level::Error, el::ConfigurationType::Enabled, on); c.set(el::Level::Error, el::ConfigurationType::ToStandardOutput, "false"); c.set(el::Level::Error, el::ConfigurationType::ToFile, "false");
    el::Loggers::reconfigureLogger("default", c);
  }
  ErrorLog() { n() = 0; el::Helpers::installLogDispatchCallback<Sink>("ErrorLog"); level("true"); }
  ~ErrorLog() { level("false"); el::Helpers::uninstallLogDispatchCallback<Sink>("ErrorLog"); }
  int count() const { return n(); }
};

#ifdef PBT_MAIN
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv, quietLogs); }
#endif
