#pragma once
#include "common.h"
#define private public
#define protected public
#include <solver/interface/Model.hpp>
#undef private
#undef protected
using namespace solver;
// Settings of the repository's default configuration, set through the public setters.
static inline void defaultSettings(SolverSetting& s) {
  s.set(SolverBoolParam_Verbose, false); s.set(SolverBoolParam_BnBVerbose, false);
  s.set(SolverIntParam_BnBMaxIters, 10);
  s.set(SolverDoubleParam_BnBIntegerTol, 0.0001); s.set(SolverDoubleParam_BnBAbsSubOptGap, 0.001); s.set(SolverDoubleParam_BnBRelSubOptGap, 0.001);
  s.set(SolverDoubleParam_FeasibilityTol, 1e-6); s.set(SolverDoubleParam_DualityGapAbsTol, 1e-6); s.set(SolverDoubleParam_DualityGapRelTol, 1e-6);
  s.set(SolverDoubleParam_FeasibilityTolInacc, 1e-4); s.set(SolverDoubleParam_DualityGapAbsTolInacc, 5e-5); s.set(SolverDoubleParam_DualityGapRelTolInacc, 5e-5);
  s.set(SolverIntParam_EquilibrationIters, 3);
  s.set(SolverDoubleParam_DynamicRegularizationThresh, 1e-13); s.set(SolverDoubleParam_LinearSystemAccuracy, 1e-14); s.set(SolverDoubleParam_ErrorReductionFactor, 6.0);
  s.set(SolverIntParam_NumIterRefinementsLinSolve, 9); s.set(SolverDoubleParam_StaticRegularization, 7e-8); s.set(SolverDoubleParam_DynamicRegularization, 2e-7);
  s.set(SolverDoubleParam_SafeGuard, 500.0); s.set(SolverDoubleParam_MinimumStepLength, 1e-6); s.set(SolverDoubleParam_MaximumStepLength, 0.999);
  s.set(SolverDoubleParam_MinimumCenteringStep, 1e-4); s.set(SolverDoubleParam_MaximumCenteringStep, 1.0); s.set(SolverDoubleParam_StepLengthScaling, 0.99);
  s.set(SolverIntParam_MaxIters, 100); s.set(SolverIntParam_SolverMaxIters, 100); s.set(SolverIntParam_WarmStartIters, 0);
  s.set(SolverIntParam_NumberRefinementsTrustRegion, 0); s.set(SolverDoubleParam_TrustRegionThreshold, 0.5);
  s.set(SolverDoubleParam_SoftConstraintWeightFull, 1e6); s.set(SolverDoubleParam_SoftConstraintWeightReduced, 1e4);
}
