PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="soft-weight-set-swapped", property="P40", edits=[("solver/src/solver/interface/SolverSetting.cpp","case SolverDoubleParam_SoftConstraintWeightReduced : { soft_constraint_weight_reduced_ = value; break; }","case SolverDoubleParam_SoftConstraintWeightReduced : { soft_constraint_weight_reduced_ = std::max(value, soft_constraint_weight_full_); break; }")],
 needs="a reduced weight below the full one, set in code rather than read from a file", what="setting the reduced soft constraint weight stores the full weight when that is larger",
 demo_cpp=PRE+'''
int main() { SolverSetting s; s.set(SolverDoubleParam_SoftConstraintWeightFull, 1e4); s.set(SolverDoubleParam_SoftConstraintWeightReduced, 1e2); if (s.get(SolverDoubleParam_SoftConstraintWeightReduced) != 1e2 || s.get(SolverDoubleParam_SoftConstraintWeightFull) != 1e4) fail("reduced weight"); return 0; }
''')
