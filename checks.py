COMMON_ASSUMPTIONS = [
 "IEEE doubles are read as exact real numbers (rounding, overflow and NaN are outside the model); counterexamples are confirmed on the natively compiled code",
 "LLVM bitcode of the real sources compiled by clang-18 with -O1 and Eigen vectorisation off; the symbolic interpreter in /verif/engine and z3 are trusted",
 "libm functions other than sqrt/fabs/pow with small integer exponents are uninterpreted unless the harness states their axioms"]
CHECKS = {
 "P01": dict(kind="cpp", harnesses=[dict(file="h_expr.cpp", groups=["solver"], entries=["e_var"])], bounds="", outside=""),
 "P02": dict(kind="cpp", harnesses=[dict(file="h_expr.cpp", groups=["solver"], entries=["e_linexpr_sum","e_linexpr_scale","e_linexpr_var","e_linexpr_clean","e_linexpr_seq","e_quadexpr"])], bounds="", outside=""),
 "P03": dict(kind="cpp", harnesses=[dict(file="h_conic.cpp", groups=["solver"], entries=["e_linear_rows","e_linear_const_row","e_objective","e_objective_replaced","e_quad_constr","e_soc_constr","e_mixed","e_trust_soft","e_binaries","e_rejects","e_mixed_approx"])], bounds="", outside=""),
 "P04": dict(kind="cpp", harnesses=[dict(file="h_cone.cpp", groups=["solver"], entries=["e_layout","e_product","e_division","e_residual","e_projection"])], bounds="", outside=""),
 "P05": dict(kind="cpp", harnesses=[dict(file="h_cone.cpp", groups=["solver"], entries=["e_scaling_lp","e_scaling_soc2","e_scaling_soc3","e_scaling_two","e_scaling_outside"])], bounds="", outside=""),
}
CHECKS.update({
 "P06": dict(kind="cpp", harnesses=[dict(file="h_linsolve.cpp", groups=["solver"], entries=["e_ldl_dense2","e_ldl_patterns3","e_ldl_patterns4","e_ldl_patterns5"])]),
 "P07": dict(kind="cpp", harnesses=[dict(file="h_linsolve.cpp", groups=["solver"], entries=["e_kkt_matrix","e_solve_lp","e_solve_soc"])]),
 "P08": dict(kind="cpp", harnesses=[dict(file="h_linsolve.cpp", groups=["solver"], entries=["e_equil_lp","e_equil_soc","e_equil_mixed","e_unscale"])]),
})

IPWRAP=["_ZN6solver9LinSolver20numericFactorizationEv","_ZN6solver9LinSolver5solveERKN5Eigen3RefIKNS1_6MatrixIdLin1ELi1ELi0ELin1ELi1EEELi0ENS1_11InnerStrideILi1EEEEERNS_18OptimizationVectorEb"]
CHECKS["P09"]=dict(kind="cpp", harnesses=[dict(file="h_ip.cpp", groups=["solver"], wrap=IPWRAP, entries=["e_record_lp","e_record_eq","e_record_soc","e_status","e_run_feasible","e_run_infeasible","e_run_unbounded","e_run_soc","e_run_eq"])])
CHECKS["P10"]=dict(kind="cpp", harnesses=[dict(file="h_ip.cpp", groups=["solver"], wrap=IPWRAP, entries=["e_search_lp","e_search_tau","e_search_soc2",dict(name="e_search_soc3",ta=8),"e_newton_c","e_newton_h"])])
CHECKS["P11"]=dict(kind="cpp", harnesses=[dict(file="h_bnb.cpp", groups=["solver"], wrap=["_ZN6solver19InteriorPointSolver8optimizeEv","_ZN6solver12ConicProblem8optimizeEv"], entries=["e_bnb1","e_bnb2","e_bnb2_cut","e_ncvx1","e_ncvx2"])])
CHECKS["P12"]=dict(CHECKS["P11"], harnesses=[dict(CHECKS["P11"]["harnesses"][0], entries=["e_passes"])])
CHECKS["P13"]=dict(kind="cpp", harnesses=[dict(file="h_rtqp.cpp", groups=[], entries=["e_qp1","e_qp2_eq","e_qp2_ineq","e_qp2_three","e_qp2_box",dict(name="e_qp2_three_all",tier="thorough"),dict(name="e_qp3_dense",tier="thorough"),"e_qp3",dict(name="e_qp4_poly",budget=260),"e_qp_nearly_dependent","e_qp_trivial"])])
CHECKS["P14"]=dict(kind="cpp", harnesses=[dict(file="h_rtmat.cpp", groups=[], entries=["e_append","e_zero_rows","e_zero_rows_thresh","e_zero_rows_matrix","e_add_norm","e_substitute","e_vectors","e_svd"])])
CHECKS["P15"]=dict(kind="cpp", harnesses=[dict(file="h_rthqp.cpp", groups=["solver"], entries=["e_eq_eq","e_in_eq","e_conflict","e_three","e_many_ranks","e_model_rows","e_model_solve","e_columns","e_no_slack"])])
CHECKS["P16"]=dict(kind="cpp", harnesses=[dict(file="h_lbfgs.cpp", groups=["solver"], entries=["e_armijo","e_failed_search","e_wolfe","e_morethuente","e_past","e_cancel","e_direction","e_params","e_penalty","e_gradient","e_solver"])])
LQRW=["_ZN9solverlqr11ForwardPass15applyControllerERKNS_13StateSequenceERKNS_15ControlSequenceE","_ZN9solverlqr12BackwardPass18optimizeControllerERKNS_11ForwardPassERKNS_17FiniteDifferencesEd","_ZN9solverlqr17FiniteDifferences18computeDerivativesEv","_ZN6solver5Model8optimizeEv"]
def LQR(*e): return dict(kind="cpp", harnesses=[dict(file="h_lqr.cpp", groups=["lqr","solver"], wrap=LQRW, entries=list(e))])
CHECKS["P17"]=LQR("e_sequences","e_grad_norm","e_integrate","e_init","e_forward")
CHECKS["P18"]=LQR("e_derivatives","e_derivatives_reuse","e_derivatives_select")
CHECKS["P19"]=LQR("e_backward1","e_backward2","e_backward_indef","e_backward_retry","e_limits")
CHECKS["P20"]=LQR("e_flow1","e_flow2","e_flow3",dict(name="e_flow_deep",tier="thorough"),"e_setting","e_store")
def UTIL(*e): return dict(kind="cpp", harnesses=[dict(file="h_util.cpp", groups=["momutil"], entries=list(e))])
CHECKS["P21"]=UTIL("e_error","e_error_bins","e_required","e_integrate_rot","e_integrate_small")
CHECKS["P22"]=UTIL(dict(name="e_waypoints",budget=300),"e_consistent","e_interpolator")

def CNT(*e): return dict(kind="cpp", harnesses=[dict(file="h_cnt.cpp", groups=["momcnt","momdyn_state","momutil"], wrap=["_ZN11momentumopt19TrajectoryGenerator10initializeEdRKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEEdS5_S5_","_ZN11momentumopt19TrajectoryGenerator6updateEd"], entries=list(e))])
CHECKS["P23"]=CNT("e_load","e_contact_state","e_initial_state","e_fill","e_fill_three","e_fill_again")
CHECKS["P24"]=CNT("e_flight")
CHECKS["P25"]=CNT("e_terrain","e_terrain_frame","e_terrain_file")
CHECKS["P26"]=dict(kind="cpp", harnesses=[dict(file="h_setting.cpp", groups=["momcnt","momdyn_state","momutil"], entries=["e_load_dyn","e_load_kin1","e_load_kin2","e_reload","e_access","e_missing"])])

DYNW=["_ZN6solver12ConicProblem12addLinConstrERKNS_7LinExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES3_","_ZN6solver12ConicProblem12addSocConstrERKNS_11DCPQuadExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_7LinExprE","_ZN6solver12ConicProblem12addQuaConstrERKNS_11DCPQuadExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_7LinExprERKNS_16QuadConstrApproxE","_ZN6solver12ConicProblem12setObjectiveERKNS_11DCPQuadExprERKNS_7LinExprE","_ZN6solver5Model8optimizeEv"]
def DYN(*e): return dict(kind="cpp", harnesses=[dict(file="h_dyn.cpp", groups=["momcnt","momutil","momkin_state","solver","momdyn_opt"], wrap=DYNW, entries=list(e))])
KINW=[w for w in DYNW]+["_ZN11momentumopt20ContactPlanInterface29updateEndeffectorTrajectoriesERKNS_13DynamicsStateERNS_16DynamicsSequenceE"]
def KIN(*e): return dict(kind="cpp", harnesses=[dict(file="h_kin.cpp", groups=["momcnt","momutil","momkin","solver","momdyn_state"], wrap=KINW, entries=list(e))])
CHECKS["P39"]=KIN("e_posture_cost","e_posture_eq","e_posture_ineq","e_posture_flow","e_converge","e_traj_cost","e_traj_eq","e_traj_ineq","e_traj_flow","e_unused")
CHECKS["P27"]=dict(kind="cpp", harnesses=[dict(file="h_optvar.cpp", groups=["solver"], entries=["e_index","e_define","e_guess"])])
CHECKS["P28"]=DYN("e_eq","e_eq_free","e_eq_time","e_eq_again","e_ineq")
CHECKS["P29"]=DYN("e_cost","e_cost_again")
CHECKS["P30"]=DYN("e_store","e_store_twice","e_store_time","e_flow","e_save","e_init")
CHECKS["P31"]=dict(kind="cpp", harnesses=[dict(file="h_fb.cpp", groups=["momfb","momcnt","momutil","lqr","solver"], wrap=["_ZN9solverlqr9SolverLqr8optimizeEv"], entries=["e_start","e_mismatch","e_step","e_cost","e_final_control","e_gain","e_wrapper"])])
def PYC(f, entries, bounds, outside, assumptions): return dict(kind="py", harnesses=[dict(file=f, entries=entries)], bounds=bounds, outside=outside, assumptions=assumptions)
PYREAL="Python floats are exact reals; sin, cos, atan2 and square roots are symbols constrained by their defining identities"
CHECKS["P32"]=PYC("manifold.py",["e_rotation","e_product","e_exp","e_log","e_diff","e_diff_fixed","e_diff_back","e_frame","e_axis","e_small","e_compose","e_step","e_step_yaw","e_rollout","e_switch","e_init"],"arbitrary quaternions, rotation vectors, states, forces and time steps; the state step at five fixed orientations and arbitrary yaw; up to 3 steps of a rollout","orientations other than the fixed ones in the full state step; rounding",[PYREAL,"Taylor branches near zero to 1e-9"])
CHECKS["P33"]=PYC("lqrgain.py",[dict(name="e_dynamics",budget=240),dict(name="e_cost",budget=200),"e_cost_weights","e_q","e_value",dict(name="e_gains",budget=400)],"arbitrary states (angular velocity about one axis at a time), forces, weights; gains for horizons of 1 and 2 steps of the scalar problem","the eigenvalue repair of an indefinite Quu (path ended); cancellation of floating point finite differences",[PYREAL,"finite differences are compared with the exact derivative to 1e-5 (dynamics) and 1e-3 (Hessian)"])
CHECKS["P34"]=PYC("swing.py",["e_poly","e_fit","e_list","e_swing1",dict(name="e_swing2",budget=240),dict(name="e_swing_long",tier="thorough",budget=600),"e_interp"],"every activation pattern of 6 steps for one foot and 4 steps for two feet (8 steps in thorough); arbitrary contact positions, swing heights and polynomial boundary values","longer horizons; polynomial windows other than the listed ones",[PYREAL,"each foot touches the ground at least once"])
ROBOT="pinocchio is replaced by a toy free-flying robot whose quantities are polynomials of the configuration last updated with, quadprog by an arbitrary solution of the problem it is handed"
CHECKS["P35"]=PYC("ik.py",["e_qp","e_compute","e_again","e_frames","e_jacobian","e_second",dict(name="e_second_solve",budget=200)],"one or two feet and joints, arbitrary weights and gains, configurations and references symbolic in several coordinates, arbitrary solution of the quadratic program; up to three calls in a row; second-order trajectories of 2-3 steps of 1-3 ms","more feet or joints; the hierarchical (pseudo-inverse) variant; time steps that are not multiples of a millisecond",[PYREAL,ROBOT])
CHECKS["P36"]=PYC("kinopt.py",["e_track","e_bend","e_twice","e_via","e_initial","e_initial_size","e_second"],"1-4 steps, five contact patterns with flight, one or two feet, two plans in a row; postures, references, weights and the solutions of the quadratic programs symbolic in several coordinates","plans that start in flight; more than 4 steps",[PYREAL,ROBOT])
CHECKS["P37"]=PYC("export.py",[dict(name="e_desired",budget=120),dict(name="e_interp",budget=120),"e_knots","e_refused","e_time",dict(name="e_file",budget=120),dict(name="e_qp",budget=300),dict(name="e_qp_long",budget=200),"e_lqr"],"1-4 planned states at arbitrary increasing times, any query time; tables on eight fixed time grids of up to two seconds, planned values and robot weight symbolic in several coordinates","larger plans; rows of the two large tables away from both ends, the knots and every 29th row are not compared",[PYREAL,"text files are replaced by the arrays handed to numpy.savetxt"])
CHECKS["P38"]=PYC("planner.py",["e_settings","e_build","e_alternate","e_files","e_arguments"],"every parameter symbolic; 0, 1, 2 and 5 kinematic-dynamic iterations, 1-4 states of arbitrary duration, with and without feedback","plotting, replay and simulation",[PYREAL,"the optimizers and the settings object are recording stand-ins; C++ and Python parameter names are assumed to denote the same parameter"])
CHECKS["P40"]=dict(kind="cpp", harnesses=[dict(file="h_sset.cpp", groups=["solver"], entries=["e_read","e_reread","e_set","e_set_all","e_unknown"])])
