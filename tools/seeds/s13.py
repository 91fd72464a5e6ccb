PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="zero-rows-sum", property="P14", edits=[("solver/include/solver/rt_optimizer/RtMatrix.hpp","            if (mat.derived().block(block_start_i, 0, 1, mat.cols()).array().abs().sum() > length_thresh)\n              break;\n\n          // if the rest of the matrix is zero, stop\n          if (block_start_i >= mat.rows())\n            break;\n\n          // now find the end of the block\n          int block_end_i=block_start_i+1;\n          for (; block_end_i < mat.rows(); ++block_end_i)\n            if (mat.derived().block(block_end_i, 0, 1, mat.cols()).array().abs().sum() < length_thresh)\n              break;\n\n          //now shift the block left\n          vec","            if (std::abs(mat.derived().block(block_start_i, 0, 1, mat.cols()).sum()) > length_thresh)\n              break;\n\n          // if the rest of the matrix is zero, stop\n          if (block_start_i >= mat.rows())\n            break;\n\n          // now find the end of the block\n          int block_end_i=block_start_i+1;\n          for (; block_end_i < mat.rows(); ++block_end_i)\n            if (mat.derived().block(block_end_i, 0, 1, mat.cols()).array().abs().sum() < length_thresh)\n              break;\n\n          //now shift the block left\n          vec")],
 needs="an affine map with a zero row that is directly followed by a row whose entries cancel (such as x0 - x1)", what="after a zero row, rows with entries summing to zero are dropped as if they were zero rows",
 demo_cpp=PRE.replace("static bool close", "#include <solver/rt_optimizer/RtMatrix.hpp>\nstatic bool close")+'''
int main() { rt_solver::RtMatrix<5, 3>::d m(5, 3); rt_solver::RtVector<5>::d v(5); m << 1, 2, 3,  0, 0, 0,  1, -1, 0,  0, 2, 1,  -1, -1, 2; v << 1, 2, 3, 4, 5; rt_solver::RtAffineUtils::removeZeroRows(m, v); std::cout << m << "\\n" << v.transpose() << std::endl;
  if (m.rows() != 4) fail("number of rows"); if (m(1, 1) != -1 || v[1] != 3 || v[3] != 5) fail("rows"); return 0; }
''')
