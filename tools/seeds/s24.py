exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="terrain-last-edge", property="P25", edits=[(MS+"cntopt/TerrainDescription.cpp","    vmat.block(num_rows-1,0,1,3) += 0.5*ccwvertices.block(0,0,1,3);","    vmat.block(num_rows-1,0,1,3) += 0.5*ccwvertices.block(num_rows-3,0,1,3);")],
 needs="a region with four or more vertices", what="the half-space of the closing edge passes through the wrong point, so part of the polygon is excluded or foreign points are accepted",
 files=FILES, demo_sh=sh([MS+"cntopt/TerrainDescription"]), demo_cpp=HEAD+"#include <momentumopt/cntopt/TerrainDescription.hpp>"+END+'''
int main() { for (int n = 3; n < 7; n++) { Eigen::Matrix<double, Eigen::Dynamic, 3> v(n, 3); for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n; v.row(i) << 1 + std::cos(a), 2 + std::sin(a), 0.5; } TerrainDescription t; t.addTerrainRegion(v); const TerrainRegion& r = t.terrainRegion(0); double in = std::cos(M_PI / n);
  for (int i = 0; i < n; i++) { double a = 2 * M_PI * (i + 0.5) / n; for (double f : {0.9, 1.1}) { V3 p(1 + f * in * std::cos(a), 2 + f * in * std::sin(a), 0.5); bool inside = ((r.terrainDescriptionMatrix() * p - r.terrainDescriptionVector()).array() <= 1e-9).all(), flipped = ((r.terrainDescriptionMatrix() * p - r.terrainDescriptionVector()).array() >= -1e-9).all(); V3 c(1, 2, 0.5); bool cin = ((r.terrainDescriptionMatrix() * c - r.terrainDescriptionVector()).array() <= 0).all(); if ((cin ? inside : flipped) != (f < 1)) fail("membership"); } } } return 0; }
''')
