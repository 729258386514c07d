from common import *
TITLE = "edge_v geometry: volumes, centroids, in-diameters, orthonormal face frames"
STATEMENT = """For every supported entity type the computed length/area/volume, centroid and in-diameter are the geometric ones. For every non-degenerate face the normal and tangents are orthonormal, right-handed, aligned with the face and the normal
points away from the given normal point."""
OVER = ["inputs"]
QTEXT = "for every set of vertex coordinates of a non-degenerate line, triangle, rectangle, tetrahedron or hexahedron and every position of the normal point"
WHY = "the tests evaluate a handful of literal vertex sets per type; orientation and alignment must hold for all coordinates"
FILES = ["tools/edge_v/src/geom/%s.cpp" % x for x in ("Geom", "Generic", "Line", "Tria3", "Quad4r", "Tet4", "Hex8r")]
MECH = [("volumes and in-diameters", "Geom::volume, Geom::inDiameter"), ("normals and tangents", "Geom::normal, Geom::tangents"), ("centroids", "Generic::centroid")]
BOUNDS = "coordinates in [-4,4] (extents in [0.1,4] for rectangular types), areas/determinants at least 0.01; quads and hexes axis-aligned for the in-diameter, parallelograms in space for area and frames; tet in-diameter for a fixed base triangle and every apex"
ASSUMPTIONS = [REAL, "square roots are exact"]


def jobs(tier):
    n = ["line", "tria3_frame", "quad4r_frame", "tria3_incircle", "tet4_volume", "tet4_insphere", "hex8r", "quad4r", "centroid"]
    return [J("geom.cpp", x, inc="edge_v", opt=dict(timeout_ms=1500, assert_timeout_ms=30000) if i in (1, 2) else dict(timeout_ms=5000, assert_timeout_ms=60000), CASE=i) for i, x in enumerate(n)]
