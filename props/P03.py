from common import *
TITLE = "edge_v mesh: faces, adjacency and element orientation are consistent"
STATEMENT = """The mesh built from an element-vertex list has exactly one face per distinct vertex set, knows the one or two elements of every face, and links every element to its true neighbors in the reference element's face order, with matching local
face and vertex ids on the other side. Elements are stored right-handed, physical groups reach exactly their faces, and periodic boundaries connect opposite elements."""
OVER = ["inputs"]
QTEXT = "for every conforming element-vertex connectivity, vertex numbering, vertex order within elements and non-degenerate vertex coordinates"
WHY = "tests read four fixed Gmsh files; wrong orientations or face ids only show for particular vertex orders and numberings"
FILES = ["tools/edge_v/src/mesh/Mesh.cpp", "tools/edge_v/src/geom/Generic.cpp", "tools/edge_v/src/geom/Tria3.cpp", "tools/edge_v/src/geom/Tet4.cpp", "tools/edge_v/src/geom/Quad4r.cpp", "tools/edge_v/src/geom/Hex8r.cpp"]
MECH = [("face/element adjacency", "Mesh::getElAdj, Mesh::getFaVe"), ("periodic boundaries", "Mesh::setPeriodicBnds"), ("normalization", "Geom::normVesFas"), ("ids of adjacent elements", "Geom::getFaIdsAd, Geom::getVeIdsAd"), ("physical groups", "Mesh::setSpTypeFa")]
BOUNDS = "every conforming set of 2 triangles over 4 vertices / 2 tets over 5 vertices with permuted vertices and symbolic physical groups; grids of up to 3x3 quads and 2x1x1 hexes (periodic or not) with symbolic origin and spacings and permuted ids; normalization of single triangles, tets and rectangles for all coordinates in [-4,4] with |det| > 0.1"
ASSUMPTIONS = [REAL, "the Gmsh reader is replaced by the symbolic connectivity"]


def jobs(tier):
    def j(n, **k):
        return J("mesh.cpp", n, inc="edge_v", opt=dict(timeout_ms=5000), **k)
    out = [j("tria3_2els", MODE=0, ELT=3, NV=4, NE=2, NPERM=2, GROUPS=1), j("tet4_2els", MODE=0, ELT=5, NV=5, NE=2, NPERM=1, GROUPS=1),
           j("quad_3x3", MODE=1, ELT=2, NX=3, NY=3, NZ=1), j("quad_3x2_per", MODE=1, ELT=2, NX=3, NY=2, NZ=1, PERIODIC=1),
           j("hex_2x1x1", MODE=1, ELT=4, NX=2, NY=1, NZ=1), j("hex_2x1x1_per", MODE=1, ELT=4, NX=2, NY=1, NZ=1, PERIODIC=1)]
    out += [J("geom.cpp", n, inc="edge_v", CASE=c, opt=dict(timeout_ms=3000)) for c, n in ((9, "norm_tria3"), (10, "norm_tet4"), (11, "norm_quad4r"), (12, "tet4_ids"), (13, "tet4_ids_periodic"))]
    if tier == "thorough":
        out += [j("tria3_3els", MODE=0, ELT=3, NV=5, NE=3, NPERM=1, GROUPS=1), j("hex_2x1x2", MODE=1, ELT=4, NX=2, NY=1, NZ=2)]
    return out
