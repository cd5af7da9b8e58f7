"""The properties: text for properties.jsonl and MANIFEST.json (gen_meta.py) and what check.py needs."""
MESH = "src/fem_domain/domain/mesh.rs"
ELEM = "src/fem_domain/domain/mesh/elem.rs"
EDGE = "src/fem_domain/domain/mesh/edge.rs"
NODE = "src/fem_domain/domain/mesh/node.rs"
HREF = "src/fem_domain/domain/mesh/h_refinement.rs"
PREF = "src/fem_domain/domain/mesh/p_refinement.rs"
SPACE = "src/fem_domain/domain/mesh/space.rs"
ELT = "src/fem_domain/domain/mesh/element.rs"
DOM = "src/fem_domain/domain.rs"
FIELDS = "src/fem_domain/domain/fields.rs"
BSPEC = "src/fem_domain/domain/dof/basis_spec.rs"
DOF = "src/fem_domain/domain/dof.rs"
BASIS = "src/fem_domain/basis.rs"
HBF = "src/fem_domain/basis/hierarchical_basis_fns.rs"
INTG = "src/fem_problem/integration.rs"
INTS = "src/fem_problem/integration/integrals.rs"
GLQ = "src/fem_problem/integration/glq.rs"
GAL = "src/fem_problem/galerkin.rs"
LIN = "src/fem_problem/linalg.rs"
SM = "src/fem_problem/linalg/sparse_matrix.rs"
NS = "src/fem_problem/linalg/nalgebra_solve.rs"
SS = "src/fem_problem/linalg/slepc_solve.rs"

REALS = "floating point is modelled as exact real arithmetic (rounding of coordinates to the point resolution, and of values printed with fewer than ten decimals, is modelled as a bounded error); inexact constants below 1e-10 relative / 1e-12 absolute count as zero"
FINITE = "discrete inputs (shape of the grid, requests, orders) are forked as decisions of the symbolic execution over the listed finite sets; every real input stays symbolic"

HIST = "grids of 1 to 8 root cells (rows, columns, squares, L, S, ring) with independent symbolic widths and heights at three places of the plane (very flat cells and cells on both sides of the origin among them), and the built-in mesh; every history of up to 3 requests of any of the seven kinds on grids of up to two cells, 2 on three and four, 1 on larger ones (thorough: 4, 3 and 2); two requests in a row of two cells each; chains of 12 (16) splits, scattered or nested in one corner; a grid of 18 cells after 3 to 5 rounds of requests over most of its cells (hundreds of cells), 12 (40) patterns; that grid and one of 297 root cells refined to about 800 to 2100 cells, 2 (8) patterns each; two cells about a million units wide split up to 33 times at the corner they share"

PROPS = {}


def P(pid, **k):
    k.setdefault("assumptions", [REALS, FINITE])
    PROPS[pid] = k


# ------------------------------------------------------------------ mesh
P("M01", title="h-refinement tiles each cell exactly",
  statement="After any history of h-refinements, the children of every refined cell tile it exactly, without gap or overlap, at its midlines, and the leaf cells tile the original domain. Points are never moved, and no two nodes share a position. Positions hold for every cell size, with each child at the place its child index stands for.",
  over=["histories", "inputs"], q=HIST,
  why="Unit tests refine one or two fixed unit-size meshes; a wrong midpoint, swapped child or duplicated node shows only for unequal sizes and particular neighbour orders.",
  files=[MESH, ELEM, EDGE, NODE, SPACE, HREF],
  mech=[("child cell construction", MESH + " execute_{t,u,v}_refinement"), ("midpoint nodes", EDGE + " Edge::h_refine"), ("element nodes", ELEM)],
  observe=["Mesh.elems/nodes, Mesh::elem_points, elem_diag_points"],
  encoded=["Mesh::from_file", "Mesh::execute_h_refinements", "execute_t/u/v_refinement", "Elem::h_refine", "Edge::h_refine", "ElemUninit", "Point arithmetic and comparison", "Mesh::elem_points", "Mesh::elem_diag_points"],
  outside="more than 8 root cells, histories beyond the stated length, non-rectangular cells (the library assumes rectangles)",
  vast=["M01.vast"],
  reach={"M01.huge": ["huge"], "M01.narrow": ["narrow"], "M01.batch": ["geometry compared"], "M01.large": ["geometry compared", "large"], "M01": ["geometry compared"], "M01.chain": ["geometry compared"]})
P("M02", title="Cells, edges and nodes stay consistently connected",
  statement="After any history of h-refinements, every cell's four edges join its own corners on the side their index stands for, every edge names exactly the cells that lie along it, and split edges name two halves that meet at their midpoint. No edge and no node exists twice. Edges and nodes are marked as boundary exactly when they lie on the border of the domain, including borders of re-entrant domains and holes.",
  over=["histories", "inputs"], q=HIST,
  why="Tests check counts on two meshes; sharing of edges between neighbours depends on which side was refined first and how often.",
  files=[MESH, ELEM, EDGE, NODE],
  mech=[("edge sharing and splitting", MESH + " execute_{t,u,v}_refinement, new_edge helpers"), ("edge to cell links", EDGE + " Edge::connect_elem"), ("boundary marks", MESH + " from_file, " + EDGE)],
  observe=["Elem.edges/nodes, Edge.nodes/boundary, Edge::child_ids/parent_id/child_node_id, Node.boundary"],
  encoded=["Mesh::from_file", "Mesh::execute_h_refinements", "execute_t/u/v_refinement", "Edge::h_refine", "Edge::connect_elem", "Node", "Mesh::edge_points"],
  outside="as M01",
  vast=["M02.vast"],
  reach={"M02.huge": ["huge"], "M02.narrow": ["narrow"], "M02.batch": ["connectivity compared"], "M02.large": ["connectivity compared", "large"], "M02": ["connectivity compared", "split edge"], "M02.chain": ["connectivity compared", "split edge"], "M02.border": ["border compared", "border edge"]})
P("M03", title="Navigation between parents and descendants is exact",
  statement="After any history of h-refinements, asking for the ancestors or descendants of a cell, or the descendants of an edge, returns exactly those, once each, in tree order, with or without the starting one; ids that do not exist are reported as errors. The parametric range a descendant reports inside an ancestor is where it really lies, and refinement levels count the splits in each direction. Children start with the material and expansion orders of their parent.",
  over=["histories", "inputs"], q=HIST + "; every pair of cells; ids up to two past the end",
  why="Tests query a handful of ids on one mesh; wrong orders, missing levels or wrong ranges need deeper anisotropic trees.",
  files=[MESH, ELEM, HREF],
  mech=[("tree walks", MESH + " ancestor_elems, descendant_elems, descendant_edges, rec_*"), ("relative ranges", ELEM + " Elem::relative_parametric_range, " + HREF + " HRefLoc"), ("levels", HREF + " HLevels")],
  observe=["Mesh::ancestor_elems/descendant_elems/descendant_edges, Elem::relative_parametric_range, h_levels, poly_orders, materials"],
  encoded=["Mesh::descendant_elems", "Mesh::ancestor_elems", "Mesh::descendant_edges", "Elem::relative_parametric_range", "HRefLoc::sub_range", "HLevels::refined", "Mesh::execute_h_refinements"],
  outside="as M01",
  vast=["M03.vast"],
  reach={"M03.huge": ["huge"], "M03.narrow": ["narrow"], "M03.batch": ["navigation compared"], "M03.large": ["navigation compared", "large"], "M03": ["navigation compared", "relative range"], "M03.chain": ["navigation compared", "relative range"], "M03.loc": ["places"], "M03.inherit": ["inheritance compared"]})
P("M04", title="Active edges pair exactly the facing cells",
  statement="After any history of h-refinements, an interior edge is active exactly when cells exist on both sides of it and no finer edge underneath it is shared from both sides, and its active pair is the finest cell on either side that has that whole edge as its side. Boundary edges are never active. Every interior piece of a cell border is covered by exactly one active edge.",
  over=["histories", "inputs"], q=HIST + "; two neighbours refined against each other for up to 4 steps per side",
  why="Activation depends on the whole refinement history of both sides of an edge; tests look at total counts for two meshes.",
  files=[MESH, EDGE],
  mech=[("activation pass", MESH + " set_edge_activation, rec_set_edge_activation"), ("pair selection", EDGE + " Edge::set_activation, connect_elem")],
  observe=["Edge::active_elem_pair, Edge.boundary, Elem.edges"],
  encoded=["Mesh::set_edge_activation", "Edge::set_activation", "Edge::connect_elem", "Edge::active_elem_pair", "Mesh::execute_h_refinements"],
  outside="as M01",
  vast=["M04.vast"],
  reach={"M04.huge": ["huge"], "M04.narrow": ["narrow"], "M04.batch": ["active pairs compared"], "M04.large": ["active pairs compared", "large"], "M04": ["active edge", "active pairs compared"], "M04.pair": ["active edge", "active pairs compared"], "M04.chain": ["active edge", "active pairs compared"]})
P("M05", title="h-refinement requests are all-or-nothing",
  statement="A list of h-refinements is refused, and the mesh left exactly as it was, when any entry names a missing or already refined cell, repeats an id where repetition is not allowed, names an impossible child, or would create an edge shorter than the minimum length; otherwise all of it is carried out. No list of requests makes the mesh panic, and no request creates an edge below the minimum length. A cell is reported as refinable exactly when it is a leaf whose edges are all longer than the minimum length.",
  over=["inputs", "histories", "fault_sequences"], q="request lists of up to 3 entries over valid, refined and missing ids and all seven kinds plus out-of-range child indices, on meshes with up to two earlier requests; cell sizes symbolic around the minimum edge length (1.2e-5 to 3e-4); two cells of which one is thin; long lists over the 18-cell grid with one flaw at every position",
  why="Tests use a few bad ids; whether the mesh is untouched after a refusal, and refusals at the length limit for every kind, are not looked at.",
  files=[MESH, ELEM, EDGE, HREF],
  mech=[("validation before modification", MESH + " execute_h_refinements, validate_h_refinement, elem_is_h_refineable"), ("length limit", EDGE + " Edge::h_refine")],
  observe=["Result of execute_h_refinements/h_refine_elems, whole mesh before and after"],
  encoded=["Mesh::execute_h_refinements", "Mesh::validate_h_refinement", "Mesh::h_refine_elems", "Mesh::elem_is_h_refineable", "Mesh::global_h_refinement", "Mesh::h_refine_with_filter", "Edge::h_refine"],
  outside="other long lists; impossible children asked for by whole-mesh refinement (no way to report them); known finding: whole-mesh refinement panics on a cell that is eligible but too short to split",
  reach={"M05": ["refused request"], "M05.index": ["refused request"], "M05.list": ["refused request"], "M05.limit": ["split allowed", "split refused"], "M05.two": ["refused request", "thin cell refined"], "M05.large": ["refused request", "long"], "M05.whole": ["whole refined", "whole skipped"]})
P("M06", title="h-refinement requests combine without loss or order effects",
  statement="Several refinements requested for one cell give the same result in any order: at least every split that was asked for, an extension is kept when it is combined with the plain split it extends, and nothing finer than needed. Requests for different cells in one list, one by one, or in another order lead to the same cells. Whole-mesh and filtered refinement refine exactly the eligible, selected cells with the chosen kind.",
  over=["inputs", "histories"], q="all lists of up to 4 kinds on one cell; up to 3 cells refined together, permuted or one by one, on grids of 2 (thorough: up to 4) cells with one earlier request; filters that select any subset of the cells; the 18-cell grid refined in one request, reversed, one by one, with repeats, in parts and by a filter; whole-mesh, filtered and listed requests around one cell split 7 (9) times by any kind; Kani: all triples of kinds, all child indices and levels",
  why="Tests try two combinations; the algebra has 7x7 cases and order effects only show in the resulting mesh.",
  files=[HREF, MESH],
  mech=[("combination rule", HREF + " AddAssign for HRef"), ("request map", MESH + " execute_h_refinements"), ("filters", MESH + " global_h_refinement, h_refine_with_filter")],
  observe=["leaf cells after a request list"],
  encoded=["AddAssign for HRef", "HRef::u_extened/v_extened", "HLevels", "Mesh::execute_h_refinements", "Mesh::global_h_refinement", "Mesh::h_refine_with_filter"],
  outside="longer lists",
  kani=["h_algebra"],
  reach={"M06": ["combined"], "M06.cells": ["geometry compared"], "M06.large": ["geometry compared", "large"], "M06.deep": ["geometry compared", "deep"], "M06.global": ["connectivity compared", "geometry compared", "global", "split edge"]})
P("M07", title="Mesh files load as the grid they describe and export faithfully",
  statement="A mesh file becomes exactly the grid of cells it describes, for any numbering of nodes and elements, with each cell's own material, shared edges and boundary found; a file that is inconsistent or incomplete never becomes a mesh. The JSON export names every cell, edge and node with its true position, connections, materials, orders and parents, and reports a file it cannot write completely as an error. A unit or loaded mesh satisfies the same structural guarantees as a refined one.",
  over=["inputs", "configurations"], q="ten grid shapes of up to 18 cells with symbolic coordinates and materials, several node and element numberings each; 30 kinds of inconsistent or incomplete file; exports of seven meshes, the built-in one, one of many cells and one of about 2000 included, after up to 2 (3) requests of any kind",
  why="Tests load three fixed files that number nodes in one style.",
  files=[MESH, ELT, ELEM, EDGE, NODE],
  mech=[("file reader", MESH + " from_file, parse helpers"), ("edge construction", MESH + " from_file"), ("export", MESH + " export_to_json, JsonValue conversions")],
  observe=["Mesh::from_file, Mesh::export_to_json output"],
  encoded=["Mesh::from_file", "Mesh::unit", "Mesh::blank", "Mesh::export_to_json", "From<Elem/Edge/Node/Element/...> for JsonValue"],
  outside="files whose cells overlap geometrically without sharing ids; duplicate coordinates under different node ids",
  assumptions=[REALS, FINITE, "the json crate is compiled as is; symbolic numbers pass through it as opaque tokens"],
  reach={"M07": ["active edge", "active pairs compared", "border compared", "connectivity compared", "geometry compared", "loaded"], "M07.bad": ["bad file"], "M07.export": ["exported"]})
# ------------------------------------------------------------------ p-refinement
P("P01", title="p-refinement requests are all-or-nothing and add up",
  statement="A list of p-refinements is refused, with every order left as it was, when it names a missing cell, repeats one where repetition is not allowed, or would take any order outside 1 to the maximum; otherwise each named cell's orders change by exactly the sum of its entries and no other cell changes. No such request panics, whatever the deltas. The window of admissible changes reported for a cell is exact.",
  over=["inputs", "histories"], q="lists of up to 3 entries, with deltas over the whole signed 8-bit range at its critical values, ids in and out of range, starting orders 1 to 20, before and after h-refinement; id lists of up to 3 with repeats; lists of hundreds of entries over many cells, with one bad entry anywhere, cells split 6 (8) times among them",
  why="Tests use single small deltas; sums of large deltas, mixed valid and invalid entries and refused lists are not exercised.",
  files=[MESH, PREF],
  mech=[("request map and validation", MESH + " execute_p_refinements, p_refine_elems, elem_p_refinement_window"), ("delta arithmetic", PREF)],
  observe=["Elem.poly_orders before and after"],
  encoded=["Mesh::execute_p_refinements", "Mesh::p_refine_elems", "Mesh::elem_p_refinement_window", "PRef/PRefInt arithmetic", "PolyOrders::refine"],
  outside="other long lists",
  kani=["p_sum"],
  reach={"P01": ["accepted", "refused"], "P01.elems": ["accepted", "refused"], "P01.large": ["long"]})
P("P02", title="Whole-mesh order changes respect limits cell by cell",
  statement="Global and filtered p-refinement move each selected cell's orders by the requested amounts, stopping at 1 and at the maximum; the bounded variant is instead refused as a whole, changing nothing, when any cell would leave the range. Setting orders globally, by list or by filter gives exactly those orders to exactly those cells, and invalid orders can never be set. The largest orders reported for the mesh are the largest of any cell.",
  over=["inputs", "configurations"], q="every order 1 to 20 against every signed 8-bit delta; meshes of 3 to 4 cells with distinct orders; filters selecting any subset; meshes of up to a hundred cells with every order, cells split 6 (8) times among them; every pair of bytes as orders",
  why="Tests apply a few small deltas to uniform meshes.",
  files=[MESH, PREF],
  mech=[("saturating global refinement", MESH + " global_p_refinement, p_refine_with_filter"), ("bounded filter", MESH + " p_refine_with_filter_bounded"), ("setters", MESH + " set_global_expansion_orders, set_expansion_on_elems, set_expansions_with_filter, set_expansion_orders"), ("maximum", MESH + " max_expansion_orders")],
  observe=["Elem.poly_orders, Mesh::max_expansion_orders"],
  encoded=["Mesh::global_p_refinement", "Mesh::p_refine_with_filter", "Mesh::p_refine_with_filter_bounded", "Mesh::set_global_expansion_orders", "Mesh::set_expansion_on_elems", "Mesh::set_expansions_with_filter", "Mesh::set_expansion_orders", "Mesh::max_expansion_orders", "PRef::constrained_to/falls_within", "Orders::try_new/new"],
  outside="other large meshes",
  kani=["p_bounds"],
  reach={"P02": ["global"], "P02.filter": ["bounded ok", "bounded refused", "filter", "list refused", "list set", "set all", "set filter"], "P02.valid": [], "P02.large": ["large"]})
P("P03", title="p-refinement deltas form an exact, bounded arithmetic",
  statement="A p-refinement reads back the deltas it was made from, sums of refinements act as the true sum in any order, and limiting one to a range yields the nearest delta inside it, for all deltas and ranges. Applying one to a pair of orders moves both by exactly its amount, or is refused and leaves both alone when either would leave 1 to the maximum. Order pairs can only be built inside that range.",
  over=["inputs"], q="all signed 8-bit deltas, all triples of deltas, all 8-bit ranges and all starting orders, symbolically (Kani, no further bound)",
  why="Tests sample four deltas and two ranges; overflow and sign errors live at the edges of the 8-bit range.",
  files=[PREF],
  mech=[("delta type", PREF + " PRef, PRefInt"), ("orders", PREF + " PolyOrders, Orders")],
  observe=["PRef::as_array, constrained_to, falls_within, PolyOrders::refine/set, Orders::try_new"],
  encoded=["PRef::from/on_dir/as_array/constrained_to/falls_within/add_assign", "PRefInt::*", "PolyOrders::refine/set/max_with/as_array/default", "Orders::try_new/new/to_array"],
  outside="sums of more than three refinements; panics of Orders::new on invalid input",
  assumptions=["Kani/CBMC semantics of Rust with overflow checks on (debug build)"],
  sym=False, kani=["p_single", "p_sum", "p_bounds", "p_orders"], reach={})
# ------------------------------------------------------------------ domain
P("D01", title="Degrees of freedom and basis functions index one another exactly",
  statement="In every domain, each basis function that belongs to a degree of freedom is listed under its own cell at its own address, each degree of freedom names only its own basis functions, and ids run without gaps. Every address and cell id that does not exist is reported as an error rather than a wrong function or a panic. Lists of ancestor and descendant basis functions contain exactly those of the cells above or below.",
  over=["inputs", "histories"], q="grids of 1, 2 and 3 cells (thorough: 6 shapes), up to two requests, three (seven) kinds, mixed orders; all addresses up to past the end; the grid of 18 cells after 2 to 4 rounds of requests over most of its cells, and two cells with one of them split 6 (8) times; meshes of about 800 to 2100 cells, orders up to 20 in places; two wide cells split 33 times at their common corner",
  why="Tests check one domain's size.",
  files=[DOM, DOF, BSPEC],
  mech=[("domain construction", DOM + " from_mesh, gen_basis_specs, push_basis_spec"), ("lookups", DOM + " get_basis_spec, local_basis_specs, descendant_basis_specs, ancestor_basis_specs")],
  observe=["Domain.dofs, Domain.basis_specs via its public lookups"],
  encoded=["Domain::from_mesh", "Domain::gen_basis_specs", "Domain::get_basis_spec", "Domain::local_basis_specs", "Domain::ancestor_basis_specs", "Domain::descendant_basis_specs", "DoF", "BasisSpec"],
  outside="continuity conditions other than tangential (unimplemented in the library)",
  vast=["D01.vast"],
  reach={"D01": ["bookkeeping", "completeness"], "D01.narrow": ["narrow"], "D01.large": ["bookkeeping"]})
P("D02", title="Every degree of freedom is tangentially continuous",
  statement="For every mesh and every assignment of orders, the field of each single degree of freedom has the same tangential component on both sides of every interior edge, and none on the border of the domain. This holds for every cell size, for edges between cells of different refinement level, and at every point of the edge.",
  over=["inputs", "histories"], q="grids of 2 and 3 cells (thorough: 5 shapes) with symbolic sizes at three places of the plane, up to two requests of any kind (three of three kinds), orders up to 5 mixed per cell, traces compared as polynomials in a symbolic position along each edge; one shared edge with orders up to 16 (20); the grid of 18 cells after 2 to 4 rounds of requests over most of its cells, and two cells with one of them split 6 (8) times; meshes of about 800 to 2100 cells, orders up to 20 in places; two wide cells split 33 times at their common corner",
  why="Continuity is a statement about all points, sizes and orders; tests only compare an eigenvalue.",
  files=[DOM, BSPEC, MESH, HBF, BASIS],
  mech=[("pairing of edge functions", DOM + " from_mesh, " + BSPEC + " matches_with_edge"), ("active edges", MESH + " set_edge_activation"), ("shape functions", HBF)],
  observe=["traces of the basis functions of a degree of freedom along every edge"],
  encoded=["Domain::from_mesh", "BasisSpec::matches_with_edge", "Mesh::set_edge_activation", "HierCurlBasisFn::f_u/f_v", "HierPoly", "HierBasisFn::defined_over"],
  outside="deeper histories",
  reach={"D02": ["interior", "shared"], "D02.orders": ["interior", "shared"], "D02.narrow": ["narrow"], "D02.large": ["interior", "shared"]})
P("D03", title="The set of degrees of freedom is complete and minimal",
  statement="A domain has exactly one degree of freedom for every interior function of every leaf cell and one for every tangential order that both cells of an active edge support; nothing on the border, nothing twice, nothing missing. This holds for unequal orders on the two sides and for any refinement history.",
  over=["inputs", "histories"], q="one shared edge with all orders up to 5 (8) on each side and direction; grids of 2, 3 and 4 cells after up to 2 (3) requests with mixed orders; the grid of 18 cells after 2 to 4 rounds of requests over most of its cells, and two cells with one of them split 6 (8) times; meshes of about 800 to 2100 cells, orders up to 20 in places; two wide cells split 33 times at their common corner",
  why="Tests compare one total.",
  files=[DOM, BSPEC, MESH],
  mech=[("domain construction", DOM + " from_mesh, gen_basis_specs"), ("edge matching", BSPEC + " matches_with_edge")],
  observe=["Domain.dofs"],
  encoded=["Domain::from_mesh", "Domain::gen_basis_specs", "BasisSpec::new", "BasisSpec::matches_with_edge", "PolyOrders::permutations", "Mesh::set_edge_activation"],
  outside="deeper histories",
  vast=["D03.vast"],
  reach={"D03": ["completeness"], "D03.chain": ["completeness"], "D03.narrow": ["narrow"], "D03.large": ["completeness"]})
P("D04", title="Basis functions attach and match by their indices alone",
  statement="Each basis function attaches to the interior, to the edge or to the node its direction and orders imply, for every order, and keeps the data it was made from. Two functions on a common edge match exactly when they have the same direction, the same order along the edge and face each other from opposite sides, whichever is asked. The functions of a cell are exactly the index pairs its orders allow, once each.",
  over=["inputs"], q="all orders up to 20 and all directions; all pairs with orders up to 4 (7); all order pairs up to 20 for the index sets; Kani: all pairs of orders up to 20 and all edge and node ids",
  why="The rules have boundary cases at orders 0 to 2 in both directions that no test touches.",
  files=[BSPEC, PREF],
  mech=[("attachment", BSPEC + " BasisSpec::new, BasisLoc"), ("matching", BSPEC + " matches_with_edge"), ("index sets", PREF + " PolyOrders::permutations")],
  observe=["BasisSpec.loc, matches_with_edge, PolyOrders::permutations"],
  encoded=["BasisSpec::new", "BasisLoc::edge_bs/node_bs", "BasisSpec::matches_with_edge", "PolyOrders::permutations", "BasisSpec::set_dof_and_idx", "BasisSpec::integration_data"],
  outside="node matching (not implemented in the library)",
  kani=["b_loc", "b_match"],
  reach={"D04": [], "D04.match": ["facing"], "D04.perm": []})
P("D05", title="The same steps give the same numbering",
  statement="Loading the same mesh file and applying the same requests and orders twice gives the same cells, edges and nodes with the same ids and places, and building a domain from either, or again from a mesh that was used before, numbers the same basis functions and degrees of freedom in the same way, whatever was built in between. So a solution vector found with one domain belongs to every domain made by the same steps.",
  over=["inputs", "histories", "schedules"], q="seven grid shapes (thorough; four in quick) with symbolic sizes and the grid of 18 cells, up to 4 (5) rounds of requests over most cells of any kind, orders up to 5 mixed per cell, with and without other work in between; hash containers iterate in a different order in every construction, parallel tasks end in every order",
  why="A test sees one run; iteration orders that change from run to run agree with it by luck.",
  files=[DOM, MESH],
  mech=[("domain construction", DOM + " from_mesh, gen_basis_specs"), ("id assignment", MESH + " execute_h_refinements, from_file, IdTracker")],
  observe=["Domain.dofs, Domain.basis_specs, Mesh.elems/edges/nodes"],
  encoded=["Domain::from_mesh", "Domain::gen_basis_specs", "Mesh::from_file", "Mesh::execute_h_refinements", "Mesh::set_edge_activation", "IdTracker"],
  outside="the order of the quantities in a VTK file (not specified), numbering across library versions",
  reach={"D05": ["twice"], "D05.large": ["twice"]})
# ------------------------------------------------------------------ basis
P("B01", title="Shape functions and their derivatives equal their definition",
  statement="At every point of the reference interval, the one-dimensional shape functions of every order equal their defining polynomials, and their first and second derivatives are the true derivatives. Tangential functions of order two and up vanish at both ends, and the first two are nonzero at exactly one end each.",
  over=["inputs"], q="orders 0 to 20, 1 to 24 symbolic positions in [-1, 1], with and without second derivatives",
  why="Tests evaluate a few orders at a few points.",
  files=[HBF], mech=[("polynomial functions", HBF + " poly::HierPoly::with")],
  observe=["HierCurlBasisFnSpace::{norm,tang}{,_d1,_d2}"],
  encoded=["HierPoly::with", "HierPoly::norm/norm_d1/norm_d2/tang/tang_d1/tang_d2"],
  outside="orders above 20 (the maximum), the max_ortho_basis feature (does not build on stable)",
  reach={"B01": ["second derivatives"], "B01.ends": ["ends"]})
P("B02", title="Basis functions map correctly onto cells of any size",
  statement="A basis function of a cell, sampled over the cell or over any of its descendants, has at every sample point the value of its definition at the corresponding point of the cell, scaled to the cell's physical size, along the right axis. Its derivatives, area scales, aspect ratios and relative lengths are the true ones for that cell and descendant. Derivatives taken relative to another cell's coordinates scale by the ratio of sizes once per derivative.",
  over=["inputs", "histories"], q="cells after up to 3 (4) requests, every ancestor/descendant pair of the newest cells, symbolic sizes and sample positions, orders up to 4 (6), second derivatives on and off; cells 10 and 20 levels apart",
  why="Tests use unit cells, where every scale is one.",
  files=[BASIS, ELT, ELEM, SPACE],
  mech=[("sampling over descendants", BASIS + " HierBasisFn::defined_over"), ("element mapping", ELT + " Element, " + ELEM), ("values", BASIS + " f_u, f_v, *_d1, *_d2, *_dd, scales, ratios")],
  observe=["HierCurlBasisFn public methods"],
  encoded=["HierCurlBasisFn::defined_over", "f_u/f_v and derivatives", "glq_scale/edge_glq_scale/u_glq_scale/v_glq_scale/deriv_scale/sample_scale/max_uv_ratio/uv_ratio/vu_ratio", "Elem::relative_parametric_range", "Element::parametric mapping", "M2D", "V2D"],
  outside="curvilinear cells (not supported by the library)",
  reach={"B02.narrow": ["narrow"], "B02.mapping": ["mapping"], "B02": ["descendant"], "B02.deriv": ["derivatives", "derivatives over a descendant"]})
P("B03", title="Sampling basis functions is stateless",
  statement="The sampler returns, for each cell and descendant of its mesh asked for, the same function a fresh evaluation would give, whatever was asked before and in whatever order. Copies of a sampler answer alike, and the points and weights it hands out fit the requested or default numbers and integrate exactly.",
  over=["histories", "inputs"], q="meshes of 2 and 3 cells with two requests, every sequence of 3 requests over the pairs of cells, original and clone; all pairs of a mesh of many cells, forwards, backwards and again",
  why="The cache behind the sampler depends on history; tests ask once.",
  files=[BASIS], mech=[("cache", BASIS + " BasisFnSampler::sample_basis_fn"), ("construction", BASIS + " BasisFnSampler::with, default_ngq")],
  observe=["BasisFnSampler::sample_basis_fn results"],
  encoded=["BasisFnSampler::with", "BasisFnSampler::sample_basis_fn", "Clone for BasisFnSampler", "HierBasisFn::defined_over", "gauss_quadrature_points"],
  outside="sequences of more than 3 requests; cells of several meshes asked of one sampler (its cache is keyed by cell numbers, so a sampler serves one mesh)",
  reach={"B03": ["sampled"], "B03.points": ["points"], "B03.large": ["sampled", "large"]})
# ------------------------------------------------------------------ integrals
_I = "one cell, or a cell inside an ancestor, after up to 2 (3) requests with symbolic sizes; both directions; the sampled functions replaced by arbitrary symbolic values and weights, so the identity is of the integrator itself"
P("I01", title="The inner product integral is the weighted mass integral",
  statement="The inner-product integrator returns, for two basis functions of cells one inside the other, the quadrature sum of permittivity times the product of the two functions over the smaller cell, with the right area scale and sign, and zero for perpendicular functions. It is symmetric in the two functions, whichever of the two cells is the ancestor.",
  over=["inputs", "histories"], q=_I,
  why="Tests compare two numbers on a unit cell; scales of anisotropic descendants cancel there.",
  files=[INTS, INTG, BASIS], mech=[("inner product", INTS + " inner::L2Inner::integrate"), ("quadrature", GLQ)],
  observe=["HierCurlIntegral::integrate"],
  encoded=["L2Inner::with_weights", "L2Inner::integrate", "real_gauss_quad_inner", "HierCurlBasisFn::f_u/f_v/glq_scale/sample_scale", "HierCurlBasisFn::defined_over"],
  outside="integrands off the quadrature points",
  reach={"I01.narrow": ["narrow"], "I01": ["inside an ancestor"]})
P("I02", title="The curl-curl integral is the weighted curl product",
  statement="The curl-curl integrator returns, for two basis functions of cells one inside the other, the quadrature sum of the product of their curls divided by the permeability over the smaller cell, with the true physical derivatives, scales and signs for each combination of directions. It is symmetric in the two functions, whichever of the two cells is the ancestor.",
  over=["inputs", "histories"], q=_I,
  why="As for the inner product; sign and aspect-ratio errors cancel on unit cells.",
  files=[INTS, INTG, BASIS], mech=[("curl-curl", INTS + " curl_curl::CurlCurl::integrate"), ("quadrature", GLQ)],
  observe=["HierCurlIntegral::integrate"],
  encoded=["CurlCurl::with_weights", "CurlCurl::integrate", "real_gauss_quad_inner", "HierCurlBasisFn::f_u_d1/f_v_d1", "HierCurlBasisFn::defined_over"],
  outside="integrands off the quadrature points",
  reach={"I02.narrow": ["narrow"], "I02": ["inside an ancestor"]})
P("I03", title="Integration by parts agrees with direct integration",
  statement="For both integrators, integrating by parts gives the same total as direct integration for polynomial basis functions, in both argument orders and for a cell against its ancestor. The result record reports its surface and edge parts and their sum faithfully.",
  over=["inputs", "histories"], q="one cell, or a cell and its ancestor, after up to 2 (3) requests with symbolic sizes, orders up to 5 (7) at enough quadrature points; all four edges; cells 12 levels apart; cells 12 levels apart",
  why="Tests compare the two on one unit cell with a tolerance.",
  files=[INTS, INTG], mech=[("by parts", INTS + " integrate_by_parts"), ("edge sums", GLQ + " real_gauss_quad_edge"), ("record", INTG + " IntegralResult")],
  observe=["HierCurlIntegral::integrate_by_parts, IntegralResult"],
  encoded=["CurlCurl::integrate_by_parts", "L2Inner::integrate_by_parts", "real_gauss_quad_edge", "IntegralResult::get/full_solution/...", "HierCurlBasisFn::f_u_d2/f_u_dd/f_v_d2/f_v_dd"],
  outside="orders above 7",
  reach={"I03": ["ancestor first", "descendant first", "one cell"], "I03.result": ["record"]})
P("I04", title="Quadrature sums weight every sample once",
  statement="The quadrature helpers return the sum over all interior sample points of the product of both weights and the integrand at that point, for any weights, integrand and unequal point counts, and the edge variant sums along exactly the requested edge. Scaling of points maps the reference interval linearly onto the requested one and reports the right length factor.",
  over=["inputs"], q="2 to 10 (16) points per direction independently, and up to 64 in one of them, symbolic weights and integrand values, all four edges; symbolic interval ends",
  why="Tests integrate a few smooth functions with equal counts.",
  files=[GLQ], mech=[("sums", GLQ + " real_gauss_quad, real_gauss_quad_inner, real_gauss_quad_edge"), ("scaling", GLQ + " scale_gauss_quad_points")],
  observe=["the helpers' results"],
  encoded=["real_gauss_quad", "real_gauss_quad_inner", "real_gauss_quad_edge", "scale_gauss_quad_points"],
  outside="more points",
  reach={"I04": ["sums"], "I04.scale": ["scaled"]})
P("I05", title="Gauss-Legendre rules are exact to their full degree",
  statement="For every number of points n, the generated points lie inside the interval in order, symmetric with positive symmetric weights, and integrate every polynomial of degree 2n-1 exactly; with end points included, the interval's ends are added before and after, and the points and weights in between stay as they are. The default number of points suffices for products of any two basis functions of the mesh's largest orders.",
  over=["inputs", "configurations"], q="n from 1 to 64 (128), every monomial up to degree 2n-1, symbolic polynomial coefficients; every maximum order 1 to 20 for the default",
  why="Tests compare 10 points with a table.",
  files=[GLQ, BASIS], mech=[("point search", GLQ + " gauss_quadrature_points"), ("default", BASIS + " default_ngq")],
  observe=["gauss_quadrature_points, BasisFnSampler::with"],
  encoded=["gauss_quadrature_points", "BasisFnSampler::with", "default_ngq"],
  outside="n above 128; the points themselves are doubles, exactness is to 1e-10",
  assumptions=["points and weights are concrete doubles of the run; the solver decides the identity over symbolic coefficients"],
  reach={"I05": ["moments"], "I05.default": []})
# ------------------------------------------------------------------ galerkin
P("G01", title="Galerkin sampling fills both matrices with the exact integrals",
  statement="The sampled matrices contain, for every pair of degrees of freedom, the sum of the exact integrals over all pairs of their basis functions whose cells lie one inside the other, weighted with the smaller cell's material; every other entry is absent, and each matrix is stored symmetrically once. The result does not depend on the order in which parallel tasks finish. Domains or orders that cannot be sampled are refused with an error.",
  over=["inputs", "histories", "schedules"], q="grids of 1 and 2 cells (thorough: up to 4) with symbolic sizes at three places of the plane and symbolic materials per cell, up to 2 requests, mixed orders up to 3, higher orders up to 8 (12) on one cell; explicit and default quadrature; all orders of task completion for small meshes; the grid of 18 cells after 1 to 3 rounds of requests over most of its cells, orders up to 2; meshes of about 800 to 2100 cells",
  why="Tests compare one eigenvalue of one mesh; missing or doubled terms for overlapping cells and material lookups are invisible there.",
  files=[GAL, INTS, BASIS, SM, DOM], mech=[("sampling loops", GAL + " galerkin_sample_gep_hcurl"), ("accumulation", SM + " insert_group, consume_matrix"), ("eigenproblem", LIN + " GEP")],
  observe=["GEP.a, GEP.b entries"],
  encoded=["galerkin_sample_gep_hcurl", "BasisFnSampler", "CurlCurl::integrate", "L2Inner::integrate", "SparseMatrix::insert_group", "GEP", "Domain::from_mesh", "gauss_quadrature_points"],
  outside="deeper histories; rayon itself is replaced by a shim that runs the tasks in explored orders",
  assumptions=[REALS, FINITE, "rayon is replaced by a shim that explores task orders; data races are excluded by the compiler"],
  seconds={"quick": 500},
  reach={"G01": ["compared"], "G01.chain": ["compared"], "G01.orders": ["compared", "orders"], "G01.schedule": ["compared", "schedule"], "G01.refuse": ["refusals"], "G01.large": ["compared", "large"]})
# ------------------------------------------------------------------ linear algebra
P("L01", title="Sparse matrices accumulate every contribution exactly once",
  statement="After any sequence of single and grouped insertions in either triangle, and of merging one matrix into another, each entry is the sum of everything inserted at that position or its mirror image, and nothing else. Entry counts and iteration agree with that, each entry once. Positions or sizes that do not fit are refused by panicking, never silently stored or dropped.",
  over=["histories", "inputs"], q="dimensions 1 to 3 (4), up to 3 (4) operations with symbolic values, groups with repeated and mirrored positions, merging of two such matrices; dimensions up to 2^32-1 with 400 (2000) entries in four patterns and groups of up to 130",
  why="Tests insert a few entries; mirrored duplicates within a group and merging after mixed insertions are not covered.",
  files=[SM], mech=[("insertion", SM + " insert, insert_group"), ("merging", SM + " consume_matrix"), ("iteration", SM + " iter_upper_tri, num_entries")],
  observe=["SparseMatrix::iter_upper_tri, num_entries, conversions"],
  encoded=["SparseMatrix::new/insert/insert_group/consume_matrix/num_entries/iter_upper_tri"],
  outside="larger matrices",
  reach={"L01": ["accumulated"], "L01.consume": ["consumed"], "L01.large": ["large"], "L01.refuse": ["refusals"]})
P("L02", title="Matrices convert and export without loss",
  statement="Converting a sparse symmetric matrix to a dense one, to a compressed row form or to the exchange file gives the same symmetric matrix: every stored entry and its mirror image, zeros elsewhere. The exchange file is the documented binary layout, big-endian, with rows in order and matching counts, so that its reader recovers exactly the matrix; a file that cannot be written completely is reported as an error.",
  over=["inputs", "histories"], q="dimensions 1 to 4 with up to 4 (5) insertions of symbolic values in any triangle; dimensions up to 300 with 700 (3000) entries, crowded and empty rows; both matrices of a problem",
  why="Tests write one small file and never read it back.",
  files=[SM, LIN], mech=[("conversions", SM + " From<SparseMatrix> for DMatrix / AIJMatrixBinary"), ("file", SM + " print_to_petsc_binary_file, write_to_petsc_binary_format"), ("pair", LIN + " GEP::print_to_petsc_binary_files, to_nalgebra_dense_mats")],
  observe=["dense matrices, file bytes"],
  encoded=["From<SparseMatrix> for DMatrix<f64>", "From<SparseMatrix> for AIJMatrixBinary", "AIJMatrixBinary::print_to_petsc_binary_file", "SparseMatrix::write_to_petsc_binary_format", "GEP::*"],
  outside="larger matrices",
  reach={"L02": ["forms"], "L02.large": ["large"], "L02.pair": ["pair"]})
P("L03", title="The dense solver returns the eigenpair nearest the target",
  statement="Whenever the dense solver succeeds, the returned value is an eigenvalue of the problem, the returned vector belongs to it, and no other eigenvalue is nearer to the target. A singular second matrix or a failed decomposition is reported as an error, and neither outcome depends on the order or sign in which the decomposition lists its results.",
  over=["inputs", "configurations"], q="diagonal pairs of size 1 to 3 (4) and full symmetric 2x2 matrices against a scaled identity with symbolic entries and target; concrete chains up to size 11 (31); singular second matrices; every listing order and sign of the decomposition; target anywhere",
  why="Tests look at one value with one target.",
  files=[NS, LIN], mech=[("dense solve", NS + " nalgebra_solve_gep"), ("selection", NS)],
  observe=["EigenPair"],
  encoded=["nalgebra_solve_gep", "GEP::to_nalgebra_dense_mats", "EigenPair"],
  outside="pairs of matrices that do not commute: the library is wrong there (known finding; an existing test pins the value); the eigen-decomposition itself is a trusted shim",
  assumptions=[REALS, "nalgebra's inverse and symmetric eigen-decomposition are replaced by an exact shim (closed form or concrete Jacobi); the counterexample replay uses the real nalgebra"],
  reach={"L03": ["diagonal"], "L03.full": ["full"], "L03.path": ["chain"], "L03.refuse": ["refused"], "L03.general": ["general"]})
P("L04", title="Normalised eigenvectors keep their direction",
  statement="Normalising an eigenpair's vector gives a vector of unit length with the same direction and orientation and the same number of entries, and leaves the pair unchanged, for every nonzero vector.",
  over=["inputs"], q="vectors of 1 to 4 (6) symbolic entries, at least one of them away from zero; vectors of up to 120 entries, three of them symbolic",
  why="Tests normalise nothing on its own.",
  files=[LIN], mech=[("normalisation", LIN + " EigenPair::normalized_eigenvector")],
  observe=["EigenPair::normalized_eigenvector"],
  encoded=["EigenPair::normalized_eigenvector"],
  outside="longer vectors",
  reach={"L04": ["normalised"], "L04.large": ["large"]})
P("L05", title="The external solver exchange is faithful and leaves no files",
  statement="Solving with the external program hands it the two matrices of the problem, the target and a run-unique name, and returns exactly the value and vector it wrote. A missing program, a failing run, or missing, truncated or malformed answer files give an error, never a wrong pair or a panic. After a run the exchange files of this run are gone, and no other file is touched.",
  over=["inputs", "fault_sequences"], q="problems of dimension 1, 2, 9, 70 and 500 with symbolic entries and target; answers correct, missing, truncated at every length, or with wrong class ids and counts (negative, short, long); program or exchange directory missing or named by something that is not text, program failing, no room for all or part of the problem; unrelated files with similar names, and with names that are not text, present",
  why="The only test needs the external program and fails without it.",
  files=[SS, LIN, SM], mech=[("call", SS + " slepc_solve_gep"), ("answer files", SS + " retrieve_solution, retrieve_eigenvector, retrieve_eigenvalue"), ("names and clean-up", SS + " unique_prefix, clean_directory")],
  observe=["arguments of the launched program, exchange directory, result"],
  encoded=["slepc_solve_gep", "retrieve_solution", "retrieve_eigenvector", "retrieve_eigenvalue", "unique_prefix", "clean_directory", "GEP::print_to_petsc_binary_files"],
  outside="the external program itself; exchange directories whose path is not text",
  assumptions=[REALS, FINITE, "a stand-in launcher in a scratch directory plays the external program (fault injection by decision of the exploration)"],
  reach={"L05.st": ["bad name", "called", "clean", "no directory", "no room", "no solver", "solved"]})
# ------------------------------------------------------------------ fields
P("F01", title="Sampled fields equal the solution at every sample point",
  statement="The x and y fields computed from a solution equal, at every sample point of every leaf cell, the sum over all degrees of freedom of their weight times the value of their basis functions there, including functions inherited from ancestor cells. Any point densities of two or more work, fields are linear in the solution, and computing one field leaves others unchanged. A solution of the wrong length is refused.",
  over=["inputs", "histories"], q="grids of 1 and 2 cells with symbolic sizes, up to 2 (3) requests, mixed orders, one symbolic weight per degree of freedom, equal and unequal densities; the grid of 18 cells after 0 to 2 rounds of requests over most of its cells, up to 26 samples per direction; meshes of about 800 to 2100 cells",
  why="No test looks at a field value.",
  files=[FIELDS, BASIS, DOM], mech=[("field evaluation", FIELDS + " UniformFieldSpace::xy_fields"), ("sampling", BASIS + " HierCurlBasisFn")],
  observe=["values written by the VTK export"],
  encoded=["UniformFieldSpace::new", "UniformFieldSpace::xy_fields", "uniform_range", "HierCurlBasisFn::f_u/f_v/defined_over", "Domain::local_basis_specs", "Mesh::ancestor_elems", "FieldQuantity::write_vtk_quantity"],
  outside="density 1 (not meaningful)",
  reach={"F01": ["inherited", "sampled"], "F01.linear": ["not zero", "superposed"], "F01.large": ["inherited", "sampled"]})
P("F02", title="VTK export is well formed and places values where they were sampled",
  statement="The exported file is a readable unstructured grid whose points are the sample points of every leaf cell, whose cells are the non-overlapping quadrilaterals between neighbouring sample points covering each leaf cell once, and whose values are attached to the points they were sampled at. Exactly the requested quantities appear, in the requested order, once each. Unknown quantities, unwritable paths and files that cannot be written completely are errors.",
  over=["inputs", "histories", "configurations"], q="grids of 1 to 3 cells with symbolic sizes, up to 2 (3) requests, five density pairs, all or selected quantities; the 18-cell grid after 0 to 2 rounds of requests with up to 26 samples per direction; meshes of about 800 to 2100 cells; lists of up to 6 quantities in either order from any start, an unknown name at every position, with and without an older file",
  why="Tests only check that writing succeeds.",
  files=[FIELDS], mech=[("writer", FIELDS + " print_quantities_to_vkt, print_all_to_vtk, write_vtk_quantity")],
  observe=["the written file"],
  encoded=["UniformFieldSpace::print_quantities_to_vkt", "UniformFieldSpace::print_all_to_vtk", "FieldQuantity::write_vtk_quantity", "uniform_range", "Mesh::elem_diag_points"],
  outside="the decimal precision of the file (symbolic values pass through as tokens)",
  reach={"F02": ["file compared"], "F02.large": ["file compared"], "F02.select": ["list written", "refused list"], "F02.path": ["unwritable"]})
P("F03", title="Derived quantities are pointwise and leave their operands alone",
  statement="Mapping a quantity, or combining two, stores under the result name the operation applied at every sample point with the operands in the given order, replaces an existing quantity of that name, and leaves every other quantity unchanged. Unknown operands are refused with an error that names them and nothing changes.",
  over=["programs", "inputs"], q="every program of 2 (3) operations over 3 result names, known and unknown operands, on grids of 1 and 2 cells with symbolic solutions and an operation that is not symmetric",
  why="Tests derive one quantity and never read it.",
  files=[FIELDS], mech=[("operations", FIELDS + " map_to_quantity, expression_2arg, FieldQuantity::operation")],
  observe=["values written by the VTK export"],
  encoded=["UniformFieldSpace::map_to_quantity", "UniformFieldSpace::expression_2arg", "FieldQuantity::operation", "UniformFieldSpace::print_quantities_to_vkt"],
  outside="longer programs",
  reach={"F03": ["combined", "compared", "mapped", "refused"]})
# ------------------------------------------------------------------ space
P("S01", title="Points compare, hash and order consistently",
  statement="Two points in the same place are equal and have the same hash, whatever the signs of zeros; equality agrees with the order of both coordinates, which is symmetric and follows the coordinates wherever they differ by more than the resolution. Midpoints, distances, sums and orientation of two points are the geometric ones, from either end.",
  over=["inputs"], q="pairs and triples of points with symbolic coordinates of either sign, signed zeros, values below the resolution and repeated coordinates; orientation for all positions of unequal extent",
  why="Tests compare a few points; negative coordinates and signed zeros are not used.",
  files=[SPACE], mech=[("comparable form", SPACE + " FloatRep"), ("points", SPACE + " Point")],
  observe=["Point ==, hash, x_order, y_order, between, dist, orientation_with"],
  encoded=["FloatRep::from/cmp/partial_cmp", "Point::new/from/between/dist/orientation_with/x_order/y_order/Add/Div/Hash/Eq"],
  outside="coordinates closer than the resolution (1e-12) but not identical; magnitudes where doubles are coarser than the resolution; equal extents",
  reach={"S01": ["apart", "equal"], "S01.three": ["same", "three"], "S01.measure": ["measured"]})
P("S02", title="Plane vectors and matrices obey linear algebra",
  statement="Sums, scalings, products, quotients and scalar products of vectors, and products, determinants, inverses and transposes of matrices, satisfy the laws of plane linear algebra for all values: a product acts as its factors in turn, and an inverse undoes its matrix.",
  over=["inputs"], q="all real entries (symbolic), determinant away from zero for inverses",
  why="Tests never multiply two matrices.",
  files=[SPACE], mech=[("vectors", SPACE + " V2D"), ("matrices", SPACE + " M2D")],
  observe=["results of the operators"],
  encoded=["V2D::dot/dot_with/Add/Div/Mul/Default", "M2D::det/inverse/transpose/Mul/Div"],
  outside="rounding",
  reach={"S02": ["algebra"], "S02.inverse": ["inverse"]})

for _k, _v in PROPS.items():
    _v["explain"] = ("Bounded symbolic execution of the real source (regenerated from /repo/src on this run): every f64 becomes a symbolic real, every branch on one is decided by Z3, every path is explored, and each obligation is shown valid for all values on its path by normal form or by Z3 (unsat of its negation)." if _v.get("sym", True) else "") + (" Kani/CBMC on the real crate for the integer kernels, over all machine values." if _v.get("kani") else "")
    _v["bounds"] = _v["q"]
