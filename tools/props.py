"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "src/surface/"
I = "include/geometrycentral/surface/"
U = "include/geometrycentral/utilities/"
N = "include/geometrycentral/numerical/"


def prop(id, title, statement, over, text, why, files, mech, observe, technique="property-based testing", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


WHY = ("The suite that builds here samples one small point cloud and a smoke test; it never reaches this code, and any fixed list of "
       "inputs leaves {} open.")

prop("C01", "Meshes built from polygon lists have exactly that connectivity",
     "Building a ManifoldSurfaceMesh or SurfaceMesh from a list of polygons (with or without explicit twin information, from an index matrix, or through the mesh-and-geometry factories) yields a mesh with exactly those faces, "
     "in order and orientation, with exactly the shared edges, boundary loops, positions and corner coordinates they imply, and with all structural invariants of the mesh. "
     "Input that is not an oriented manifold (or is degenerate) is rejected by the manifold constructor with an exception and never yields a mesh.",
     ["inputs"], "all polygon lists, manifold or not, any polygon degrees, several components, with and without boundary",
     WHY.format("the space of polygon lists"),
     [S + "surface_mesh.cpp", S + "manifold_surface_mesh.cpp", S + "surface_mesh_factories.cpp", I + "surface_mesh_factories.ipp"],
     [("constructors", S + "manifold_surface_mesh.cpp"), ("factories", S + "surface_mesh_factories.cpp")],
     ["mesh handles and counters", "exceptions"],
     note="differential against a polygon-list reference model; simplicial inputs and random side gluings up to a few hundred faces")
prop("C02", "Mesh queries, iterators and counters agree with the connectivity",
     "On every mesh, freshly built or reached by edits, all element counters, iteration ranges, neighbourhood iterators, degree/boundary/manifoldness/orientation predicates, index maps, Euler characteristic, genus, "
     "connected components and polygon listings equal what the set of polygons defines. Iterators visit every element exactly once and nothing else.",
     ["inputs", "histories"], "all manifold and nonmanifold polygon meshes, compressed or not, after any edit sequence",
     WHY.format("all connectivities and edit histories"),
     [I + "halfedge_element_types.ipp", S + "surface_mesh.cpp", S + "manifold_surface_mesh.cpp", I + "surface_mesh.ipp"],
     [("navigators", I + "halfedge_element_types.ipp"), ("counters", S + "surface_mesh.cpp")],
     ["return values of queries and iterators"],
     note="differential against a reference model computed from polygon lists; simplicial connectivity")
prop("C03", "Mutations of a manifold mesh do exactly the documented edit",
     "Every mutation of a ManifoldSurfaceMesh (flip, edge and face insertions, vertex/edge/face removal, collapse, separation, switching sides, triangulation, compression) changes the connectivity exactly as documented, touches nothing else, "
     "returns the documented element, and leaves a mesh on which every structural invariant holds. An operation that reports that it did nothing, or throws, leaves the mesh unchanged.",
     ["histories"], "all sequences of mutations and compress() from any manifold mesh, including Delta-complexes",
     WHY.format("the space of edit histories"),
     [S + "manifold_surface_mesh.cpp", S + "surface_mesh.cpp"],
     [("mutation routines", S + "manifold_surface_mesh.cpp"), ("element allocation and compress", S + "surface_mesh.cpp")],
     ["connectivity by handle after each operation", "validateConnectivity()"],
     technique="stateful model-based property testing",
     note="list-level model of faces and boundary loops compared after every step, histories up to 18 operations")
prop("C04", "Mutations of a general surface mesh do exactly the documented edit",
     "Every mutation of a possibly nonmanifold, non-orientable SurfaceMesh (flip, orientation inversion, face duplication, edge and vertex separation, greedy orientation, compression) makes exactly the documented change and preserves every structural invariant. "
     "Separating nonmanifold edges, orienting and separating nonmanifold vertices gives a manifold mesh, oriented whenever that is possible, which converts to a ManifoldSurfaceMesh with the same faces.",
     ["histories", "inputs"], "all edit sequences on all polygon soups",
     WHY.format("nonmanifold configurations and histories"),
     [S + "surface_mesh.cpp"], [("general mutations", S + "surface_mesh.cpp")],
     ["connectivity by handle after each operation"],
     technique="stateful model-based property testing",
     note="list-level model; histories up to 14 operations on meshes of up to ~15 faces")
prop("C05", "Mesh data containers follow their elements through every mutation",
     "A value stored for an element stays with that element through any sequence of mutations and compress(), new elements have the container's default value, and copies, moves, assignments and destruction of containers (or of the mesh) never disturb other containers. "
     "Conversion to and from vectors uses the iteration order of the elements (or the given index map), and arithmetic on containers is element-wise.",
     ["histories"], "all histories of mutations, compressions and container operations, for all element kinds",
     WHY.format("interleavings of mutations and container lifetimes"),
     [U + "mesh_data.h", U + "mesh_data.ipp", I + "halfedge_logic_templates.ipp", S + "surface_mesh.cpp"],
     [("expand/permute/delete callbacks", U + "mesh_data.ipp"), ("compress", S + "surface_mesh.cpp")],
     ["container values by handle"],
     technique="stateful model-based property testing",
     note="mirror map by element handle; compress() relabelling verified against incidences")
prop("C06", "Copies of a mesh are equal and independent",
     "copy() and copyToSurfaceMesh() yield a mesh that is indistinguishable from the original through its interface, toManifoldMesh() yields a manifold mesh with the same faces glued in the same way, and containers carried over with reinterpretTo() hold the same values on the new mesh. "
     "Afterwards mutating one of the meshes never changes the other.",
     ["histories", "inputs"], "all meshes in any state of their edit history and all later edits of either copy",
     WHY.format("states of the edit history at the time of copying"),
     [S + "surface_mesh.cpp", S + "manifold_surface_mesh.cpp", U + "mesh_data.ipp"],
     [("copyInternalFields", S + "surface_mesh.cpp"), ("reinterpretTo", U + "mesh_data.ipp")],
     ["all handle-level observations of both meshes"],
     technique="stateful property-based testing",
     note="full observable state of both meshes compared before and after independent histories")

exec(open(os.path.join(VERIF, "tools/props_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools/props_more.py")) else None

harness = json.load(open(os.path.join(VERIF, "tools/harness_of.json")))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="python3 tools/build.py",
           checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s" % p["id"],
                        thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
                        level_note="No counterexample in the generated cases (seeded, counts in the evidence); " + p["note"] + ". Built with AddressSanitizer and library assertions; memory errors count as violations.")
                   for p in P if p["id"] in harness],
           not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in harness],
           notes="No hooks in /repo. tools/build.py compiles the library sources of /repo's working tree into /verif/build (git-ignored).")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P), "properties,", len(man["checks"]), "checks")
