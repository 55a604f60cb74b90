"""Single source for properties.jsonl and MANIFEST.json (python3 tools/props.py regenerates both)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "finat/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[F + f for f in files],
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


prop("C01", "FIAT-backed elements evaluate to the family's true basis values",
     "For every supported family, reference cell, degree and variant, tabulating the element at any point set on the cell or on any of its "
     "sub-entities, for any derivative order, gives exactly the basis functions (and derivatives, with the documented component layout) of the "
     "corresponding FIAT family at the points mapped into the cell. Shortcuts for zero, constant or point-independent tables never change the values, "
     "and the reported degree, space dimension, index shape and value shape agree with the tables.",
     ["inputs", "configurations"], "all families x cells x degrees x variants, all sub-entities, all derivative orders, all point sets",
     "Tests tabulate a handful of Lagrange-like elements on one point set; the zero/constant shortcuts depend on family, degree, order and points together.",
     ["fiat_elements.py", "spectral.py", "hdivcurl.py", "cube.py", "finiteelementbase.py", "trace.py"],
     [("point_evaluation_generic / basis_evaluation", "finat/fiat_elements.py"), ("entity transforms", "finat/finiteelementbase.py")],
     "runtime monitoring: differential oracle over recorded tabulations", "Bounded by drawn degrees/points; trusts FIAT's tabulate and the monitor's own GEM evaluator.",
     ["basis_evaluation"])
prop("C02", "Symbolic point evaluation agrees with tabulation",
     "Evaluating an element's basis (and derivatives up to any order) at a point given by a symbolic coordinate expression - a literal, run-time "
     "coordinates with free indices, or a computed expression - yields an expression whose run-time value at any point is the true basis value there, "
     "on the cell or on any entity of it. Elements that cannot do this refuse instead of returning wrong values.",
     ["inputs", "configurations"], "all elements and composites, entities, derivative orders, run-time points",
     "The single existing test covers a few scalar families at one point; the generated expressions must be right for all run-time points.",
     ["fiat_elements.py", "tensor_product.py", "cube.py", "enriched.py", "mixed.py", "tensorfiniteelement.py", "hdivcurl.py", "sympy2gem.py"],
     [("point_evaluation", "finat/fiat_elements.py"), ("TensorProductElement.point_evaluation", "finat/tensor_product.py")],
     "runtime monitoring: execution of the generated expressions against a reference model", "Bounded by drawn elements and points; trusts FIAT.",
     ["point_evaluation"])
prop("C03", "Translated symbolic expressions keep their value",
     "Translating a SymPy or SymEngine expression - arithmetic, powers, absolute values, comparisons, boolean connectives and piecewise definitions - "
     "into the kernel language preserves its value at every point at which it is defined, including exactly on the boundaries of piecewise branches.  "
     "Unsupported constructs are refused, never mistranslated.",
     ["programs", "inputs"], "all expressions of the supported grammar, all argument values incl. ties",
     "Only exercised through smooth polynomial bases in tests; ties and nested conditions are never reached.",
     ["sympy2gem.py"], [("sympy2gem dispatcher", "finat/sympy2gem.py")],
     "runtime monitoring: execution of translated code vs direct evaluation of the generating tree", "Random expression trees; grid of points including exact ties.",
     ["sympy2gem"])
prop("C04", "Tensor product elements are products of their factors",
     "The basis of a tensor product element - also nested, or flattened to a quadrilateral or hexahedron - consists of all products of factor basis functions, "
     "ordered with the last factor fastest; values, all mixed derivatives, dof-to-entity association, degree, sizes, form degree and mapping follow from those of the factors. "
     "This holds on the cell and every sub-entity and for structured and unstructured point sets alike.",
     ["inputs", "configurations"], "all factor choices, nestings, entities, derivative multi-indices and point sets",
     "Tests touch products of Lagrange on a few points; combinations of factor families, entity types and point-set structure are unbounded.",
     ["tensor_product.py", "cube.py", "point_set.py"],
     [("TensorProductElement._merge_evaluations/_factor_point_set", "finat/tensor_product.py"), ("FlattenedDimensions", "finat/cube.py")],
     "runtime monitoring: differential oracle (numpy products of factor tables)", "Bounded by drawn products; trusts FIAT on the factors.",
     ["basis_evaluation", "entity_dofs"])
prop("C05", "Enriched and mixed elements concatenate their parts",
     "The basis of an enriched, mixed or nodally enriched element is the parts' bases one after the other: values and derivatives of each block equal "
     "the part's (placed in its own components and zero elsewhere for mixed elements, re-nodalised for nodal enrichment), and dofs sit on the parts' entities with consistent offsets. "
     "Derived attributes (degree, space dimension, value shape, form degree, conformity space, mapping) are consistent with the parts.",
     ["inputs", "configurations"], "all combinations of parts, nestings, cells, entities, derivative orders",
     "Tests use one or two fixed mixed/enriched elements; block offsets and index bookkeeping depend on the shapes of all parts.",
     ["enriched.py", "mixed.py", "nodal_enriched.py"],
     [("EnrichedElement._compose_evaluations", "finat/enriched.py"), ("MixedSubElement._transform", "finat/mixed.py")],
     "runtime monitoring: differential oracle (concatenated reference tables)", "Bounded by drawn sums; trusts FIAT on the leaves.",
     ["basis_evaluation", "entity_dofs"])
prop("C06", "Blocked vector and tensor elements are component copies of the base",
     "An element valued in a given shape over a base element has basis functions that are base functions times unit tensors, in the requested dof order "
     "(block-interleaved or component-major), with matching values, derivatives, dof-to-entity maps, and dual evaluation. "
     "This holds for any base, any shape rank and both orders.",
     ["inputs", "configurations"], "all bases, shapes, orders, entities, derivative orders, functions",
     "Tests cover rank-1 shapes of Lagrange; the transposed order and higher ranks interact with index order in several methods at once.",
     ["tensorfiniteelement.py"], [("TensorFiniteElement._tensorise/dual_evaluation/entity_dofs", "finat/tensorfiniteelement.py")],
     "runtime monitoring: differential oracle (Kronecker model)", "Bounded by drawn bases and shapes.", ["basis_evaluation", "dual_evaluation", "entity_dofs"])
prop("C07", "H(div)/H(curl) wrappers place values correctly and conform",
     "Wrapping a tensor product element to H(div) or H(curl) yields the reference vector proxies of the corresponding discrete forms: components, signs and rotations as "
     "in the FEEC complex, on quadrilaterals, hexahedra and prisms. On every facet the normal (tangential) trace of any function whose dof is not in that facet's closure vanishes.",
     ["inputs", "configurations"], "all wrappable products, cells, entities, derivative orders",
     "Existing tests only check dofs nonemptiness for a few degrees.", ["hdivcurl.py", "tensor_product.py", "cube.py"],
     [("select_hdiv_transformer/select_hcurl_transformer", "finat/hdivcurl.py")],
     "runtime monitoring: differential oracle plus trace-conformity monitor", "Bounded by drawn products.", ["basis_evaluation"])
prop("C08", "Restriction keeps exactly the functions of the chosen entities",
     "Restricting an element to interior, vertex, edge, face or facet yields exactly those basis functions whose dof lies on entities of the closure of that domain - each original function "
     "with that location appears once, on the same entity and with unchanged values and derivatives (nodal on the retained functionals); blocked elements stay blocked the same way. Restrictions that select nothing are reported as empty, and unsupported "
     "elements are refused.",
     ["inputs", "configurations"], "all elements/composites and restriction domains", "Tests check a few families; nested composites and all domains per dimension are not covered.",
     ["restricted.py"], [("restrict dispatcher, r_to_codim, restrict_tpe", "finat/restricted.py")],
     "runtime monitoring: per-function matching monitor against the unrestricted element", "Bounded by drawn elements; trusts the unrestricted element (C01, C04-C07).",
     ["RestrictedElement"])
prop("C09", "Dof maps partition the basis over the cell's entities",
     "For every element the dof-to-entity map assigns each of the basis functions 0..n-1 to exactly one topological entity of its cell, with the published "
     "number of dofs per entity for the non-affine families (only the unconstrained dofs), and the closure map of an entity is the sorted union over all its sub-entities. "
     "Index shape, space dimension and the maps agree.",
     ["inputs", "configurations"], "all elements, composites, variants and entities",
     "Maps are only compared for a handful of elements; constrained, blocked and nested composites each rebuild the maps differently.",
     ["finiteelementbase.py", "fiat_elements.py", "physically_mapped.py", "tensor_product.py", "argyris.py", "bell.py", "quadrature_element.py"],
     [("FiniteElementBase.entity_closure_dofs/_entity_closure_dofs", "finat/finiteelementbase.py")],
     "runtime monitoring: invariant monitor on observed dof maps with a geometric oracle for closures",
     "Every catalogue element and variant of bounded degree plus drawn composites.", ["entity_dofs", "entity_closure_dofs"])
prop("C10", "Entity support lists exactly the functions nonzero on an entity",
     "For every element and entity, the reported support dofs are exactly the basis functions that do not vanish identically on that entity. "
     "This holds for every family, variant, degree and composition, independent of how the basis is scaled or of macro-cell subdivision.",
     ["inputs", "configurations"], "all elements, composites, entities",
     "The test samples a few low-degree elements; scaling, macro variants and composites decide where the numerical test fails.",
     ["finiteelementbase.py", "fiat_elements.py", "tensorfiniteelement.py"],
     [("entity_support_dofs", "finat/finiteelementbase.py")],
     "runtime monitoring: reported support vs function values observed at sampled points of the entity",
     "A function counts as nonzero when it exceeds 1e-6 of its maximum at a sampled point. One known finding (tensor over flat macro element).",
     ["entity_support_dofs"])
prop("C11", "Entity permutations move dofs as the orientation moves nodes",
     "For every entity and orientation the advertised table is a permutation of that entity's dofs, the identity for orientation zero, and for nodal elements "
     "it moves the dof nodes exactly as the orientation's symmetry moves the entity. This composes correctly through tensor products, flattening, "
     "direct sums and H(div)/H(curl) wrapping.",
     ["inputs", "configurations"], "all nodal elements and composites, entities and orientations",
     "No test of the repository executes entity permutations of composites.",
     ["tensor_product.py", "cube.py", "enriched.py", "hdivcurl.py", "fiat_elements.py", "spectral.py"],
     [("entity_permutations", "finat/tensor_product.py"), ("concatenate_entity_permutations", "finat/enriched.py")],
     "runtime monitoring: permutation tables vs observed node positions under the vertex symmetry",
     "Nodal elements only; concatenated sums of wrapped elements are checked per summand.", ["entity_permutations"])
prop("C12", "Dual evaluation is exact and nodal on every element",
     "Evaluating an element's dual basis at a function yields exactly the values of the element's degrees of freedom, for every nodal, moment or derivative-free composite element that offers one: "
     "the element's own basis functions give the identity, and any polynomial (also one carrying free argument indices) gives its functionals. Where the degrees of freedom of a leaf element are point values, applying the dual takes no arithmetic. Elements whose "
     "dual cannot be applied on the reference cell refuse instead of returning wrong values.",
     ["inputs", "configurations"], "all elements and composites with a dual basis, all functions, with or without free indices",
     "Tests interpolate one or two functions on a few Lagrange elements; the dual weights and evaluation points are rebuilt by each composite.",
     ["finiteelementbase.py", "fiat_elements.py", "tensor_product.py", "tensorfiniteelement.py", "enriched.py", "quadrature_element.py", "cube.py", "hdivcurl.py",
      "physically_mapped.py"],
     [("dual_evaluation", "finat/finiteelementbase.py"), ("_dual_basis", "finat/fiat_elements.py"), ("dual_basis", "finat/tensor_product.py")],
     "runtime monitoring: functional values observed vs FIAT functionals and nodality", "Bounded by drawn elements and functions; trusts FIAT's dual sets.",
     ["dual_evaluation", "dual_basis"])
prop("C13", "Quadrature rules integrate exactly to the requested degree",
     "For every supported cell (reference, deformed, macro, or product with one degree per factor), degree and scheme, the generated rule integrates every polynomial up to "
     "that degree exactly, its points and weights correspond one to one and lie on the cell, and tensor rules equal the product of their factor rules in the order of their points. "
     "Unsupported degrees, schemes and cells are refused, and a rule for an undivided interval, at every degree, consists of points recognisable as Gauss-Legendre points and advertises their reordering under reflection.",
     ["inputs", "configurations"], "all cells, degrees (also per factor) and schemes",
     "Tests integrate a few low degrees; the rule is chosen by degree, cell and scheme and combined per factor.",
     ["quadrature.py", "point_set.py"],
     [("make_quadrature", "finat/quadrature.py"), ("TensorProductQuadratureRule", "finat/quadrature.py")],
     "runtime monitoring: closed-form monomial integrals vs observed rules", "Degrees to 12 (quick) per cell; trusts FIAT's macro splits.", ["make_quadrature"])
prop("C14", "Quadrature elements are the identity at their own points only",
     "A quadrature element built on any rule tabulates to the identity at exactly the points of its rule, alone, blocked or inside other elements. Every other request - another point set, derivatives, "
     "sub-entities, run-time points - is refused rather than answered wrongly.",
     ["inputs", "configurations"], "all quadrature rules, cells, point sets and requests",
     "Tests query one rule; near-equal, permuted, differently structured and partial point sets are what a user gets wrong.",
     ["quadrature_element.py", "point_set.py"],
     [("QuadratureElement.basis_evaluation", "finat/quadrature_element.py")],
     "runtime monitoring: response monitor over hostile requests", "Bounded by drawn rules and perturbations.", ["basis_evaluation"])
prop("C15", "Spectral elements collocate exactly and stay correct elsewhere",
     "Tabulating a Gauss-Lobatto-Legendre or Gauss-Legendre element at its matching labelled point set is exactly the identity - symbolically, so that interpolation at the nodes costs nothing - and at every other point set - larger, smaller, of the other kind, or on a sub-entity - and for every "
     "derivative order it gives the true basis values. This survives tensor products, flattening, blocking, enrichment and H(div)/H(curl) wrapping.",
     ["inputs", "configurations"], "all degrees, labelled and unlabelled point sets, entities, derivative orders, compositions",
     "The tests compare matching point sets of low degree; mismatched labels and sizes select a different path.",
     ["spectral.py", "point_set.py", "tensor_product.py"],
     [("GaussLobattoLegendre.basis_evaluation", "finat/spectral.py"), ("GaussLegendre.basis_evaluation", "finat/spectral.py")],
     "runtime monitoring: differential oracle plus exact-identity monitor", "Bounded by drawn degrees.", ["basis_evaluation"])
prop("C16", "Mapped elements give the family's basis on any physical cell",
     "Tabulating a physically mapped element with the geometry of any non-degenerate affine cell, of either orientation, and applying its declared mapping yields exactly the basis "
     "functions (and derivatives) that the family defines directly on that physical cell, with cell sizes set to one. "
     "This covers Hermite, Morley, Bell, Argyris, the macro and the mixed/Piola-mapped families in each dimension, degree and variant they support, also inside blocked, enriched and mixed elements; "
     "the reported degree is the polynomial degree of the basis on each piece, and without the geometry nothing is answered.",
     ["inputs", "configurations"], "all physical cells, element variants, derivative orders, entities",
     "Tests use one or two fixed physical triangles and values only; orientation and shape dependent mistakes in the basis transformation survive those.",
     ["physically_mapped.py", "argyris.py", "bell.py", "hermite.py", "morley.py", "hct.py", "powell_sabin.py", "mtw.py", "aw.py", "hz.py", "johnson_mercier.py",
      "piola_mapped.py", "bernardi_raugel.py", "guzman_neilan.py", "alfeld_sorokina.py", "christiansen_hu.py", "arnold_qin.py"],
     [("basis_transformation", "finat/argyris.py"), ("PhysicallyMappedElement.basis_evaluation", "finat/physically_mapped.py"),
      ("piola basis transformation", "finat/piola_mapped.py")],
     "runtime monitoring: differential oracle (FIAT family built on the physical cell) over random geometries",
     "Random well-shaped and stretched cells; trusts FIAT on physical simplices.", ["basis_evaluation", "basis_transformation"])
prop("C17", "Cell size only rescales derivative dofs, locally",
     "Changing the cell-size coordinates multiplies each basis function of a physically mapped element by a positive factor depending only on the sizes at the vertices of the dof's own entity, "
     "so that neighbouring cells always agree on it. Scaling the cell and its size together changes each function by a pure power law, "
     "which keeps conditioning independent of mesh size.",
     ["inputs", "configurations"], "all physically mapped elements, cells, cell sizes",
     "The single conditioning test fixes two meshes of one shape; locality in the sizes is never checked.",
     ["argyris.py", "bell.py", "hermite.py", "morley.py", "hct.py", "powell_sabin.py", "piola_mapped.py"],
     [("cell_size scaling in basis_transformation", "finat/argyris.py")],
     "runtime monitoring: metamorphic monitor over random cell sizes", "Random cells and sizes.", ["basis_transformation"])
prop("C18", "Neighbouring cells agree on shared traces",
     "For two cells that share a facet, with any geometry and any local numbering consistent with a global vertex order, functions whose dofs are matched through the shared entities have the same "
     "trace required by the element's space (value, gradient, normal or tangential component, or moments for nonconforming elements), while functions "
     "whose dofs are not in the facet's closure have zero trace.",
     ["inputs", "configurations"], "all elements, pairs of cells, local numberings",
     "Unit tests evaluate single cells; the continuity a user relies on is a two-cell property.",
     ["physically_mapped.py", "argyris.py", "piola_mapped.py", "mtw.py", "aw.py", "hdivcurl.py", "tensor_product.py", "morley.py"],
     [("basis_transformation", "finat/argyris.py"), ("entity_dofs", "finat/tensor_product.py")],
     "runtime monitoring: two-cell trace monitor over random patches", "Simplices under a random global vertex order; product cells by translation. PS6 on parallelogram patches only.",
     ["basis_evaluation", "entity_dofs"])
prop("C19", "Point sets describe the same points in every representation",
     "For every (nested) point set the array of points, the symbolic expression over its indices and the reported dimension describe the same points in the same order, with the first factor of a tensor product varying slowest; run-time "
     "point sets follow the array they are bound to. Approximate equality holds exactly for sets of the same structure whose coordinates agree within the tolerance.",
     ["inputs"], "all point set kinds, nestings, sizes, dimensions, tolerances",
     "Tests compare one or two sets; ordering of nested products and tolerance boundaries are not covered.",
     ["point_set.py"],
     [("TensorPointSet.points/expression", "finat/point_set.py"), ("almost_equal", "finat/point_set.py")],
     "runtime monitoring: representation-agreement monitor", "Bounded by drawn structures of up to 4 dimensions.", ["almost_equal"])
prop("C20", "Run-time tabulated elements bind the right table everywhere",
     "For a run-time tabulated element and every composition of it, each generated kernel argument has a name and a shape determined by variant, order, derivative and points, so that binding each argument to the corresponding table of a real element makes the composite "
     "tabulate exactly as the composite of the real elements. Distinct tables never share a name and unsupported requests are refused.",
     ["inputs", "configurations"], "all degrees, variants, orders, continuity, compositions",
     "Only construction is tested; the tables' use inside products is not.",
     ["runtime_tabulated.py", "tensor_product.py"],
     [("RuntimeTabulated.basis_evaluation", "finat/runtime_tabulated.py")],
     "runtime monitoring: argument trace monitor and differential oracle", "Bounded by drawn compositions.", ["basis_evaluation"])
prop("C21", "Direct serendipity elements are unisolvent and conforming on any quad",
     "On every convex quadrilateral, of any shape or orientation, the direct serendipity element of each degree is nodal at vertices, edge nodes and its interior lattice nodes, its functions vanish on the edges outside their entity's closure and have edge traces "
     "fixed by the shared edge alone, and its span contains all polynomials of the degree in physical coordinates. Its derivatives are the derivatives of its values.",
     ["inputs", "configurations"], "all convex quadrilaterals, degrees, points",
     "Tests fix one or two trapezoids and check only the interpolation of a polynomial.",
     ["direct_serendipity.py"],
     [("ds_sym / ds1_sym basis construction", "finat/direct_serendipity.py")],
     "runtime monitoring: invariant monitors over random geometry", "Degrees 1-6, random convex quadrilaterals.", ["basis_evaluation"])
prop("C22", "Discontinuous variants keep the space but detach every dof",
     "Making any element discontinuous leaves its basis functions, derivatives, dual evaluation, sizes and degree unchanged, while every dof becomes interior to the cell and the form degree becomes that of the cell. "
     "This holds for composites and for the discontinuous element used inside other constructions.",
     ["inputs", "configurations"], "all elements and composites",
     "No test looks at the discontinuous variants of composites.",
     ["discontinuous.py"],
     [("DiscontinuousElement", "finat/discontinuous.py")],
     "runtime monitoring: differential monitor against the base element", "Bounded by drawn elements.", ["basis_evaluation", "entity_dofs"])
prop("C25", "The FIAT equivalent is the same element",
     "Whenever an element offers a FIAT equivalent, that object has the same cell, number of functions, dof maps and form degree and tabulates the same functions "
     "in the same order, on the cell and on each entity, for every derivative order.",
     ["inputs", "configurations"], "all elements and composites with an equivalent, entities, orders",
     "Callers use the equivalent interchangeably with the element; tests do it for one or two elements.",
     ["fiat_elements.py", "tensor_product.py", "cube.py", "enriched.py", "mixed.py", "hdivcurl.py", "discontinuous.py", "restricted.py", "tensorfiniteelement.py"],
     [("fiat_equivalent", "finat/finiteelementbase.py")],
     "runtime monitoring: differential monitor of two implementations", "Two-factor products only (FIAT's limit).", ["fiat_equivalent"])
prop("C23", "Tensor structure survives: products stay sum-factorisable",
     "Tabulating an element with tensor structure (products, flattened, blocked, wrapped, enriched) at a point set with the same structure gives an expression built only from the tables "
     "of the one-dimensional factors, with one point index per direction, so that evaluating a function at all points, or its dofs, costs no more than a small multiple of the optimal direction-by-direction cost. "
     "Evaluating the dofs of products of point-nodal elements is plain sampling. The points and weights of product quadrature rules keep the same structure.",
     ["inputs", "configurations"], "all structured elements, degrees, entities and derivative orders",
     "Losing factorisation changes no value, so value tests cannot see it; existing tests look at two sizes of one Laplace form.",
     ["tensor_product.py", "cube.py", "point_set.py", "quadrature.py", "spectral.py", "hdivcurl.py", "enriched.py"],
     [("TensorProductElement.basis_evaluation", "finat/tensor_product.py"), ("TensorPointSet", "finat/point_set.py"), ("TensorProductQuadratureRule", "finat/quadrature.py")],
     "runtime monitoring: expression and flop-count monitor over generated contractions", "Three factors at most; cost bound with slack 1.5.", ["basis_evaluation"])
prop("C24", "Answers never depend on the history of queries",
     "The answer of an element, point set or quadrature rule to a query is a function of the query alone: it is the same whatever was asked before, of it or of objects sharing parts with it, in any order. "
     "Nothing that was handed out earlier, and no argument passed in, changes afterwards.",
     ["histories"], "all interleaved histories of queries on shared objects",
     "Cached properties, shared sub-elements and mutable tables make this a property of histories; unit tests ask each object one thing.",
     ["finiteelementbase.py", "fiat_elements.py", "tensor_product.py", "cube.py", "enriched.py", "mixed.py", "tensorfiniteelement.py", "quadrature.py", "physically_mapped.py",
      "piola_mapped.py", "hdivcurl.py", "discontinuous.py", "restricted.py"],
     [("cached_property caches", "finat/finiteelementbase.py"), ("entity maps of composites", "finat/enriched.py")],
     "runtime monitoring: history recorder compared with fresh-object oracle", "Random histories of bounded length in one thread.", ["basis_evaluation"])
prop("C26", "UFL elements are identified by what they mean",
     "Two UFL elements built from the same specification, in any spelling of it, in any process, are equal with equal hash, repr and ordering; specifications that differ in anything that "
     "matters (family, degree, cell, variant, scheme, shape, symmetry, order of parts, mapping, restriction) are different elements. Sets, dicts and sorted lists of elements behave accordingly.",
     ["inputs", "schedules"], "all nested UFL element specifications, hash seeds and processes",
     "Form compilers cache kernels by this identity, so a single collision or instability silently reuses a wrong kernel; there is no test of it.",
     ["ufl/finiteelementbase.py", "ufl/finiteelement.py", "ufl/mixedelement.py", "ufl/tensorproductelement.py", "ufl/enrichedelement.py", "ufl/restrictedelement.py",
      "ufl/hdivcurl.py", "ufl/brokenelement.py"],
     [("__hash__/__eq__/__lt__ on repr", "finat/ufl/finiteelementbase.py")],
     "runtime monitoring: identity monitor over pairs and processes", "Specifications nested up to three deep.", ["__eq__"])
prop("C27", "UFL elements survive copying, storage and reconstruction",
     "Pickling, copying, deep-copying or evaluating the printed form of a UFL element gives an equal element that agrees on every attribute, also in another process. reconstruct() without arguments is the identity, and with arguments yields exactly the element whose "
     "specification has those changes made in every simple constituent.",
     ["inputs"], "all nested UFL elements and reconstruction arguments",
     "Tests round-trip a few hand-picked elements and never nest reconstruction.",
     ["ufl/finiteelementbase.py", "ufl/finiteelement.py", "ufl/mixedelement.py", "ufl/tensorproductelement.py", "ufl/enrichedelement.py", "ufl/restrictedelement.py",
      "ufl/hdivcurl.py", "ufl/brokenelement.py"],
     [("reconstruct", "finat/ufl/finiteelement.py"), ("__reduce__/__repr__", "finat/ufl/finiteelement.py")],
     "runtime monitoring: round-trip monitor against a specification model", "Specifications nested up to three deep.", ["reconstruct"])
prop("C28", "Family names, aliases and shorthands mean the right space",
     "Every family name, short name, alias and exterior-calculus notation resolves, for each cell and degree, to the documented family with its value shape, Sobolev space and mapping, or is refused. "
     "Families on product cells, restriction and enrichment operators and convenience constructors produce the element that the written-out construction gives.",
     ["inputs", "configurations"], "all names x cells x degrees, products, operators",
     "The registry is a table with thousands of combinations; tests check a dozen.",
     ["ufl/elementlist.py", "ufl/finiteelement.py", "ufl/finiteelementbase.py", "ufl/mixedelement.py"],
     [("canonical_element_description, feec_element", "finat/ufl/elementlist.py"), ("FiniteElement.__new__", "finat/ufl/finiteelement.py")],
     "runtime monitoring: exhaustive registry walk against an independent table", "Degrees up to 9; the reference table is the monitor's reading of the documentation.", ["FiniteElement"])
prop("C29", "Derived attributes of UFL elements follow from their parts",
     "For every nested UFL element, degrees, value shapes and sizes, mapping, Sobolev space, quadrature scheme, variant, symmetry and sub-element lists are those that follow from its parts, and ill-formed combinations are refused. "
     "Its pull back maps each reference component to the right physical component with the right transformation.",
     ["inputs"], "all nested UFL elements",
     "Attributes are derived by recursive rules with many special cases; tests look at one level.",
     ["ufl/finiteelementbase.py", "ufl/finiteelement.py", "ufl/mixedelement.py", "ufl/tensorproductelement.py", "ufl/enrichedelement.py", "ufl/restrictedelement.py",
      "ufl/hdivcurl.py", "ufl/brokenelement.py"],
     [("MixedElement/TensorElement value shapes and symmetry", "finat/ufl/mixedelement.py"), ("sobolev_space", "finat/ufl/tensorproductelement.py")],
     "runtime monitoring: attribute monitor against a model on specifications", "Specifications nested up to three deep; trusts UFL's simple pull backs.", ["pullback"])
prop("C30", "UFL promises are kept by the implementing FInAT element",
     "For every UFL element and the FInAT element implementing it, reference value shape, mapping and degrees agree, every basis function lies in the Lagrange space of the declared embedded superdegree, and functions whose dofs agree on shared entities of two neighbouring cells, "
     "with any numbering and geometry, are exactly as continuous as the declared Sobolev space says.",
     ["inputs", "configurations"], "all families and composites, cells, degrees, pairs of cells, numberings",
     "The declarations and the implementations live in separate layers that no test compares.",
     ["ufl/elementlist.py", "ufl/finiteelement.py", "ufl/tensorproductelement.py", "ufl/hdivcurl.py", "fiat_elements.py", "tensor_product.py", "cube.py", "hdivcurl.py", "physically_mapped.py"],
     [("registry of families", "finat/ufl/elementlist.py"), ("mapping, entity_dofs", "finat/fiat_elements.py")],
     "runtime monitoring: two-cell continuity and attribute cross-check", "Affine cells; KMV superdegree is a recorded finding.", ["basis_evaluation", "entity_dofs"])
prop("C31", "Generated expressions are the same in every process",
     "The same request to the same element specification yields the same expression - same structure, same ordering, same numbers - in every process, whatever the hash seed, memory layout, earlier work or order of requests, "
     "so that all ranks of a parallel run generate the same kernel and cached kernels are found again. The same holds for dof maps, permutations, dual points and printed forms.",
     ["histories", "configurations"], "all elements and questions, hash seeds, orders of work",
     "Tests run once in one process; dependence on set order, object identity or counters only shows between processes.",
     ["fiat_elements.py", "finiteelementbase.py", "enriched.py", "mixed.py", "tensor_product.py", "restricted.py", "physically_mapped.py", "quadrature.py", "point_set.py", "ufl/finiteelement.py", "ufl/mixedelement.py"],
     [("dual_basis of FiatElement", "finat/fiat_elements.py"), ("restrict", "finat/restricted.py")],
     "runtime monitoring: fingerprints of all answers compared between processes", "Four processes per batch; rounding below 1e-9 ignored.", ["basis_evaluation", "dual_basis"])
prop("C32", "Answers compose into correct kernels",
     "Expressions from separate evaluations - the same element as test, trial and coefficient, different derivatives, both sides of a facet - can be multiplied, summed and integrated in one form without interfering, and the form keeps its value "
     "under every preprocessing kernel compilers apply (splitting concatenations, sum factorisation, delta elimination, unrolling, zero folding).",
     ["inputs", "configurations"], "all pairs of elements, forms, point sets, entities and passes",
     "Tests evaluate single tables; index reuse and inconsistent structure between tables only matter when tables are combined.",
     ["finiteelementbase.py", "tensor_product.py", "enriched.py", "mixed.py", "tensorfiniteelement.py", "hdivcurl.py", "cube.py", "spectral.py", "fiat_elements.py", "physically_mapped.py"],
     [("get_indices, get_value_indices", "finat/finiteelementbase.py"), ("EnrichedElement._compose_evaluations", "finat/enriched.py")],
     "runtime monitoring: assembled forms executed before and after compiler passes vs numpy reference", "Up to 3 terms, 2 arguments and squared coefficients; gem passes trusted.", ["basis_evaluation"])
