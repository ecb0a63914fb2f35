G = "src/core/geometry/"
p("P01", "Identified collections keep unique identifiers and exact lookups",
  "In every collection of layers, materials, coordinates or elements, members always have distinct non-zero identifiers and a lookup by identifier succeeds exactly for the identifiers of the current members, returning that member, after any sequence of additions, replacements, removals, assignments, moves and clears. Automatic numbering gives new members consecutive identifiers starting after the largest one present. An operation that is refused for a zero or repeated identifier leaves the collection as it was.",
  ["histories", "inputs"], "All sequences of collection operations, all identifiers and element lists.",
  "Tests add a few elements with fixed identifiers; stale lookups need removal, replacement or refused additions followed by further use.",
  ["src/core/group/Identifiable.hpp", "src/core/group/Group.hpp", G + "coordinate/Group.hpp"],
  [("identifier map and last identifier", "src/core/group/Identifiable.hpp"), ("element vector", "src/core/group/Group.hpp")])
p("P02", "Selections from collections are exact, and copies share or clone as stated",
  "Selecting members by position, by identifier or by (exact or derived) type returns exactly the matching members, each once and in collection order, without changing the collection. Copying or assigning a collection shares the same objects, while cloning yields equal but independent objects of the same concrete types.",
  ["histories", "inputs"], "All collections over a type hierarchy, all position and identifier lists, all types.",
  "Tests check one selection per class on one small group.",
  ["src/core/group/Group.hpp", "src/core/group/Cloneable.hpp", "src/core/group/Identifiable.hpp", "src/core/class/Class.h"],
  [("type filters and position sets", "src/core/group/Group.hpp"), ("clone of every element", "src/core/group/Cloneable.hpp")])
p("P03", "Coordinates are registered and found by position",
  "A coordinate collection finds a coordinate at a position exactly when one of its current members is there, and finds all members at a structured position. Adding a position that is already occupied returns the existing coordinate unless overlapping is allowed, and this holds after any history of additions, removals and scalings, separately for structured and unstructured coordinates.",
  ["histories", "inputs"], "All sequences of position-based and identifier-based operations.",
  "Tests add positions once; lookups after removal of one of several coincident coordinates or after scaling are not reached.",
  [G + "coordinate/Group.hpp", G + "coordinate/Coordinate.hpp"],
  [("position indexes", G + "coordinate/Group.hpp"), ("lexicographic order of positions", "src/core/math/vector/Cartesian.h")])
p("P04", "Element selection and edition by material, layer, coordinate and bounds",
  "Selecting elements by material, by layer, by both, by coordinate or by containing box returns exactly the elements that satisfy the criterion, in order; separating by layers partitions them. Setting or removing by material, layer or identifier changes exactly the addressed elements, and the bounding box of a collection is the smallest box containing every coordinate of its elements.",
  ["inputs", "histories"], "All collections of elements with any assignment of materials and layers (none included).",
  "Tests check a handful of elements with one material and layer each.",
  [G + "element/Group.hpp", G + "element/Element.hpp", G + "Box.hpp"],
  [("selection by predicates", G + "element/Group.hpp"), ("element bounds", G + "element/Element.hpp")])
p("P05", "Meshes and data sets copy deeply and consistently",
  "A copied mesh or data set has the same contents as the original, its elements refer only to coordinates and layers of the copy (and, in a data set, materials, sources and output requests of the copy refer only to its own mesh and models). Later changes to either one do not show in the other.",
  ["histories", "inputs"], "All meshes and data sets, followed by any edits on either side.",
  "Tests copy a small object and compare sizes, not reference closure or independence.",
  [G + "mesh/Geometric.cpp", G + "mesh/Structured.cpp", G + "mesh/Unstructured.cpp", "src/core/Data.cpp"],
  [("pointer reassignment after cloning", G + "element/Group.hpp"), ("deep copy", "src/core/Data.cpp")])
p("P06", "Structured and unstructured meshes convert into each other faithfully",
  "Converting a structured mesh to an unstructured one places every element that can be converted at the positions given by the grid, keeping its identifier, layer and material; converting an unstructured mesh whose elements lie on grid points gives back the cell indices of those points. Elements that cannot be represented are left out, and none is changed, moved or invented.",
  ["inputs"], "All grids, all element kinds and positions on and off the grid.",
  "Tests convert one regular grid and a couple of elements.",
  [G + "mesh/Unstructured.cpp", G + "mesh/Structured.cpp", G + "coordinate/Coordinate.hpp", G + "element/Element.hpp"],
  [("conversion of coordinates", G + "coordinate/Coordinate.hpp"), ("conversion of elements", G + "element/Element.hpp")])
p("P07", "Scaling a mesh scales every length and nothing else",
  "Applying a scaling factor multiplies every coordinate of an unstructured mesh, or every grid position of a structured one, by that factor exactly once, and leaves identifiers, connectivity, layers and materials as they were. Scaling by a factor and then by its inverse restores the mesh.",
  ["inputs", "histories"], "All meshes and factors, repeated scalings.",
  "No test applies scalings to a mesh with shared coordinates or repeatedly.",
  [G + "mesh/Unstructured.cpp", G + "mesh/Structured.cpp", G + "Grid.hpp", G + "coordinate/Group.hpp"],
  [("in-place scaling", G + "coordinate/Group.hpp"), ("scaling of grid positions", G + "Grid.hpp")])
p("P08", "Grids locate positions in cells consistently",
  "For any strictly increasing grid, the cell found for a position inside it is the one whose bounds contain it, the position of a cell index is its lower corner, and both agree with each other up to the grid tolerance. Positions outside the grid are reported as not found or assigned to the border cell according to the request, and counts, steps, cell lists between bounds and full domain bounds agree with the stored positions.",
  ["inputs", "configurations"], "All uniform and non-uniform grids and all query positions, on, between and outside grid lines.",
  "Tests query a few points of a uniform grid.",
  [G + "Grid.hpp", G + "Grid.h"],
  [("bisection on positions with tolerance", G + "Grid.hpp")])
p("P09", "Enlarging a grid only adds cells outside the old domain",
  "Enlarging a grid keeps every previous grid line, adds lines only outside the previous bounds and only on the requested sides, and keeps lines strictly increasing. Where the cell at the side is at least as large as the requested size, as many cells of its size are added as the distance needs (to 1% of a cell); where it is smaller, the added cells grow steadily from it, end in a cell of the requested size, exceed it by no more than a third, and reach the requested distance to within one such cell. A zero pad, or one smaller than the requested size, leaves the side as it was.",
  ["inputs", "configurations"], "All grids, pads and step sizes on each side of each axis.",
  "Tests enlarge one grid.",
  [G + "Grid.hpp"], [("padding of grid lines", G + "Grid.hpp")])
p("P10", "Box algebra is set algebra on axis-aligned boxes",
  "Box intersection tests, unions, containment, corner and dimension classification agree with the geometric meaning of closed axis-aligned boxes of any dimension type. Chopping a box along a step or along a grid yields boxes that cover it exactly, overlap only on their faces, and do not cross grid planes.",
  ["inputs"], "All pairs of boxes (degenerate ones included) and grids.",
  "Tests use a few boxes.",
  [G + "Box.hpp", G + "Box.h"], [("min and max corners", G + "Box.hpp")])
p("P11", "Graphs of elements reflect exactly the shared coordinates",
  "A graph built from elements has one node per element and one bound per shared coordinate, neighbour relations are symmetric, and connected components partition the elements so that two elements are together exactly when a chain of shared coordinates joins them. Splitting at a bound separates exactly the elements meeting there.",
  ["inputs"], "All sets of lines sharing any coordinates.",
  "Tests build a single chain.",
  [G + "graph/Graph.hpp", G + "graph/Vertices.hpp", G + "graph/Element.hpp"],
  [("construction of bounds and neighbours", G + "graph/Graph.hpp")])
p("P12", "Face connectivities of volumes and surfaces are exact and reciprocal",
  "For a mesh of volumes and surfaces, the element across a face is exactly the other element sharing all its vertices, none is reported for a boundary face, and the relation is reciprocal. A surface is attributed to the inner and outer volumes according to its orientation.",
  ["inputs"], "All small conforming meshes of tetrahedra with triangles on their faces.",
  "Tests use two tetrahedra.",
  [G + "graph/Connectivities.cpp", G + "graph/Connectivities.h"],
  [("index by face vertices", G + "graph/Connectivities.cpp")])
p("P13", "JSON import builds exactly the mesh described in the file",
  "Importing a project creates exactly the layers, coordinates and elements listed in the file, with their identifiers, positions, types, layers and materials, in any order of the file, and applies the declared scaling once. Elements refer to the imported coordinates and layers; a file whose mesh is incomplete, repeats an identifier or refers to something it does not contain yields no mesh, and no sources and no output requests either.",
  ["inputs"], "All input files over the documented vocabulary, in any order.",
  "Tests import a few sample projects and compare counts.",
  ["src/parser/json/Parser.cpp"], [("mesh reading", "src/parser/json/Parser.cpp")])
p("P14", "JSON import builds exactly the materials described in the file",
  "Each material in the file becomes one material of the corresponding kind with its identifier, name and parameters, and nothing else; file-defined and dispersive materials, surface treatments, wires, ports and gaps keep the values given. A material of unknown kind or without required data is refused.",
  ["inputs"], "All material descriptions over the documented vocabulary.",
  "Tests read three projects with a few kinds of material.",
  ["src/parser/json/Parser.cpp", "src/core/physicalModel/"], [("material reading", "src/parser/json/Parser.cpp")])
p("P15", "JSON import builds exactly the sources and output requests described",
  "Each source and output request in the file becomes one object of the corresponding kind attached to exactly the elements listed or boxed, with the direction, polarisation, magnitude, domain and name given. Directions and polarisations that are zero or not perpendicular, excitations that make no sense and sources or requests over missing coordinates or elements are refused.",
  ["inputs"], "All source and output-request descriptions over the documented vocabulary.",
  "Tests read a plane wave and a few probes.",
  ["src/parser/json/Parser.cpp", "src/core/source/", "src/core/outputRequest/"],
  [("source and probe reading", "src/parser/json/Parser.cpp")])
p("P16", "JSON import builds the declared grid",
  "A grid given by a number of cells, by a step size (with or without fitting to the box), by explicit positions or in a file of its own is imported with exactly the lines that description defines, scaled with the mesh. A declared boundary padding adds lines outside the box only, up to the distances and cell sizes given.",
  ["inputs", "configurations"], "All grid descriptions over the documented vocabulary.",
  "Tests read a couple of grids.",
  ["src/parser/json/Parser.cpp", G + "Grid.hpp"], [("grid reading", "src/parser/json/Parser.cpp")])
p("P17", "Input with unknown labels or versions is refused",
  "A project file with another version, and a material, source or output request with an unknown label or without a required entry, is refused with an error whatever the rest of the file contains, and so is anything that is not a complete JSON document. A grid or layer with such a fault yields no mesh. Every label of the vocabulary is accepted and maps to one distinct meaning.",
  ["inputs"], "All labels in each labelled position.",
  "Tests read valid files only.",
  ["src/parser/json/Parser.cpp"], [("label translation", "src/parser/json/Parser.cpp")])
p("P18", "STL import builds exactly the facets of the file",
  "Importing an ASCII STL file yields one layer per solid with its name and one triangle per facet, with vertices at the positions written, in order, and identifiers numbered consecutively. A file that is not an STL model or stops in the middle of a facet is refused.",
  ["inputs"], "All sequences of solids and facets, with shared and repeated vertices.",
  "Tests read one sphere and count.",
  ["src/parser/stl/Parser.cpp"], [("line by line reader", "src/parser/stl/Parser.cpp")])
p("P19", "Argument definitions are unique, and a refused definition changes nothing",
  "In a command-line definition, names of arguments and groups and their short and long option forms never clash, whatever the order and nesting of definitions. A definition refused for a clash, an invalid form or a missing argument changes nothing: all previous definitions keep their names and forms, and the ones it asked for stay free. Every group lists its arguments and groups, and finds them by short, long and abbreviated form, as they were defined; copies of an argument are defined as the original.",
  ["histories", "inputs"], "All sequences of definitions in nested groups.",
  "Tests define a few options and one clash.",
  ["src/core/argument/"], [("sets of taken names", "src/core/argument/Group.cpp")])
p("P20", "Command lines are parsed as defined",
  "For any set of definitions and any command line, parsing yields for each argument exactly the value, values, switch state or count given by its position or option, in any accepted spelling (clusters, abbreviations, separate or joined values, separator), defaults where it is absent, and all remaining words, in order, as unknown. Missing required arguments, values of another type or outside the choices, repeated single arguments, ambiguous abbreviations and conflicts in exclusive groups are refused. No line parsed before, accepted or refused, changes what a later one gives.",
  ["inputs", "configurations"], "All definitions and command lines over a small alphabet.",
  "Tests parse a few lines per kind of option.",
  ["src/core/argument/"], [("option and positional parsing", "src/core/argument/Parser.cpp")])
p("P21", "Settings trees behave as ordered maps and arrays",
  "A settings tree returns what was last stored under each name or index, lists its names in insertion order, keeps all other entries after a deletion, and copies are independent. Merging two trees keeps every entry of both, entries of the second one winning where both define a value.",
  ["histories", "inputs"], "All sequences of edits, copies and merges of nested trees.",
  "Tests build one tree and read it back.",
  ["src/core/argument/Object.cpp", "src/core/argument/Object.h"], [("members and names", "src/core/argument/Object.cpp")])
p("P22", "Typed readings of textual settings are exact",
  "A textual setting is recognised as boolean, number or text exactly by its spelling, and reading it as a type returns the value spelled or is refused, never something else. Integer readings round down and refuse values out of range.",
  ["inputs"], "All short strings over the relevant characters.",
  "Tests read a few well-formed values.",
  ["src/core/argument/Object.cpp"], [("conversions", "src/core/argument/Object.cpp")])
p("P23", "Solver and mesher options follow the settings exactly",
  "Applying settings to solver or mesher options changes exactly the options named, to the values given, in any combination, keeping defaults for the rest, and refuses unknown labels. The command-line text produced for an external program contains exactly the options that are active.",
  ["inputs", "configurations"], "All combinations of settings.",
  "No test covers these options.",
  ["src/mesher/Options.cpp", "src/solver/Options.cpp", "src/core/solver/"], [("reading of settings", "src/mesher/Options.cpp")])
p("P24", "Output requests keep what they were created with",
  "An output request keeps the domain, name, type and elements it was created with, its domain is classified by exactly the time, frequency and transfer-function settings that are active, and copies are equal and independent. A general element-list request of a bulk current type over elements that carry a material is refused.",
  ["inputs", "histories"], "All domains, all assignments of materials to requested elements.",
  "No test covers output requests.",
  ["src/core/outputRequest/"], [("domain and construction checks", "src/core/outputRequest/OutputRequest.h")])
p("P25", "Project paths decompose, recompose and act on what they name",
  "For any project path, folder, base name, project name and extension follow the usual rules and recompose to the path: the base name is the last component, the extension starts at the last dot of the base name unless that dot is at its front (empty if there is none), the project name is the rest, and the output name is the project name in the path's folder. Asking a path changes neither it nor any file. In any tree of files, after any history of operations: a path knows whether it names a folder or a file that can be read or executed; expanding it to a full path keeps the file it names (what does not exist is refused), and making it relative to a folder that contains it keeps the rest (any other path stays as it is). Making a folder makes just that one (refused where it cannot be), deleting one deletes just it and its contents, whatever characters its name has; opening a file for output or input opens that file, and executing one runs it with the arguments given. Listing a folder returns exactly the entries whose names end with the wanted extension.",
  ["inputs", "histories"], "All paths over a small alphabet of names, separators and dots, and all short histories of operations in small trees of files.",
  "Tests use one fixed path and are flaky.",
  ["src/core/filesystem/Project.cpp"], [("string decomposition", "src/core/filesystem/Project.cpp"), ("file system calls", "src/core/filesystem/Project.cpp")])
p("P26", "VTK export writes exactly the geometry of the data set",
  "Exporting any data set with a mesh and materials to VTK writes one readable file per non-empty group - the elements of each layer and material (of each layer, if there are no materials), of each source, of each output request, each terminated side of the domain and the lines of the grid - and an index that names exactly the files written, each under a name of its own that starts with the group's (slashes as underscores), whatever characters names have. Each file lists exactly the cells of its group, with their type and the positions of their corners in order (quadratic elements by their corners, lines of several points whole), and the points of its cells and no more, with offsets and connectivity that match. Positions keep their full precision, on structured meshes those of the grid. The data set is unchanged by the export.",
  ["inputs", "histories"], "All small data sets over every kind of element, material, source, request and boundary, exported after any history of editions.",
  "No test covers the exporter.",
  ["src/exporter/vtk/Exporter.cpp", "src/core/outputRequest/"], [("group by group writing", "src/exporter/vtk/Exporter.cpp"), ("names of groups", "src/core/exporter/Exporter.cpp")])
p("P27", "GiD export writes exactly the geometry of the data set",
  "Exporting any data set with a mesh and materials to GiD writes, for each group - the elements of each layer and material, of each source, of each output request, the sides of the domain by their termination and the lines of the grid - one mesh for each kind of element it has (points, lines, triangles, quadrilaterals, tetrahedra and hexahedra of linear kinds; others are left out), named after the group, with exactly its elements by the positions of their nodes in order, the nodes of its elements and no more, and identifiers that never repeat. Positions are the original, unscaled ones, to six digits, on structured meshes those of the grid. The data set is unchanged by the export; one whose solver names no scaling is written as it is.",
  ["inputs", "histories"], "All small data sets over every kind of element, material, source, request, boundary and scaling, exported after any history of editions.",
  "No test covers the exporter.",
  ["src/exporter/gid/Exporter.cpp"], [("group by group writing", "src/exporter/gid/Exporter.cpp"), ("names of groups", "src/core/exporter/Exporter.cpp")])
p("P28", "Lines are grouped into wires without loss",
  "Grouping lines into wires uses every line that carries a wire or port material exactly once, in wires that are unbranched chains of lines of one layer and one wire material, with ports only at their ends, joined only at their ends, with orientation flags matching the original lines. Ports attached to no wire are refused.",
  ["inputs"], "All small sets of lines with any incidences, materials and layers.",
  "No test covers wires.",
  ["src/core/util/wire/Group.hpp"], [("graph splitting", "src/core/util/wire/Group.hpp")])
p("P29", "Physical models keep their parameters and classify themselves consistently",
  "A physical model returns exactly the identifier, name and parameters it was built with, through every chain of copies, clones and assignments, and each of them is independent of the others (a wire with ends owns its ends, also when it is given an end it already has). Its family and its classification (vacuum, impedance, conductivity and poles of a dispersive medium, tensors of an anisotropic one in its own axes, layers of a panel, kind of wire and of port) follow from those parameters. A dispersive medium with magnetic losses or an unreadable file, a panel with a layer without permittivity or permeability or with several fittings, and an impedance file of another type are refused.",
  ["inputs", "histories"], "All parameter combinations on a discrete lattice, for every kind of model.",
  "Tests build two multilayer surfaces.",
  ["src/core/physicalModel/"], [("construction and copy", "src/core/physicalModel/")])
p("P30", "Integer vector and matrix algebra obeys its laws exactly",
  "Cartesian vectors and fixed-size or dynamic matrices with integer-valued entries satisfy the exact laws of their operations, of integers and of reals alike: component access, sums, products, quotients, transposes, sub-blocks, reshapes, Kronecker products, convolutions of columns, dot and cross products, norms, lexicographic order, equality, determinants, and inverses where they exist in the integers (a matrix with a null row or column has none and its inversion is refused). Sorting the rows of a matrix keeps its rows and orders them by the columns asked for, removing repeated rows keeps exactly one of each, and a search in sorted rows finds the first that matches. Fractional grid positions carry, snap and move to the nearest position as integers and fractions of a cell. An operation changes nothing but its result.",
  ["inputs"], "All small vectors and matrices with entries in a small range.",
  "Tests check a few fixed matrices.",
  ["src/core/math/vector/", "src/core/math/matrix/"], [("element-wise loops", "src/core/math/matrix/Dynamic.hpp")])
p("P31", "Element kinds keep their topology and geometry contracts",
  "For every kind of element, vertices, faces, side vertices and coordinates are consistent with one another and with the bounding box, construction from a box of the wrong dimension is refused and from a right one yields its corners, and equality means same vertices and attributes. Copies keep identifier, layer, material and vertices.",
  ["inputs"], "All element kinds over small integer boxes and coordinates.",
  "Tests cover one instance per kind.",
  [G + "element/"], [("side tables", G + "element/")])
p("P32", "Sources keep their elements, magnitude and parameters",
  "A source keeps the elements, magnitude and parameters it was created with and reports and prints them (the angles of a plane wave give its direction and polarisation), copies and clones are equal and independent, and retargeting a source replaces exactly its elements (a port keeps its mode and takes the position and size of its new surfaces). The field of a port is the field of its mode (tangential field zero on the conducting walls of a rectangular guide, radial or azimuthal around the axis of a coaxial one), and a plane wave's electric and magnetic field follow its polarisation, direction and magnitude. Parameters that are physically meaningless for the kind of source are refused.",
  ["inputs", "histories"], "All kinds of sources with parameters on a discrete lattice.",
  "Tests construct a few sources.",
  ["src/core/source/"], [("construction and copy", "src/core/source/")])
p("P33", "Domain boundaries belong to the right side",
  "Boundary conditions given for the lower and upper sides of each axis are kept for exactly that side, through labels, copies, assignments and meshes alike, and exporting a mesh draws for each side exactly that face of its domain, named after the condition of that side.",
  ["inputs", "configurations"], "All assignments of conditions to the six sides and all small grids.",
  "No test covers boundary terminations.",
  [G + "BoundTerminations.hpp", "src/mesher/Options.cpp"], [("per-axis pairs", G + "BoundTerminations.hpp")])
p("P34", "Waveforms and fast transforms are accurate at any instant",
  "Analytic waveforms, fast Fourier transforms and bases agree with their mathematical definitions within floating-point accuracy at every real argument (on exact lattices see P35, P36 and P37).",
  ["inputs"], "All real inputs.",
  "Tests compare a few values.",
  ["src/core/math/function/", "src/core/math/simplex/", "src/core/math/util/"], [("floating-point evaluation", "src/core/math/")],
  na="Accuracy of floating-point functions over real numbers: TLA+/TLC has no reals and 32-bit integers, so an explicit-state specification cannot be an oracle for them; the guide lists numeric accuracy among the things this technique does not decide.")
p("P35", "Sampled functions and magnitudes keep their values through files, copies and conversions",
  "A sampled function is its samples joined by straight lines, the nearest one outside them and the first given where several repeat an argument; built from a file it has exactly the pairs of numbers at its start (a file without them is refused). A magnitude evaluates as its function, and made numerical with a step it has the same values at every instant of that step before the end (a thousand of them if the step is zero), straight lines between them, and the file written reads back as it. Copies, clones and assignments are equal and independent, equality is symmetric and distinguishes kinds, functions and files. What has no samples or no function cannot be evaluated, and band-limited or bounded-spectrum signals with frequencies that make no sense are refused.",
  ["inputs", "histories", "files"], "All histories of files, functions and magnitudes with samples on a small integer lattice.",
  "One test interpolates at two points; none copies, converts or compares magnitudes.",
  ["src/core/math/function/LinearInterpolation.hpp", "src/core/math/function/", "src/core/source/magnitude/"],
  [("piecewise linear evaluation", "src/core/math/function/LinearInterpolation.hpp"), ("conversion to samples", "src/core/source/magnitude/Numerical.cpp")])
p("P36", "Polynomials and the bases on simplices obey their algebra exactly",
  "A polynomial is the sum of its monomials whatever their order and repetition: its values, ordinary and external products, quotients by a number, derivatives, listings and conversions to and from vectors and matrices are those of that sum, removing null monomials leaves none and changes nothing else, and copies are equal and independent. On the lines, triangles and tetrahedra of every order, the nodes are exactly the ways of splitting the order among the barycentric coordinates, the nodes of a side are those with one coordinate null, vertices are corners, each basis function and its derivatives are the products of Silvester polynomials of its node, and the weights integrate every polynomial up to the order exactly.",
  ["inputs", "histories"], "All polynomials with small integer coefficients; simplices of orders 1 to 4.",
  "Tests evaluate one polynomial and sum the weights of a few orders.",
  ["src/core/math/function/Polynomial.hpp", "src/core/math/simplex/"],
  [("parallel lists of values and powers", "src/core/math/function/Polynomial.hpp"), ("node tables", "src/core/math/simplex/")])
p("P37", "Comparisons, roundings, ranges, means, spherical coordinates and spectra obey their laws",
  "Exactly one of equal, lower and greater holds for any two numbers, equality is symmetric and within the tolerance relative to the sum of the numbers (or to the reference given), what is nothing to the precision of numbers is equal to zero and to nothing else, and each comparison is the negation of its opposite. Rounding takes the nearest integer, halves upwards, and rounding up with a margin the integer below when within it. A linear or logarithmic range has as many values as asked for, equally spaced from its first to its last; sums, means and mean differences of reals and integers are those of their numbers. Vectors come back from spherical coordinates as they were, and the spherical directions are orthogonal. The discrete spectrum of any signal is the mean of its samples turned by the phase of the frequency times its length, and the spectrum of a Gaussian, delayed or modulated, is that of its samples.",
  ["inputs"], "All inputs on a lattice where the results are exact: integers, quarters of a period, angles of quarter turns.",
  "Tests compare a few pairs of numbers, the spectra of one pulse at the origin and no negative mean.",
  ["src/core/math/util/", "src/core/math/vector/Spherical.cpp", "src/core/math/function/Gaussian.cpp"],
  [("comparisons and rounding", "src/core/math/util/Real.cpp"), ("discrete spectrum", "src/core/math/util/DTFT.cpp"), ("statistics", "src/core/math/util/Statistic.hpp")])
p("P38", "Coordinates of every kind keep what they were made of",
  "A coordinate keeps the identifier and position it was created with, and a conformal or relative one its direction and length or its fractions of a cell; one made from a real number of cells is divided into the whole cells, downwards, and the rest. Copies, clones and assignments carry all of it over and are independent of the original, and two coordinates are equal exactly when they are of the same kind and everything they keep is the same. On a grid a coordinate of cells lies on its lines, moved by its fraction of the step, a real one is structured exactly when it is on grid lines in every direction, and going to the grid and back gives the same identifier and place.",
  ["inputs", "histories"], "All kinds of coordinates with fractions in eighths, histories of creations, copies, assignments and changes over four registers, regular and irregular grids.",
  "Tests create a few coordinates and compare none that is conformal or relative.",
  [G + "coordinate/Coordinate.hpp", G + "coordinate/Conformal.cpp", G + "coordinate/Relative.cpp"],
  [("fractions of a cell", G + "coordinate/Relative.cpp"), ("direction and length", G + "coordinate/Conformal.cpp")])
p("P39", "Usage and help show what is defined",
  "The usage line and the help of a command line show every argument of every group, in the order of definition, with its form, its placeholders and whether it is repeated, optional or an alternative of an exclusive group; the help has, under the heading of its group, each argument once with its help text, besides the description and the epilog. In these texts the marks for program, default values and choices are replaced by what they stand for, no word is lost or moved, and lines are filled: a text is broken only between words and only where the next word would go beyond the width of the console (80 where there is none), and goes on under the column where it began.",
  ["inputs", "configurations"], "All parsers with nested and exclusive groups over every kind of argument, with texts of any length.",
  "No test covers usage lines or help.",
  ["src/core/argument/Formatter.cpp"], [("filling of lines and marks", "src/core/argument/Formatter.cpp")])
