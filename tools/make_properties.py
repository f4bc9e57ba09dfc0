#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: edit here, then run to regenerate."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech, observe = None):
    P.append(dict(id = id, title = title, statement = statement, quantifier = dict(over = over, text = text), why_tests_cant = why,
                  anchors = dict(files = files, mechanism = [dict(name = n, where = w) for n, w in mech],
                                 observe_at = observe or ['public resqpy API'], hook_needed = None)))


# ------------------------------------------------------------------ model / package
p('M01', 'A stored model reopens with the same parts, metadata and relationships',
  'After any sequence of operations that adds parts of any supported class to a model, storing it and opening the file again (with full or on-demand loading, or as a copy under a new name) yields the same set of parts, each with the same uuid, type, title and metadata content, and (with full loading; on-demand loading is documented to load just the list of parts) the same relationships to other object parts. '
  'Opening, querying and re-storing without modification changes none of these.',
  ['histories', 'inputs'], 'all histories of part creation, copying, removal and store / reopen; any titles, extra metadata and sources including xml-special and non-ascii text',
  'Tests store and reopen a few hand-made models, each with one or two object classes and plain titles; interplay of removal, copy, reopen and odd text is not sampled.',
  ['resqpy/model/_forestry.py', 'resqpy/model/_model.py', 'resqpy/olio/xml_et.py'],
  [('epc zip of xml parts, content types tree and rels parts', 'resqpy/model/_forestry.py'), ('xml write / parse', 'resqpy/olio/xml_et.py')])
p('M02', 'Part catalogue and relationship maps stay consistent over any history',
  'After every step of any history of adding, linking, copying and removing parts and reloading, the mappings between uuids, part names and types are one-to-one and complete, and the relationship queries (referenced by, referencing, softly related, all related) are mutually symmetric and agree exactly with the references held in the parts. '
  'A removed part is no longer found by any query, and no other part is affected by its removal.',
  ['histories'], 'all interleavings of add, relate, copy, remove, store and reload operations on a model',
  'Tests run the built-in consistency check on a few fixed models; the quantifier is over operation histories.',
  ['resqpy/model/_forestry.py', 'resqpy/model/_catalogue.py', 'resqpy/model/_xml.py'],
  [('uuid to part dictionary and three-way relationship dictionary', 'resqpy/model/_forestry.py'), ('reciprocal rels xml', 'resqpy/model/_xml.py')])
p('M03', 'Part selection returns exactly the parts matching every filter given',
  'Listing parts, uuids, roots or titles with any combination of filters (input list, object type, uuid, title with any title mode and case option, extra metadata, metadata, related uuid with relationship mode) returns exactly the parts which satisfy all of the filters, in the requested sort order, and the four listings are index-wise consistent with each other. '
  'The singular forms return the one match, nothing when there is no match, and follow the requested policy when there are several.',
  ['inputs', 'configurations'], 'all models and all combinations of filter arguments',
  'Tests use one or two filters at a time on fixed models; the filters interact.',
  ['resqpy/model/_catalogue.py'], [('successive filtering of a list of parts', 'resqpy/model/_catalogue.py')])
p('M04', 'Copying parts between models preserves content and closes references',
  'Copying one part, or all parts, from another model brings across everything that the copied parts refer to, with identical uuids, metadata and array data (or with references redirected to an equivalent resident part where consolidation is requested), and leaves the source model and the parts already in the target unchanged. '
  'Repeating the copy adds nothing, the resulting model has no reference to a missing part, and it stays intact after being stored and reopened.',
  ['histories', 'inputs'], 'all source and target models, orders of copying, and consolidation on or off',
  'Tests copy a few object types in one fixed order; closure and consolidation depend on the reference graph and on the order.',
  ['resqpy/model/_forestry.py', 'resqpy/olio/consolidation.py'],
  [('recursive copy of referred parts, hdf5 array copying', 'resqpy/model/_forestry.py'), ('equivalence map', 'resqpy/olio/consolidation.py')])
p('M05', 'Arrays written to hdf5 are read back exactly, whole or by element or slice',
  'An array of any supported shape and data type registered and written to the model\'s hdf5 file is read back with equal values, shape and compatible data type, whatever chunking, compression or write mode is used, and reading elements or slices agrees with indexing the whole array. '
  'Overwriting an array or a slice changes those values only, and arrays of other objects in the file are never altered.',
  ['inputs', 'histories'], 'all shapes, data types, slices, chunking and compression settings and orders of write / append / overwrite',
  'Tests use a handful of shapes and settings, one write per file.',
  ['resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py'], [('dataset register and write', 'resqpy/olio/write_hdf5.py'), ('dataset access', 'resqpy/model/_hdf5.py')])
p('M06', 'Gathering an ensemble merges every case once with the right realization',
  'Gathering any list of case models into one ensemble model yields every non-shared part of every case with its content and arrays intact, shares grids, coordinate systems and time series which are equivalent when asked to, and assigns to each property the realization number equal to the position of its case. '
  'The case lookup table, when made, maps each realization number to its case.',
  ['inputs', 'configurations'], 'all numbers of cases, sharing and consolidation options, and property sets',
  'Tests gather one fixed ensemble with default options.',
  ['resqpy/derived_model/_gather_ensemble.py', 'resqpy/olio/consolidation.py'], [('copy of parts with realization', 'resqpy/derived_model/_gather_ensemble.py')])
p('M07', 'High level metadata objects round trip with all their attributes',
  'Every feature, interpretation, stratigraphic, property kind, string lookup and measured depth datum object, with any combination of its attributes and extra metadata, is recreated from its stored form with equal attributes and equal references to other objects, and is then reported as equivalent to the original. '
  'Objects which differ in a defining attribute are not reported as equivalent, and creating an equivalent object with reuse requested finds the existing one instead of adding another.',
  ['inputs', 'configurations'], 'all classes and all combinations of optional attributes',
  'Tests check one instance per class with a fixed set of attributes.',
  ['resqpy/organize', 'resqpy/strata', 'resqpy/property/string_lookup.py', 'resqpy/property/property_kind.py', 'resqpy/well/_md_datum.py', 'resqpy/olio/base.py'],
  [('xml creation and loading in each class', 'resqpy/organize/*.py, resqpy/strata/*.py'), ('reuse of equivalent parts', 'resqpy/olio/base.py')])

# ------------------------------------------------------------------ basics
p('B01', 'Box operations agree with sets of cells',
  'Every logical box operation (extent, volume, containment, validity, union, overlap, trimming by another box or to a mask, conversion between local and host cell indices, conversion to and from simulator text) agrees with the same operation performed on the explicit set of cells covered by the boxes. '
  'Conversions between host and local indices, and to and from text, are mutually inverse.',
  ['inputs'], 'all boxes, cells and masks, including single cell, touching, nested and disjoint boxes',
  'Tests use a few boxes per function.', ['resqpy/olio/box_utilities.py'], [('integer box arithmetic', 'resqpy/olio/box_utilities.py')])
p('B02', 'A fine to coarse mapping is an exact partition of the fine cells',
  'For any valid fine / coarse mapping, constant or varying ratios, whole grid or boxed, every fine cell belongs to exactly one coarse cell, the coarse for fine lookup, the fine box of a coarse cell, the base index and the ratios all agree with one another, and the proportions of a coarse cell are positive and sum to one in each axis. '
  'Tartan refinements have a valid mapping with the requested ratios within the fovea and ratios that do not increase moving away from it.',
  ['inputs', 'configurations'], 'all extents, ratio vectors, proportions and boxes, and all tartan arguments',
  'Tests use a few fixed ratios.', ['resqpy/olio/fine_coarse.py'], [('per axis ratio and proportion vectors', 'resqpy/olio/fine_coarse.py')])
p('B03', 'Unit conversion is consistent, invertible and agrees with the unit definitions',
  'Converting a value or array between any two compatible units gives the result defined by the published unit factors, converting back restores the value, going by way of a third unit makes no difference, and scalar, array and in-place forms agree, as do the specialised length, time, pressure, volume, flow rate and transmissibility conversions. '
  'Aliases resolve to the unit they stand for, every unit listed for a quantity is recognised, and conversion between incompatible units is refused.',
  ['inputs'], 'all pairs and triples of units, all aliases and spellings, all values',
  'Tests sample a few pairs out of thousands of compatible units.', ['resqpy/weights_and_measures/weights_and_measures.py', 'resqpy/weights_and_measures/nexus_units.py'],
  [('(A + Bx) / (C + Dx) factors via base unit', 'resqpy/weights_and_measures/weights_and_measures.py')])
p('B04', 'Coordinate conversions are mutually inverse and follow the crs definition',
  'For any pair of coordinate reference systems (offsets, rotation, axis order, length units, z direction), conversion to global, to local, or to the other system follows the affine transform defined by their parameters, is undone by the opposite conversion, and gives the same answer for single points, arrays of any shape, and from either side. '
  'A crs survives storage with all its parameters, and two crs objects are equivalent exactly when every parameter (to tolerance) matches.',
  ['inputs', 'configurations'], 'all combinations of crs parameters and all points',
  'Tests fix a few parameter combinations; rotation, axis order, units and z direction interact.', ['resqpy/crs.py'], [('offset, rotation, axis switching and unit conversion', 'resqpy/crs.py')])
p('B05', 'Time series stay ordered; lookups and durations agree with the calendar',
  'After any history of additions and extensions a time series holds its timestamps in increasing order without loss; the index lookups (exact, not later than, not earlier than, closest to), durations and day counts agree with calendar arithmetic; adding a duration to a timestamp and taking it away again restores the timestamp. '
  'Time series and geologic time series survive storage unchanged, merging gives the sorted distinct union, and selection gives the chosen timestamps.',
  ['histories', 'inputs'], 'all sequences of additions, all timestamp formats accepted, all query dates',
  'Tests use a few dates, few near ties, month ends or leap years.', ['resqpy/time_series'], [('ordered list of timestamps with time of day', 'resqpy/time_series/_time_series.py'), ('duration arithmetic', 'resqpy/time_series/_time_duration.py')])
p('B06', 'Vector and rotation functions obey geometry',
  'Rotation and tilt matrices are proper rotations with the documented sense, their reverse undoes them, azimuth and inclination functions are inverse to the functions which build vectors from them, and lengths, products, angles, areas, determinants, distances and plane projections match their definitions. '
  'Scalar, array and compiled variants of a function agree.',
  ['inputs'], 'all vectors, angles and arrays of vectors, including axis aligned and nearly degenerate ones',
  'Tests use a few vectors for each function; quadrant and variant agreement is not covered.', ['resqpy/olio/vector_utilities.py'], [('vector arithmetic', 'resqpy/olio/vector_utilities.py')])
p('B07', 'Every point inclusion method gives the true answer',
  'All of the functions which decide whether points are in polygons or triangles (crossing number, winding number, array, compiled, aligned mesh and batched variants) agree with exact arithmetic, and hence with each other, for every point which is not on a boundary, and the polyline form does so too whatever its vertex order or starting vertex.',
  ['inputs'], 'all simple polygons, triangles, point sets and regular meshes of points', 'Tests use a handful of polygons, mostly convex, with well placed points.',
  ['resqpy/olio/point_inclusion.py', 'resqpy/olio/vector_utilities.py', 'resqpy/lines/_polyline.py'], [('crossing / winding / half plane tests', 'resqpy/olio/vector_utilities.py')])
p('B08', 'Line and triangle intersection functions give the true intersection',
  'For any line or line segment and any triangles in general position, each of the intersection functions (single, many triangles, many lines, polyline, compiled; first, last and listing forms) reports an intersection exactly when there is one, at the correct point, and the 2D line crossing, projection and snapping functions satisfy their definitions.',
  ['inputs'], 'all lines, segments, polylines and triangles away from degenerate touching', 'Tests use a few hand placed triangles.',
  ['resqpy/olio/intersection.py'], [('plane intersection with barycentric test', 'resqpy/olio/intersection.py')])
p('B09', 'Triangulations are valid Delaunay triangulations with consistent edges',
  'Triangulating any set of distinct points in general position gives non-degenerate triangles which use every point, tile the convex hull without overlap and satisfy the empty circumcircle condition, with the returned hull being the convex hull. '
  'The edge, rim, internal edge and triangle lookup functions agree with a direct enumeration over the triangles, reorientation to a flat plane is a rigid motion, and Voronoi cells contain exactly the locations nearest to their points.',
  ['inputs'], 'all point sets and triangulations', 'Tests use a few seeded random point sets and look mostly at counts.', ['resqpy/olio/triangulation.py'],
  [('Delaunay, Voronoi, edge bookkeeping', 'resqpy/olio/triangulation.py')])

# ------------------------------------------------------------------ properties & tables
p('P01', 'Property arrays and their metadata survive storage unchanged',
  'A property of any kind (continuous, discrete, categorical, boolean, points; any indexable element, count, facet, time index, realization, null value, unit, local property kind; full or constant array; any storage data type or packing) is read back after storing and reopening with equal values and all its metadata equal. '
  'The stored minimum and maximum equal those of the non-null values, and masked access masks exactly the inactive and null elements asked for.',
  ['inputs', 'configurations'], 'all combinations of property attributes and array values including NaN, infinite and null values', 'Tests sample a few combinations of attributes.',
  ['resqpy/property/_property.py', 'resqpy/property/property_collection.py', 'resqpy/property/_collection_create_xml.py', 'resqpy/property/_collection_get_attributes.py'],
  [('imported list, hdf5 write, xml creation and reading', 'resqpy/property/property_collection.py')])
p('P02', 'Selecting properties from a collection returns exactly those that match',
  'For any collection and any combination of selection criteria, the selected parts, the sub-collections built from them, the singleton lookups, the lists of distinct kinds, titles, facets, realizations and time indices, and the attribute style property set agree exactly with filtering the metadata of each property one by one. '
  'Arrays assembled over realizations, time steps or facets hold at each index the array of the property with that index.',
  ['inputs', 'configurations'], 'all collections and all combinations of criteria', 'Tests use small fixed collections with one or two criteria.',
  ['resqpy/property/property_collection.py', 'resqpy/property/attribute_property_set.py', 'resqpy/property/_collection_support.py', 'resqpy/property/_collection_get_attributes.py'],
  [('criteria matching', 'resqpy/property/_collection_add_part.py')])
p('P03', 'Dataframes, time tables and relative permeability tables round trip',
  'Any numeric table with its column names, units, title, realization and time series, held as a dataframe, time table or relative permeability object, is recreated from storage with equal values, columns and units; relative permeability text output is read back to an equal table; and interpolation within a table is exact at its nodes and linear between them. A relative permeability table with missing, out of range or non-monotonic values, or unexpected columns or phases, is refused.',
  ['inputs'], 'all tables of admissible columns and values', 'Tests use one or two tables.', ['resqpy/olio/dataframe.py', 'resqpy/olio/relperm.py'],
  [('mesh and lookup based storage', 'resqpy/olio/dataframe.py'), ('text reading and writing', 'resqpy/olio/relperm.py')])

p('P04', 'Normalised arrays, keyword meanings and chosen static properties are as defined',
  'The normalised form of a property array maps its usable values in order onto the range 0 to 1, linearly or by logarithm, after any discrete cycle and with zero pinned where asked, returns the values mapped to 0 and 1, keeps NaN as NaN, keeps masked cells masked and out of the range, and leaves the property unaltered. '
  'The property kind, facet and unit deduced for a simulator keyword are those defined for it whatever its letter case, and the collection for a keyword holds exactly the properties of that kind and facet. The basic static properties chosen from a collection are the ones whose kind, facet, title and realization say so, and a vertical permeability made from them has the documented values. '
  'Edge and face arrays converted to the ordering of the standard and back are unchanged, and a view over a time series holds exactly the matching properties.',
  ['inputs', 'configurations'], 'all property arrays, masks and options; all keywords; all sets of permeability properties', 'Tests normalise one or two arrays without masks and pick static properties from one model.',
  ['resqpy/property/property_collection.py', 'resqpy/property/_collection_get_attributes.py', 'resqpy/property/property_common.py'],
  [('range determination and scaling', 'resqpy/property/_collection_get_attributes.py'), ('keyword tables', 'resqpy/property/property_common.py')])

# ------------------------------------------------------------------ grids
p('G01', 'A grid survives storage with its geometry and all its attributes',
  'Any regular or irregular grid (with or without split pillars, layer gaps, inactive cells, undefined geometry, parent window, lattice or explicit geometry) is recreated from storage with equal points, corner points, active mask, extents, handedness, direction, crs, gaps and refinement information. '
  'This holds also for grids produced by other operations of the library.',
  ['inputs', 'configurations'], 'all grids and all storage options', 'Tests reload a few fixed grids; combinations of features are rare.',
  ['resqpy/grid/_grid.py', 'resqpy/grid/_regular_grid.py', 'resqpy/grid/_create_grid_xml.py', 'resqpy/grid/_write_hdf5_from_caches.py', 'resqpy/grid/_extract_functions.py'],
  [('grid xml and hdf5 arrays', 'resqpy/grid/_create_grid_xml.py')])
p('G02', 'All views of grid geometry agree with each other',
  'For any grid, including faulted grids and grids with layer gaps, the corner points, pillar points, single point lookups, horizon points, cross section points, centre points, face centres, interface vectors, interpolated points, bounding boxes and natural cell indices all describe the same cells. '
  'Single cell and whole grid forms agree, and caching makes no difference.',
  ['inputs', 'configurations'], 'all grids, all cells, all cache states and axes', 'Tests compare few views on simple, unfaulted grids.',
  ['resqpy/grid/_grid.py', 'resqpy/grid/_points_functions.py', 'resqpy/grid/_xyz.py', 'resqpy/grid/_pillars.py', 'resqpy/grid/_face_functions.py'],
  [('points with pillar index mapping for split pillars and raw layer index for gaps', 'resqpy/grid/_points_functions.py')])
p('G03', 'A regular grid behaves as the equivalent irregular grid',
  'Every geometric and derived quantity offered by a regular block grid (points, corner points, centres, volumes, thicknesses, interface lengths, axial lengths, box, aspect, half cell transmissibility and cell for point lookups) equals that computed from its explicit geometry as an irregular grid, for any origin, axis vectors and crs.',
  ['inputs'], 'all extents, block sizes, origins, orientations and units', 'Tests use axis aligned grids with round numbers.', ['resqpy/grid/_regular_grid.py'],
  [('analytic shortcuts', 'resqpy/grid/_regular_grid.py')])
p('G04', 'Grids made from corner points reproduce the corner points',
  'Creating a grid from any valid corner point array, faulted, with gaps, or with degenerate or inactive cells, gives a grid whose corner points equal the input for every active cell with defined geometry, whose pillars are split exactly where the input differs, and whose active mask and handedness match the input. '
  'Writing a grid to a simulator corner point file and importing that file reproduces the grid.',
  ['inputs'], 'all corner point arrays and importing options', 'Tests import a few small corner point sets.', ['resqpy/rq_import/_grid_from_cp.py', 'resqpy/rq_import/_import_nexus.py', 'resqpy/grid/_write_nexus_corp.py', 'resqpy/olio/grid_functions.py'],
  [('pillar splitting and gap closing', 'resqpy/rq_import/_grid_from_cp.py')])
p('G05', 'Cell volumes, thicknesses and pinch-outs are geometrically correct',
  'The bulk volume of every cell equals the volume enclosed by its faces, is unaffected by translation, rotation or reversal of axes, scales with the cube of length and converts with units; volumes of cells partitioning a region add up to its volume; thickness and pinch-out flags agree with the corner points and tolerance.',
  ['inputs'], 'all cell shapes including skewed, wedge and pinched-out cells, and all units', 'Tests use unit cubes and a few fixed shapes.', ['resqpy/olio/volume.py', 'resqpy/grid/_cell_properties.py', 'resqpy/unstructured'],
  [('tetrahedral decomposition', 'resqpy/olio/volume.py')])
p('G06', 'Faults, pinch-outs and gaps yield exactly the juxtaposed cell face pairs',
  'A column face is reported as split exactly when the geometry on its two sides differs in pillar assignment; fault throws equal the displacement of matching points; and the fault, pinch-out and layer gap connection sets hold exactly the pairs of cell faces that are in contact, once each, with the fraction of each face area that is shared. '
  'For each face the fractions do not exceed one.',
  ['inputs'], 'all throws, pinch-out patterns, gap patterns and active masks', 'Tests use one or two fixed faulted grids.', ['resqpy/grid/_faults.py', 'resqpy/grid/_connection_sets.py', 'resqpy/olio/transmission.py', 'resqpy/fault/_gcs_functions.py'],
  [('overlap of faces on a common pillar pair', 'resqpy/olio/transmission.py')])
p('G07', 'Transmissibilities follow the two point flux formula and are symmetric',
  'Half cell and inter-cell transmissibilities equal the harmonic two-half-cell formula computed from cell geometry, permeability and net to gross, are unchanged by reversing an axis, scale linearly with permeability and length, are zero where either cell is impermeable, and apply multipliers as requested. '
  'Where cells are blocks, the irregular, regular, and vertical prism formulations agree.',
  ['inputs'], 'all grids with positive or zero permeability and net to gross, and all multiplier combinations', 'Tests compare with stored snapshots for one grid family.', ['resqpy/olio/transmission.py', 'resqpy/grid/_transmissibility.py', 'resqpy/grid/_cell_properties.py'],
  [('face area projection and half cell lengths', 'resqpy/olio/transmission.py')])
p('G08', 'Grid connection sets keep the same faces through every transformation',
  'Building a connection set from face masks, face indices or a face table, storing and reopening it, appending, filtering by layer or mask, extracting a feature, and writing it to simulator text and reading it back preserve the exact set of (feature, cell face pair) items selected, with properties staying attached to their faces. '
  'Face array views, column edge views and combined multipliers agree with a direct enumeration over those items.',
  ['inputs', 'histories'], 'all sets of faces and features, and all compositions of the operations', 'Tests use a few small fixed face sets.', ['resqpy/fault/_grid_connection_set.py', 'resqpy/fault/_gcs_functions.py'],
  [('cell index pairs, face index pairs and feature indices', 'resqpy/fault/_grid_connection_set.py')])
p('G09', 'Unstructured grids agree with their faces and the grid they came from',
  'For any unstructured grid (tetra, pyramid, prism, hexa, vertical prism) the cell, face, edge and node queries, external and internal face lists, centres, areas and volumes agree with direct computation from its definition, and it survives storage unchanged. '
  'Converting a structured grid to hexahedra, or a cell to tetrahedra, preserves nodes, volumes and properties.',
  ['inputs'], 'all grids of each shape and all subsets of cells', 'Tests use one small grid of each shape.', ['resqpy/unstructured'],
  [('jagged index arrays', 'resqpy/unstructured/_unstructured_grid.py')])
p('G10', 'Undefined geometry is flagged, removed and filled exactly as asked',
  'For any grid without split pillars, working out which geometry is defined marks a cell as defined exactly when its eight corner points are, a pillar when any of its points is, and makes cells lacking geometry inactive while other cells keep their state; points holding a marker value, or around areally collapsed inactive cells, become undefined and no others. '
  'Completing partly defined pillars or the whole grid never changes a defined point and leaves no undefined point (within a pillar values are linear between, and constant beyond, its defined points; missing outer rows continue the lattice); nullifying removes exactly the partly defined pillars. Flags and points survive storage.',
  ['inputs', 'configurations'], 'all patterns of undefined points, pillars, rows and collapsed cells, with and without k gaps', 'Tests use three fixed patterns and mostly check that flags are set.',
  ['resqpy/grid/_defined_geometry.py', 'resqpy/grid/_points_functions.py'], [('filling of partial pillars, holes and surround', 'resqpy/grid/_defined_geometry.py')])

# ------------------------------------------------------------------ derived models
p('D01', 'Copied, extracted and unsplit grids keep exactly the selected cells',
  'A copied grid equals its source; a grid extracted for a box or a well has, for each of its cells, exactly the corner points, activity and inherited property values of the corresponding source cell; an unsplit grid agrees with its source wherever the source is not split. '
  'The source grid is unchanged, and the results hold after storage.',
  ['inputs', 'configurations'], 'all source grids (faulted, gapped, partly inactive), boxes and inheritance options', 'Tests extract one or two boxes from simple grids.',
  ['resqpy/derived_model/_extract_box.py', 'resqpy/derived_model/_copy_grid.py', 'resqpy/derived_model/_unsplit_grid.py', 'resqpy/property/grid_property_collection.py'], [('box extraction and property sampling', 'resqpy/derived_model/_extract_box.py')])
p('D02', 'Refining and coarsening preserve geometry, volume and property totals',
  'A refined grid subdivides each source cell into its fine cells in the requested proportions, filling the same space, and each fine cell inherits the properties of its parent cell (sharing out extensive quantities); a coarsened grid spans exactly the outer corners of its fine cells, with intensive properties lying in the range of the fine values and extensive ones totalled. '
  'Refining then coarsening with the same mapping restores geometry and properties.',
  ['inputs', 'configurations'], 'all source grids, mappings, proportions and property kinds', 'Tests use one or two fixed ratios and few properties.',
  ['resqpy/derived_model/_refined_grid.py', 'resqpy/derived_model/_coarsened_grid.py', 'resqpy/property/grid_property_collection.py', 'resqpy/olio/fine_coarse.py'], [('pillar interpolation and property sampling', 'resqpy/derived_model/_refined_grid.py')])
p('D03', 'Zonal and single layer grids span exactly their source layers',
  'Each layer of a zonal or single layer grid spans from the top of the first to the base of the last source layer of its zone, a cell being active according to the activity of the source cells and the option chosen; the layer ranges derived from a zone array cover each layer once and reproduce the array, and a zone property assigns to every layer the zone it is in.',
  ['inputs'], 'all zone arrays, layer ranges and active masks', 'Tests use one fixed layering.', ['resqpy/derived_model/_zonal_grid.py', 'resqpy/derived_model/_zone_layer_ranges_from_array.py', 'resqpy/derived_model/_add_zone_by_layer_property.py'],
  [('layer range scan', 'resqpy/derived_model/_zone_layer_ranges_from_array.py')])
p('D04', 'Grid displacement functions move points by exactly the prescribed amount',
  'Tilting, local depth adjustment, fault throw scaling, interpolation between grids, draping and adding faults move every grid point by the amount prescribed by their arguments and leave other points alone: tilting is rigid, scaling multiplies throws, interpolation is exact at and linear between its ends, drapes honour the surface, and new faults split only the chosen columns with the chosen throw. '
  'A stored displacement property equals the difference between new and old points.',
  ['inputs', 'configurations'], 'all source grids and arguments', 'Tests use one set of arguments for each function on simple grids.',
  ['resqpy/derived_model/_tilted_grid.py', 'resqpy/derived_model/_local_depth_adjustment.py', 'resqpy/derived_model/_fault_throw_scaling.py', 'resqpy/derived_model/_interpolated_grid.py', 'resqpy/derived_model/_drape_to_surface.py', 'resqpy/derived_model/_add_faults.py'],
  [('in situ update of cached points', 'resqpy/derived_model/*.py')])

# ------------------------------------------------------------------ surfaces, lines
p('S01', 'Surfaces, meshes, point sets and lines survive storage unchanged',
  'Triangulated surfaces with any number of patches, meshes of every flavour, point sets with any number of patches, triangulated meshes, polylines and polyline sets are recreated from storage with equal points, topology, closed flags, crs and extra metadata, and conversion to a different crs moves every point according to the two coordinate systems.',
  ['inputs', 'configurations'], 'all numbers of patches, sizes, flavours, crs and metadata', 'Tests use one or two fixed objects of each class.', ['resqpy/surface', 'resqpy/lines'], [('xml and hdf5 writing in each class', 'resqpy/surface/*.py, resqpy/lines/*.py')])
p('S02', 'Surface operations preserve the surface they work on',
  'Building surfaces from meshes, point sets or cell faces, and trimming, splitting, resampling, combining, re-ordering or rescaling them, gives triangles covering the expected area of the original surface; sampled depths, line intersections, normals, edges and axial crossings agree with a direct calculation over the triangles; and lookups from a triangle to its cell, column or source surface are correct.',
  ['inputs'], 'all surfaces, sampling points, trimming volumes and splitting lines', 'Tests use one or two fixed surfaces.', ['resqpy/surface/_surface.py', 'resqpy/surface/_triangulated_patch.py', 'resqpy/surface/_combined_surface.py'],
  [('triangle and point array manipulation', 'resqpy/surface/_surface.py')])
p('S03', 'Meshes and tri-meshes locate and interpolate points correctly',
  'All flavours of mesh describing the same lattice give the same points; a tri-mesh locates each xy point in the triangle which contains it, with weights that reproduce the point, interpolates depth linearly between its nodes, agrees with its triangulated surface and converts between triangle numberings invertibly. '
  'Applying a stencil gives the weighted mean defined by its coefficients.',
  ['inputs'], 'all lattices, query points and stencils', 'Tests use a few points in one mesh.', ['resqpy/surface/_mesh.py', 'resqpy/surface/_tri_mesh.py', 'resqpy/surface/_tri_mesh_stencil.py'], [('tri-mesh indexing', 'resqpy/surface/_tri_mesh.py')])
p('S04', 'Polyline geometry is correct whatever the vertex order',
  'Length, area, clockwise sense, convexity, centre, balance point, normalised mapping, nearest point, splicing, tangents, and line crossing results of a polyline agree with direct calculation, respond as they should to reversal, rotation of the starting vertex, translation and scaling, and closed and open lines are treated consistently. '
  'Splitting a polyline set into polylines and combining polylines into a set are mutually inverse.',
  ['inputs'], 'all polylines and polyline sets', 'Tests use a few squares and triangles.', ['resqpy/lines'], [('vertex arithmetic', 'resqpy/lines/_polyline.py')])
p('S05', 'Grid faces chosen for a surface separate its two sides',
  'The set of cell faces found to represent a surface contains a face exactly when the surface passes between the centres of the two cells sharing that face, whichever of the available methods, batch sizes or agitation-free options is used; triangle, depth, offset and normal properties of each face refer to the triangle that was crossed. '
  'Where the surface spans the grid the faces separate the cells into the two sides reported by the bisector.',
  ['inputs', 'configurations'], 'all grids, surfaces in general position and method options', 'Tests use a few planes with one method each.', ['resqpy/grid_surface/_find_faces.py', 'resqpy/grid_surface/_grid_surface.py'],
  [('centre to centre line and triangle intersection', 'resqpy/grid_surface/_find_faces.py')])
p('S06', 'The grid skin is a closed surface and lines cross it where they leave the grid',
  'The skin of any grid consists of exactly the outer faces of the grid, including fault and gap faces, each triangle being attributed to the correct cell face, and the first entry of a line or trajectory found through it lies on that cell face.',
  ['inputs'], 'all grids and lines in general position', 'Tests check a few skins by count.', ['resqpy/grid_surface/_grid_skin.py', 'resqpy/grid_surface/_trajectory_intersects.py'], [('combined surface of faces', 'resqpy/grid_surface/_grid_skin.py')])

# ------------------------------------------------------------------ wells
p('W01', 'Trajectories and deviation surveys describe the same path and survive storage',
  'A trajectory honours its control points at their measured depths, interpolates between them continuously and consistently with its tangents, and is recreated from storage with equal data; a trajectory built from a deviation survey has unit rate of travel along measured depth and matches the survey\'s inclinations and azimuths at its stations, and the reverse conversion restores the survey. '
  'Deviation surveys survive storage and file based import with equal stations and units.',
  ['inputs', 'configurations'], 'all well paths, station spacings, units, azimuth references and datums', 'Tests use a few fixed wells.', ['resqpy/well/_trajectory.py', 'resqpy/well/_deviation_survey.py', 'resqpy/olio/vector_utilities.py'],
  [('minimum curvature and piecewise interpolation', 'resqpy/well/_trajectory.py')])
p('W02', 'Blocked wells visit exactly the cells the path goes through',
  'Blocking a well against a grid gives a contiguous ordered list of cells and intervals such that each interval lies within its cell, entry and exit lie on the stated faces, consecutive cells share the exit / entry face or are separated by an unblocked interval, and measured depths increase from the start to the end; every cell the path goes through for more than a tolerance is included. '
  'Regular grid and general methods agree, and the result survives storage.',
  ['inputs'], 'all grids and trajectories in general position', 'Tests use a few wells in simple grids.', ['resqpy/well/_blocked_well.py', 'resqpy/grid_surface/_blocked_well_populate.py', 'resqpy/grid_surface/_trajectory_intersects.py'],
  [('stepping from cell to cell by face intersection', 'resqpy/grid_surface/_blocked_well_populate.py')])
p('W03', 'Blocked well tables and simulator well files round trip',
  'A blocked well built from a cell list, dataframe, wellspec or cellio file, written back out as a dataframe or wellspec file and read again, has the same cells, intervals and column values, filtered exactly by the limits requested; multi-well, multi-date wellspec files give for each well and date the rows in the file.',
  ['inputs', 'configurations'], 'all cell lists, column selections, filters, comments, layout and dates of text files', 'Tests use a few fixed files.', ['resqpy/well/_blocked_well.py', 'resqpy/olio/wellspec_keywords.py', 'resqpy/olio/keyword_files.py'],
  [('dataframe creation and text parsing', 'resqpy/well/_blocked_well.py')])
p('W04', 'Wellbore frames, logs and markers round trip and stay aligned with depth',
  'Wellbore frames, marker frames with their markers and interpretations, and well log and interval properties are recreated from storage with equal measured depths and values in the same order; log data written to and read from LAS form is equal, and upscaled or frame derived quantities agree with direct calculation.',
  ['inputs'], 'all depth lists, marker sets and log tables', 'Tests use a few fixed frames and one las file.', ['resqpy/well/_wellbore_frame.py', 'resqpy/well/_wellbore_marker_frame.py', 'resqpy/well/blocked_well_frame.py', 'resqpy/property/well_log_collection.py', 'resqpy/property/well_log.py', 'resqpy/property/well_interval_property_collection.py', 'resqpy/well/well_object_funcs.py'],
  [('frame node depths with properties', 'resqpy/well/_wellbore_frame.py')])

# ------------------------------------------------------------------ text & binary import / export
p('X01', 'Text and binary array files are read back as written',
  'Any array written to a simulator style text or binary array file is read back equal to the printed precision, whatever the blocking, comments and repeat counts, and a generated keyword, fault table or multiplier file is parsed to exactly the records it contains.',
  ['inputs'], 'all arrays, layouts, comment styles and record lists', 'Tests use a few fixed files.', ['resqpy/olio/load_data.py', 'resqpy/olio/write_data.py', 'resqpy/olio/keyword_files.py', 'resqpy/olio/read_nexus_fault.py', 'resqpy/olio/ab_toolbox.py'],
  [('ascii token reading', 'resqpy/olio/load_data.py')])
p('X02', 'Surface and point file formats are read to the data they contain',
  'Point, line and surface files in the supported formats (irap, charisma, zmap, rms text, tsurf) generated from known data are imported to exactly that data to printed precision, with nulls, ordering and orientation honoured, and exporting then importing restores the object.',
  ['inputs'], 'all lattices, point sets, line sets and null patterns', 'Tests use one sample file for each format.', ['resqpy/olio/zmap_reader.py', 'resqpy/surface/_pointset.py', 'resqpy/surface/_surface.py', 'resqpy/lines/_polyline_set.py', 'resqpy/surface/_mesh.py'],
  [('format readers', 'resqpy/olio/zmap_reader.py')])
p('X03', 'Multi-processing gives the same result as doing the work in sequence',
  'Running a batch of tasks through the multi-processing facility gives, for any number of tasks, any success pattern and any number of workers, the per task success list in task order and a combined model holding exactly the objects that the successful tasks produce when run one after another, with the same arrays.',
  ['inputs', 'schedules', 'configurations'], 'all task lists, worker counts and success patterns', 'Tests run one or two tasks with a fixed worker count.', ['resqpy/multi_processing'], [('task results merged into recombined model', 'resqpy/multi_processing/_multiprocessing.py')])

if __name__ == '__main__':
    out = os.path.join(HERE, '..', 'properties.jsonl')
    with open(out, 'w') as fp:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            fp.write(json.dumps(d, ensure_ascii = False) + '\n')
    print(len(P), 'properties')
