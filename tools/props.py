"""Source of properties.jsonl and MANIFEST.json: P(id, title, statement, over, quant, why, files, mechanisms, observe, technique, note)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': hook},
                      technique=technique, note=note))


P('C01', 'A BSP file survives being read and written, byte for byte of meaning',
  'Reading a well-formed BSP file of any supported format (Quake 29, Half-Life, 2PSB, BSP2, the three Hexen II variants, Quake II, Qbism) and writing it again in the same format yields a file in which every lump, every BSPX lump (including structured brush-list, face-normal and decoupled-lightmap lumps that are parsed and re-encoded) and the detected format hold exactly the values of the original. Only padding, lump order and the obsolete Quake II "pop" lump may change, and every lump of the written file lies inside the file, 4-byte aligned, overlapping nothing.',
  ['inputs', 'configurations'], 'all well-formed files of the nine formats, any lump sizes (including empty and odd), any lump order, any values in the records, any set of BSPX lumps with names up to 23 characters',
  'The tests load a few compiled maps; they never write a file and compare the fields, and cannot enumerate formats x lump populations x values.',
  ['common/bspfile.cc', 'common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'common/bspxfile.cc', 'include/common/bspfile*.hh'],
  [('LoadBSPFile / lump_reader', 'common/bspfile.cc'), ('WriteBSPFile / bspfile_t', 'common/bspfile.cc'), ('isHexen2 detection', 'common/bspfile.cc'), ('stream_read/stream_write of every record', 'common/bspfile_*.cc, common/bspxfile.cc')],
  ['the bytes of the written file'],
  'differential runtime monitor: random files from an independent encoder pushed through the real reader/writer under ASan+UBSan, output judged by an independent decoder',
  'Exploration: thousands of random well-formed files per run; trusts the Python codec (lib/bspfmt.py) as the description of the formats.')
P('C02', 'Converting a BSP between formats is lossless or refused',
  'Converting a BSP between formats of one game family (Quake 29/Half-Life/2PSB/BSP2, to and among Hexen II variants, Quake II/Qbism), in any number of steps, either preserves every value both formats can represent, or is refused as exceeding the limits of the target when any index, count, child, content or bound does not fit. Bounding boxes stored as integers are only ever rounded outwards (mins down, maxs up), and all BSPX lumps survive.',
  ['inputs', 'configurations'], 'all well-formed files and all chains of target formats within a family, including values exactly at and just beyond each field limit',
  'Tests exercise conversion only implicitly on small maps, none near a limit, and none checks the values afterwards.',
  ['common/bspfile.cc', 'common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'include/common/numeric_cast.hh'],
  [('ConvertBSPFormat / CopyArray', 'common/bspfile.cc'), ('numeric_cast / aabb_mins_cast / aabb_maxs_cast', 'include/common/numeric_cast.hh'), ('clipnode child up/downcast', 'common/bspfile_q1.cc')],
  ['return value of the conversion', 'bytes of the file written in the target format'],
  'differential runtime monitor: conversions of random files compared value by value with an independent range-checking model, under ASan+UBSan',
  'Exploration; half of the cases place one field at or beyond a limit of some format.')
P('C08', 'Cutting polygons by planes loses nothing and keeps its side of the plane',
  'Clipping a convex polygon by a plane yields a front part and a back part that lie on their own side of the plane (within the stated epsilon), together cover the original area exactly once, stay convex with the original orientation, and are absent exactly when the polygon has no points on that side; a polygon within epsilon of the plane is reported as such. The same holds for the fixed-size clipper used by visibility (which may only err by leaving a polygon unclipped), and for every way of storing points: polygons grown past the inline storage, cleared, copied, moved or resized keep exactly the points put in them.',
  ['inputs', 'histories'], 'all convex polygons up to 40 points at map scale, all planes (including through vertices and edges, and coplanar), all epsilons in use, all sequences of storage operations',
  'Unit tests clip two or three fixed windings.',
  ['include/common/polylib.hh', 'vis/vis.cc', 'vis/flow.cc', 'include/vis/vis.hh'],
  [('winding_base_t::clip, clip_front, clip_back, chop', 'include/common/polylib.hh'), ('winding_storage_hybrid_t', 'include/common/polylib.hh'), ('ClipStackWinding', 'vis/vis.cc')],
  ['the polygons returned by the clipping functions'],
  'property-based runtime monitor with a long-double reference clipper, under ASan+UBSan',
  'Exploration of random polygons, planes and storage histories.')
P('C09', 'Vector, plane, matrix and box arithmetic agrees with exact mathematics',
  'The vector, matrix, bounding-box, plane, barycentric/triangle, centroid/area and sampling helpers that all tools share return what their mathematical definition says, within rounding, for every argument in their domain. Box operations are monotone (union contains both operands, intersection is contained in both, containment and disjointness agree with the corner test), and conversions that can overflow refuse instead of wrapping.',
  ['inputs'], 'all finite arguments at map scale, including degenerate (zero-length, collinear, axis-aligned) ones',
  'Unit tests check a handful of constants per helper; many helpers have none.',
  ['include/common/qvec.hh', 'include/common/aabb.hh', 'include/common/mathlib.hh', 'common/mathlib.cc', 'common/qvec.cc', 'include/common/numeric_cast.hh'],
  [('qvec / qmat / qplane', 'include/common/qvec.hh'), ('aabb', 'include/common/aabb.hh'), ('mathlib helpers', 'common/mathlib.cc')],
  ['return values'],
  'property-based runtime monitor against long-double reference formulas, under ASan+UBSan',
  'Exploration of random and degenerate arguments.')
P('C04', 'Entity text is read and written without losing or changing a key or value',
  'Parsing an entity lump or any quoted/unquoted token text yields exactly the tokens, keys and values written in it, in order, with quoting, escapes, comments and line numbers handled as documented, never reading outside the text; writing the parsed entities and parsing again gives the same entities. Entity dictionaries behave as insertion-ordered maps (set updates in place, remove, rename, has, get), and numeric accessors return the number written.',
  ['inputs', 'histories'], 'all entity texts built of braces, quoted and unquoted tokens, escapes, comments and any whitespace/line ends; all sequences of dictionary operations',
  'Tests parse two or three short strings and never re-parse what was written.',
  ['common/parser.cc', 'common/entdata.cc', 'include/common/parser.hh', 'include/common/entdata.h'],
  [('parser_t::parse_token', 'common/parser.cc'), ('EntData_Parse / EntData_Write', 'common/entdata.cc'), ('entdict_t', 'common/entdata.cc')],
  ['parsed tokens, dictionaries and text written'],
  'generated texts of known meaning pushed through the real parser/writer in exactly-sized buffers under ASan+UBSan, compared with an ordered reference model',
  'Exploration; known deviations of the grammar (high-bit characters unquoted, a quoted lone brace) are outside the generated language.')
P('C05', '.map files are read, written, converted and scripted faithfully',
  'Parsing a .map file yields the entities, brushes, planes, surface info and texture projections written in it (QuakeEd, Valve 220 and QuArK alignments); writing it and parsing again gives the same map. Converting the alignment format keeps geometry and surface info and puts every texture at the same place wherever the target format can express it. maputil operations (save, strip, convert, query, script view, commit, create_winding) do exactly what they say and change nothing else.',
  ['inputs', 'configurations'], 'all maps of convex brushes in the three parsed alignment formats, all alignments not seen edge-on, all command sequences of maputil',
  'Tests parse a few maps and compare a few projection values; no test converts, writes or scripts a map.',
  ['common/mapfile.cc', 'include/common/mapfile.hh', 'maputil/maputil.cc'],
  [('brush_side_t::parse_* / write_texinfo / set_texinfo', 'common/mapfile.cc'), ('convert_to / Reverse_QuakeEd / TexDef_BSPToValve', 'common/mapfile.cc'), ('Lua bridge', 'maputil/maputil.cc')],
  ['parsed map, written text, texture coordinates at the plane points', 'maps saved by maputil, what its scripts see'],
  'differential runtime monitor: generated maps with a long-double reference of every alignment format, in-process and through the maputil command line, under ASan+UBSan',
  'Exploration; brush primitives are excluded because the code refuses them ("todo").')
P('C03', 'Vis rows survive compression, decompression and re-encoding',
  'Compressing a visibility row and decompressing it gives the same row for every length and content, in the canonical encoding (no zero byte but as the start of a run); decompression never writes beyond the row it fills nor reads beyond the data it is given. DecompressAllVis and vis-lump conversions give every leaf or cluster the row its offset refers to.',
  ['inputs'], 'all rows of 1 to some thousand bits, all run structures (including runs over 255 zero bytes), truncated and overlong data',
  'Tests decode the rows of a few compiled maps; no test covers row lengths, long runs or damaged data.',
  ['common/bspfile.cc', 'common/bsputils.cc', 'include/common/bspfile_generic.hh'],
  [('CompressRow', 'common/bspfile.cc'), ('DecompressRow / DecompressVis / DecompressAllVis', 'common/bsputils.cc')],
  ['the compressed and decompressed bytes', 'memory accessed (ASan red zones around exactly-sized buffers)'],
  'property-based runtime monitor with an independent run-length codec and exactly-sized buffers under ASan+UBSan',
  'Exploration of random rows and damaged encodings.')
P('C11', 'Queries on a compiled BSP answer as its geometry says',
  'For every BSP, the shared query helpers (leaf at a point, contents at a point in any model, faces at a point, face plane/winding/centroid/normal, entity-model and texture lookup, texture-to-world matrices, nodes and leafs of a model) answer what the trees, planes, edges and records of the file say, for all points not within rounding of a plane. They do not depend on the format the BSP was loaded from.',
  ['inputs'], 'all BSP trees (random trees of slanted and axial planes, several models), all faces of up to some dozens of edges, all query points',
  'Tests query a handful of points in a few maps.',
  ['common/bsputils.cc', 'include/common/bsputils.hh'],
  [('BSP_FindLeafAtPoint / BSP_FindFaceAtPoint / Light_PointInSolid', 'common/bsputils.cc'), ('Face_* accessors', 'common/bsputils.cc')],
  ['return values of the query helpers'],
  'property-based runtime monitor: random BSP trees and faces, answers compared with a long-double reference, under ASan+UBSan',
  'Exploration; points within rounding of a plane are counted but not judged.')
P('C16', 'Lightmap coordinates and .lit files map world and luxel space consistently',
  'For every face, the world-to-texture, texture-to-lightmap and world-to-lightmap maps are inverses of each other, lightmap extents cover the face and are the ones the engines compute, and sampling a lightmap at a luxel centre returns that luxel. Loading a .lit file returns exactly the samples written to it, and damaged ones are refused.',
  ['inputs', 'configurations'], 'all non-degenerate texture projections and face shapes, luxel scales and decoupled lightmaps, all .lit payloads',
  'Tests check coordinates of a few faces of compiled maps.',
  ['common/bsputils.cc', 'common/litfile.cc', 'include/common/litfile.hh'],
  [('faceextents_t', 'common/bsputils.cc'), ('LM_Sample', 'common/bsputils.cc'), ('LoadLitFile', 'common/litfile.cc')],
  ['coordinates, extents and colours returned', 'samples loaded'],
  'property-based runtime monitor with a long-double reference of the lightmap coordinate system, under ASan+UBSan',
  'Exploration of random projections, faces and files.')
V_FILES = ['vis/vis.cc', 'vis/flow.cc', 'vis/state.cc', 'vis/soundpvs.cc', 'common/prtfile.cc', 'include/vis/vis.hh', 'include/vis/leafbits.hh']
V_NOTE = 'Exploration of generated portal worlds of up to some hundred clusters (kd, slanted and corridor shaped); the worlds and portal files come from the harness, not from qbsp.'
V_TECH = 'runtime monitor: the real vis run in-process on generated portal worlds, result judged by '
P('V01', 'vis never hides anything that can be seen',
  'Whenever a line of sight passes through a chain of portals (with clear margin), the cluster at its start is recorded as seeing every cluster it passes and vice versa, at every test level, target-check ratio, vis format and portal-file flavour, in fast and full mode. Rendering errors of the kind "hall of mirrors" are therefore impossible.',
  ['inputs', 'configurations', 'schedules'], 'all portal files of convex clusters, all sight lines with a margin of one unit, all options of vis',
  'A test that compiles one map and looks at two leafs cannot show the absence of a false cull somewhere.',
  V_FILES, [('RecursiveLeafFlow / ClipToSeparators / TargetChecks', 'vis/flow.cc'), ('BasePortalVis', 'vis/flow.cc'), ('ClipStackWinding, UpdateMightsee, ClusterFlow', 'vis/vis.cc')],
  ['the PVS rows of the BSP that vis writes'],
  V_TECH + 'rays marched through the portals with long-double arithmetic', V_NOTE)
P('V02', 'vis hides everything its tests rule out',
  'Every cluster sees itself; full vis never shows a pair of clusters that fast vis rules out; fast vis shows exactly the clusters reachable through chains of portals facing each other; and full vis shows no cluster to which no line passes through any chain of portals by more than the tolerance. The PVS is thus as tight as the requested level promises.',
  ['inputs', 'configurations'], 'all portal files of convex clusters, all test levels, target-check ratios and view distances',
  'Tests compare two PVS bits of one map; an overly loose PVS passes every test.',
  V_FILES, [('RecursiveLeafFlow / VisTests', 'vis/flow.cc'), ('BasePortalVis / SimpleFlood', 'vis/flow.cc'), ('ClusterFlow', 'vis/vis.cc')],
  ['the PVS rows of the BSP that vis writes'],
  V_TECH + 'independent upper and lower bounds (facing-portal flood, generous portal clipping)', V_NOTE)
P('V03', 'vis is right under every thread schedule',
  'Whatever order and interleaving the worker threads run portals in, full vis stays sound and within its bounds, its rows stay well-formed, and fast vis writes the same bytes.',
  ['schedules', 'inputs'], 'all schedules of the worker threads (serial, reversed, shuffled, and 2-8 real threads with injected delays) on all portal files',
  'Tests run one small map under whatever schedule happens.',
  V_FILES, [('GetNextPortal / PortalCompleted / UpdateMightsee under portal_mutex', 'vis/vis.cc'), ('CalcPortalVis parallel_for', 'vis/vis.cc')],
  ['the PVS rows of the BSP that vis writes under each schedule'],
  'schedule-controlled runtime monitor: a stand-in for TBB runs vis under chosen orders and jittered threads, results judged by sight lines and bounds', V_NOTE + ' Full vis may legitimately differ between schedules (finished portals prune others), so equality is only required of fast vis.')
P('V04', 'An interrupted vis run can be repeated and gives the same answer',
  'If vis is killed at any moment before it rewrites the BSP (including in the middle of saving or renaming its state file), running it again succeeds and gives a result as sound and as tight as an uninterrupted run (the same one when run serially), with no state file left behind. State files older than the portal file, or with -nostate any state file, are ignored.',
  ['crash points', 'histories', 'inputs'], 'all kill points (state-file writes cut at any byte, around each rename and removal, between portals), repeated kills, all portal files',
  'No test ever interrupts vis or leaves a state file behind.',
  V_FILES, [('SaveVisState / LoadVisState / CleanVisState', 'vis/state.cc'), ('LeafThread periodic save', 'vis/vis.cc')],
  ['exit status, files left behind, PVS rows after the resumed run'],
  'fault-injecting runtime monitor: vis runs in a child that kills itself at a chosen system call with a partial write and a skewed clock; the rerun is compared with an uninterrupted run, sight lines and bounds', V_NOTE + ' Kills model process death, not loss of data already written.')
P('V05', 'The PHS is the union of what the visible clusters see',
  'For Quake II BSPs, vis writes for every cluster a hearable set that contains exactly the clusters visible from any cluster visible to it; -phsonly recomputes it and leaves the PVS as it was.',
  ['inputs'], 'all Quake II / Qbism BSPs and portal files, any number of clusters',
  'No test reads the PHS.',
  ['vis/soundpvs.cc', 'vis/vis.cc'], [('CalcPHS', 'vis/soundpvs.cc')],
  ['the PHS and PVS rows of the BSP that vis writes'],
  V_TECH + 'recomputing the union from the decoded PVS', V_NOTE)
P('V06', 'Ambient sound levels follow from what a leaf can see',
  'For Quake-style BSPs, a leaf gets full volume of the sky, water (water or slime) or lava sound exactly if a leaf it can see has a face with such a texture and that sound was not switched off, and silence otherwise.',
  ['inputs', 'configurations'], 'all BSPs with any faces, texture names and clusters, all -noambient* options',
  'No test reads ambient levels.',
  ['vis/soundpvs.cc', 'common/prtfile.cc'], [('CalcAmbientSounds', 'vis/soundpvs.cc')],
  ['ambient levels in the BSP that vis writes'],
  V_TECH + 'recomputing the levels from the decoded PVS and the faces', V_NOTE)
P('V07', 'vis writes well-formed rows for the right leafs and touches nothing else',
  'After vis, every non-solid leaf (or every Quake II cluster) refers to a row that decodes to exactly the number of leafs or clusters, with no bit beyond; all leafs of a cluster share one row and appear together in every row, following the cluster map of the portal file; nothing else in the BSP changes and no state file is left.',
  ['inputs', 'configurations'], 'all portal files (PRT1, PRT2, PRT1-AM, any grouping of leafs into clusters) and BSPs of every format',
  'Tests check rows of one or two compiled maps.',
  V_FILES, [('LoadPrtFile cluster maps', 'common/prtfile.cc'), ('ClusterFlow', 'vis/vis.cc'), ('CompressRow', 'common/bspfile.cc')],
  ['every byte of the BSP that vis writes'],
  V_TECH + 'decoding all rows independently and comparing the rest of the file', V_NOTE)
P('C06', 'Options take the value given by the strongest source and nothing else',
  'Every option keeps the value given last by the strongest source that set it (command line over map keys over game target over default), in the meaning of its type: flags and inverted flags with their optional 0/1/-1, numbers clamped to their range, enumerations by label (any case) or number, vectors, angles and colours, additive sets, redirections and callbacks. An unknown option or a value that cannot be read is refused and changes nothing, leading hyphens and underscores do not matter, everything after the last option is returned as positional arguments, and copying or resetting a set of options copies or resets values and sources.',
  ['inputs', 'histories'], 'all command lines, key/value batches, copies and resets in any order, over every kind of option',
  'Tests check about a dozen fixed command lines; they do not combine sources, orders and malformed values.',
  ['common/settings.cc', 'include/common/settings.hh'],
  [('setting_container::parse / set_setting', 'common/settings.cc'), ('setting_base::change_source', 'common/settings.cc'), ('setting_*::parse', 'common/settings.cc, include/common/settings.hh')],
  ['values and sources of the settings, exceptions, remaining arguments'],
  'model-based runtime monitor: random histories of operations on a container holding every kind of setting, compared after each step with a reference model, under ASan+UBSan',
  'Exploration; options whose own name begins with "no" are not generated as invertible (none exists).')
P('C07', 'Files are found where the search path says and delivered intact',
  'A file asked for by name comes from the place that the search order prescribes (the archive named in the path itself, the file or archives in the configured preference, most recently added directory or pak/wad first, mod before base game, higher-numbered pak first), and its contents are exactly the bytes stored there. Names in archives ignore case, a folder is never mistaken for a file, adding a source twice changes nothing, and anything that is not there yields nothing. Damaged archives are refused or yield only what they really contain, without disturbing the loading of their other entries.',
  ['inputs', 'histories', 'faults'], 'all trees of directories, pak and wad archives, all sequences of additions, clears and loads, all spellings of paths, all damage to archive headers and directories',
  'One test loads one texture from one folder; archive precedence, duplicates and damage are never exercised.',
  ['common/fs.cc', 'include/common/fs.hh', 'common/bspfile.cc', 'common/cmdlib.cc'],
  [('fs::where / load / addArchive', 'common/fs.cc'), ('pak_archive / wad_archive / directory_archive', 'common/fs.cc'), ('gamedef init_filesystem', 'common/bspfile.cc')],
  ['archive and bytes returned'],
  'model-based runtime monitor: random directory trees, archives and histories compared with a reference model; damaged archives under ASan+UBSan',
  'Exploration; search paths given by several -path options (unordered set) are not ordered among each other.')
P('C10', 'Textures decode to the pixels and properties the files hold',
  'Loading a texture (WAL, MIP/embedded miptex with game or Half-Life palette, TGA, PNG) gives its exact pixels, size, transparency (index 255 of fence textures and so on) and average colour, from the format that comes first in the search order, whatever folder or archive holds it. Metadata of Quake II textures (flags, contents, value, animation, replacement colour, size) is that of the .wal_json where it gives a value and that of the .wal otherwise, and the texture table of a BSP scales replacement textures to the size of the original. Damaged images are refused or give only pixels that are in the file.',
  ['inputs', 'faults'], 'all images of the four formats with any size, palette and contents, all sets of candidate files per texture, all damage to the headers',
  'Two tests load one texture each; none compares all pixels, none has several candidates for one name, none a damaged file.',
  ['common/imglib.cc', 'include/common/imglib.hh'],
  [('load_wal / load_mip / load_stb', 'common/imglib.cc'), ('load_texture / load_texture_meta / load_wal_json_meta', 'common/imglib.cc'), ('load_textures, calculate_average', 'common/imglib.cc')],
  ['pixels, sizes, metadata and colours returned'],
  'differential runtime monitor: images from independent encoders loaded by the real code, damaged ones from exactly-sized buffers, under ASan+UBSan',
  'Exploration; PNG decoding itself is stb_image (third party) and only sampled.')
P('C12', 'bspinfo exports what the BSP holds',
  'The JSON, OBJ and lightmap images that bspinfo writes, and the tables it prints, contain exactly the records, lumps (hexadecimal), BSPX contents, embedded textures, face geometry and lightmap samples of the file, of whatever format. In the lightmap images no two faces overlap, and the texture coordinates in the OBJ lead from each vertex to its own samples.',
  ['inputs', 'configurations'], 'all well-formed files of the nine formats with any number and size of lightmaps and styles, with and without decoupled lightmaps',
  'No test runs bspinfo or reads any of its output.',
  ['bspinfo/main.cc', 'common/bspinfo.cc', 'common/bsputils.cc', 'common/bspfile.cc'],
  [('serialize_bsp', 'common/bspinfo.cc'), ('build_lightmap_atlas / export_obj_and_lightmaps', 'common/bspinfo.cc'), ('PrintBSPFileSizes', 'common/bspfile.cc'), ('PrintBSPTextureUsage', 'bspinfo/main.cc')],
  ['JSON, OBJ and PNG files written, text printed'],
  'differential runtime monitor: bspinfo (ASan+UBSan) run on random coherent files; its whole output decoded and compared with the independent decoder of the input',
  'Exploration; references between lumps are in range and faces axis-aligned (so that extents are exact).')
P('C13', 'Damaged files are refused, never misread',
  'No damage to the container of an input file - header, version, lump and BSPX offsets and lengths, counts and offsets of the texture and visibility tables, truncation, portal files, archives, images, .map and entity text, .wal_json - makes a loader read or write outside its buffers, overflow, hang, or use uninitialised data. The file is either refused with an error, leaving existing output files unchanged, or what is delivered is data that the file really holds.',
  ['inputs', 'faults'], 'all truncations and all changes of container-level values in well-formed files of every format; references between records (indices into other lumps) are trusted by the tools and out of scope',
  'The tests load only intact files.',
  ['common/bspfile.cc', 'common/bspfile_generic.cc', 'common/bspxfile.cc', 'common/prtfile.cc', 'vis/vis.cc', 'common/imglib.cc', 'common/fs.cc', 'common/parser.cc', 'common/entdata.cc', 'common/mapfile.cc', 'include/common/cmdlib.hh'],
  [('LoadBSPFile / lump_reader::check', 'common/bspfile.cc'), ('dmiptexlump_t / mvis_t stream_read', 'common/bspfile_generic.cc'), ('LoadPrtFile / LoadPortals', 'common/prtfile.cc, vis/vis.cc'), ('load_wal, load_mip, load_stb, load_wal_json_meta', 'common/imglib.cc'), ('parser_t, map_file_t::parse', 'common/parser.cc, common/mapfile.cc')],
  ['sanitizer reports, exceptions, data delivered, files on disk afterwards'],
  'fault-injecting runtime monitor: mutated files through the real loaders under ASan+UBSan (exactly-sized buffers), with an oracle for what may be accepted',
  'Exploration by random mutation of generated files; index-level references between lumps are excluded.')
P('Q01', 'The compiled BSP classifies every point as the map does',
  'In the .bsp that qbsp writes, every point of every model that an entity can reach has exactly the contents that the brushes of the .map give it: the strongest brush covering it under the priorities of the game (solid, sky, liquids, detail kinds, windows, ...), moved by the origin of its entity where that applies, and empty or solid where no brush is. Space no entity can reach is solid when filling is on and the map is sealed, everything else keeps the contents of its brushes. Options that only steer tree shape, merging or welding never change this.',
  ['inputs', 'configurations'], 'all maps of convex brushes with any mixture and overlap of contents, brush entities, all game formats, all combinations of the neutral options, sealed and leaking',
  'Tests look at a handful of points in a few dozen hand-made maps.',
  ['qbsp/brush.cc', 'qbsp/brushbsp.cc', 'qbsp/csg.cc', 'qbsp/tree.cc', 'qbsp/outside.cc', 'qbsp/map.cc', 'qbsp/qbsp.cc', 'qbsp/writebsp.cc', 'common/bspfile.cc'],
  [('LoadBrush / CreateBrushWindings / ChopBrushes', 'qbsp/brush.cc, qbsp/csg.cc'), ('BrushBSP', 'qbsp/brushbsp.cc'), ('FillOutside / FillDetail', 'qbsp/outside.cc'), ('contentflags of each game', 'common/bspfile.cc')],
  ['contents of the leaf reached by walking the written tree'],
  'differential runtime monitor: whole qbsp (ASan+UBSan) on generated worlds, the written tree walked at every grid cell and at random points and compared with exact brush arithmetic',
  'Exploration; liquids reached only through leaks and points within a unit of a slanted boundary are not judged.')
P('Q02', 'Clip hulls stop the player exactly where the grown brushes are',
  'In every clip hull of every model, a point is solid exactly when a box of the hull\'s size at that point touches a brush that blocks (including clip brushes, excluding liquids and non-solid kinds), and unreachable space is solid. This holds for the hull sizes of Quake, Hexen II and Half-Life.',
  ['inputs', 'configurations'], 'all maps of convex brushes (any faces; axial and sloped), any contents, brush entities, formats and neutral options',
  'Tests check single points of the hulls of three maps.',
  ['qbsp/brush.cc', 'qbsp/brushbsp.cc', 'qbsp/writebsp.cc', 'qbsp/outside.cc', 'qbsp/qbsp.cc', 'common/bspfile_q1.cc'],
  [('ExpandBrush / hull growth', 'qbsp/brush.cc'), ('ExportClipNodes', 'qbsp/writebsp.cc'), ('get_hull_sizes', 'common/bspfile.cc')],
  ['contents reached by walking the written clip nodes'],
  'differential runtime monitor: compiled clip hulls walked at grid cells and random points, compared with Minkowski sums computed by separating axes',
  'Exploration; points within a unit of a grown boundary of sloped brushes are not judged.')
P('Q03', 'The compiled BSP is a well-formed tree with well-formed faces',
  'Every .bsp qbsp writes has trees that reach each node and leaf exactly once, in-range indices, unit-length planes with the right axis type, nested bounds that contain what they must, and faces that are closed convex loops on their plane, turn the right way, belong to exactly one node on the same plane and one model. Each leaf lists every face that borders it, and only faces of its model.',
  ['inputs', 'configurations'], 'all maps and neutral options as for Q01, all formats',
  'Tests check counts and selected faces in selected maps; engines crash or show holes when any of these is violated anywhere.',
  ['qbsp/writebsp.cc', 'qbsp/faces.cc', 'qbsp/merge.cc', 'qbsp/tjunc.cc', 'qbsp/tree.cc', 'qbsp/prtfile.cc', 'qbsp/qbsp.cc', 'common/bsputils.cc'],
  [('ExportDrawNodes / ExportLeaf', 'qbsp/writebsp.cc'), ('MakeMarkFaces / EmitEdges', 'qbsp/faces.cc'), ('TJunc', 'qbsp/tjunc.cc'), ('FinishBSPFile', 'qbsp/writebsp.cc')],
  ['every record of the written file'],
  'runtime monitor: whole qbsp (ASan+UBSan) on generated worlds and a full walk of the written structures against the rules',
  'Exploration; away from the grid up to two sliver faces per map may break a geometric clause (epsilon welding).')
P('Q04', 'Every visible brush boundary has exactly one face, with its texture',
  'In the drawn faces of the world, every piece of boundary between different contents that can be seen from a side that is not solid is covered exactly once from that side with a texture of a brush that ends there (the later brush of the map where several do, unless brushes were chopped), and there are no other faces. Faces between equal contents, outside the sealed world or with hidden textures (skip, clip, hint) do not exist; liquids are seen from both sides.',
  ['inputs', 'configurations'], 'all maps of axial brushes of every kind (solid, liquids, detail kinds, sky, clip), any overlap, formats and neutral options',
  'Tests check face counts and textures at some points of their maps.',
  ['qbsp/faces.cc', 'qbsp/portals.cc', 'qbsp/csg.cc', 'qbsp/brushbsp.cc', 'qbsp/merge.cc', 'qbsp/tjunc.cc', 'qbsp/outside.cc', 'common/bspfile.cc'],
  [('MakeFaces / MakeFaces_r', 'qbsp/faces.cc'), ('FindPortalSide / FaceFromPortal', 'qbsp/portals.cc'), ('ClipSidesToTree', 'qbsp/faces.cc')],
  ['faces, texinfos and texture names of the written .bsp'],
  'runtime monitor: whole qbsp (ASan+UBSan) on generated axial worlds, the written faces counted at a random point of every cell boundary and compared with exact brush arithmetic',
  'Exploration; axial worlds only, sample points near a face edge are not judged.')
P('Q05', 'Leaks are found when there is one, and only then, with a true trail',
  'qbsp reports a leak and writes a .pts (or .por) file exactly when an entity inside the map can reach the void around it; the trail is a connected path that crosses no blocking brush, starting at such an entity and ending in the outside. A sealed map leaves no leak file, not even an old one, and a leaking map no old portal file.',
  ['inputs', 'configurations', 'histories'], 'all maps as for Q01 with or without openings at any place, entities anywhere including outside and inside brushes, stale files from earlier runs',
  'Tests have two leaking maps and do not check the trail.',
  ['qbsp/outside.cc', 'qbsp/portals.cc', 'qbsp/qbsp.cc', 'qbsp/writebsp.cc'],
  [('FillOutside / FindPortalsToVoid', 'qbsp/outside.cc'), ('WriteLeakLine', 'qbsp/outside.cc')],
  ['files beside the .bsp, points of the trail'],
  'runtime monitor: whole qbsp on sealed and opened worlds, the trail checked against exact solids and reachability computed on brushes',
  'Exploration.')
P('Q06', 'The portal file opens exactly the passages that sight can use',
  'In the .prt file every portal lies on the boundary of its two clusters, faces the right way, and wherever two clusters touch and their contents let sight pass there is a portal covering that place; detail brushes never separate clusters and opaque boundaries have no portal. Every leaf that is not opaque belongs to exactly one cluster, recorded the same way in the file and in the .bsp.',
  ['inputs', 'configurations'], 'all sealed maps as for Q01, formats PRT1, PRT2 and PRT1-AM, transparent and opaque water',
  'Tests count portals in a few maps.',
  ['qbsp/prtfile.cc', 'qbsp/portals.cc', 'common/bspfile.cc', 'common/prtfile.cc'],
  [('WritePortalFile / NumberLeafs_r', 'qbsp/prtfile.cc'), ('MakeTreePortals / MakeNodePortal / SplitNodePortals', 'qbsp/portals.cc'), ('portal_can_see_through', 'common/bspfile.cc')],
  ['.prt file against points and crossings of the written tree'],
  'runtime monitor: sight lines and points sampled in the written tree compared with the portals and clusters listed, with see-through rules computed on contents',
  'Exploration; crossings near the edge of a portal are not judged.')
P('Q08', 'Textures lie on every face as the map says, whatever the map format',
  'Every face has the texture coordinates of the brush side it lies on, in the Quake, Valve 220, QuArK and brush-primitives formats, relative to the origin of its entity when it has an origin brush, and in Quake II with the surface flags and value of that side. A map written by -convert has the same entities, brushes, planes, texture names, surface numbers and alignments (up to whole textures).',
  ['inputs', 'configurations'], 'all brush sides with non-degenerate alignments in the four formats, any rotation, scale, shift and slope; -convert to quake, quake2, valve and bp',
  'Tests check one texture alignment per format.',
  ['qbsp/map.cc', 'qbsp/writebsp.cc', 'qbsp/faces.cc', 'common/parser.cc', 'qbsp/qbsp.cc'],
  [('ParseTextureDef / SetTexinfo_QuakeEd / SetTexinfo_QuArK / SetTexinfo_BrushPrimitives', 'qbsp/map.cc'), ('ConvertMapFile / ConvertMapFace', 'qbsp/map.cc'), ('TexDef_BSPToQuakeEd', 'qbsp/map.cc')],
  ['texinfos of the written .bsp, converted .map'],
  'differential runtime monitor: whole qbsp on generated worlds with random alignments, face vectors compared with vectors computed from the side, converted maps parsed by an own parser',
  'Exploration; sides whose plane is within 0.001 of a tie between two projection axes are not judged.')

P('L02', 'Direct light on every luxel is what the light entities cast',
  'Every luxel that lies well inside its face holds, in the lightmap of each style, the sum of the light of all entities that reach it unblocked: falloff formula, angle, cone, colour, range and oversampling as documented. Shadows are cast by exactly the brushes and models that should, on the receivers they should (shadow, shadowself, shadowworldonly, switchable shadows, channel masks). Named lights and switchable shadows get one style per name.',
  ['inputs', 'configurations', 'schedules'], 'all worlds of solid, sky and detail brushes and free standing models; lights of delay 0/1/2/3/5, spots, styles, negative lights; -extra, -extra4; all formats; any thread count',
  'Tests compare a handful of luxels of fixed maps.',
  ['light/ltface.cc', 'light/entities.cc', 'light/trace_embree.cc', 'light/write.cc', 'light/light.cc'],
  [('GetLightContrib / LightFace_Entity', 'light/ltface.cc'), ('Embree_FilterFuncN', 'light/trace_embree.cc'), ('WriteSingleLightmap', 'light/write.cc'), ('LightStyleForTargetname', 'light/entities.cc')],
  ['lightmaps and entities of the .bsp after light'],
  'runtime oracle: qbsp and light (ASan+UBSan) on generated worlds, every certain luxel compared with light recomputed from the map brushes and entities',
  'Exploration; luxels within 0.3 units of a shadow edge, outside their face, in filled rooms or on slivers are not judged.')
P('L07', 'Suns, sky domes and minimum and maximum light act on every luxel as documented',
  'Sunlight reaches a luxel exactly when the first thing its ray meets is sky, for worldspawn suns, sun entities and the sunlight2/3 domes. Local and global minimum light, added minimum light, maximum light, gamma and range, per world and per model, give the documented value at every luxel.',
  ['inputs', 'configurations', 'schedules'], 'all worlds of solid, sky and detail brushes and free standing models in all formats; every combination of the keys',
  'Tests look at single luxels of fixed maps and at few of the keys.',
  ['light/ltface.cc', 'light/entities.cc', 'light/trace_embree.cc', 'light/write.cc'],
  [('LightFace_Sky / LightFace_Min / LightFace_LocalMin', 'light/ltface.cc'), ('SetupSuns / SetupSkyDome', 'light/entities.cc'), ('LightFace_ScaleAndClamp', 'light/write.cc')],
  ['lightmaps of the .bsp after light'],
  'runtime oracle: qbsp and light (ASan+UBSan) on generated worlds, every certain luxel compared with light recomputed from the map brushes and keys',
  'Exploration; rays within 0.3 units of an edge are not judged or counted as an interval.')
P('L01', 'Every face has its own lightmaps of the right size, and no others',
  'The lighting lump is tiled exactly by the lightmaps the faces and the extension lumps (LMSHIFT, LMOFFSET, LMSTYLE, DECOUPLED_LM) announce, each as wide and high as an engine computes from face and scale, styles without gaps, doubles or stale entries and the brightest first. Plain and extended lightmaps both hold the light of the luxels at their scale. Lighting a file again leaves nothing of the earlier run behind.',
  ['inputs', 'configurations', 'schedules'], 'all worlds of the generator in all formats; -lmshift, _lmscale, -world_units_per_luxel, -facestyles, -extra, second runs; any schedule',
  'Tests check the offset of a few faces of fixed maps.',
  ['light/write.cc', 'light/light.cc', 'light/ltface.cc', 'common/bsputils.cc'],
  [('SaveLightmapSurfaces / SaveLightmapSurface / CalculateLightmapStyles', 'light/write.cc'), ('LightWorld / CreateLightmapSurfaces', 'light/light.cc'), ('faceextents_t', 'common/bsputils.cc')],
  ['faces, lighting and BSPX lumps of the .bsp after light'],
  'runtime oracle: offline layout checker over the lumps light wrote (ASan+UBSan build), own face extents, and the direct light model at every scale',
  'Exploration; -lmshift together with -world_units_per_luxel and -novanilla layouts are not judged.')
P('L03', 'Light is the same on every schedule and when it is done again',
  'For any order in which tasks run, and for a second run over the first result, every face gets the same styles and bytes of light, colour and direction, and all other lumps are the same. This includes suns, dirt, bounced and surface lights, phong shading, light grids and extended lightmaps.',
  ['schedules', 'inputs', 'configurations', 'histories'], 'serial, reverse, shuffled and threaded schedules of generated worlds in all formats and options without random jitter',
  'Tests run one schedule and compare single luxels.',
  ['light/ltface.cc', 'light/bounce.cc', 'light/surflight.cc', 'light/light.cc', 'light/lightgrid.cc', 'light/write.cc'],
  [('LightWorld (parallel_for)', 'light/light.cc'), ('MakeBounceLights', 'light/bounce.cc'), ('MakeRadiositySurfaceLights', 'light/surflight.cc'), ('SaveLightmapSurfaces', 'light/write.cc')],
  ['per-face content of the lighting lump, .lit, .lux and BSPX lumps of runs that differ only in schedule'],
  'controlled schedules: the real light tool under a scheduler of our own (reverse, shuffled, threads), offline comparison of decoded lightmaps',
  'Exploration of schedules at task granularity; offsets in the lump may differ.')
P('L04', 'Companion lighting outputs agree with each other and with the bsp',
  'The grey light of the .bsp is the brightest component of the .lit at every sample; .lit and .lux equal the RGBLIGHTING and LIGHTINGDIR lumps, are written exactly when asked for (or colours need them), and have the documented headers and sizes. -litonly changes no byte of the .bsp and gives the .lit of a full run, -lit2 the same light in its own layout. Every stored direction is a unit vector, and points to the light where only one shines.',
  ['inputs', 'configurations', 'histories'], 'all worlds of the generator in the Quake, Hexen 2, BSP2 and (no companions) colored formats, all output options and second runs',
  'Tests check only that some of the files exist.',
  ['light/write.cc', 'light/light.cc', 'light/ltface.cc'],
  [('WriteLitFile / WriteLuxFile', 'light/write.cc'), ('WriteSingleLightmap', 'light/write.cc'), ('SaveLitOnlyLightmapSurface', 'light/write.cc'), ('CheckLitNeeded', 'light/light.cc')],
  ['.bsp, .lit, .lux and BSPX lumps of several runs over one world'],
  'runtime oracle: differential comparison of everything several runs of light (ASan+UBSan) wrote, own direction model',
  'Exploration.')
