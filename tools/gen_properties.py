#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then rerun."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or ["return value of the public loading call"], "hook_needed": hook}})
NOTEST = "The 18 existing tests only cover FGD/colour text rendering of a few literals; none of them loads a map or a WAD. "
MAPF = ["src/lib.rs", "src/map/quake/tokenizer.rs", "src/map/quake/parser.rs"]
GEO = ["src/geo_builder/brush_plane/mod.rs", "src/geo_builder/brush_plane/vertices.rs", "src/geo_builder/brush/mod.rs"]
ST = "src/scene_tree/mod.rs"

p("C01", "A map loads exactly when its scopes are well formed, with nothing lost",
  """A map file loads if and only if its braces are matched and nest as file > entity > brush, key/value lines occur only
  directly inside an entity, face lines occur only inside a brush, every entity has a classname, and exactly one entity is
  worldspawn; every other arrangement, including a file that ends inside an entity or a brush, is rejected with an error.
  When it loads, every entity, brush and face line of the text is present in the result, attached to the entity it was
  written in and in the order it was written.""",
  ["inputs", "histories"], "all sequences of map lines (open, close, key/value, face, comment, blank) up to the explored depth",
  NOTEST + "Acceptance is a property of every line sequence, i.e. of every path through the scope automaton.",
  MAPF + ["src/layer_filter/mod.rs"], [("scope state machine", "src/map/quake/parser.rs run"), ("singleton worldspawn", "src/layer_filter/mod.rs run")])

p("C02", "Loading a map never crashes or hangs the host",
  """Whatever bytes a map file holds (truncated, malformed, degenerate, non-UTF-8, with missing, repeated or circular
  identifiers), and also when the file is missing, loading returns either a scene tree or an error. It never panics,
  aborts, exhausts the stack or fails to terminate.""",
  ["inputs"], "every file content in the explored spaces: malformed line sequences, every truncation and single-character edit of representative maps, every single-field corruption of face lines, degenerate planes, all small group graphs",
  NOTEST + "Absence of a crash quantifies over every input.",
  MAPF + GEO + ["src/map/quake/types/brush_plane.rs", "src/layer_filter/mod.rs", ST],
  [("error returns of the parser", "src/map/quake/parser.rs"), ("face line parser", "src/map/quake/types/brush_plane.rs BrushPlane::new")])

p("C03", "Comments, blank lines and line endings never change the result",
  """Inserting or removing comment lines (first character '/', whatever text follows) or blank lines anywhere in a map file,
  switching any line ending between LF and CR LF, and adding or removing the final line end never change the result of
  loading it.""",
  ["inputs"], "all subsets of insertion points, all comment texts of the alphabet, all line-ending choices on the explored maps",
  NOTEST + "An invariance over all placements of trivia.", MAPF, [("line classification", "src/map/quake/tokenizer.rs run")])

p("C04", "Key/value lines reach their own actor verbatim, last one wins",
  """The text between the quotes of a key/value line is delivered unchanged (spaces, slashes, braces, parentheses, empty and
  non-ASCII text included) as the text property of that key on the actor of the entity it was written in; when a key is
  repeated in one entity the last line wins. The actor's name is its classname, and no key or value ever shows up on another
  entity.""",
  ["inputs", "histories"], "all sequences of key/value lines over the explored key and value alphabets, over 1-3 entities",
  NOTEST + "Holds for all keys, values, repetitions and positions.", MAPF + [ST],
  [("property tokenizing", "src/map/quake/tokenizer.rs run"), ("property insertion", "src/map/quake/parser.rs run"), ("text properties", "src/scene_tree/mod.rs get_entity_properties")])

p("C05", "Every face-line dialect decodes to the same meaning",
  """A face line is three points, a texture name (matched ignoring case), texture offsets as two numbers (standard) or two bracketed axes
  with offsets (Valve 220), a rotation, two scales, and then zero, one (Hexen 2), three (Quake 2) or six (Daikatana)
  trailing fields; each combination yields the same geometry and mapping, and only the Daikatana one gives each vertex
  of the face the colour in its last three fields.
  The amount and kind of blank space between fields and the way a number is written do not matter.
  Any other number of trailing fields, or a non-numeric field where a number belongs, is an error, never a wrong face.""",
  ["inputs"], "all combinations of dialects, trailing-field counts 0-9, number notations, letter cases and spacings explored, per field",
  NOTEST + "The field positions must be right in every dialect combination.", ["src/map/quake/types/brush_plane.rs", "src/map/types/uv.rs"],
  [("field-by-field parser", "src/map/quake/types/brush_plane.rs BrushPlane::new")])

p("C06", "Every entity appears exactly once, in file order, under its group",
  """Every entity of a map yields exactly one actor in the scene tree. The first actor is worldspawn wherever it is in the
  file; after it (and the worldspawn layers) come, in file order, the entities that belong to no group; an entity whose
  group id is the id of another entity is a child of that entity's actor, after that actor's own geometry, siblings in file order.
  An entity whose group does not exist is placed at the top level, and repeated ids or circular group links never lose,
  repeat or endlessly nest an entity.""",
  ["inputs", "configurations"], "all assignments of ids and groups over up to 4-5 entities, all worldspawn positions, group chains up to the explored depth",
  NOTEST + "A conservation law over all group graphs.", [ST, "src/layer_filter/mod.rs"],
  [("group nesting", "src/scene_tree/mod.rs build_entity"), ("worldspawn first", "src/layer_filter/mod.rs run")])

p("C07", "Actor origins compose to map positions",
  """Adding the origins of an actor and of all actors above it gives the position of its entity in the map: the entity's
  origin key when it has one (missing or non-numeric components count as 0), otherwise the average of the centres of its brushes (those that enclose anything), where a brush's centre is
  the average of its faces' vertex averages; (0,0,0) when it has neither. The geometry nodes of an entity carry that same position
  as their origin and hold their vertices in map coordinates.""",
  ["inputs", "configurations"], "all explored entity trees (depth up to 4), origin texts, brush counts and placements",
  NOTEST + "Relative transforms must compose at every nesting depth.", [ST, "src/geo_builder/entity/mod.rs", "src/geo_builder/brush/mod.rs"],
  [("child offset", "src/scene_tree/mod.rs build_entity"), ("entity centre", "src/geo_builder/entity/mod.rs build")])

p("C08", "Each worldspawn brush lands in exactly one of worldspawn or a layer",
  """A worldspawn brush all of whose faces carry the (known) texture of a configured worldspawn layer appears in that layer's
  node only; every other worldspawn brush appears in worldspawn's own node only; no brush is lost or duplicated and brushes keep their order. Layer nodes come
  directly after worldspawn in configured order (a layer without brushes has no node), and carry the configured name, entity type, script, and exactly the
  configured visual and collision geometry, whether or not the texture is also blacklisted. Brushes of other entities never move to a layer.""",
  ["inputs", "configurations"], "all layer configurations over the explored textures and types, all distributions of textures over faces and brushes explored",
  NOTEST + "A partition law over all texture assignments and layer configurations.", ["src/layer_filter/mod.rs", ST],
  [("partition by texture", "src/layer_filter/mod.rs run"), ("layer node", "src/scene_tree/mod.rs build_worldspawn_layer")])

p("C09", "Declared entity properties are complete and correctly typed",
  """An actor whose class has an FGD definition carries exactly the properties that definition declares (plus the editor's
  id, group, type and name keys when present), each with its declared kind: the map's value when it parses as that kind,
  otherwise the declared default. A vector is three space-separated numbers, a colour is three 0-255 components delivered
  in the 0-1 range, a choice value selects the matching choice by index (an integer that matches no choice is kept as it is), and flags
  stay flags. An actor whose class has no definition carries no properties.""",
  ["inputs", "configurations"], "all property kinds x value texts of the alphabet x presence, all subsets of declared properties explored",
  NOTEST + "Type fidelity for all kinds and all value texts.", [ST, "src/game_data/types/properties.rs"],
  [("typed lookup with default", "src/scene_tree/mod.rs get_entity_properties")])

p("C10", "Actor class, script and geometry kind follow the game data",
  """An actor's entity type, script and property application mode are those of the definition with its classname; without one
  it is a placeholder with no script and no geometry. A point class never has geometry even if it has brushes; a solid
  class has a visual mesh and/or a convex or concave collision node exactly as its definition says (a mesh or concave
  node without faces is omitted), the visual one first.""",
  ["configurations"], "all definition kinds x entity/script/application types x visual x collision x brush counts, with several definitions present in every order",
  NOTEST + "Holds for all configurations.", [ST, "src/game_data/types/entity.rs"],
  [("definition lookup", "src/scene_tree/mod.rs get_entity_type/get_entity_component_class/...")])

p("C11", "Visual surfaces hold exactly the visible faces, once, by texture",
  """The visual mesh of a solid entity has exactly one surface for each known texture carried by a visible face and at most one
  for faces of unknown textures, and each visible face is in the surface of its texture exactly once. Faces whose texture is
  face-blacklisted and brushes all of whose faces are brush-blacklisted are invisible (textures being known ones), and
  blacklists never affect collision.""",
  ["inputs", "configurations"], "all texture assignments and blacklists over the explored brushes",
  NOTEST + "A partition law over texture assignments and blacklists.", [ST, "src/scene_tree/predicates/texture.rs", "src/scene_tree/predicates/brush.rs", "src/scene_tree/predicates/plane.rs", "src/types/texture.rs"],
  [("surface gathering", "src/scene_tree/mod.rs get_brush_entity_visual_geometry")])

p("C12", "Meshes are well indexed and merging keeps every corner's attributes",
  """Every surface has equally many vertices, normals and tangents (and UVs and colours, which it has when all of its faces have them), and indices in groups of
  three that are all in range; concave collision likewise. However equal vertices are merged, every triangle corner still has exactly the
  position, normal, tangent, UV and colour of the face the triangle belongs to, and no surface holds two vertices of one
  brush whose faces agree in all of these.""",
  ["inputs"], "all explored brushes, brush counts, attribute coincidences between faces (same axes, phong, colours)",
  NOTEST + "Index remapping must be right for every coincidence pattern.", [ST, "src/scene_tree/predicates/vertex.rs"],
  [("index offset and remap", "src/scene_tree/mod.rs gather_entity_geometry/gather_brush_geometry/filter_vertices")])

p("C13", "Faces are exactly the polygons of the convex brush",
  """For every closed convex brush, the face of each plane is the polygon that the half-spaces of all its planes cut out of it: same corner
  points up to rounding, none missing, none extra, none outside the brush. The result does not depend on the order of the
  planes, nor on which three points (in the same rotation) define each plane.""",
  ["inputs"], "all lattice polytopes and cut boxes of the explored classes, all plane orders and point choices explored",
  NOTEST + "Quantifies over all convex polytopes.", GEO,
  [("three-plane intersection", "src/geo_builder/brush_plane/vertices.rs intersect_brush_planes"), ("hull test", "src/geo_builder/brush_plane/vertices.rs vertex_in_hull")])

p("C14", "Brush meshes are closed and consistently wound",
  """The triangles of a brush form a closed surface: every edge is shared by exactly two triangles running in opposite
  directions, each triangle is clockwise seen from outside, the triangles of a face cover it exactly once, and together
  they enclose the brush's volume. This holds for visual and concave collision meshes, for any number of brushes per entity.""",
  ["inputs"], "all lattice polytopes and prisms of the explored classes, brush counts explored",
  NOTEST + "A topological law over all polytopes.", GEO + [ST],
  [("angular sort and fan", "src/geo_builder/brush_plane/mod.rs build")])

p("C15", "Texture coordinates follow the Quake and Valve formulas",
  """Standard faces are projected along the dominant axis of their normal (ties prefer z, then x, as in Quake) onto (x,-y),
  (y,-z) or (x,-z), turned by the face's rotation, divided by texture size and by scale, then shifted by offset divided by texture size.
  Valve faces use their own axes' dot products, divided by texture size and scale, plus offset divided by texture size. Faces whose
  texture size is not known have no texture coordinates.""",
  ["inputs"], "all explored normals x rotations x scales x offsets x texture sizes x dialects",
  NOTEST + "A formula that must hold on every face orientation and parameter combination.", ["src/geo_builder/brush_plane/uvs.rs", "src/types/texture.rs"],
  [("paraxial projection", "src/geo_builder/brush_plane/uvs.rs standard_uv"), ("Valve projection", "src/geo_builder/brush_plane/uvs.rs valve_uv")])

p("C16", "Normals are flat, or phong-smoothed within the angle",
  """Without phong shading every vertex normal is the outward unit normal of its face. On an entity with phong switched on ("_phong" "1"),
  the normal at a corner where three faces meet is the normalised sum of the face's own normal and of those neighbours
  whose normals are within the entity's phong angle of it, or of all three when no valid angle is given.""",
  ["inputs", "configurations"], "all explored brushes x phong switch values x angle texts",
  NOTEST + "Holds for all corners, angles and switches.", ["src/geo_builder/brush_plane/normals.rs", "src/geo_builder/brush_plane/mod.rs"],
  [("phong normal", "src/geo_builder/brush_plane/normals.rs vertex_normal")])

p("C17", "Tangents follow the direction in which the texture runs",
  """On every axis-aligned face, and on every Valve face whose axes lie in the face, the tangent points in the direction in which the texture's U coordinate grows, also for
  rotated and mirrored (negative scale) textures, and its sign says whether the texture's V coordinate grows against (+1)
  or along (-1) the cross product of normal and tangent.""",
  ["inputs"], "all six axis-aligned faces and explored slopes x rotations x scale signs x dialects",
  NOTEST + "Must agree with the texture coordinates for all parameter combinations.", ["src/geo_builder/brush_plane/tangents.rs"],
  [("standard and Valve tangents", "src/geo_builder/brush_plane/tangents.rs vertex_tangent")])

p("C18", "Collision geometry mirrors the brushes",
  """Convex collision has one shape per brush of the entity, in brush order, whose points are exactly the corners of that brush, none twice,
  and whose centre is the brush's centre. Concave collision is a single mesh over all brushes and all faces, whatever
  their textures, with one vertex per distinct corner of each brush.""",
  ["inputs"], "all explored brush shapes and brush counts, for both collision kinds, for entities and layers",
  NOTEST + "Holds for all brush sets.", [ST, "src/scene_tree/types/collision_geometry.rs"],
  [("convex points", "src/scene_tree/mod.rs get_entity_convex_collision"), ("concave mesh", "src/scene_tree/mod.rs get_entity_concave_collision")])

p("C19", "Loading is deterministic and has no memory of earlier calls",
  """The result of loading a map depends only on the map text and the configuration, that of reading a WAD or a palette only on the content of the file and
  the arguments, and the file written by saving an FGD only on the definitions: repeating the call, in the same or another process, under any hash seeds, alone
  or after any sequence of other loads, reads, saves and failed calls, on the same or other files by whatever path they are named, and also on a file that was since overwritten or replaced,
  gives the same result with the same order of nodes, surfaces and vertices.""",
  ["histories", "schedules"], "all call sequences up to the explored length over maps and configurations that share names, all explored hash seeds",
  NOTEST + "Hash iteration order and hidden state vary between processes and call histories.", ["src/lib.rs", "src/layer_filter/mod.rs", ST],
  [("ordered layer list", "src/layer_filter/mod.rs run")])

p("C20", "An entity's result depends only on its own text",
  """The actor, properties and geometry built for an entity, and the shape built for a brush, are the same whatever other entities or brushes
  are present before or after it: adding, removing or reordering other ungrouped entities only adds, removes or reorders their
  own actors, and reordering brushes only reorders their own pieces.""",
  ["inputs", "histories"], "all sequences (with repetition) of up to 3-4 entities and brushes drawn from the explored corpora",
  NOTEST + "Non-interference over all combinations.", ["src/geo_builder/mod.rs", "src/geo_builder/entity/mod.rs", ST],
  [("per-entity builders", "src/geo_builder/entity/mod.rs build")])

W = ["src/wad/mod.rs", "src/wad/entry.rs", "src/wad/header.rs", "src/wad/mip_texture.rs", "src/wad/mip_level.rs", "src/wad/palette.rs"]
p("C21", "WAD textures decode exactly as stored",
  """Reading a well-formed WAD2 or WAD3 file returns, in directory order, every stored texture with its lower-cased name, size, mip offsets, and
  the pixel indices of as many mip levels as were asked for (1 to 4), each the level's own bytes; WAD3 textures also carry their
  own 256-colour palette and WAD2 textures none. This holds whatever the order and gaps of the lumps and the position of the directory in the file.""",
  ["inputs", "configurations"], "all explored WAD layouts (type, texture count, sizes, lump order, gaps, directory position, lump types) x mip levels",
  NOTEST + "Offset arithmetic must be right for every layout.", W,
  [("offset arithmetic", "src/wad/mod.rs read_directory/read_mip_textures/read_mip_data")])

p("C22", "Parallel WAD decoding is independent of the schedule",
  """Whatever the number of worker threads and however their file operations interleave, reading a WAD gives the same textures in
  the same order with each texture paired with its own pixels and palette, and reading a damaged WAD fails under every schedule (which of several damaged textures the error names may differ).""",
  ["schedules"], "all interleavings of the workers' file operations and allocations up to the preemption bound, on 2-3 concurrent textures",
  NOTEST + "Tests see one schedule per run.", ["src/wad/mod.rs"],
  [("one private file handle per task, ordered collect", "src/wad/mod.rs read_mip_data")],
  hook=None)

p("C23", "File I/O faults are absorbed or reported, never turned into wrong data",
  """When the operating system delivers file data in short or interrupted reads, maps, WADs and palettes load, and maps compare, exactly as usual.
  When an open, seek or read fails, the call returns an error; it never panics and never returns or prints partial or shifted data.""",
  ["fault_sequences"], "every single fault and every explored pair of faults at every file operation of the load",
  NOTEST + "Tests never see a failing or short read.", ["src/lib.rs"] + W,
  [("read_exact / read_to_string and error propagation", "src/wad/mod.rs")])

p("C24", "A damaged WAD or palette is an error, never a crash or wrong data",
  """A WAD or palette file that ends before the data asked for, has the wrong magic, or has header, directory or texture fields that put the
  directory, or the header, pixels or palette of a texture asked for, outside the file is reported as an error (damage to fields and textures that are not
  asked for may be). Reading it never panics, overflows, exhausts memory or returns textures other than those stored in the file.""",
  ["inputs", "crash_points"], "every truncation point and every boundary-value corruption of every integer field (and pairs of fields) of the explored WADs, at every mip level",
  NOTEST + "Quantifies over all damaged files.", W,
  [("error returns", "src/wad/mod.rs")])

p("C25", "The texture filter selects exactly the requested textures",
  """Reading with a list of names returns exactly the textures whose stored names are in the list, in directory order, each as it is returned without a
  list; names that are not stored are ignored, and an empty list selects nothing. Directory entries that are not textures are never returned.""",
  ["inputs", "configurations"], "all name lists up to the explored length (with repetitions and absent names) over all explored directories of textures and other lumps",
  NOTEST + "Holds for all lists and directories.", ["src/wad/mod.rs"],
  [("type and whitelist filter", "src/wad/mod.rs read_directory")])

p("C26", "RGB conversion maps every pixel through the right palette",
  """Converting a texture to RGB replaces each index of each mip level by the palette entry with that number and keeps name, size and which
  mip levels exist: with its own palette if it has one, else with the supplied one, and with an error if there is neither.
  A palette file gives entry i from its bytes 3i, 3i+1 and 3i+2.""",
  ["inputs", "configurations"], "all 256 indices at every mip level x own/supplied/no palette x mip levels x palette file lengths",
  NOTEST + "All indices, levels and palette sources.", ["src/wad/mod.rs", "src/wad/mip_data.rs", "src/wad/palette.rs", "src/wad/color.rs"],
  [("palette lookup", "src/wad/mip_data.rs MipDataRGB::from_indexed")])

F = ["src/game_data/forge/game_data.rs", "src/game_data/forge/entity.rs", "src/game_data/forge/property.rs", "src/game_data/forge/metadata.rs", "src/game_data/forge/choice.rs", "src/types/color.rs"]
p("C27", "A generated FGD says exactly what the definitions say",
  """Parsing the generated FGD text gives back the game's name, includes, and all class definitions in order with kind, bases, colour, size, name,
  description and every property with its kind, the descriptions and default that its FGD form has, choices (value and label, in order) and flags (one bit per flag in order, marked on
  exactly when set in the default, up to 32 flags).""",
  ["inputs", "configurations"], "all definitions over the explored kinds, values, metadata combinations and list lengths",
  "The tests compare single literals; the round trip must hold for all definitions and all sequences of them.", F,
  [("text rendering", "src/game_data/forge/property.rs ToString")], observe=["text of the generated FGD"])

p("C28", "Saving an FGD reports success only when the file is complete",
  """When saving reports success the file holds exactly the generated text, replacing any earlier content, even if the operating
  system accepts the data in short or interrupted writes; when the file cannot be created or any write fails, saving reports an error.""",
  ["fault_sequences"], "every single fault and every explored pair of faults at every file operation of a save, over new, longer, shorter and unwritable targets",
  "No test saves a file, let alone under write faults.", ["src/game_data/forge/game_data.rs"],
  [("write_all", "src/game_data/forge/game_data.rs save")], observe=["file content and return value of save"])

p("C29", "FGD defaults and map decoding agree",
  """For every declared property, writing the default that the generated FGD shows into a map gives the same property value as leaving
  the key out; and selecting any choice (of distinct values), any combination of up to 31 flags or any 0-255 colour offered by the FGD gives the value that stands for it.""",
  ["inputs", "configurations"], "all property kinds x defaults of the explored alphabets, all choices and flag sets",
  "The tests look at FGD text only, never at what a map using it decodes to.", ["src/game_data/forge/property.rs", ST, "src/types/color.rs"],
  [("FGD default text", "src/game_data/forge/property.rs ToString"), ("typed lookup", "src/scene_tree/mod.rs get_entity_properties")])

p("C30", "A map diff is a correct and minimal edit script",
  """The lines a diff reports, in file order, as removed and added turn the first file's line sequence into the second's: what is left of the first
  after the removals is, in order, what is left of the second without the additions. No more lines are reported than necessary, two files with
  the same lines have an empty diff, and any two readable files (also empty ones) can be compared.""",
  ["inputs"], "all pairs of line sequences up to the explored length over an alphabet of every kind of line",
  "No test calls the diff.", ["src/lib.rs", "src/map/quake/tokenizer.rs"],
  [("longest common subsequence", "src/map/quake/tokenizer.rs diff_tokens")], observe=["text printed by the public diff call"])

p("C31", "Planes and brushes that bound nothing add nothing",
  """Adding planes to a closed convex brush that it does not need (planes that miss it, or touch it in no more than an edge or a corner) leaves, without
  phong shading, its faces, its convex and concave collision, the centre of its shape and the position of its entity as they are, and
  adds no surface and no vertex, wherever and however often the planes are listed. Neither does a brush that encloses nothing (that has no face)
  add surfaces, faces or points, or move the entity it belongs to.""",
  ["inputs"], "all explored brushes x planes through their edges and corners and outside x places in the list, alone, in pairs, all together and repeated, x brushes without faces",
  NOTEST + "Holds for every brush and every idle plane.", GEO + ["src/geo_builder/entity/mod.rs", ST],
  [("faces of at least three corners", "src/geo_builder/brush_plane/mod.rs build"), ("centre of the faces", "src/geo_builder/brush/mod.rs build, src/geo_builder/entity/mod.rs build")])

p("C32", "Whatever the brushes, the geometry is well formed",
  """For every map that loads, with any brushes of finite moderate coordinates (within 5000 units) and non-zero texture scales: empty, unbounded, inside out, contradictory, with
  repeated or degenerate planes. Every surface and concave collision shape has at least one triangle, triangles of three different vertices
  in range, and no vertex without a triangle; its vertex attributes are equally many; all positions, texture coordinates, tangents and
  colours are finite numbers and normals have length 1; no two surfaces of a mesh have the same texture; and no vertex or collision point lies in front of
  a plane of its brush.""",
  ["inputs"], "all subsets of 16 planes (box faces, inverted, repeated, cutting, touching, degenerate, far ones) and all short sequences of them, x texture layouts, phong, layers, collision types and trailing fields",
  NOTEST + "Quantifies over every brush, also those no editor would write.", GEO + [ST],
  [("vertices, fan and centre of a face", "src/geo_builder/brush_plane/mod.rs build"), ("degenerate planes", "src/geo_builder/brush_plane/vertices.rs intersect_brush_planes"), ("index remap", "src/scene_tree/mod.rs gather_brush_geometry")])

p("C33", "Configuration that the map does not use changes nothing",
  """Adding to a configuration texture sizes, blacklisted textures, worldspawn layers, entity definitions or FGD classes whose name no face or entity of the map
  carries (for textures: ignoring case) leaves the loaded tree exactly as it was, however similar the names are to ones the map
  uses, however many entries are added, and wherever in the lists they stand.""",
  ["configurations"], "all single additions (kind x name derived from each used name x place in the list), pairs of them, and up to thousands at once, to configurations of several maps",
  "Existing tests use one fixed configuration; non-interference quantifies over all additions to it.", ["src/lib.rs", "src/layer_filter/mod.rs", ST, "src/scene_tree/predicates/texture.rs", "src/types/texture_info.rs"],
  [("lookups by exact name", "src/scene_tree/mod.rs get_entity_*"), ("layer assignment", "src/layer_filter/mod.rs run")])

p("C34", "The place of a key/value line in its entity does not matter",
  """Permuting the key/value lines of an entity (distinct keys), and moving them before, between or behind the entity's
  brushes, leaves the loaded tree exactly as it was.""",
  ["inputs"], "all arrangements of the key/value lines and brushes of entities with up to 6-7 of them, for one entity and for two at a time",
  NOTEST + "Quantifies over all arrangements.", ["src/map/quake/parser.rs", "src/map/quake/tokenizer.rs", ST],
  [("collection of properties", "src/map/quake/parser.rs")])

p("C35", "Calls made at the same time do not disturb one another",
  """Calls made at the same time from different threads (loading maps, reading WADs and palettes, converting pixels, saving FGDs to different files,
  comparing maps), also when several read the same file, each give exactly the result they give alone, and all of them return,
  however the operating system interleaves the threads.""",
  ["schedules"], "all ordered pairs of calls from a list of different ones x all points (memory allocations, file operations, lines of output) at which one thread stops and the other goes on, with one or two such changes",
  NOTEST + "Quantifies over every interleaving of two callers; the tests call one function at a time.", ["src/lib.rs", "src/game_data/forge/game_data.rs"] + W + [ST],
  [("no state shared between calls", "src/lib.rs, src/scene_tree/mod.rs"), ("decoding on the shared thread pool", "src/wad/mod.rs")])

p("C36", "A call leaves nothing behind when it returns",
  """When a call has returned, with a result or with an error, and also when a file operation failed, it has left no open file, no thread of its own,
  no changed working directory, environment or file mode mask, and no file that is new, changed or touched except the one
  a save was asked to write; and repeating a call does not make the process hold more and more memory.""",
  ["histories", "fault_sequences"], "all sequences of up to 2-3 calls from a list of different ones, with every single file fault; and each call, with every single fault, repeated hundreds of times",
  NOTEST + "Leaks show on error paths and over many calls, neither of which the tests exercise.", ["src/lib.rs", "src/game_data/forge/game_data.rs"] + W,
  [("files closed and buffers dropped on every path", "src/wad/mod.rs, src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
