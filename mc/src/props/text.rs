//! What each check enumerates, for the evidence files.
pub struct About {
    pub rule: &'static str,
    pub quick: &'static str,
    pub thorough: &'static str,
    pub assumptions: &'static [&'static str],
}
const GEO: &[&str] = &[
    "corners are compared with an exact integer half-space model; tolerance 1e-3 to 2e-2 units growing with the extent of the brush",
    "brushes are the enumerated families (lattice polytopes, cut boxes, prisms, the gallery of 12 solids, boxes from 1/16 unit thin to 2000 long, the gallery at 1/4 to 1/256 of its size, needles, shallow roofs); corners nearer than 4 tolerances to one another, or where every three planes have a determinant (of unit normals) below 2e-5, are left out",
];
pub fn about(id: &str) -> About {
    let a = |rule, quick, thorough, assumptions| About { rule, quick, thorough, assumptions };
    match id {
        "C01" => a(
            "line sequences over {open, close, key/value, classname world/other, face, comment, blank}, walked by an independent scope automaton; distinct = the symbol sequence; every case is loaded and accepted/rejected and its entities, brushes and faces compared",
            "all sequences of up to 9 structural lines and of up to 7 with comments and blank lines between (one deviation from the legal continuations per sequence, then the following line and end); entity, brush, face and key counts 1-70 whole and with the end cut off; 255-300 of each; 65537 and 66000 entities, keys, empty brushes; 8 well-formed maps with every one or two line insertions, removals, swaps and cuts",
            "up to 12 lines, 8 with comments, two deviations; counts up to 200",
            &["face lines denote tetrahedra placed by line number, so that each is recognisable in the result"],
        ),
        "C02" => a(
            "malformed inputs by kind; a case passes when loading returns (a tree or an error) within 60 s without panic, abort or signal; distinct = the text or its parameters",
            "all sequences of up to 4 of 15 odd lines; every truncation and single-byte edit (15 bytes x replace/insert, remove, non-UTF-8) of 4 maps; every field of 4 face lines x 26 corruptions, first four also in pairs; degenerate planes (subsets of 11, all point triples of 6, extreme magnitudes); all id/group triples; group chains, rings, stars to 5000; 16 keys x 20 texts in pairs; odd files x 4 configurations; names of one, two and three odd characters as texture, class, key, value and editor key; generated long sequences",
            "sequences of 5 lines, pairs of all corruptions, larger subsets, groups to 20000, all pairs of texts",
            &["the output for malformed maps is not judged, only that there is one", "dropping trees nested deeper than 40000 levels is not explored (Rust's recursive drop)"],
        ),
        "C03" => a(
            "insertion of comment and blank lines and choice of line ends in representative maps; the tree is compared bit for bit with the plain text's",
            "18 trivia lines at every line of 4 maps (one, two, everywhere), all LF/CR LF choices by pattern, final line end present or not; all comment texts of up to 2 of the signs that mean something elsewhere, and a list of remarks, at every scope",
            "as quick, with all pairs of insertion points",
            &["white space before the first character of a line is not part of the statement"],
        ),
        "C04" => a(
            "key/value line sequences on entities whose definitions declare every key as text; every actor's properties are compared with the texts written",
            "sequences of up to 4 lines over 3 keys x 3 values x 2 entities; all 8 keys x 26 values x second line x separators; triples of values; up to 70x3 lines in 3 entities; all texts of up to 2 signs as key and as value; texts up to 70000 characters; 12 classnames; 190 texts and names that mean something elsewhere (signs, numbers, words, editor and engine names, unusual letters, field lengths) with up to 40 relatives each (other case, prefixes, suffixes, one sign more, less or changed) as keys, values, classnames and worldspawn's keys",
            "sequences of 5, triples over all 26 values, up to 300x3 lines",
            &["a value holding a double quote is outside the format"],
        ),
        "C05" => a(
            "face lines in 3 dialect mixes on 2 (5) solids; the faces' corners, texture coordinates and vertex colours are compared with the decoded meaning, other lines must be rejected",
            "trailing-field counts 0-9 alone, per face and mixed x field texts; 11 number notations at every field; 4 kinds of blank space at every gap; every letter case of 14 texture names; 160 names that mean something elsewhere; 12 non-numbers at every field; every number changed alone",
            "5 solids, all field texts, longer names",
            &["a Standard line whose texture offset is not numeric but which has 10 or more further fields reads as Valve 220 and is not judged"],
        ),
        "C06" => a(
            "assignments of ids and groups; the whole tree is matched against the allowed parents of each entity (repeated ids and circles allow more than one, but each entity exactly once)",
            "0-3 entities x all ids of {none,1,2,3} x groups of {none,1,2,3,9} x world position and its ids; 0-5 entities with own ids x all group graphs; chains, trees, stars, rings of 1-80; 12 id texts in all roles; 12 classnames, and all texts of the list of names (C04) and relatives of worldspawn, that resemble worldspawn's or func_group's",
            "4 entities, 6 entities, sizes to 150",
            &["where ids repeat or group links are circular the statement leaves the place open; only presence, order and finiteness are judged there"],
        ),
        "C07" => a(
            "entity trees x placements (16 combinations of origin texts and brush counts); sums of origins along each path and geometry positions are compared with the model",
            "all trees of worldspawn and 2 entities x all placements x file orders; 4 entities x 4 placements; chains to depth 16; all shapes x sizes x permutations; 4-69 and up to 513 brushes in one entity; 14 origins from 1e-50 to 3e30 in all spellings, above and under 30 other placements",
            "3 entities, 5 entities, chains to depth 40",
            GEO,
        ),
        "C08" => a(
            "layer configurations x textures of brushes; every layer and worldspawn must hold exactly its brushes, in order, in the configured form",
            "all sequences of up to 3 of 4 layers x up to 3 brushes with 6-10 texture patterns; all attributes of 1 and 2 layers; up to 30 brushes in cyclic patterns; 8 sets of texture names that resemble each other x orders x up to 2 brushes of 10 patterns; 63-300 brushes; 1-257 layers, with and without gaps; 160 odd texture names, and 190 odd layer names, classes, prefab paths and scripts (the empty one too); 1-3 layers whose textures are brush-, face- or twice blacklisted",
            "4 brushes; up to 60 brushes",
            &["a layer without brushes has no node; a layer configured without visual and collision may have one or not", "two layers with the same texture are outside the statement"],
        ),
        "C09" => a(
            "property kinds x value texts x presence; the actor's properties are compared with an independent decoding",
            "all pairs of the 9 kinds x texts x declaration order; all subsets of declared kinds x present keys; class sequences of up to 3 with all orders of definitions; editor keys (also as declared properties of every kind) and undeclared keys; flags and choices lists; 190 odd texts as values, property names and class names; integers and decimals near every power of two and ten; colours with fractions",
            "sequences of 4, second variants of defaults, all subsets of 9 present keys",
            &["vector texts with extra components are not judged", "choice values are pairwise different"],
        ),
        "C10" => a(
            "definition kinds x entity/script/application types x visual x collision x brush counts, several definitions in all orders",
            "single definitions x brush counts 0-3; pairs of definitions x entity pairs; orders of 3 definitions; 190 odd texts as class names, entity classes, prefab paths and scripts",
            "larger products of the same",
            &["two definitions with the same classname are outside the statement"],
        ),
        "C11" => a(
            "texture assignments to faces x blacklists; surfaces are matched with the visible faces by geometry, each once",
            "one box x 4^6 assignments x 16 blacklists; two tetrahedra x 3^8 assignments x blacklists; up to 24 textures x 8 brushes, with every 2nd to 4th texture blacklisted; 63-300 textures; 9 sets of names that resemble each other, each unknown, known or blacklisted; 160 odd names beside up to 12 relatives each in all such states; solids of 4-33 faces of which one or two (or all but those) differ",
            "5^6 assignments, three tetrahedra, 40 textures x 16 brushes",
            &["blacklists naming unknown textures are outside the statement"],
        ),
        "C12" => a(
            "attribute coincidences between faces; every triangle corner of the merged mesh is compared bit for bit with the same face's corner in a mesh where every face has its own texture",
            "4 mapping dialects x 4 phong settings x 6 colourings (also white, black and on some faces only) x 4 texture splits x rotations x brush sets; texture axes, offsets, rotations, scales and colours of neighbouring faces that differ by 1e-4 to 1, on solids with right and with very small face angles; 2760 boxes in one surface (more vertices than a 16-bit index counts)",
            "more and larger brush sets, up to 11000 boxes",
            &["a surface that mixes coloured and uncoloured faces carries no colours (documented optional field); its vertices may differ in the colour that is dropped"],
        ),
        "C13" => a(
            "convex brushes by family; every face's corners are compared with the exact polygon of the half-space model",
            "lattice polytopes of 4 and 5 points of the 3x3x3 grid and 6 of the 2x2x2 grid, boxes with up to 2 cuts, prisms and pyramids of 3-32 sides, the gallery at 6 scales (to 700 times) in 6 orientations at 7 places (to 90000 units away) and at 1/4 to 1/256 scale; boxes of all triples of 7 edge lengths from 1/16 to 2000; needles; shallow roofs; prisms and pyramids of 63-130 sides; balls of tangent planes; all plane orders of solids of up to 6 planes; every corner triple as plane points",
            "larger lattice families, 3 cuts, orders of 7 planes",
            GEO,
        ),
        "C14" => a(
            "the families of C13 and sets of 1-3 brushes; edge pairing, winding, coverage and enclosed volume of the triangles are checked, for visual and concave meshes",
            "6 texture/geometry modes x 3 phong settings x families or brush sets x worldspawn/solid; 2760 boxes in a visual, 8200 in a concave mesh",
            "larger families",
            GEO,
        ),
        "C15" => a(
            "projection axes x rotations x scales x offsets x texture sizes x dialects, with neighbouring faces given neighbouring parameters; every vertex's coordinate is compared with the formula evaluated in double precision",
            "12 solids x 6 orientations x 3 dialect mixes x all combinations of the parameter lists (8 rotations, 7 scales from 1/1000 to 4096, 4 offset pairs to 65536, 6 texture sizes to 65536); boxes cut by 16 planes whose leading axes differ by 1/20 to 1/2000",
            "longer parameter lists, 2 places",
            &["scales of zero are outside the statement"],
        ),
        "C16" => a(
            "solids x phong switch texts x angle texts; every normal is compared with the sum over the neighbours within the angle",
            "6 switch texts x 24 angle texts x gallery (6 orientations x places), boxes with 1 cut, 5-point lattice polytopes; brush sets in entities, worldspawn and layers beside entities with other settings",
            "all families of C13",
            &["corners where more than three faces meet are not judged under phong", "angles within 0.05 degrees of a face angle but not equal to it are left out"],
        ),
        "C17" => a(
            "faces x rotations x scale signs x dialects; the tangent is compared with the gradient of the texture coordinate formula",
            "gallery in 6 orientations x rotations x scales x 12 Valve skews and lengths x known/unknown/other texture size",
            "several places",
            &["for Standard faces only axis-aligned ones are judged, as in the statement"],
        ),
        "C18" => a(
            "brush sets x host (entity, worldspawn, layer) x textures; points of each convex shape and of the concave mesh are matched with the exact corners",
            "2 collision kinds x 3 hosts x 4 texture looks x 3 extras x families or brush sets of 1-3; 8200 boxes",
            "larger families",
            GEO,
        ),
        "C19" => a(
            "call histories before a load; the result must equal, bit for bit and in order, that of the load alone in a process of its own; hash seeds come from an interposed getrandom",
            "9 calls (4 loads, 3 WAD reads, a palette, an FGD save) x all histories of up to 2 of 18 calls x 4 hash seeds, of 3 calls, 512 hash seeds, files overwritten or replaced, repetition; 15 other names of and ways to the file (links, relative paths, `.`, `..`, `//`, quotes, line ends); in processes of their own, so that they are the first calls of all: every call, every pair of calls, and calls with 70-1100 textures, classes, keys, layers and FGD classes no target has",
            "histories of up to 3 x 8 seeds, of 4, 4096 seeds",
            &["histories run in one thread; calls at the same time: C35, the thread pool: C22"],
        ),
        "C20" => a(
            "sequences with repetition of entities and of brushes; each piece is compared bit for bit with what it is alone",
            "1-4 of 10 entities x worldspawn with and without brushes x its position; 1-4 of 10 brushes x 3 classes x 3 phong settings; pairs of 20 entities and of 10 brushes that are the same but for one thing",
            "1-5 of each, triples of the near-twins",
            &["visual and concave pieces are compared as multisets of triangles with all corner attributes, convex shapes in order"],
        ),
        "C21" => a(
            "WAD layouts; the textures read are compared with those the file was built from",
            "1-3 textures x 6 side lengths x lump orders x gaps x directory position x other lumps x name texts x 1-4 levels x WAD2/WAD3; names with every byte beyond ASCII; textures to 1024x1024; sparse files with the directory, textures or the last level behind 2 GiB and just below 4 GiB",
            "more lumps and sizes",
            &["widths and heights are multiples of 8, as the format needs for its four levels", "bytes of a name beyond ASCII are Latin-1 characters"],
        ),
        "C22" => a(
            "schedules of the pool threads: they stop at every file operation on the WAD (and allocation), a controller lets one run on; plans of up to two preemptions at every point are enumerated; plus free runs over all pool sizes",
            "2-3 textures x WAD2/WAD3/first, last or both damaged x 1 or 4 levels x up to 2 preemptions at the first 36 file operations, 1 at the first 100 points with allocations; pools of 1-8 threads",
            "2 preemptions at the first 60 file operations and 160 points with allocations",
            &["work stealing inside rayon between scheduling points is not controlled, so the number of runs that reach a preemption varies slightly"],
        ),
        "C23" => a(
            "fault plans over the file operations of a load (errno, short, half, all but one byte, zero); non-trivial = every planned operation happened; wrong data or success after a hard error is a violation",
            "every single fault of 9 kinds and every pair of 6 kinds at every operation of 4 maps, 4 WADs, 1 palette and 2 comparisons; the same fault at every 1st-3rd operation; 4-101 interruptions on end from every operation on",
            "pairs of all 9 kinds",
            &["a zero-byte read of a map is the same as a shorter file and not judged", "errors of seek operations may be reported or not, but never give wrong data"],
        ),
        "C24" => a(
            "damaged WADs and palettes: truncations and field values; a reader of our own decides which outcomes are right (error, exact textures, or either when the field is not used)",
            "every truncation of 6 WADs x 4 levels; every integer field x 30 boundary values, pairs of fields of the header, directory and a texture; magics with any one byte changed, two bytes changed, in other letter case and order; palettes of 0-1600 bytes; address space limited to 3 GB",
            "pairs over all values and levels; palettes to 4000 bytes",
            &["fields the reader has no use for, and textures not asked for, may be damaged with either outcome"],
        ),
        "C25" => a(
            "name lists x directories; the result must be the sub-sequence of the unfiltered result",
            "all lists of up to 4 names (with repetitions and absent names) over directories of 1-4 lumps of all types; pairs of 14 names that resemble each other x lists of 1-2 of them; 80 odd names beside all their relatives",
            "longer lists and directories",
            &["names are looked up byte by byte as stored"],
        ),
        "C26" => a(
            "indices x levels x palettes; every pixel is compared with the palette entry",
            "9 names x 4 sizes x 4 patterns covering all 256 indices x 4 level counts x 7 own x 10 supplied palettes (also of dark colours only); palette files with trailing bytes; WAD to RGB for 1-4 textures",
            "6 sizes x 8 patterns; 1-6 textures",
            &[],
        ),
        "C27" => a(
            "definitions by kind; the FGD text is read by a parser of our own and compared field by field",
            "3 class kinds x metadata sequences of up to 3 of 7 x names x descriptions; 9 property kinds x values x 9x9 descriptions; choice lists of up to 3 of 11 values x default; 0-32 flags x 69 marks, all marks of up to 8 flags; property sequences of up to 4; class sequences of up to 3 x includes x names; 14^3 vectors, 256 colour values; 190 odd texts in each of 9 quoted places and 70 odd words in each of 4 places of names",
            "metadata and class sequences of 4, choice lists of 4, 12 flags, property sequences of 5",
            &["texts hold no double quotes or line breaks, which the format cannot express", "a choice default is the index of a choice", "a colour between two 0-255 steps may be shown as either"],
        ),
        "C28" => a(
            "fault plans over the file operations of a save; non-trivial = every planned operation happened; success is compared with the file's content",
            "4 sizes (20 bytes - 200 KB) x 6 earlier contents x every single fault of 9 kinds, every pair, triples in a row, the same at every 1st-3rd operation; a directory, a missing folder, names too long or with a NUL, a path through a file as target; the kernel's limit on file sizes at 0 and at half of the text",
            "as quick; saves take few operations, so all pairs are covered already",
            &["what a file holds after a reported error is not judged", "errors of close are not observable through the standard library"],
        ),
        "C29" => a(
            "definitions; the default text the FGD shows is written into a map and decoded, and compared with leaving it out; every choice, flag set and colour is decoded",
            "9 kinds x values; property sequences of up to 4; 14^3 vectors; 256 values per colour component; choice lists of up to 3 distinct values x default x selection; 190 odd choice values and text defaults; up to 5 flags x all defaults x all selections, 1-31 flags",
            "property sequences of 5, choice lists of 4, 7 flags",
            &["colour defaults are multiples of 1/255, others cannot be shown exactly", "choice values are pairwise different", "the 32nd flag is not representable as a map integer"],
        ),
        "C30" => a(
            "pairs of line sequences; the diff printed is parsed and checked to be an edit script of minimal length by a reachability search and an LCS of our own",
            "all pairs of up to 3 lines of 6, up to 5 of 2, up to 4 of 3; up to 2 of 10 with all line ends; all pairs of 30 nearly equal lines in 9 arrangements; 190 odd texts against their relatives as key, value, comment, texture and bare line; one or two edits at every place of files of 1-40 lines; runs of 1-1100 lines removed, added, doubled, replaced or moved in files of 60-300 lines; whole maps; unreadable files",
            "up to 4 lines of 6, 7 of 2, 5 of 3",
            &["lines are told apart as the loader tells them apart; the report is in file order"],
        ),
        "C31" => a(
            "gallery solids x planes that bound nothing (through edges and corners, outside) x their place in the list; faces, collision, centres and entity position are compared with the exact model of the solid without them",
            "12 solids x every idle plane of the pool (3 per edge, 1 per corner, 1 per face and one oblique outside) at 3 places, all pairs, all together, repeated 2-4 times; hosts: own textures with convex, one texture with concave, a layer; with another brush, with a brush that encloses nothing (7 kinds), 3 placements",
            "every place, pairs at 3 places on every host, every kind of empty brush with each",
            GEO,
        ),
        "C32" => a(
            "brushes of odd planes; the result is checked for well-formedness and for sticking out of the planes",
            "all subsets of 16 planes (6 box faces; inverted, repeated, edge-touching, corner-cutting, parallel, collinear, two equal points, one point, through the middle, far away) and all sequences of up to 4 of them, x own textures, one texture, phong, a layer, mixed trailing fields, x convex/concave, x Standard/Valve, also with axes without a length, very long, very short and parallel ones",
            "sequences of up to 5, both dialects throughout",
            &["duplicate planes give duplicate faces, which is not judged"],
        ),
        "C33" => a(
            "additions to a configuration that no name of the map refers to; the tree must equal, bit for bit, the one without them",
            "4 maps (one of them of names nothing is known about) x 7 kinds of entry (texture size, brush and face blacklist, layer, solid and point class, FGD class) x up to 150 relatives of every name in use (other case, all prefixes and suffixes, pieces between separators, one sign more, less or changed) and 26 names with a meaning of their own x 3 places in the list; pairs of kinds; 10-3000 entries of every kind",
            "all pairs of variants for all pairs of kinds",
            &["the library looks texture names up in lower case; names with capitals are not added to texture lists"],
        ),
        "C34" => a(
            "arrangements of an entity's key/value lines and brushes; the tree must equal, bit for bit, that of the plain arrangement",
            "all arrangements of up to 6 keys and 2 brushes for each of 6 entities; all pairs of arrangements by rule for two entities at a time",
            "up to 7 keys and 3 brushes",
            &["brushes keep their order among themselves"],
        ),
        "C35" => a(
            "ordered pairs of library calls on two host threads in a process of their own x the points at which the scheduler stops one and lets the other go on; each result must equal, bit for bit, that of the call alone",
            "15 x 15 calls (maps with the same names and other values, malformed and missing files, WAD2/WAD3, palettes, RGB, saves, diff; the same file where both only read it): the first stopped at every memory allocation and file operation while the second runs whole; both stopped at every pair of file operations and lines of output (2 preemptions); both stopped at every pair of points where neither call has more than 64",
            "a third preemption at file operations and output, every pair of points up to 400 per call",
            &["threads switch at file operations, output and memory allocations", "decoding tasks of one WAD against each other: C22"],
        ),
        "C36" => a(
            "sequences of library calls in a process and directories of their own x file faults; after each call what it left behind is compared with what was there",
            "15 calls alone with each of 5 faults at each file operation, pairs of calls with EIO at one operation; each call, and each with EIO at each operation, 320 times (WADs 1920) with the memory held counted",
            "triples of calls, 5 faults in pairs, 3 in repetitions",
            &["what a process does once (a thread pool, a table) is not left behind by a call", "memory of identical calls; a bounded store of different results is not judged"],
        ),
        _ => a("", "", "", &[]),
    }
}
