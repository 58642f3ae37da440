"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""


def P(id, title, statement, over, text, why, files, mech):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/cwl_utils/" + f for f in files],
                     mechanism=[dict(name=n, where="src/cwl_utils/" + w) for n, w in mech]),
    )


PROPS = [
    P("C01", "Text with embedded expressions is split, unescaped and assembled exactly",
      "For every text, the embedded $(...) and ${...} expressions are found exactly as the CWL rules delimit them (nesting, quotes, backslashes), each is evaluated once, in order, on exactly its own text, and an unterminated one is rejected. "
      "When the expression is the whole text the result is its value itself; otherwise the result is the text with string values inserted verbatim and every other value inserted as JSON with sorted keys. "
      "Escapes follow the rule of the document's version: up to v1.1 a backslash yields the next character, from v1.2 only a backslash before a backslash or before the start of an expression is special.",
      ["inputs"], "every text, escape rule, whitespace option and evaluated value",
      "The tests try about thirty fixed strings; the scanner is a stack automaton whose faults need specific sequences of quotes, escapes and brackets.",
      ["expression.py"],
      [("scanner", "expression.py:scanner"), ("interpolation and escapes", "expression.py:interpolate")]),
    P("C02", "A parameter reference yields exactly the value it navigates to, or an error",
      "For every parameter reference (segments .name, ['name'], [\"name\"], [n] and a final .length on a list) and every evaluation context, the result is exactly the value reached by following the segments from inputs, self or runtime; (null) is null. "
      "A reference whose segment does not exist, is out of range or does not fit the value is never answered with some value nor with a stray crash: without JavaScript it is an expression error, with JavaScript enabled the text goes to the JavaScript engine.",
      ["inputs"], "every reference text and every context value",
      "The tests follow a handful of paths; wrong answers need particular mixes of segment forms, keys, list lengths and File or Directory objects.",
      ["sandboxjs.py", "expression.py", "types.py"],
      [("segment walk", "sandboxjs.py:NodeJSEngine.regex_eval"), ("dispatch", "expression.py:evaluator"),
       ("reference grammar", "sandboxjs.py:param_re, segment_re")]),
    P("C03", "Expression evaluation is gated and set up by the document alone",
      "Evaluating a value that contains no expression returns it unchanged; a string with an expression is evaluated with inputs, self and runtime bound to the given job, context and resources, with every byte string in them (at any depth) presented as text. "
      "JavaScript is enabled exactly when an InlineJavascriptRequirement is present, with the library of the last one; the engine receives strict-mode code that returns the expression or runs the function body, the escape rule follows the document's version, and the caller's timeout is passed on. "
      "Every failure while evaluating surfaces as a workflow error and never as a value.",
      ["inputs", "configurations"], "every value, job object, requirement list and version",
      "The tests use one or two requirement lists; the order of requirements, the versions and the shape of the job are all free.",
      ["expression.py", "sandboxjs.py", "utils.py"],
      [("do_eval", "expression.py:do_eval"), ("library preamble", "expression.py:jshead"),
       ("code wrapping", "sandboxjs.py:code_fragment_to_js"), ("bytes to text", "utils.py:bytes2str_in_dicts")]),
    P("C04", "Link type compatibility is the CWL assignability relation",
      "For every pair of types, a source is reported compatible with a sink (pass), partly compatible (warning) or incompatible (exception) exactly according to the CWL rules: Any matches everything, arrays by their items, records by the sink's fields, enums by their symbols, unions strictly (all members) for pass and leniently (some member other than null) for warning, and everything else by equality. "
      "With linkMerge merge_nested the source counts as an array of its type, with merge_flattened as an array of itself unless it is an array already, a sink with valueFrom always passes, and an unknown linkMerge is rejected.",
      ["inputs"], "every pair of types up to a nesting bound, every linkMerge and valueFrom",
      "The tests check about a dozen pairs; the relation is recursive over unions, arrays and records and its faults need particular nestings.",
      ["parser/utils.py"],
      [("assignability", "parser/utils.py:can_assign_src_to_sink, _compare_records"),
       ("verdict", "parser/utils.py:check_types"), ("flattening", "parser/utils.py:merge_flatten_type")]),
    P("C05", "The inferred type of a source or step port is the one its declaration implies",
      "For every process and workflow, the type inferred for a source name, a step input or a step output is the declared type of the parameter that name denotes, wrapped once per scatter (one array level per scattered parameter for nested_crossproduct), with linkMerge and pickValue applied. "
      "With several sources the result covers each source's type and no type that no source has; a step input with valueFrom is Any, and a name that denotes nothing is an error. The same holds in v1.0, v1.1 and v1.2.",
      ["inputs", "configurations"], "every workflow with its scatter, scatterMethod, linkMerge, pickValue and source lists, in all three versions",
      "The tests infer types on about thirty fixed workflows; scatter, merge, union and source-list combinations multiply.",
      ["parser/utils.py", "parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py"],
      [("type_for_source", "parser/cwl_v1_2_utils.py:type_for_source"), ("step ports", "parser/cwl_v1_2_utils.py:type_for_step_input, type_for_step_output"),
       ("lookup", "parser/utils.py:param_for_source_id")]),
    P("C06", "The static checker reports every incompatible link and no compatible one",
      "For every workflow, static checking fails exactly when some link from a workflow input or step output to a step input or workflow output has incompatible types, taking scatter, linkMerge, valueFrom and, from v1.2, pickValue, conditional steps and loops into account, or when a link names a source that does not exist. "
      "The verdict depends neither on the order in which steps, inputs and outputs are listed nor on how many other links share the source.",
      ["inputs", "configurations"], "every small workflow: links, types, scatter, when, loop, pickValue, listing order, all three versions",
      "The tests check about twenty fixed workflows; interactions between links sharing a source appear only in particular combinations.",
      ["parser/utils.py", "parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py"],
      [("driver", "parser/utils.py:static_checker"), ("per-sink check", "parser/cwl_v1_2_utils.py:check_all_types")]),
    P("C07", "Loading file contents respects the 64 KiB limit for every file length",
      "For every file, loaded contents are exactly the whole file when it has at most 65536 bytes; a longer file is cut to its first 65536 bytes in v1.0 and v1.1 (as text, never within a character) and is an error in v1.2. At no time are more than 65537 bytes requested from the file.",
      ["inputs"], "every file length and content, the byte and the text variant, all three versions",
      "The tests try one length on each side of the limit; off-by-one faults show only at exact lengths.",
      ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py"],
      [("limit", "parser/cwl_v1_2_utils.py:content_limit_respected_read_bytes, content_limit_respected_read")]),
    P("C08", "Packing keeps every entry of a document in list form",
      "Turning the map form of a section (inputs, outputs, steps, requirements, step inputs) into list form, and back, loses, merges, reorders and alters nothing: each key becomes the id or class of its entry, each shorthand value its type or source, and entries keep every other field. "
      "Packing a process leaves these sections lists, puts in place every imported, included or linked file, found relative to the file that mentions it, writes references without the leading #, adopts the newest version among its parts, and adds a requirement exactly when the result needs it; everything else stays as it was.",
      ["inputs"], "every process document in map or list form, with any subset of fields",
      "The tests pack fourteen fixed documents; the map and list spellings of every section combine freely.",
      ["pack.py", "utils.py"],
      [("list form", "utils.py:normalize_to_list, normalize_to_map"), ("packing", "pack.py:pack_process, listify_everything, normalize_sources, resolve_steps"),
       ("requirements", "pack.py:add_missing_requirements")]),
    P("C09", "A link in a document resolves to the location relative to that document",
      "For every base document location and every link in it, the resolved location is the one RFC 3986 assigns to the link relative to the document: absolute links stay as they are, relative links (with dot segments) resolve against the document's directory, and an empty link is the document itself. "
      "The identifier helpers agree with the URL syntax: a string is a URI exactly when it has a scheme, local exactly when the scheme is file, and the name taken from a URI is the last segment of its fragment.",
      ["inputs"], "every base location and link text within a length bound",
      "The tests resolve a few fixed paths; dot segments, schemes, queries and fragments combine freely.",
      ["utils.py"],
      [("link resolution", "utils.py:resolved_path"), ("URI helpers", "utils.py:is_uri, is_local_uri, get_value_from_uri")]),
    P("C10", "Splitting a packed graph keeps every process and every reference",
      "For every packed document, splitting writes each process of the graph exactly once, to the file its identifier names (the main process to the chosen main file), and every reference from one process to another, to its own parameters or to a shared type points, after the split, to the same thing as before. "
      "Nothing else in the document changes except that the version and the namespaces are added to each file.",
      ["inputs"], "every small packed graph: identifiers, references, shared schema types and formats",
      "The tests split five fixed documents; reference shapes and identifier forms multiply.",
      ["graph_split.py"],
      [("splitting", "graph_split.py:graph_split"), ("reference rewriting", "graph_split.py:rewrite, rewrite_id, rewrite_import, rewrite_schemadef")]),
    P("C11", "A file is accepted exactly when its format is a wanted one or a descendant",
      "For every ontology, format A is a subclass of format B exactly when B is reachable from A by subclass or equivalence edges (equality included, equivalence in both directions), cycles notwithstanding. "
      "A format check accepts a file, or a list of files, exactly when every file has a format that is (a subclass of) one of the wanted formats.",
      ["inputs"], "every ontology graph with a few classes, every file list and wanted formats",
      "The tests query a handful of pairs in one fixed ontology; cycles, equivalences and later list elements need particular graphs.",
      ["file_formats.py"],
      [("subclass closure", "file_formats.py:formatSubclassOf"), ("check", "file_formats.py:check_format")]),
    P("C12", "The generated JSON schema defines what it refers to and matches the inputs",
      "For every set of inputs and type definitions, a definition is kept in the generated schema exactly when it is reachable from the inputs through references, so no reference dangles and each dependency is listed once. "
      "An input is required exactly when its type does not admit null and it has no default, and the JSON type given to a CWL type is the one whose JSON values are the values of the CWL type.",
      ["inputs"], "every reference graph with a few definitions and every input type up to a nesting bound",
      "The tests generate the schema of a few workflows; chains, cycles and sharing of references need particular graphs.",
      ["inputs_schema_gen.py", "utils.py"],
      [("closure", "inputs_schema_gen.py:get_property_dependencies, slim_definitions, _recursive_search"),
       ("types", "inputs_schema_gen.py:JSONSchemaProperty, get_is_required_from_input_parameter")]),
    P("C13", "Extraction finds every container image and citation of a process tree",
      "For every process tree, listing container images (or software citations) yields one entry for each declaration in requirements and hints of every process and step at every depth, in a workflow as in a tool, and nothing else; an image named without tag or digest is listed with the latest tag. "
      "No process is visited more often than it is used.",
      ["inputs", "configurations"], "every workflow tree within a size bound, all three versions",
      "The tests list the images of a few fixed workflows; nesting, hints versus requirements and step-level declarations combine freely.",
      ["docker_extract.py", "cite_extract.py"],
      [("images", "docker_extract.py:traverse, extract_docker_requirements, extract_docker_reqs, traverse_workflow"),
       ("citations", "cite_extract.py:traverse, extract_software_packages, process_software_requirement")]),
    P("C14", "Image pulling uses the right name and command and reuses what exists",
      "For every image reference, the file an image is saved to is determined by the reference alone, differs for different references up to the replacement of slashes and colons, and lies in the given directory; with Singularity an image already present there, and only such an image, is not pulled again unless asked for. "
      "The commands run are the ones of the chosen container engine for exactly that reference, and a failing command is an error and never reported as a saved image.",
      ["inputs", "fault_sequences"], "every image reference, engine, existing-file state, force flag and command outcome",
      "The tests pull a few fixed images with a real or missing engine; command failures and file states are never varied.",
      ["image_puller.py", "singularity.py"],
      [("names", "image_puller.py:ImagePuller.get_image_name"), ("docker", "image_puller.py:DockerImagePuller"),
       ("singularity", "image_puller.py:SingularityImagePuller"), ("version tests", "singularity.py:is_version_2_6 and following")]),
    P("C15", "Talking to the JavaScript process survives every chunking, order and timeout",
      "For every way the operating system splits and orders the bytes exchanged with the JavaScript process, an evaluation returns the exit status together with exactly the bytes the process wrote to each stream before its end marker, having delivered the complete request; the same live process serves later requests. "
      "A process that ends or exceeds the time limit yields a nonzero status, killed exactly when the limit was exceeded, and never a partial success.",
      ["schedules", "inputs", "fault_sequences"], "every readiness order, chunk boundary, process end and timer expiry",
      "The tests run a real node process, whose chunking and timing are whatever the machine does.",
      ["sandboxjs.py"],
      [("exchange loop", "sandboxjs.py:NodeJSEngine.exec_js_process"), ("result", "sandboxjs.py:NodeJSEngine.eval")]),
    P("C16", "Tool version tests order versions numerically and match the documented ranges",
      "For every version string an engine can report, the minimum-version test for the JavaScript engine and the version-range tests for Singularity and Apptainer answer as the numeric comparison of the version's components does.",
      ["inputs"], "every version with up to four numeric components, with the vendor prefixes and suffixes in use",
      "The tests try a few versions; textual comparison and boundary faults need particular numbers.",
      ["sandboxjs.py", "singularity.py"],
      [("node", "sandboxjs.py:NodeJSEngine.check_js_threshold_version"), ("singularity", "singularity.py:get_version, is_version_3_or_newer, is_version_3_10_or_newer and others")]),
    P("C17", "Loading a document and saving it again keeps every field",
      "For every object of the CWL object model, saving the object loaded from a document with identifiers gives back the document: each given field with its value, no other field, and extension fields with their namespaces. "
      "Loading the saved form gives an equal object (with the same hash where it can be hashed); objects that differ in a field are unequal, and a document with an unknown field, without a required one or with a value of the wrong kind is rejected. "
      "The shorthands of CWL (type names with ? and [], secondaryFiles patterns, maps instead of lists, references, $import and $include) load as what they stand for.",
      ["inputs"], "every class of the three object models and every set of fields within a bound",
      "The tests round-trip about fifty documents; each of the roughly 250 classes has its own generated load, save, equality and hash code.",
      ["parser/cwl_v1_0.py", "parser/cwl_v1_1.py", "parser/cwl_v1_2.py"],
      [("load", "parser/cwl_v1_2.py:*.fromDoc"), ("save", "parser/cwl_v1_2.py:*.save"), ("equality", "parser/cwl_v1_2.py:*.__eq__, __hash__")]),
    P("C18", "A document is loaded by its own version and the requested part of a graph",
      "For every document, the parser used is the one of its cwlVersion, the version of a saved list of processes is the numerically latest, and an unknown or missing version is rejected. "
      "From a graph document the entry returned is the one requested by identifier, or main when none is, and an identifier that does not occur is an error and never another entry; the entry keeps what the document says of all its entries.",
      ["inputs"], "every document header and graph within a size bound, every requested identifier",
      "The tests load a few fixed documents of each version.",
      ["parser/__init__.py"],
      [("dispatch", "parser/__init__.py:load_document_by_yaml, cwl_version, version_split"), ("graph", "parser/__init__.py:_get_id_from_graph, load_document_by_uri")]),
    P("C19", "Stream shortcuts expand to the equivalent file parameters",
      "For every command line tool, an output of type stdout or stderr becomes a File output globbing exactly the file the stream is redirected to, the same file for all of them, named by the tool when it names one; an input of type stdin becomes a File input fed to standard input (where the version has that shortcut). "
      "Every other parameter is untouched, and combining a shortcut with an explicit binding or stdin is rejected.",
      ["inputs", "configurations"], "every tool with a few parameters, all three versions",
      "The tests convert three fixed tools.",
      ["parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py", "parser/utils.py"],
      [("conversion", "parser/cwl_v1_2_utils.py:convert_stdstreams_to_files")]),
    P("C20", "Inlining user-defined types preserves the type",
      "For every set of named type definitions and every type that uses them, replacing the names by the definitions gives a type with the same meaning: each name is replaced by its own definition with nested names replaced in turn, optional and array shorthands are kept, built-in types stay, and an undefined name is an error. "
      "Definitions are found in the document and in the files it imports, relative to the file that names them, and no two inlined types share a name.",
      ["inputs"], "every set of definitions and type expression up to a nesting bound",
      "The tests inline the types of a few fixed documents; nesting of shorthands, arrays, unions and records combines freely.",
      ["schemadef.py"],
      [("inlining", "schemadef.py:inline_types, _inline_type, build_user_defined_type_dict")]),
    P("C21", "Refactored expressions compute the same value from the same inputs",
      "For every text of a process, the expression refactoring (versions 1.0, 1.1 and 1.2) reports an expression exactly when evaluating that text needs JavaScript, and never takes plain references, escaped text or literals for one. "
      "The code it puts in the expression's place (a ${...} body, an expression tool, or a node script of a command line tool) computes the same value as the expression did, from the same inputs and self: the body is kept whole, literal text around and between expressions stays, and embedded values become text in the same way. "
      "The replacing tool is given every input the code reads, including file contents and directory listings the original was promised, and the expression library nearest to the expression.",
      ["inputs", "programs"], "texts up to 4 (5) symbolic characters, alone or around expressions, all three versions, all kinds of inputs",
      "The tests convert about twenty fixed workflows per version and mostly check that the result validates.",
      ["cwl_v1_0_expression_refactor.py", "cwl_v1_1_expression_refactor.py", "cwl_v1_2_expression_refactor.py", "expression.py"],
      [("detection", "cwl_v1_2_expression_refactor.py:get_expression"), ("text to code", "cwl_v1_2_expression_refactor.py:generate_etool_from_expr, generate_etool_from_expr2, escape_expression_field"),
       ("node script", "cwl_v1_2_expression_refactor.py:etool_to_cltool"), ("library", "cwl_v1_2_expression_refactor.py:find_expressionLib")]),
    P("C22", "A refactored workflow calls the same tools with the same values",
      "For every workflow, in each place where CWL allows an expression (arguments, bindings, standard streams, output evaluation and globs, resources, environment, working directory, step inputs, conditions, picked values), the expression refactoring (versions 1.0, 1.1 and 1.2) leaves a workflow that makes the same calls of the same tools under the same conditions, with the same value in each place, and the same outputs. "
      "Expressions that need JavaScript are gone from the places that are refactored; those that stay still find the requirement and the library they need. "
      "Every new step is connected to the inputs its code reads with sources of this document, and defaults, merging, loaded contents and steps without expressions are as before. "
      "The result can be saved, and read again from another place with the same meaning.",
      ["inputs", "programs"], "one or two steps, two inputs, 16 places alone, in pairs and with ten step features, all versions",
      "The tests convert about twenty fixed workflows per version and mostly check that the result validates.",
      ["cwl_v1_0_expression_refactor.py", "cwl_v1_1_expression_refactor.py", "cwl_v1_2_expression_refactor.py", "expression_refactor.py"],
      [("tools and their requirements", "cwl_v1_2_expression_refactor.py:process_level_reqs, traverse_CommandLineTool"),
       ("connections", "cwl_v1_2_expression_refactor.py:cltool_step_outputs_to_workflow_outputs, rename_step_source, replace_step_clt_expr_with_etool"),
       ("step inputs and conditions", "cwl_v1_2_expression_refactor.py:replace_step_valueFrom_expr_with_etool, replace_step_when_expr_with_etool"),
       ("picked values", "cwl_v1_2_expression_refactor.py:process_workflow_inputs_and_outputs")]),
    P("C23", "An input file is read with every value in place",
      "For every input object (the values a process is run with) and each of the versions 1.0, 1.1 and 1.2, loading it from a URI, a path, text or a YAML object gives every value as it was written, at any depth of lists and records: numbers, booleans, null and texts stay what they are, even where a text looks like a link, and lists and records keep their members in order. "
      "Every File and Directory, wherever it is nested (in secondaryFiles and listings too), becomes an object of that version with the fields that were given and no others; its location and path are resolved against the input file, and its format by the namespaces of the input file, or else those of the options given. "
      "Parts that are imported or included are found relative to the input file, also when the options of a tool that lies elsewhere are given. "
      "The caller's values and options are left alone, reading one input file has no effect on the next, and an unknown version is rejected.",
      ["inputs"], "trees of two (three) levels, symbolic scalars, all fields of File and Directory, ten ways to load",
      "The tests load three fixed input files and look at one field of each.",
      ["parser/utils.py", "parser/cwl_v1_0_utils.py", "parser/cwl_v1_1_utils.py", "parser/cwl_v1_2_utils.py", "parser/cwl_v1_2.py"],
      [("entry points", "parser/utils.py:load_inputfile, load_inputfile_by_uri, load_inputfile_by_string, load_inputfile_by_yaml"),
       ("reading", "parser/cwl_v1_2_utils.py:_inputfile_load, load_inputfile, load_inputfile_by_string, load_inputfile_by_yaml")]),
]
