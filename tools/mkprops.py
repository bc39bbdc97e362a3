#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mechanism],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=[observe], hook_needed=None)))

p("C01", "Generated caps enforce the suite life-cycle protocol",
  "For every sequence of physics calls that a host makes through the generated capgen API (register, initialize, timestep_initial, run of a part, timestep_final, finalize, for any suite, part or unknown name), a call runs schemes only if it is legal in that suite's current life-cycle state and names an existing suite and part; otherwise it returns a non-zero error code, calls no scheme and leaves every suite's state unchanged. A legal call that succeeds moves exactly that suite to the documented next state (uninitialized, initialized, in a time step), and the states of different suites are independent. The phases other than run are also refused when called from a thread other than the master thread.",
  ["histories", "configurations"], "every sequence of API calls over every configured suite, part and unknown name",
  "The end-to-end tests drive one scripted call order plus two or three hand-picked illegal calls on one or two suites; the protocol is a statement about every call history over several suites.",
  ["scripts/ccpp_suite.py", "scripts/host_cap.py", "scripts/suite_objects.py", "scripts/ccpp_state_machine.py", "scripts/state_machine.py"],
  ["state machine table and per-group transition checks written into each suite cap", "suite/part dispatch written into the host cap"],
  [("ccpp_suite_state", "life-cycle state of one suite inside its generated cap")],
  "error code/message and scheme event log of a generated host cap driven by a call sequence")

p("C02", "Schemes run in suite-definition order, exactly as often as specified",
  "In every phase, a successful generated physics call invokes exactly the schemes of the suite definition that have an entry point for that phase, in suite-definition order: the run phase of a part runs that part's schemes in order (repeated as its subcycles require), while the other phases cover every scheme of the suite exactly once per call even if it is listed several times. When a scheme reports an error, no later scheme of the call runs and the caller receives that scheme's error code.",
  ["programs", "configurations", "fault_sequences"], "every suite definition (parts, nesting of subcycles, repeated schemes, schemes lacking phases) and every failing scheme position",
  "Tests compile a handful of fixed suites with no failing scheme and no comparison of the full call order.",
  ["scripts/ccpp_suite.py", "scripts/suite_objects.py", "scripts/host_cap.py"],
  ["Suite.parse / Group.analyze / Scheme.write build the call lists and error guards"],
  [("group/suite part list", "ordered content of the suite definition file")],
  "sequence of scheme entry events and error code of generated caps")

p("C03", "Every scheme argument sees host data in its own units, kind and layout",
  "Each variable a scheme declares is matched to the host (or suite) variable with the same standard name and the scheme receives its value converted to the scheme's units, real kind, vertical orientation and the current horizontal range; values a scheme may change (out, inout) are converted back and stored into the host variable, for exactly the columns in range, and everything else keeps its value. If no exact transformation is available, generation fails instead of passing unconverted data.",
  ["programs", "inputs", "configurations"], "every combination of intent, rank, unit pair, kind pair, vertical orientation, horizontal sub-range and dimension layout of a host/scheme variable pair",
  "The tests run a fixed set of schemes with one or two conversions each; the combination space (units x kind x flip x intent x range x error position) is not sampled.",
  ["scripts/metavar.py", "scripts/var_props.py", "scripts/suite_objects.py", "scripts/conversion_tools/unit_conversion.py", "scripts/host_cap.py"],
  ["variable matching and compatibility object", "pre/post transformation code written around scheme calls"],
  [("host variable", "host-side storage"), ("scheme dummy argument", "value seen inside the scheme")],
  "values seen inside schemes and host values after generated physics calls")

p("C04", "Optional arguments are present exactly when the host activates them",
  "A scheme's optional argument is present in the call exactly when the matching host variable's activation condition holds at the time of the call (or it has none); an inactive host variable is never read or written. A non-optional scheme argument matched to a conditionally active host variable is reported as an error, at generation or when the call is made while the condition is false.",
  ["programs", "inputs", "histories"], "every combination of optionality, activation condition value (changing between calls), intent and conversion",
  "One test suite has one fixed activation pattern per run.",
  ["scripts/suite_objects.py", "scripts/metavar.py", "scripts/mkstatic.py"],
  ["pointer association before the scheme call and the active checks in the generated groups"],
  [("active", "conditional expression attached to a host variable")],
  "present() as seen in the scheme, host values after the call, error code")

p("C05", "Suite-owned variables live from initialization to the end of their scope",
  "A variable that schemes use but the host does not provide is created by the generated suite with the declared type, kind and dimensions, and only if a scheme produces it (intent out) before one consumes it; a consumer with no earlier producer makes generation fail. Values a scheme stores are what every later consumer of that standard name sees, across parts, calls and time steps of the same suite, and different suites never share them; the storage can be created and released repeatedly by initialize/finalize cycles.",
  ["histories", "programs"], "every producer/consumer placement over phases, parts and schemes, every number of initialize/finalize cycles",
  "Tests run one initialize/finalize cycle of fixed suites.",
  ["scripts/suite_objects.py", "scripts/ccpp_suite.py", "scripts/metavar.py"],
  ["promotion of scheme variables to suite variables; allocation/deallocation in suite caps"],
  [("suite variable", "allocatable module variable in the suite cap")],
  "values exchanged between schemes of a generated suite; generation verdict")

p("C06", "Generation accepts exactly the consistent host/scheme interfaces",
  "Generation succeeds only when every scheme argument is provided with compatible type, rank, dimensions, units and kind, and no scheme modifies a variable the host declares protected; otherwise it fails with a diagnostic that names the offending variable, and writes no cap. Whatever it accepts compiles.",
  ["programs", "configurations"], "every combination of host and scheme declarations of a variable",
  "Unit tests sample about a dozen incompatible pairs.",
  ["scripts/metavar.py", "scripts/var_props.py", "scripts/suite_objects.py", "scripts/ccpp_capgen.py", "scripts/host_model.py"],
  ["VarDictionary matching, VarCompatObj, suite analysis"],
  [("variable metadata", "properties of a variable on the host and scheme sides")],
  "exit status, diagnostics and output of the generator; compile status of what it wrote")

p("C07", "Suite introspection routines report what the suites really use",
  "The generated introspection routines report exactly the suites, each suite's parts in order, each suite's schemes, and the set of host variables that the suite reads (required inputs) and writes (outputs), consistently with the suite definition and scheme metadata. An unknown suite name yields a non-zero error and an empty answer.",
  ["programs", "configurations"], "every suite configuration and every query (suite name, input/output selection)",
  "Tests compare the answers for a few fixed suites.",
  ["scripts/ccpp_suite.py", "scripts/host_cap.py", "scripts/suite_objects.py"],
  ["write_suite_part_list / required variables / scheme list writers"],
  [("call lists", "union of scheme arguments of a suite")],
  "results of the generated query routines")

p("C08", "The generation database and its query tool describe the generated code",
  "After a successful generation, the database report tool lists exactly the generated and depended-on files, suites, modules, schemes, processes and per-suite variables of that generation, and every listed generated file exists. Its answers agree with the introspection compiled into the caps.",
  ["programs", "configurations"], "every suite configuration and every report type",
  "Tests compare reports with fixed lists for three fixed configurations.",
  ["scripts/ccpp_datafile.py", "scripts/ccpp_database_obj.py", "scripts/ccpp_capgen.py"],
  ["generate_ccpp_datatable and datatable_report"],
  [("datatable.xml", "database written by a generation")],
  "output of the report tool against the generation's inputs and files")

p("C09", "Generation is deterministic",
  "The same inputs produce byte-identical generated files whatever the hash seed, order of directory listings, locale, working directory, output directory, place of the project, way in which the files are named or listed, and whatever was generated before in the same process. Reordering host files, scheme files or suites (with derived types defined in files before those that use them) does not change the meaning of what is generated.",
  ["configurations", "schedules"], "every hash seed, directory choice and permutation of input files",
  "The test run pins the hash seed and uses one order.",
  ["scripts/ccpp_capgen.py", "scripts/suite_objects.py", "scripts/ccpp_suite.py", "scripts/host_cap.py", "scripts/metavar.py", "scripts/mkstatic.py", "scripts/ccpp_prebuild.py"],
  ["ordering of dictionaries and sets while writing code"],
  [("output tree", "names and bytes of all generated files")],
  "digest of the generated files")

p("C10", "Regeneration converges to the output of a fresh generation",
  "After any history of edits to the inputs, failed, interrupted and repeated generations into one output directory, a successful generation leaves every generated file with exactly the content a fresh generation would produce, does not touch files whose content is unchanged (unless told to overwrite), and a failed generation changes no previously generated cap. The clean option removes the generated files and nothing else.",
  ["histories", "fault_sequences"], "every history of edit / generate / failing generate / force / clean operations on one output directory",
  "Every test generates once into an empty directory.",
  ["scripts/ccpp_capgen.py", "scripts/file_utils.py", "scripts/ccpp_datafile.py"],
  ["temporary output directory and move_modified_files", "clean_capgen"],
  [("output directory", "generated files, bytes and modification times")],
  "content and mtimes of the output directory after each command")

p("C11", "Metadata files are parsed to exactly what they declare",
  "A metadata file is accepted exactly when it follows the documented table format; an accepted file yields the declared tables, variables and properties (in order, with defaults), independent of comments, blank lines and property order. A malformed file is rejected with an error that names the file and line, and never yields a partial table.",
  ["inputs"], "every sequence of header, property, comment and blank lines",
  "Unit tests use a fixed set of good and bad sample files.",
  ["scripts/metadata_table.py", "scripts/metavar.py", "scripts/parse_tools/parse_checkers.py", "scripts/parse_tools/parse_object.py"],
  ["table/section/variable parsing state machine"],
  [("parse context", "current table, section and line")],
  "parsed tables or error for a metadata file")

p("C12", "Fortran sources and metadata are cross-checked exactly",
  "The scheme tables, module tables and derived type tables of a metadata file are accepted only if the Fortran source of the same name declares the same subroutines with the same arguments in the same order (or the described module variables and type components) with matching type, kind, rank and, for arguments, intent and optionality; any difference is reported. Only trailing optional arguments, further module variables and further components may be left undescribed; a real or complex without kind has the default kind kind_phys on both sides; extents are not compared. Formatting of the Fortran (free or fixed form, case, continuation lines, several statements on a line, comments, attribute order, declaration grouping, unrelated declarations, routines and interface blocks) never changes the verdict.",
  ["inputs", "programs"], "every pair of metadata argument list and Fortran declaration, and every layout of the same Fortran",
  "Unit tests sample a few mismatches with one formatting.",
  ["scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/parse_fortran.py", "scripts/ccpp_capgen.py"],
  ["Fortran header parser and check_fortran_against_metadata"],
  [("argument list", "declared arguments of a routine")],
  "accept/reject verdict of the generator")

p("C13", "Preprocessor conditionals select the code the preprocessor would",
  "When Fortran is read for consistency checks, a line is considered exactly when the C preprocessor with the given definitions would keep it, for any nesting of if/ifdef/ifndef/elif/else/endif, define and undef and any supported condition. Unbalanced or malformed conditionals are reported.",
  ["inputs"], "every nesting of conditional directives and every set of preprocessor definitions",
  "Unit tests cover single directives.",
  ["scripts/parse_tools/preprocess.py", "scripts/fortran_tools/parse_fortran_file.py"],
  ["PreprocStack"],
  [("conditional stack", "nesting and truth of open conditionals")],
  "which lines the reader keeps, or the error")

p("C14", "Generated Fortran lines are wrapped without changing their meaning",
  "Whatever statement the generator writes, the physical lines never exceed the Fortran line limit whenever a legal break exists, and joining the continuation lines gives back exactly the statement, with character literals and comments intact and the requested indentation.",
  ["inputs"], "every statement text (tokens, literals, comments, indentation) around the line limits",
  "Tests wrap a few sample lines.",
  ["scripts/fortran_tools/fortran_write.py", "scripts/code_block.py"],
  ["FortranWriter.write / line break search"],
  [("line fill", "column position relative to the soft and hard limits")],
  "bytes written by the writer")

p("C15", "The constituent registry obeys its registration and locking protocol",
  "In every sequence of operations on a model constituent object, constituents can be added only while the table is open, incompatible duplicates are rejected and compatible ones merged, indices are unique, contiguous with advected constituents first and stable once locked, data become available only after locking in the right order, and a rejected operation reports an error and changes nothing. After a reset the object behaves like a new one.",
  ["histories"], "every sequence of new/lock-table/lock-data/query/update/reset operations on a registry",
  "The only tests are one end-to-end host that registers once in the expected order.",
  ["src/ccpp_constituent_prop_mod.F90", "src/ccpp_hash_table.F90"],
  ["ccpp_model_constituents_t type-bound procedures"],
  [("table_locked, data_locked, hash table, const_metadata, vars_layer", "registry state")],
  "return codes, indices and data seen through the public type-bound procedures")

p("C16", "Hash table and iterator behave as a map from key to value",
  "For every sequence of insertions, look-ups, clears and re-initializations with any table size, overhead and key set, look-up finds exactly the stored object, a duplicate or uninitialized use is reported and changes nothing, the size queries count the stored objects, and an iterator visits each stored object exactly once.",
  ["histories", "inputs"], "every history of operations over any key set, including keys that collide",
  "Tests use a single fixed list of keys on one table.",
  ["src/ccpp_hash_table.F90", "src/ccpp_hashable.F90"],
  ["tbl_* and hash_iterator procedures"],
  [("buckets", "open-hash buckets with collision lists")],
  "results and error messages of the public hash table and iterator procedures")

p("C17", "Constituent properties are set once and reported faithfully",
  "Every query on a constituent property object returns what was last legally set, or the documented default; setting up twice, changing a fixed property, or using an uninitialized object is reported as an error and changes nothing. Two objects are equal exactly when all their descriptive properties agree and compatible exactly when their advected, thermodynamically-active, water-species and units properties agree; copying yields an equal, independent object.",
  ["histories"], "every sequence of instantiate/set/query/copy/compare/deallocate operations",
  "Only the sequence used by one advection test host runs.",
  ["src/ccpp_constituent_prop_mod.F90"],
  ["ccpp_constituent_properties_t / ccpp_constituent_prop_ptr_t procedures"],
  [("constituent properties", "names, units, flags, values of one constituent")],
  "return codes and values of the public property procedures")

p("C18", "Generated constituent interface keeps host and schemes consistent",
  "The host-facing constituent routines generated for a model register exactly the host's constituents plus those the suites declare (statically or at run time), report them with their properties and indices, and give schemes and host views of the same storage: advected gather/update are inverse copies, defaults are applied at initialization, and any call out of order or conflicting definition returns an error. The registration can be repeated after it is torn down.",
  ["histories", "configurations"], "every order of constituent API calls and every mix of host, static and dynamic constituents",
  "One advection test host calls the routines once in the intended order.",
  ["scripts/constituents.py", "scripts/host_cap.py", "scripts/ccpp_suite.py", "src/ccpp_constituent_prop_mod.F90"],
  ["ConstituentVarDict code writers and the host cap constituent routines"],
  [("constituent object", "the model constituent object in the host cap")],
  "results of the generated constituent routines and values seen by schemes")

p("C19", "Static API tracks initialization per instance",
  "For every call sequence to the statically generated (prebuild) physics API over suites, groups and instances, a group's run, timestep and finalize phases are refused with an error and no scheme call until that group has been initialized for that instance, repeated initialization or finalization has no further effect, and instances and groups do not influence each other. Unknown suite or group names return an error.",
  ["histories", "configurations"], "every call sequence over suites, groups, phases and instances",
  "Tests call init, run, finalize once on one instance in order.",
  ["scripts/mkstatic.py", "src/ccpp_types.F90"],
  ["initialized(:) flags and the API dispatch written by Group/Suite/API.write"],
  [("initialized", "per-group, per-instance flag in the generated group cap")],
  "error codes and scheme event log of a generated static API")

p("C20", "Static API hands every scheme the right data",
  "In code generated by prebuild every scheme of a group is called in suite order and the stated number of times per subcycle, each argument carries the host value in the scheme's units, for the block or chunk being processed and only when active, and values written by the scheme are returned to the host in host units, for exactly the columns concerned. A scheme error stops the remaining schemes and is returned.",
  ["programs", "inputs", "configurations"], "every combination of units, intent, blocked/chunked/contiguous layout, activity, optionality, subcycle counts and failing schemes",
  "Four fixed integration tests each exercise one feature with one value.",
  ["scripts/mkstatic.py", "scripts/mkcap.py", "scripts/ccpp_prebuild.py", "scripts/conversion_tools/unit_conversion.py"],
  ["call-list and conversion code generation in Group.write"],
  [("host variable", "host storage, contiguous or in blocks")],
  "values seen in schemes and in host storage after generated API calls")

p("C21", "Prebuild regeneration converges and cleans up",
  "After any history of input edits and repeated, failing, interrupted or cleaning prebuild runs in one build directory, a successful run leaves each generated file with exactly the content of a fresh run and does not touch a generated file when neither its own content nor that of a cap it follows (group cap, suite cap, API, in this order) changed; documentation files are always rewritten. A failing run exits non-zero. Cleaning removes the generated files and nothing else.",
  ["histories", "fault_sequences"], "every history of edit / prebuild / failing prebuild / clean operations",
  "Each test runs prebuild once in a fresh directory.",
  ["scripts/ccpp_prebuild.py", "scripts/mkstatic.py", "scripts/mkcap.py"],
  ["write/compare/replace of generated files, clean_files"],
  [("build directory", "generated files, bytes and modification times")],
  "content and mtimes of the build directory after each command")

p("C22", "Unit conversions are consistent affine maps",
  "Every supported conversion between two units is the physically correct map, converting there and back is the identity, and any two chains of conversions between the same units agree; a pair of different units without a supported conversion is rejected rather than treated as equal.",
  ["inputs", "programs"], "every ordered pair and chain of known units, for both generators",
  "Tests apply three or four conversions.",
  ["scripts/conversion_tools/unit_conversion.py", "scripts/var_props.py", "scripts/metadata_parser.py", "scripts/mkcap.py"],
  ["one conversion function per ordered unit pair, looked up by name"],
  [("conversion table", "ordered unit pair to expression")],
  "expression returned for a unit pair, evaluated as arithmetic")

p("C23", "Variable tracking reports the true path of a variable through a suite",
  "For any suite, variable name and set of scheme metadata, the tracking tool lists exactly the schemes of the suite, in call order, that use the variable, once per call and entry point and with its intent there; if none does, it says so and lists, per entry point, the variables whose names contain the given text. A missing suite, configuration or scheme metadata makes it fail.",
  ["programs", "inputs"], "every suite definition, scheme metadata set and variable query",
  "Unit tests use a couple of sample suites and variables.",
  ["scripts/ccpp_track_variables.py", "scripts/metadata_parser.py", "scripts/mkstatic.py"],
  ["create_var_graph"],
  [("call tree", "ordered schemes of the suite")],
  "output of the tracking tool")

p("C24", "Prebuild accepts exactly the suites the host can satisfy",
  "Prebuild succeeds only if every argument of every scheme used by the selected suites is provided by the host with the same type, kind and rank and with convertible units (or is handled by the framework), and every scheme, suite file and group it needs exists; otherwise it exits non-zero and names what is wrong. Suites that satisfy this are accepted, and what is accepted compiles. Whether tables of schemes that no selected suite calls are checked is not fixed; a mismatch of optional and conditionally allocated variables is a warning.",
  ["programs", "configurations"], "every combination of host and scheme declarations and suite selections",
  "Tests cover three or four mismatches through unit-level calls.",
  ["scripts/ccpp_prebuild.py", "scripts/mkcap.py", "scripts/metadata_parser.py", "scripts/mkstatic.py"],
  ["compare_metadata and Var.compatible"],
  [("variable metadata", "provided and requested definitions")],
  "exit status, log and output of prebuild; compile status of what it wrote")

p("C25", "A list of pathnames denotes exactly the files it names",
  "The tools' file lists (comma separated, with directories, wildcards and .txt files that hold further pathnames) denote exactly the files they name: every file with an accepted suffix that an entry names or matches, every such file of a named directory, and what the pathname files list, to any depth and relative to the pathname file's directory; comments and blank lines mean nothing and pathname files that list each other end. Each file appears once, however often and however spelled it is named, in the order of the entries (wildcards and directories sorted). An entry that names a file which does not exist is an error that says so. Entries with other suffixes are ignored.",
  ["inputs", "configurations"], "every directory tree, nesting of pathname files and spelling of the entries",
  "No unit test touches the file list reader; the end-to-end tests use a handful of plain lists.",
  ["scripts/file_utils.py", "scripts/ccpp_capgen.py"],
  ["create_file_list and the readers below it"],
  [("master list", "files collected so far"), ("pathname files read", "ends mutual inclusion")],
  "list returned by the reader; files that ccpp_capgen.py works on")

p("C26", "Prototype metadata written for Fortran sources state what these declare",
  "For every annotated Fortran source (free or fixed form; scheme routines, derived types and module variables, in any statement layout), ccpp_fortran_to_metadata.py writes for each file a metadata file whose tables are those the annotations ask for, of the kind of thing they precede (scheme, ddt, module), and whose variables are exactly the declared ones, in order: type, kind, number of dimensions, intent and the optional attribute as declared, with a standard name used for one variable only; an extent that is a variable listed before carries the standard name of that variable. The tools accept the file as metadata of its source, whatever other files are converted in the same run.",
  ["inputs", "configurations"], "every annotated source and layout, several files in one run, every section separator",
  "The unit tests convert no file with this tool (the end-to-end tests never call it).",
  ["scripts/ccpp_fortran_to_metadata.py", "scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/parse_fortran.py"],
  ["write_metadata_file writes the tables the Fortran reader found"],
  [("metadata table of a source", "variables declared below one annotation")],
  "the metadata files written; verdict of the comparison of these with the source")

p("C27", "Debug caps of capgen report arrays whose size is not the declared one",
  "With --debug, before a scheme is called the cap written by capgen compares, for every array argument that is available (not switched off by its activation condition), the number of elements handed to the suite with the number its declared dimensions have at that moment. If one differs, the call returns a non-zero error code and a message, neither that scheme nor one after it is called, and the suite keeps its state, so that the call can be repeated after the host has put its storage right. If all agree, every scheme is called exactly as without --debug and sees arrays of the declared size; arrays that are switched off, empty arrays and arrays the scheme allocates itself are no error and end no program.",
  ["histories", "configurations"], "every history of reallocations, changed dimensions, switched flags and calls, over every mixture of shapes, types, storage, activation, optional and allocatable arguments",
  "One end-to-end test is generated with --debug; its arrays always have the declared size, so no check ever fires.",
  ["scripts/suite_objects.py", "scripts/ccpp_suite.py", "scripts/metavar.py"],
  ["add_var_debug_check, write_var_debug_check and replace_horiz_dim_debug_check write the checks"],
  [("suite state", "kept by a failing check"), ("host arrays", "size against declared dimensions")],
  "error code, message, schemes called and sizes they see, in the compiled program")

p("C28", "Prebuild's build lists and variable tables name exactly what was used",
  "The lists ccpp_prebuild.py writes for build systems (make, cmake and shell versions) name, each exactly once and with absolute path: as schemes the variable definition files, the files with the schemes of the wanted suites and all dependencies declared by host tables and by these schemes (found relative to the metadata file or its relative_path), and nothing of schemes no wanted suite uses; as caps the caps of the wanted suites and their groups; as type definitions the Fortran modules with registered derived types or kinds; as API the static API file that was written. All named files exist, the three versions agree when read by make, cmake and sh, and a dependency that does not exist is reported by name instead. The HTML table has one row per host variable and the LaTeX table one entry, with the name, text, units, rank, type, kind, origin and full local name the metadata give, and with the routines of used schemes that request it; special characters are displayed as written.",
  ["configurations"], "every mixture of host modules, types, kinds, scheme files with several schemes, shared, relative and mutual dependencies, wanted suites, namespaces and directories",
  "The tests of prebuild run single configurations without looking at these lists, and no test has shared or host dependencies of unused schemes.",
  ["scripts/ccpp_prebuild.py", "scripts/mkcap.py", "scripts/mkdoc.py", "scripts/mkstatic.py", "scripts/metadata_parser.py", "scripts/common.py"],
  ["filter_metadata, generate_list_of_schemes_and_dependencies_to_compile, generate_*_makefile, write_includefile, metadata_to_html/latex"],
  [("SCHEMES, CAPS, TYPEDEFS and API lists", "sets without repetition"), ("variable tables", "one entry per standard name")],
  "the lists as read by make, cmake and sh, and the HTML and LaTeX files")

p("C29", "Constituents and tendencies are accepted exactly when consistent",
  "capgen accepts a set of suites exactly when every constituent is a real field on columns and layers whose first declaration in the order of calls of each suite is flagged as (advected) constituent and with which all other declarations, in all suites, agree in type, in dimensions up to passing single levels, and in units and kind up to conversion; and when every tendency has a constituent of which it is the rate: the same type and dimensions and the constituent's units per second. Variables the host owns are no constituents. Otherwise generation fails with a diagnostic naming a variable at fault and writes no cap. What is accepted compiles.",
  ["configurations"], "every mixture of flagged and unflagged declarations of constituents and tendencies in init and run routines of up to two suites, and of host variables of the same names",
  "The tests have one consistent advection example and two wrong ones.",
  ["scripts/constituents.py", "scripts/host_cap.py", "scripts/var_props.py", "scripts/metavar.py", "scripts/suite_objects.py"],
  ["ConstituentVarDict.find_variable, add_constituent_vars, VarCompatObj (is_tend)"],
  [("constituent dictionary", "the constituents a suite declares"), ("model constituents", "first declarations over all suites, with tendencies")],
  "exit status, diagnostics and files of ccpp_capgen.py; compile status")

p("C30", "Every name denotes one thing: colliding and unknown names are rejected",
  "capgen accepts a set of host files, scheme files and suite definitions, as far as names go, exactly when host tables, scheme tables, derived types, standard names and local names of host variables, entry points of a scheme, and suites are each defined once; the routines written for the groups and phases of all suites (<suite>_<group>) differ from each other and from the scheme routines their suite calls; and every scheme a suite lists is known. Names of variables, suites and groups do not depend on the case. Otherwise generation fails with a diagnostic naming a thing at fault and writes no cap. What is accepted compiles and offers every suite and group.",
  ["configurations"], "every mixture of up to three host files with module and type tables, three scheme files and three suites whose names may collide",
  "The tests have no colliding suites, groups or tables.",
  ["scripts/ccpp_capgen.py", "scripts/ccpp_suite.py", "scripts/metavar.py", "scripts/metadata_table.py", "scripts/host_model.py", "scripts/suite_objects.py"],
  ["parse_host_model_files, parse_scheme_files, duplicate_item_error, API.__init__, VarDictionary.add_variable"],
  [("known names", "the tables, variables, suites and routines read so far, per name space"), ("names at fault", "what was read twice or not at all")],
  "exit status, diagnostics and files of ccpp_capgen.py; compile status; names in the cap of the host")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
