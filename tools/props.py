# The table of properties: python3 tools/props.py writes properties.jsonl and MANIFEST.json.
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, note="", na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, na=na, technique=technique))

VF = "abstract interpretation (gated value flow over type-checked SSA)"

prop("P01", "No failure is reported as success",
 "Whenever a step of the generation fails (a file, directory, process or encoding operation, a listed route source, an input or an output), the operation that the user called returns an error, and the command line tool exits with a non-zero status. No error of a step is dropped, overwritten by a later step or lost in a loop over several items.",
 ["fault_sequences", "inputs", "configurations"], "every fallible step, in the context of every public operation, for every input and every combination of failures of other steps",
 "Tests make single steps fail at best for a few files; the quantifier is over every failing step on every path.",
 ["service.go", "setup.go", "parse.go", "generate.go", "cache.go", "dir.go", "mainPackage.go", "outputs/json/generate.go", "outputs/openapi/generate.go", "outputs/azureFunctions/generate.go", "inputs/gin/createRoutes.go", "inputs/gin/parseRoutes.go", "cli/astra/cmd/generate.go", "cli/astra/main.go"],
 [("errors are returned from every stage", "setup.go"), ("exit status of the CLI", "cli/astra/main.go")],
 "Covers every fallible call reached from the public operations, generators, route creation, route parsing up to the traversal of a file, and the CLI. Exempt by name, one reason each: asking whether a file exists, closing a file, removing temporary files in the teardown. Not covered: errors inside the traversal callback of a handler, which the tool treats as best effort.")

prop("P02", "The stages run in order, once, and only if the previous ones succeeded",
 "A complete run performs set-up, route creation, route parsing, cleaning, output generation and teardown in this order, each exactly once and each only if everything before it succeeded; the split runs perform exactly the first and the remaining stages. Each stage calls every registered input or output exactly once, in registration order, with the service, and a run without any input or output is refused.",
 ["configurations", "fault_sequences"], "every number of inputs and outputs, every outcome of every stage",
 "The tests run one input and one output with stages that succeed.",
 ["parse.go", "createRoutes.go", "parseRoutes.go", "generate.go"],
 [("sequence of stages", "parse.go"), ("loop over inputs and outputs", "createRoutes.go")],
 "Exact: the effect sequence of each operation is compared with the required one under exact path conditions; loops for any length by one generic iteration.")

prop("P03", "The cache is saved after every stage, if and only if caching is enabled",
 "With caching enabled, every stage that succeeds saves the service exactly once, after all its changes, so that the saved state is the state after the stage. Without it, no stage saves anything.",
 ["configurations", "fault_sequences", "crash_points"], "every stage, every configuration of caching, every failing step before the save",
 "Tests look for a cache file after a run; which stage wrote it and whether it is complete for every failure is not sampled.",
 ["setup.go", "createRoutes.go", "parseRoutes.go", "clean.go", "generate.go", "cache.go"],
 [("save at the end of a stage", "setup.go")],
 "Checks one input and one output per stage; the loops are covered by P02.")

prop("P04", "A cache that was saved can be loaded, and gives back the whole service",
 "The file that saving writes is the file that loading and clearing use, in the encoding that loading expects from its extension, and holds the whole service. Loading restores every field that is saved, for both encodings, leaves the fields that belong to the running process alone, and makes lookups use the restored data.",
 ["configurations", "inputs"], "every configured cache path and extension, every content of the service",
 "Tests round-trip a few services with some of the fields.",
 ["cache.go", "service.go", "types.go"],
 [("choice of the encoding", "cache.go"), ("copy of the restored fields", "cache.go")],
 "Structural part of the round trip: paths, encoder and decoder agreement, field coverage, serialisable types and distinct keys. That the encoders of the standard library and of yaml.v3 are inverse to their decoders is assumed.")

prop("P05", "The command line tool generates the outputs that the program registered",
 "For every output and input kind that a program can register, the command line tool rebuilds from the cache the same generator with the same configuration, in the same order. A kind it does not know, or one without its configuration, ends the command with a failure.",
 ["configurations", "inputs"], "every kind of input and output, every configuration of it, every order of several of them",
 "No test runs the command of the CLI.",
 ["cli/astra/cmd/rebind.go", "outputs/outputs.go", "inputs/inputs.go"],
 [("rebinding by mode", "cli/astra/cmd/rebind.go"), ("registration", "outputs/outputs.go")],
 "")

prop("P06", "Temporary files are removed by the teardown, and the cache is kept",
 "After a run without cache and without command line mode, the directory of working files is removed; with either of them, only the temporary main package is removed and the cache file survives. The teardown removes nothing else and never turns a finished run into a failure.",
 ["configurations", "fault_sequences"], "every combination of caching and command line mode, every failing removal",
 "Tests call the teardown for two configurations in directories where nothing fails.",
 ["teardown.go", "dir.go", "mainPackage.go", "cli/cli.go"],
 [("policy of the teardown", "teardown.go")],
 "Exact conditions of every removal; not covered: that the teardown runs when an earlier stage failed (it does not).")

prop("P07", "Only working files, the configured outputs and the cache file are changed",
 "Every file or directory that is created, written, renamed or removed is a configured output, the configured cache file or below the tool's own directory of working files, and a directory is only replaced as a whole if it does not contain the working files. No other program is run and neither the environment nor the current directory changes.",
 ["inputs", "configurations", "fault_sequences"], "every call that changes the file system, on every path of every public operation, for every route, path and name",
 "Tests look at the expected files, not at everything else that could have changed.",
 ["dir.go", "cache.go", "mainPackage.go", "teardown.go", "outputs/azureFunctions/generate.go", "outputs/openapi/generate.go", "outputs/json/generate.go"],
 [("paths below the directory of working files", "dir.go"), ("refusal to replace the working directory", "dir.go")],
 "Every mutating call is reached and its path argument derived; paths are compared lexically (symbolic links are not followed); handler names come from Go identifiers.")

prop("P08", "Outputs are written to their configured path, in the format of its extension",
 "Each document output is written once, complete, to the configured path relative to the working directory, with the encoding that its extension asks for and with a known default extension if there is none; generating again writes to the same path. The function bindings of every route are written below the configured directory, which replaces the previous one only after everything was generated.",
 ["configurations", "inputs", "histories"], "every configured path and extension, every number of generations, every number of routes",
 "Tests generate to one or two file names and once per service.",
 ["outputs/json/generate.go", "outputs/openapi/generate.go", "outputs/azureFunctions/generate.go", "dir.go"],
 [("extension handling", "outputs/openapi/generate.go"), ("move of the temporary output directory", "dir.go")],
 "Path, encoder, permissions, and order of the effects; the content is the subject of other properties.")

prop("P09", "Every file that is opened is closed",
 "On every path of every operation, a file that was opened successfully is closed before the operation ends, also if writing or reading fails, and is not used afterwards.",
 ["fault_sequences"], "every open, every path to the end of the operation",
 "A leaked descriptor is invisible to a test that ends shortly after.",
 ["cache.go", "dir.go", "mainPackage.go"],
 [("deferred close", "cache.go")],
 "Exact guards of opening and closing on every returning path; panics are not paths.")

prop("P10", "Routes that are not denied are all recorded, and denied routes never",
 "Every route of the router is recorded exactly once, in order, unless the path matches any of the configured deny functions, with its method, path, handler name, and the file and line of the handler. The provided deny options deny exactly the paths that they describe.",
 ["configurations", "inputs"], "every list of routes, every list of deny functions, every path",
 "Tests use routers with one to three routes and one deny function.",
 ["inputs/gin/createRoutes.go", "options.go", "inputs/gin/createRoute.go"],
 [("deny list", "options.go"), ("recording of routes", "inputs/gin/createRoutes.go")],
 "")

prop("P11", "Every recorded route is analysed and updated in its own place",
 "Each recorded route is analysed once, in the file of its handler, and its result replaces the entry with the same path and method and no other. Its path parameters are those of its path, and the handler that is analysed is the one that was registered: the declared function or function literal at the recorded package, name, file and line; documentation and operation ID are those of the declared function.",
 ["inputs", "programs"], "every list of routes, every handler",
 "Tests analyse a handful of routes that all differ in path.",
 ["inputs/gin/parseRoutes.go", "inputs/gin/parseRoute.go", "routes.go"],
 [("replacement by path and method", "routes.go")],
 "")

prop("P12", "Each way of responding is documented with its status, type and content type",
 "For every response method of the router's context that the tool supports, a call adds exactly one response with the status code of the call, the type of the value passed, and the content type that the method sends; sending a header adds a response header (Data, Status and the methods that abort without a body have no content type). Calls of other methods add nothing, and neither do calls whose status or value cannot be determined; the calls around and inside of them still count.",
 ["programs"], "every supported method, every status, every type of value",
 "Tests cover one call per method with fixed arguments.",
 ["inputs/gin/parseFunction.go"],
 [("table of context methods", "inputs/gin/parseFunction.go")],
 "")

prop("P13", "Each way of reading a request is documented with its location, type and name",
 "For every request-reading method of the router's context that the tool supports, a call adds exactly the parameters or bodies that the method reads: location, name, element type, array or map form and content types. Calls of which the name or type cannot be determined add nothing, and the calls around and inside of them still count.",
 ["programs"], "every supported method, every name, every type of the bound value",
 "Tests cover one call per method with fixed arguments.",
 ["inputs/gin/parseFunction.go"],
 [("table of context methods", "inputs/gin/parseFunction.go")],
 "")

prop("P14", "Helpers that get the context are followed, and end where they started",
 "A call that passes the request context to another function adds the effects of this function to the route, for declared functions of the same file, other files of the package and other packages under any import name, and recursion ends; a call that cannot be followed (such as a method or a function value) does not disturb the calls around and inside of it. Every call is offered to the registered custom functions in order until one returns a route, which replaces the route. The analysis of the caller continues in its own file afterwards.",
 ["programs"], "every call graph of handlers and helpers, including recursive ones",
 "Tests follow one helper.",
 ["inputs/gin/parseFunction.go", "astTraversal/traverser.go"],
 [("descent into helpers", "inputs/gin/parseFunction.go")],
 "")

prop("P15", "Every kind of Go type gets the description of its kind",
 "The description of a type keeps its kind: element type of slices and arrays and the length of the latter, key and value types of maps, all exported fields of structs, the named type and its package, the underlying type of named basic types with the constants of an enumeration, aliases as the type they stand for, pointers as what they point to, and collections and pointers named in another package as what they are made of. A field whose type has no description (a channel, a function) is left out of its struct and the other fields remain. Documentation of types and fields comes with them.",
 ["programs"], "every type that can be written in Go, nested in any way",
 "Tests list a few types per kind.",
 ["astTraversal/type.go"],
 [("switch over kinds of types", "astTraversal/type.go")],
 "")

prop("P16", "Struct tags give the names, visibility and requirements of a field per binding",
 "For every supported binding, the name of a field is the part of the tag before the first comma or else its Go name, exactly a dash hides it, the option omitempty at any place after the name makes it optional, and a field without any of the tags gets its Go name for all bindings. A validation tag (binding, validate) marks the field as required exactly if the rule required is one of its rules for the field itself, not one for its elements (after dive) nor a conditional one (required_if).",
 ["programs", "inputs"], "every struct tag",
 "Tests cover a few tags.",
 ["astTraversal/tags.go", "astTraversal/type.go"],
 [("parsing of tags", "astTraversal/tags.go")],
 "")

prop("P17", "The description of a type is kept in full from analysis to output",
 "Every property of an analysed type (kind, name, package, element, key and value types, length, enumeration, documentation, tags, embedding and every nested field) is carried over unchanged into the description that the outputs use.",
 ["programs", "inputs"], "every analysed type and every depth of nesting",
 "Tests compare a few results field by field.",
 ["astTraversal/result.go", "utils.go"],
 [("conversion of results", "utils.go")],
 "")

prop("P18", "No input makes the tool index out of range or assert a wrong type",
 "Whatever the analysed program, its routes and its configuration are, no index or slice expression of the tool is out of the range of its list, array or string, and no unchecked type assertion fails: what guards each of them on the way implies that it succeeds.",
 ["programs", "inputs"], "every index, slice and unchecked type assertion, every argument of the function that it is in",
 "Tests have no malformed calls, and a panic needs one unusual program.",
 ["contextFuncBuilder.go", "astTraversal/declaration.go", "utils/splitHandlerPath.go", "outputs/openapi/components.go", "inputs/gin/parseFunction.go"],
 [("guards of the arguments of calls", "contextFuncBuilder.go"), ("values of declarations", "astTraversal/declaration.go")],
 "")

prop("P19", "Nothing is listed twice, and nothing that differs is lost",
 "Adding a response or component that is already listed leaves the list as it is; adding any other keeps all earlier entries in order and appends it. What counts as the same is decided by all that identifies the entry, not by part of it. Adding a route appends it, and replacing a route changes exactly the one with the same path and method.",
 ["histories", "inputs"], "every sequence of additions",
 "Tests add two or three entries.",
 ["safePushing.go", "routes.go"],
 [("comparison before appending", "safePushing.go"), ("replacement of routes", "routes.go")],
 "")

prop("P20", "OpenAPI parameters have the right location, name, requirement and schema",
 "Every path, header and query parameter of a route becomes exactly one parameter of its operation, with its name, location, requirement and schema; bound structs are spread into one parameter for each field that is visible for the binding. Parameters are sorted by name, and the style of a query parameter fits its schema.",
 ["inputs", "programs"], "every route, every mixture of parameters",
 "Golden files cover a dozen routes.",
 ["outputs/openapi/generate.go", "outputs/openapi/schema.go"],
 [("conversion of parameters", "outputs/openapi/generate.go")],
 "")

prop("P21", "OpenAPI request bodies and responses are complete",
 "Every body of a route is listed under its content type, with all named fields of a form together in one object, and every response under its status code and content type, with the response headers; several responses of a status and several content types do not replace each other. A response without content is still listed.",
 ["inputs", "programs"], "every route, every number and mixture of bodies and responses",
 "Golden files cover a dozen routes.",
 ["outputs/openapi/generate.go"],
 [("conversion of bodies and responses", "outputs/openapi/generate.go")],
 "")

prop("P22", "Every route is listed once under its path template and method",
 "Each route becomes the operation of its own HTTP method under its path, in which every path parameter is written as a template, and operations of other methods of the same path are kept. The documentation and the identifier of the handler are those of the operation.",
 ["inputs"], "every method of HTTP that OpenAPI has, every path",
 "Golden files cover some methods.",
 ["outputs/openapi/generate.go", "utils/pathParams.go"],
 [("switch over methods", "outputs/openapi/generate.go"), ("path templates", "utils/pathParams.go")],
 "")

prop("P23", "The OpenAPI document carries the configuration",
 "Title, description, contact, license and version of the configuration appear unchanged in the document, the server address is composed of scheme, host, port and base path, and the version of OpenAPI is declared. A missing description gets the default, and nothing else of the configuration is replaced.",
 ["configurations"], "every configuration",
 "Tests use one configuration.",
 ["outputs/openapi/generate.go", "config.go"],
 [("composition of the document", "outputs/openapi/generate.go")],
 "")

prop("P24", "Component names are unique, and every reference points to an existing component",
 "Different types get different component names, also if packages or types share their names, and the name does not depend on the order of discovery. A reference uses the name under which the component of the same type and binding is listed.",
 ["inputs", "programs"], "every set of components and packages",
 "Tests cover two packages with the same name.",
 ["outputs/openapi/components.go"],
 [("collision-safe names", "outputs/openapi/components.go")],
 "")

prop("P25", "The schema of a type follows its kind",
 "Structs become objects with their fields, slices and arrays become arrays of their element schema, maps become objects with the schema of their values, enumerations list their values, predefined types get the type and format of the table, and other named types become references.",
 ["inputs", "programs"], "every kind of type, every element type",
 "Golden files cover some nestings.",
 ["outputs/openapi/components.go", "outputs/openapi/schema.go"],
 [("switch over kinds", "outputs/openapi/components.go")],
 "")

prop("P26", "Fields that a binding hides never appear in its schema",
 "A field, embedded or not, that is hidden for a binding is absent from the schema of this binding, and every other field of the binding is present under the name that its tag gives.",
 ["inputs", "programs"], "every struct, every set of tags",
 "Tests cover a few tags.",
 ["outputs/openapi/components.go"],
 [("binding tags of fields", "outputs/openapi/components.go")],
 "")

prop("P27", "The keys of the OpenAPI document are the same in JSON and YAML, and right",
 "Every field of the written document has the key that the OpenAPI specification gives to it, the same in JSON and in YAML, no key twice in an object; required keys (openapi, info, title, version, paths, responses, description of a response) are written even if empty, and optional ones only with a value.",
 ["inputs"], "every field of every object of the document",
 "Golden files only contain the fields they use.",
 ["outputs/openapi/types.go"],
 [("struct tags of the document", "outputs/openapi/types.go")],
 "")

prop("P28", "The JSON output contains every route and component completely",
 "The JSON output holds all routes and all components of the service, each with all of its recorded properties, and its keys are distinct.",
 ["inputs"], "every service",
 "Tests compare one small service.",
 ["outputs/json/generate.go", "types.go"],
 [("composition of the output", "outputs/json/generate.go")],
 "")

prop("P29", "Every route gets its Azure function with its method, route and bindings",
 "Each route becomes one function of its own, in the directory of its handler, with an HTTP trigger of its method (and OPTIONS) and its path, in which every parameter of a type that Azure has a constraint for is written with this constraint in the syntax of Azure, and the HTTP output that returns the result.",
 ["inputs"], "every route and path",
 "There are few tests of this output.",
 ["outputs/azureFunctions/generate.go", "outputs/azureFunctions/convertRoute.go"],
 [("bindings of a route", "outputs/azureFunctions/generate.go")],
 "")

prop("P30", "The tables of predefined types agree",
 "Every predefined Go type is accepted as such and has its type and format in the table of formats, whatever package it is looked up with; any other type is only found under its own package. Custom mappings of a service take precedence over the table, for this service only.",
 ["inputs", "configurations"], "every entry of the tables, every custom mapping",
 "Tests look up some types.",
 ["accepted.go", "formatTypes.go", "outputs/openapi/schema.go"],
 [("tables", "formatTypes.go")],
 "")

prop("P31", "The same program gives the same document every time",
 "Generating again from the same service writes the same document, and leaves its routes and components as they are: no document, and no result of cleaning or of the conversion and lookup of types, depends on the order in which maps are iterated, on the time, on random values, on goroutines or on an earlier generation.",
 ["inputs", "schedules", "histories"], "every iteration over a map in code that contributes to an output, every order of it",
 "A test compares one order of one run.",
 ["outputs/openapi/generate.go", "outputs/openapi/components.go", "bindingTags.go", "utils.go", "clean.go"],
 [("sorted keys", "outputs/openapi/components.go")],
 "")

prop("P32", "Services do not influence each other",
 "When services are used one after another in a process, data of one (names of components, type mappings, loaded packages of another working directory) never reaches another one by a variable that they share: such a variable is either never changed after initialisation, through any alias, or the result of a service is the one it has alone.",
 ["histories"], "every package level variable, every function that changes or uses it, a service alone and after another one",
 "Tests use one service per process, mostly.",
 ["outputs/openapi/components.go", "formatTypes.go", "options.go", "astTraversal/packageManager.go"],
 [("clearing of shared state", "outputs/openapi/components.go")],
 "")

prop("P33", "Cleaning reaches every type and makes them all usable by the outputs",
 "After cleaning, every reference to the temporary main package is replaced by the name of the main package and every substituted type by its substitute, in every place a type can be in: parameters, bodies, responses, headers and components, at every depth.",
 ["inputs", "programs"], "every place and depth a type can be in",
 "Tests clean a few places.",
 ["clean.go", "substituteTypes.go"],
 [("traversal of all fields", "clean.go")],
 "")

prop("P34", "Options and builders set exactly what they say",
 "Every option and builder method sets the setting that it is named after to the given value, keeps all other settings, and repeated options accumulate where they add to a list.",
 ["configurations"], "every option, every value, every order",
 "Tests apply single options.",
 ["options.go", "configBuilder.go", "contextFuncBuilder.go", "cli/cli.go"],
 [("options", "options.go")],
 "")

prop("P35", "Path parameters are extracted exactly",
 "Every marker of a parameter in a path begins a parameter that reaches to the end of its segment, has the rest of the segment as its name, and is required or a catch-all according to the marker; nothing else is a parameter, the order is kept, and rewriting the parameters of a path changes nothing but them.",
 ["inputs"], "every path",
 "Tests use a handful of paths.",
 ["utils/pathParams.go"],
 [("splitting of paths", "utils/pathParams.go")],
 "")

def main():
    here = os.path.dirname(os.path.abspath(__file__)) + "/.."
    with open(here + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "hook_needed": None}}) + "\n")
            for x in p["files"]:
                if not os.path.exists("/repo/" + x): print("no file", p["id"], x)
    m = {"version": 1, "setup_cmd": "bash run.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "bash run.sh " + p["id"],
          "technique": p["technique"] or VF, "level": "other",
          "level_note": "Static: decided from the current source on every run, for all paths and inputs within the stated scope; nothing is executed and no solver is used. " + p["note"] + " Trusts the Go type checker, the SSA construction and the models of library functions in checker/models.go."})
    m["notes"] = "One checker (checker/, Go, x/tools SSA) decides all properties; run.sh builds it if needed. Evidence lists entry points, analysed functions and obligations."
    json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
    open(here + "/MANIFEST.json", "a").write("\n")
main()
