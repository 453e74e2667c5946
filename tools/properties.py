import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
L='pkg/language/'; G='pkg/generators/golang/'
p('P01','Meaning of a model does not depend on declaration order or file layout',
 'The model obtained from a set of declarations (without references to other services) is the same for every order of the declarations and of their members, for every distribution of the declarations in files of the version directory, and for every textual layout of the same tokens (white space, blank lines, line and block comments). If one arrangement is rejected then all of them are.',
 ['inputs','configurations'],'all orders and file partitions of the declarations of bounded models with forward, backward, self and mutual references',
 'Tests load one order of one fixed model; forward and backward references between types, resources and files are combinatorial.',
 [L+'reader.go','pkg/concepts/version.go','pkg/concepts/type.go'],
 [('placeholders for undefined types and resources',L+'reader.go ExitPlainTypeReference/ExitResourceReference'),('sorting of concepts by name','pkg/concepts')],
 ['language.Reader.Read','metamodel generate'])
p('P02','A model that is read contains exactly what was declared',
 'For every accepted model, the model that is read contains exactly the declared services, versions, types (with their kind), attributes (name, type, link flag), enum values, resources, methods, parameters (type, direction, default value; output if no direction is given), locators (target, variable flag), errors (code) and annotations (names and parameter values), nothing missing and nothing extra except the built-in types and one list type per type. The same declaration in different versions or services stays independent.',
 ['inputs'],'all bounded combinations of declaration kinds, type references, directions, defaults, link flags, locator members, annotations and literals',
 'Tests check a handful of annotations and references; each declaration form and each combination with the others is not covered.',
 [L+'reader.go',L+'model_parser.go','pkg/concepts/type.go','pkg/concepts/method.go','pkg/concepts/parameter.go','pkg/concepts/locator.go','pkg/concepts/error.go','pkg/concepts/annotation.go'],
 [('listener callbacks that build the concepts',L+'reader.go Exit*')],['language.Reader.Read'])
p('P03','Documentation comments are attached to exactly the declaration they precede',
 'The documentation of every declaration (type, attribute, enum value, resource, method, parameter, locator, error) is exactly the text of the run of line comments that ends in the line immediately before it, without the comment marks and the common indentation and preserving blank lines; comments separated by a blank line, trailing comments and block comments are not documentation, and no declaration ever receives the documentation of another. Repetition, position in the file or the kind of the neighbours makes no difference.',
 ['inputs'],'all arrangements of comment and blank lines around up to three consecutive declarations of every kind, and all comment texts up to a bound',
 'No existing test checks documentation extraction.',
 [L+'reader.go'],[('map of comments indexed by line','pkg/language/reader.go getDoc, comments')],['Doc() of concepts'])
p('P04','Files that violate the grammar are always rejected, and never crash the reader',
 'A model is accepted by the reader only if every file of it is a complete sequence of syntactically correct declarations; an error anywhere, including unknown tokens, truncated files or text after the last declaration, makes reading fail with an error. Reading never panics, and every file that conforms to the grammar (and to the semantic checks) is accepted.',
 ['inputs'],'all single token deletions, insertions, replacements, duplications, swaps and truncations of files that contain every production of the grammar',
 'Tests only read correct files.',
 [L+'reader.go',L+'errors.go',L+'model_parser.go',L+'model_lexer.go'],
 [('error listener counts syntax errors in the reporter',L+'errors.go SyntaxError'),('check that all the input is consumed',L+'reader.go loadFile')],['language.Reader.Read'])
p('P05','References to undefined things, duplicates and missing roots are rejected',
 'A model is rejected with an error if and only if, in some version, a type or resource is used but not declared in that same version, or a type, resource or error is declared more than once, or there is no root resource, or a locator has no target. What other versions or services declare makes no difference.',
 ['inputs','configurations'],'all assignments of declared/undeclared/duplicated to names across two versions and two services, for every place where a name can be used',
 'Tests never read an incorrect model.',
 [L+'reader.go',L+'checks.go'],[('indexes of undefined concepts',L+'reader.go addUndefined*/removeUndefined*'),('checkVersion',L+'checks.go')],['language.Reader.Read'])
p('P06','Method signatures are accepted exactly when they follow the rules of the method',
 'A method is accepted if and only if its parameters follow the documented rules for its name: the rules of Add, Get, Update, AsyncUpdate, Delete, AsyncDelete, List, Search and Post on the number, type, direction and name of parameters, on the type, direction and default value of page, size and total; and default values must have the type of the parameter. Any other method (an action) accepts any parameters with correct default values.',
 ['inputs'],'all method names, all parameter lists up to two parameters plus all deviations from complete signatures, over all type kinds, directions, names and default values',
 'No existing test exercises the checks; the rule table is a product of method kind, type kind, direction, name and default.',
 [L+'checks.go','pkg/concepts/method.go','pkg/nomenclator/names.go'],[('checkMethod and its cases',L+'checks.go')],['language.Reader.Read'])
p('P07','Locator cycles are always rejected and acyclic locator graphs always accepted',
 'A model is rejected because of a loop if and only if a cycle of locators is reachable from the root resource of one of its versions; the check always terminates. For accepted models the set of paths computed from the root is exactly the set of sequences of locators that start in the root.',
 ['inputs'],'all locator digraphs up to 4 resources (including self loops, multi-edges and unreachable parts)',
 'Tests do not contain loops; correctness depends on the graph shape.',
 [L+'checks.go','pkg/concepts/version.go'],[('checkLocatorLoops',L+'checks.go'),('Paths','pkg/concepts/version.go')],['language.Reader.Read','Version.Paths'])
p('P08','Splitting, joining and comparing names is consistent',
 'For every sequence of words and initialisms the camel case identifier is split in exactly those words, and the snake case, upper, lower and camel renderings of the name are the conventional ones; splitting never loses or duplicates characters of the text. Comparing names is a total order consistent with equality, and sorting concepts by name gives the same result for all input orders.',
 ['inputs'],'all names up to 3 words over an alphabet of words, initialisms and plural initialisms, and all texts up to a length over upper case, lower case and digit characters',
 'Tests check 22 literal names.',
 ['pkg/names/parser.go','pkg/names/name.go','pkg/names/words.go','pkg/names/case.go'],[('ParseUsingCase','pkg/names/parser.go'),('Compare','pkg/names/name.go')],['names package'])
p('P09','Referenced classes bring exactly the referenced attributes and types',
 'A class that refers to a class of other service has exactly the attributes of the referenced class, and all the types reachable from it via non-link attributes (plain, list or map, directly or indirectly) become types of the referring version with their complete definition, while link attributes keep pointing to the referenced version unless their type is also declared as a reference in the referring version. References may go through chains of services. The referenced service and the rest of the referring version are not altered, and references to services, versions or types that do not exist are rejected.',
 ['inputs'],'all bounded referenced type graphs over attribute shape, link flag, kind of target and recursion, plus all single defects of the reference path',
 'Tests check seven hand written arrangements.',
 [L+'reader.go','pkg/annotations/annotations.go','pkg/concepts/attribute.go'],[('handleClassRef, recursivelyAddTypeToVersion',L+'reader.go')],['language.Reader.Read'])
p('P10','The command line tool fails, without output, exactly for incorrect models',
 'Every sub-command (check, generate go, generate docs, generate openapi) exits with a non-zero code if the model is incorrect or a mandatory option is missing, and then writes no generated file; it exits with zero if the model is correct, even if there are warnings, and then generates the complete output. The check command never writes files.',
 ['inputs','configurations'],'all sub-commands by all classes of incorrect and correct models by option combinations',
 'The test suite only runs the generators with a correct model.',
 ['cmd/metamodel/check/cmd.go','cmd/metamodel/generate/golang/cmd.go','cmd/metamodel/generate/docs/cmd.go','cmd/metamodel/generate/openapi/cmd.go',L+'reader.go','pkg/reporter/reporter.go'],
 [('reporter error counter and exit codes','cmd/metamodel')],['exit code, output directory'])
p('P11','Generated objects report exactly the attributes that have been set',
 'For every generated struct and class and every subset of its attributes, identifier, href and link flag, an object reports presence and value for exactly the attributes that were set, with the value that was set (including zero values), reports absence and the zero value for the rest, and is empty exactly when no attribute and no identifier is set. All accessors are safe on nil objects and the kind is the link kind exactly for links.',
 ['inputs'],'all subsets of attributes (up to 12 attributes), all attribute types, nil objects',
 'Tests check a few attributes of one type; presence bits interact across attributes.',
 [G+'types_generator.go',G+'types_calculator.go',G+'builders_generator.go',G+'names_calculator.go'],[('presence bitmap','generated bitmap_'),('BitMask',G+'types_calculator.go')],['generated types'])
p('P12','Builders build what was set last, and never share state with what they built',
 'For every sequence of builder operations (set, overwrite, set nil, copy of an existing object, build) the built object has exactly the attributes of the last set or copy of each attribute. Objects built before are not changed by later operations on the builder, neither are builders affected by later changes of the slices passed to them; copying an object that was built and building it again gives an equal object, and building fails only if building a nested builder fails.',
 ['histories'],'all operation sequences up to a depth over builder operations of all attribute types',
 'Tests check single operations; the interactions are sequences.',
 [G+'builders_generator.go'],[('builder setters, Copy and Build',G+'builders_generator.go')],['generated builders'])
p('P13','Generated lists behave as immutable sequences',
 'For every list built with a list builder (or read from JSON), length, emptiness, access by index, slice, iteration with and without index and with early stop agree with the sequence of elements that were added, in order; access out of range gives nil, nil lists behave as empty lists, the slice returned is a copy, and the link and href of lists of objects are kept.',
 ['inputs','histories'],'all lists up to length 3 or 4 with all indexes, stop positions and copies',
 'Tests use a few fixed lists.',
 [G+'types_generator.go',G+'builders_generator.go'],[('list types',G+'types_generator.go'),('list builders',G+'builders_generator.go')],['generated list types'])
p('P14','Writing an object as JSON and reading it back gives an equal object',
 'For every object that can be built (all subsets of attributes and boundary values of all types, nested objects, lists, maps, links), marshalling succeeds, produces one valid JSON document, and unmarshalling it gives an object with the same presence and values; the same holds for lists. Marshalling is deterministic and does not modify the object, and failures of the reader or writer, at any byte, are reported as errors.',
 ['inputs'],'all attribute subsets of the reference types and all representative values of each attribute type, to nesting depth 3',
 'Tests check a few documents.',
 [G+'json_generator.go',G+'helpers_generator.go'],[('Write*/Read* functions',G+'json_generator.go')],['MarshalX/UnmarshalX'])
p('P15','JSON documents have the declared format, and reading tolerates unknown content',
 'The document written for an object contains exactly the fields of the attributes that are present, under their declared names (JSON annotation or snake case name), with the representation of the declared type (numbers, strings, RFC3339 dates, enum names, arrays, objects with string keys; kind, id and href for classes; an object with the items for lists of links). Reading accepts the fields in any order and ignores unknown fields of any content, and fails with an error, without panic, for malformed or truncated documents and for values of the wrong type.',
 ['inputs'],'all attribute kinds, all permutations of small documents, unknown fields of all JSON kinds at all positions, all truncation points, all wrong-type values per attribute type',
 'Tests check a few documents and one unknown field.',
 [G+'json_generator.go',G+'helpers_generator.go','pkg/http/binding_calculator.go'],[('generated readers and writers',G+'json_generator.go'),('AttributeName','pkg/http/binding_calculator.go')],['MarshalX/UnmarshalX'])
p('P16','Every supported number of attributes works, and too many are rejected',
 'For every number of attributes up to the maximum that fits in the presence bitmap (64, minus three in classes) the generated type compiles and each attribute is tracked independently of all the others in the builder, the object, copies and JSON. For types with more attributes than that generation fails with an error instead of generating incorrect code.',
 ['inputs','configurations'],'structs and classes with every number of attributes from 0 to 66, each attribute alone, all but one, and adjacent pairs',
 'Tests have one small and one large type.',
 [G+'types_calculator.go',G+'types_generator.go',G+'builders_generator.go',G+'json_generator.go'],[('BitMask and BitmapType',G+'types_calculator.go')],['generated types'])
p('P17','Go code generated for every correct model compiles',
 'For every model accepted by the tool, within the supported naming rules, the generated Go code compiles, for all kinds of attributes, parameters, methods, locators, errors and annotations and for names that are Go keywords, predeclared identifiers, imported packages or initialisms. Names that collide with the public methods that are part of the generated types (like the build and copy methods of builders or the send method of requests) are not supported.',
 ['programs','inputs'],'all attribute types, all parameter types by method kind and direction, all reserved words as attribute, parameter, type and locator names, in bounded models',
 'Tests compile the code generated from one model.',
 [G+'types_generator.go',G+'builders_generator.go',G+'clients_generator.go',G+'json_generator.go',G+'errors_generator.go',G+'helpers_generator.go',G+'reserved_words.go',G+'packages_calculator.go'],[('templates of the generators',G)],['go build of generated code'])
p('P18','Clients send every method with the verb and path of the model',
 'For every path of locators from the service client to every method of every resource, for every identifier that is a valid path segment, the request is sent exactly once with the HTTP verb of the method and the path obtained by joining the base path, version and locator segments (identifiers for variable locators) and the action segment, honouring HTTP annotations. The metadata request of every version uses the path of the version.',
 ['inputs','configurations'],'all locator paths and methods of the reference model, by identifiers and base paths including empty, trailing slash and special characters',
 'Tests check the routes of a few methods.',
 [G+'clients_generator.go','pkg/http/binding_calculator.go'],[('path.Join in generated clients',G+'clients_generator.go'),('Method, MethodSegment, LocatorSegment','pkg/http/binding_calculator.go')],['http.RoundTripper'])
p('P19','Requests carry exactly the parameters that were set',
 'Every request carries in the query exactly the scalar parameters that were set (under their HTTP or JSON annotation or snake case name) plus the parameters added by the user, in the headers exactly the headers added by the user (and the impersonation header), and in the body exactly the non scalar parameters that were set, or all the parameters set for actions; nothing that was not set is sent. Zero values that were set explicitly are sent.',
 ['inputs'],'all subsets of parameters of every method of the reference model by representative values of every type, and all sequences of up to three user supplied parameters and headers',
 'Tests check a few parameters one by one.',
 [G+'clients_generator.go',G+'json_generator.go',G+'helpers_generator.go','pkg/http/binding_calculator.go'],[('SendContext',G+'clients_generator.go'),('write*Request',G+'json_generator.go')],['http.RoundTripper'])
p('P20','Responses are delivered completely or reported as errors',
 'For every response status, headers and body, the response object has the status and headers sent by the server; successful responses deliver exactly the output parameters present in the body (empty bodies are accepted); statuses 400 and above with a body return the error sent by the server (with its status and all its fields); transport failures, body read failures at any byte and malformed bodies return an error. Nothing ever panics, the response body is always closed, and accessors of nil responses return zero values.',
 ['inputs','fault_sequences'],'all methods by all status classes by body classes, with a fault injected at every byte of the body',
 'Tests check few status codes and no failures in the middle of a body.',
 [G+'clients_generator.go',G+'json_generator.go',G+'errors_generator.go'],[('SendContext',G+'clients_generator.go'),('read*Response',G+'json_generator.go')],['http.RoundTripper'])
p('P21','Requests and clients can be reused and do not interfere',
 'Sending the same request again sends exactly the same HTTP request, changing a request after sending it only affects later sends, and requests created from the same client, or from clients obtained from the same client, never affect each other or the client, for every interleaving of operations. The context given to the send operation is the one of the HTTP request, and nothing that the transport does to the request that it receives affects later sends.',
 ['histories','schedules'],'all sequences up to a depth of create, set, parameter, header and send operations over two requests of one client',
 'Tests send each request once.',
 [G+'clients_generator.go',G+'helpers_generator.go'],[('CopyQuery, CopyHeader',G+'helpers_generator.go')],['http.RoundTripper'])
p('P22','Polling stops exactly when a condition is met or the context ends',
 'Polling sends requests separated by the interval until a response has one of the given statuses (when given) and satisfies all the given predicates, returning that response, and never sends requests after that; it returns an error when the context ends, when the interval or the deadline of the context is not given or not valid, and when a request fails with an error that is not a response with one of the expected statuses. Exactly one request is sent per interval.',
 ['histories','fault_sequences','schedules'],'all sequences of responses (statuses, bodies, transport errors) up to a length by all combinations of statuses and predicates by deadlines, under a virtual clock',
 'The existing polling tests are flaky and skipped; they use a few schedules in real time.',
 [G+'helpers_generator.go',G+'clients_generator.go'],[('PollContext',G+'helpers_generator.go'),('StartContext',G+'clients_generator.go')],['Poll API with fake clock'])
p('P23','Errors keep all their fields, and their text mentions what is present',
 'Error objects report exactly the fields that were set (status, id, href, code, reason, operation id, timestamp, details), survive writing and reading as JSON, copying via the builder and conversion to text, whatever subset of fields is present. The functions that send errors to HTTP clients send the status, content type and JSON document of the error.',
 ['inputs'],'all subsets of the fields by builder and JSON, all truncations of documents, all helpers that send errors',
 'Tests check a few combinations.',
 [G+'errors_generator.go'],[('ErrorBuilder, UnmarshalError, SendError',G+'errors_generator.go')],['generated errors package'])
p('P24','Helpers encode and decode request values consistently',
 'Values added to queries and headers are encoded so that the matching parse function gives back the same value for integers, floats, strings, booleans and dates; values that cannot be parsed give an error, missing values leave the target alone, and adding values keeps those already there in order. Copies of queries and headers are deep, and splitting a path into segments gives its segments in order, ignoring leading and trailing slashes.',
 ['inputs'],'all representative values of each type, all texts up to length 4 over a small alphabet for the parsers, all operation sequences on queries and headers up to a depth',
 'Tests check few values.',
 [G+'helpers_generator.go',G+'json_generator.go'],[('AddValue, CopyValues, Segments, Parse*',G+'helpers_generator.go and json_generator.go')],['generated helpers package'])
p('P25','OpenAPI specifications describe exactly the routes of the clients',
 'For every model the OpenAPI specification of each version is a single valid JSON document without duplicated keys whose references all resolve, and its set of verb and path pairs is exactly the set of routes of the methods reachable from the root plus the metadata route, each with the path and query parameters, request body and success status of the method, provided that no two methods of a resource use the same verb and path. Every path parameter of a path is declared, and no other.',
 ['inputs','programs'],'all routes of the reference models, and all bounded trees of locators with all kinds of methods',
 'The test only checks the exit code of the generator.',
 ['pkg/generators/openapi/openapi_generator.go','pkg/generators/openapi/buffer.go','pkg/generators/openapi/names_calculator.go','pkg/http/binding_calculator.go'],[('generatePaths','pkg/generators/openapi/openapi_generator.go')],['openapi.json'])
p('P26','OpenAPI schemas describe the JSON that is actually read and written',
 'For every struct, class and enum of the version, and for those of other versions that links refer to, the specification has a schema whose properties are exactly the JSON fields of the type with their declared types (lists, lists of links and maps included) and whose enum values are exactly the declared ones; bodies of methods have exactly the declared fields. Documentation appears as the description of what it documents, and the specification embedded in the Go code is the generated one.',
 ['inputs','programs'],'all attribute shapes by element types, all annotations, all parameters of all methods of the reference models',
 'The test only checks the exit code of the generator.',
 ['pkg/generators/openapi/openapi_generator.go','pkg/generators/openapi/names_calculator.go',G+'openapi_generator.go'],[('generateSchema, generateSchemaReference','pkg/generators/openapi/openapi_generator.go')],['openapi.json'])
p('P27','The metrics path tree matches exactly the routes of the model',
 'The tree of URL segments generated for metrics contains a path if and only if it is the path of a resource, or of an action, of some version of some service under the api prefix, with variable segments represented by a dash, provided that resources have at most one variable locator. Nothing is missing, nothing is extra, and every node is shared by all the paths with that prefix.',
 ['inputs','programs'],'all routes of the reference models and all bounded trees of locators',
 'Tests check few paths.',
 [G+'metrics_generator.go','pkg/http/binding_calculator.go'],[('path tree',G+'metrics_generator.go')],['metrics/path_tree_data.go'])
p('P28','Generated documentation describes everything that is declared',
 'The generated documents contain an index and exactly one page per resource, enum, struct and class of each service; the index links to all of them and every link resolves to a generated page. Each page mentions, under their declared names, all the attributes (and kind, id and href in classes that have attributes), enum values, methods with their HTTP verbs and parameters that the concept declares, and nothing else, with the complete text of their documentation; summaries are the first sentence of the documentation.',
 ['inputs','programs'],'all declarations of the reference models, and bounded models with all kinds of declarations and documentation texts',
 'The test only checks the exit code of the generator.',
 ['pkg/generators/docs/docs_generator.go','pkg/markdown/buffer.go','pkg/markdown/names_calculator.go'],[('docs generator','pkg/generators/docs/docs_generator.go')],['generated markdown'])
p('P29','Generated output is deterministic',
 'Generating the Go code, the OpenAPI specifications or the documentation for the same model always produces exactly the same files with the same content, regardless of the iteration order of maps, of the order of declarations or distribution in files, of the output directory and of what was generated before.',
 ['schedules','configurations','inputs'],'all single deviations of the iteration order of the maps used by the tool, and all orders and layouts of the declarations of bounded models',
 'Tests generate once.',
 ['pkg/concepts/version.go','pkg/concepts/type.go','pkg/concepts/method.go',G+'metrics_generator.go','pkg/generators/openapi/openapi_generator.go'],[('sorting of concepts','pkg/concepts')],['output directory'])
p('P30','Generated Go packages export exactly what the model declares',
 'For every model the Go package of each version exports exactly a type, builder, list and list builder per struct and class with the accessors of the declared attributes, a type and the constants with the declared texts per enum, the constants with the declared codes of the errors, a client per resource with a function per locator (with an identifier argument only if it is variable) and per method, and a request and response per method with the setters of the input parameters and the getters of the output parameters only; the package of the service exports a function per version. All of them use the Go types that correspond to the declared types and the names given by the Go annotations or else the conventional ones, and their comments contain the documentation of the declaration and not that of others.',
 ['inputs','programs'],'all the kinds of attributes, parameters, methods and locators, all the names of a list of conflictive words in all the roles, all the annotations, documentation in all the declarations, large models, and the reference model',
 'Tests use the accessors of a few types of one model.',
 [G+'types_generator.go',G+'builders_generator.go',G+'clients_generator.go',G+'errors_generator.go',G+'json_generator.go',G+'types_calculator.go',G+'names_calculator.go','pkg/annotations/annotations.go'],[('types, builders and clients generators',G+'types_generator.go, builders_generator.go and clients_generator.go')],['generated Go packages'])
p('P31','Extending a model changes only the output of what was extended',
 'For every correct model and every declaration added to it (service, version, type, attribute, enum value, resource, method, parameter, locator, error, or the documentation of any of them), what is generated for the declarations that are not extended and do not use the extended one stays the same, in the Go code, in the documentation pages and in the OpenAPI specifications: adding a service or version changes nothing of the others; adding a type, resource or error changes no file of the other types, resources or errors; and adding a member or documentation changes only the files of the declaration that contains it, besides the indexes, the metrics tree, the service client and the specification of the version. What is added always appears in the output of the declaration that contains it.',
 ['inputs','programs','histories'],'all the extensions of two models with one and several services and versions, in all the places, sorted before, between and after the existing declarations; all the pairs of extensions in the thorough tier',
 'Tests generate one fixed model.',
 [G+'types_generator.go',G+'builders_generator.go',G+'clients_generator.go',G+'errors_generator.go',G+'json_generator.go',G+'metrics_generator.go',G+'openapi_generator.go','pkg/generators/openapi/openapi_generator.go','pkg/generators/docs/docs_generator.go'],[('all the generators','pkg/generators')],['output directory'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
