prop('C07', 'Each request is handled by the first route of the configuration which matches',
 'A request is handled by the output of the first route, in the order of the configuration, which matches it: the path of the request matches the one of the route, and the method is GET when the output expects no payload, or POST with exactly the expected content type when it expects one, in which case the output is given the whole payload. A request which matches no route is handled by no output.',
 'inputs configurations', 'all requests (method, path, content type, payload) and all lists of routes',
 'The tests use one or two routes with an output which is a fake; the combinations of overlapping routes, methods and types cannot be enumerated.',
 ['pkg/service/http.go', 'pkg/service/http_config.go'],
 [('selection of the route', 'Http.getMatchingRoute, called by the handler of Http.getHandlerFunc'), ('list of the routes', 'NewHttp'), ('payload', 'Http.getPayload')],
 'path-sensitive analysis over SSA of what is known of each route when it is selected or passed over, with the loops over the routes required to go in order, and an effect analysis of every use of the list of routes',
 'Decides, on every path of the handler, that the selected route is known to match and that the ones before it are known not to, and that the list holds the routes of the configuration in their order.')
prop('C23', 'The path of a route is matched as a whole, and gives each parameter its own text',
 'A route matches the requests whose whole path is made of the fixed text of the route, as it is written, and, at the place of each parameter, of a text which has the form accepted by the parser of that parameter. The output is given each of these texts under the name of its own parameter, whatever the query string holds, and the first value of the other parameters of the query string, even empty. A service whose route uses a parameter which the output does not have, or whose parser does not give a primitive value, does not start.',
 'inputs configurations', 'all route paths (texts, number and types of parameters) and all requests',
 'The tests use a few routes with simple texts and at most two parameters of the same kind; the texts which mean something in an expression, the mixes of parsers, and the names used twice cannot be enumerated.',
 ['pkg/service/http.go', 'pkg/parser/integer.go', 'pkg/parser/float.go', 'pkg/parser/boolean.go', 'pkg/parser/string.go', 'pkg/output/json_object.go', 'pkg/output/json_array.go'],
 [('expression of a route', 'Http.createPathRegexp'), ('patterns', 'GetRegexpPattern of each implementation of parser.Parser'), ('parameters of a request', 'Http.getParams'), ('parsers of the parameters', 'GetParameterParser of each implementation of output.Output')],
 'reconstruction, from SSA, of the pieces of the compiled expression and of the pairing of their indexes, and path-sensitive value-origin analysis of the parameters given to the outputs',
 'Decides that the expression is anchored and made only of quoted text and of one group per parameter, in their order, that no pattern shifts the groups, and where each parameter given to the output comes from. That the pattern of a parser accepts exactly the texts which the parser can read is outside of it.')
