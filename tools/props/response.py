prop('C06', 'Each request gets exactly one response, whose status tells the outcome',
 'Every request gets exactly one response: its headers, then one status, then its content. A failure of any step is always answered with an error status and its message, never with a success nor with the beginning of one, and a success is only announced once its whole content is known. The status is 404 if and only if no route handles the request or the single object asked for does not exist; a list without any record is a success.',
 'inputs fault_sequences', 'all requests, and all failures of the steps made to answer them',
 'The tests check the status of a few requests which go well or fail at once; a failure in the middle of a response, or a path which answers twice or not at all, needs a fault at a particular step.',
 ['pkg/service/http.go', 'pkg/output/json_object.go', 'pkg/output/json_array.go', 'pkg/output/json_common.go'],
 [('answers of the outputs', 'JsonObject.Handle, JsonArray.Handle'), ('http handler and its callbacks', 'Http.getHandlerFunc'), ('error responses', 'Http.sendErrorResponse')],
 'path-sensitive typestate analysis over SSA of the response protocol (callbacks of the outputs, then headers/status/content of the HTTP handler, its callbacks followed as continuations)',
 'Decides, on every path of each output and of the HTTP handler, how many answers are sent, in which order their parts are, and which status goes with which outcome. It does not decide what net/http does with the connection itself (a client which leaves, a network failure while the content is sent).')
