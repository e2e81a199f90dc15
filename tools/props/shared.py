prop('C05', 'Requests running at the same time share nothing that one of them changes',
 'The answer to a request does not depend on the other requests running at the same time. What exists before the requests (the configuration, the parsers, the inputs, the indexes, the outputs and the routes) is only read while answering them, and everything a request writes to was made for it. The few libraries whose use changes their own state (such as the charset decoders and the compiled XPath expressions) are given a new object each time, or are used under one lock which all of their uses hold.',
 'schedules', 'all interleavings of any number of concurrent requests, on all the kinds of inputs, indexes and outputs',
 'The tests send one request after the other, and a race detector only sees the interleavings and the inputs which it is given.',
 ['pkg/service/http.go', 'pkg/output', 'pkg/index', 'pkg/input', 'pkg/parser'],
 [('requests', 'the handler of the HTTP service, and everything it calls'), ('file of an input', 'Csv.Get, Xml.Get, Json.Get, and their locks'), ('search of a wildcard index', 'wildcard.Stream.Get'), ('xpath expressions', 'XmlPropertyConfig')],
 'whole-program points-to and effect analysis from the request handler (what each object reached is: made before the requests, or made by this request), with a must-hold lockset for the writes and for the uses of stateful libraries',
 'Every write and every stateful library call reachable from the request handler is an obligation: its target was made by the request, or one lock of the same object is held at all of its uses. The nodes which an XML record keeps of the tree of the shared parser are listed as a known finding.')
