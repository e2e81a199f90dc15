prop('C18', 'The server only starts complete: a failing stage ends it with a failure status',
 'Every parser, input, index, output and service of the configuration is created under its own name before anything is waited for; when one of them cannot be, or when the configuration cannot be read, the process ends with a status of failure, and does not go on without it. It also ends with a status of failure when a service fails later, and with a status of success when it is closed normally.',
 'fault_sequences configurations', 'all configurations, and all the calls of the start which can fail',
 'No test runs the main function, and the tests of the stages use valid configurations.',
 ['cmd/main.go', 'pkg/parser/parser.go', 'pkg/input/input.go', 'pkg/index/index.go', 'pkg/output/output.go', 'pkg/service/service.go'],
 [('stages of the start', 'main'), ('creation of the components', 'NewFromConfigs of each package')],
 'path-sensitive typestate analysis of the main function (each error is tracked until the process ends), and round-by-round analysis of the loops which create the components',
 '')
prop('C27', 'On an interruption, running requests are answered before anything is closed',
 'From the moment the services run, an interruption closes each of them: they stop accepting requests, those which are running are answered in full, over http as well as https, and only then are the indexes and inputs closed, and does the process end. A service serves each address of its configuration, with its protocol and its certificate; it ends when all of its servers have ended, and is reported as successful only if each of them was closed.',
 'schedules histories', 'all configurations of services, and all moments of an interruption',
 'The tests close a service which runs no request, and no test sends a signal.',
 ['cmd/main.go', 'pkg/service/service.go', 'pkg/service/http.go'],
 [('signals', 'main'), ('servers', 'NewHttp'), ('end of the services', 'Http.Wait, Http.Close, service.Wait, service.Close')],
 'typestate analysis of the main function and of each goroutine it starts, of the constructor of the services with the goroutines which serve, and of their Wait and Close operations',
 'An interruption is os.Interrupt. A service which fails while another one runs is only noticed once those which are waited for before it have ended.')
