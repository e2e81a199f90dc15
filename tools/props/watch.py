prop('C19', 'A write to an input file ends the server, unless it is configured not to',
 'From the moment when an input is ready until it is closed, its file is watched. When the file is written to by another process, even together with other changes of it, the server ends with an error if dieOnInputChange is true or not configured; if it is false, the change is logged, and the server goes on and keeps watching. Nothing else that happens to the file, and no error of the watcher, stops the watch.',
 'histories', 'all the kinds of inputs, all configurations, and all sequences of changes of the files',
 'The test sends one event to the watching process; the inputs being really watched, and what happens with combined events, or after an error, is not tested.',
 ['pkg/util/fsnotify.go', 'pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go', 'pkg/input/csv_config.go', 'pkg/input/json_config.go', 'pkg/input/xml_config.go'],
 [('watch of the files', 'NewCsv, NewJson and NewXml'), ('reaction to the events', 'util.StartFilesystemWatchProcess'), ('setting', 'ShouldDieOnInputChange, and Validate of the inputs')],
 'path-sensitive typestate analysis of the constructors of the inputs, followed into the goroutine which receives the events, with an event known to contain the bit of the writes',
 'A file which is replaced by another one under the same name is not a write, and is not covered.')
