prop('C04', 'Concurrent lookups in one input never mix their data',
 'However many requests look up records of the same input at the same time, each lookup positions and reads the shared file as one indivisible step, so that it decodes the data found at the position it asked for and never data located by another request. Every lookup, successful or not, leaves the input usable by the next one: it never blocks it forever.',
 'schedules inputs', 'all interleavings of any number of concurrent lookups (and iterations) on one input, and all outcomes of each step of a lookup, failures included',
 'The tests call Get from a single goroutine, on a successful path most of the time; an interleaving between the seek and the read, or a lock kept on an error path, is never scheduled.',
 ['pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go', 'pkg/util/bufio.go'],
 [('lock held around seek and read', 'Csv.Get, Json.Get, Xml.Get'), ('private handles of the iterations', 'IterateAll of the inputs')],
 'path-sensitive lockset and typestate analysis over SSA (shared-handle uses under one exclusive lock; seek and read in one critical section; lock balance on all exits)',
 'Decides, on every path of every operation of every input (helpers inlined, iterators included), that the shared handle is only used under one exclusive lock of the same input, that each read follows a seek in the same critical section, and that the lock is balanced on all exits. Relies on the documented behaviour of sync and of the standard readers.')
prop('C26', 'The position recorded for a record leads back to that record',
 'The position that an iteration gives to a record is the place in the file where reading that record starts, as known before reading it; looking up a position reads from exactly that place of the file, without any data buffered earlier from elsewhere, and the record returned carries the position that was asked for.',
 'inputs histories', 'all files, all sequences of lookups and iterations before a given lookup',
 'The tests look up a few positions of tiny files which fit in one buffer, so a stale buffer or a position taken too late or off by the buffered bytes is only visible for some of them.',
 ['pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go', 'pkg/util/bufio.go', 'pkg/input/csv_record.go', 'pkg/input/json_record.go', 'pkg/input/xml_record.go'],
 [('seek, buffer reset and read', 'util.SetBufferedReaderOffset, Get of the inputs'), ('offset before the read', 'util.GetBufferedReaderOffset, IterateAll of the inputs')],
 'path-sensitive value-flow and ordering analysis over SSA (which value reaches Seek, Reset between seek and read, offset captured before the read)',
 'Decides the structural part: absolute seek to the requested value, buffer discarded between seek and read, position of the record equal to the requested one, and iteration positions equal to the reading handle\'s offset captured before the read. It does not decide that the decoders parse the same record from that offset (a property of the file formats).')
