IO = 'fbpcf/io/api/'
prop('I01', 'Buffered files deliver and store every byte once, in order',
     'A buffered reader over any file gives the bytes of the file, each once and in order, whatever the sizes of its chunk, of the pieces the file beneath hands over, and of the requests: read() fills as much of the request as there is, readLine() gives what stands before the next line break or the end and moves past that break, eof() holds exactly when every byte was handed out, and reading at the end is rejected. A buffered writer passes every byte given to the file beneath once and in order, completely on flush() and close(); a file that takes fewer bytes than given is reported by an exception. readFile(), writeFile() and transferFileInParts() reproduce the content exactly, adding a line break only to a last line that has none. Cloud and local files are chosen by path and behave alike; a cloud upload is completed once, a failing service is reported.',
     ['inputs', 'histories', 'faults'], 'every content, chunk size, request size, piece size of the file beneath, and sequence of calls', 'tests read a handful of small files with one or two chunk sizes; off-by-one errors need a line break, a chunk end and the end of the file to meet',
     [IO + x for x in ('BufferedReader.cpp', 'BufferedWriter.cpp', 'FileIOWrappers.cpp', 'CloudFileReader.cpp', 'CloudFileWriter.cpp', 'FileReader.cpp', 'FileWriter.cpp', 'LocalFileReader.cpp', 'LocalFileWriter.cpp')],
     [('chunked reading', IO + 'BufferedReader.cpp: read, readLine, loadNextChunk'), ('chunked writing', IO + 'BufferedWriter.cpp: write, flush'), ('whole files', IO + 'FileIOWrappers.cpp')],
     'Ghost file C(0..N) and ghost position beneath the reader; data invariant (the chunk between its two positions holds the bytes before the base position) proved of every method; inductive loop contracts with decreasing measure for read, readLine, write, readFile and transferFileInParts (first line break as a ghost index). Base readers and storage services are contracts over their interfaces; local files (iostreams) and comma splitting by the replay battery only.')
