na['X01']='the log is written by a buffered worker goroutine to the file system through an external logging library; event order across goroutines and file contents are outside what these contracts can express'
na['X02']='the converters are Python; no deductive verifier for Python is available here'
na['C17']='a dump is JSON written and read back by reflection in encoding/json and compressed by compress/gzip: what survives the round trip is decided by the field tags and reflection of those packages, which a contract on this code could only assume (by reading and by test the code drops the file name and most counters, see DESIGN.md)'
